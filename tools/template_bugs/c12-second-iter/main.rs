#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

use bp3d_proto::message::FromSlice;
fn main() {
    let m = p::M::from_slice(&[3, 1]).unwrap().into_inner();
    assert_eq!(m.l.iter().count(), m.l.iter_offsets().count());
}
