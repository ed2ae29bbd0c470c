#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

use bp3d_proto::message::FromSliceWithOffsets;
fn main() {
    let o = p::M::from_slice_with_offsets(&[1, 0, 7]).unwrap().into_inner().1;
    assert_eq!((o.u.start, o.u.end), (2, 3));
}
