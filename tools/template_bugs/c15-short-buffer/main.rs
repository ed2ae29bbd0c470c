#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

use bp3d_proto::message::util::Array;
use bp3d_proto::message::util::ValueLE;
fn main() {
    let b = [0u8; 7];
    assert!(Array::<_, ValueLE<u8>, p::Pair<&[u8]>>::from_parts(&b[..], 2).is_none());
}
