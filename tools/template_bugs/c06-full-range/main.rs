#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

fn main() {
    let bytes = [44u8, 1];
    assert!(p::S::new(&bytes[..]).get_e().is_some());
}
