#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

fn main() {
    let buf = [0x40u8];
    assert!(p::S::new(&buf[..]).get_v());
}
