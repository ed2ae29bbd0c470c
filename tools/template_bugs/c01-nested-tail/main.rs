#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

fn main() {
    let mut buf = [0u8; 6];
    buf[4] = 0b1110_0000;
    assert_eq!(p::S::new(&buf[..]).get_raw_b(), 7);
}
