#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

fn main() {
    let mut buf = [0u8; 5];
    p::S::new(&mut buf[..]).set_v(p::E::Big);
    assert_eq!(p::S::new(&buf[..]).get_v(), Some(p::E::Big));
}
