#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

fn main() {
    let buf = vec![1u8].into_boxed_slice();
    let r = std::panic::catch_unwind(|| p::S::new(&*buf).get_i().get_raw_v());
    assert!(r.is_err());
}
