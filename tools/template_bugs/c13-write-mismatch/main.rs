#![allow(dead_code, unused)]
include!(env!("BP3D_PROTOC_P"));

use bp3d_proto::message::WriteTo;
fn main() {
    let h = [2u8, 0];
    let v = [7u8];
    let mut out = Vec::new();
    assert!(p::M::write_to(&p::M { h: p::H::new(&h[..]), u: p::U::A(p::U8::new(&v[..])) }, &mut out).is_err());
}
