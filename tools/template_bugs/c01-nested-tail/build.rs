use bp3d_protoc::generate_rust;
fn main() {
    generate_rust(|loader| { loader.load("p.json5")?; Ok(()) }, |p| p.set_reads_messages(true).set_writes_messages(true));
}
