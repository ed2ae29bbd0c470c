//! Driver of the monitors that use the runtime directly.
fn main() {
    vmon::run(None);
}
