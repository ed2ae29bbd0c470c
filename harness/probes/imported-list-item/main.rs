// A list whose items are imported messages that end with a list of messages.
include!(concat!(env!("GEN_DIR"), "/alpha/umbrella.rs"));
include!(concat!(env!("GEN_DIR"), "/beta/umbrella.rs"));
use bp3d_proto::message::FromSlice;
fn main() {
    // Two inner messages: leaves "a", "b" and leaf "c".
    let bytes = b"\x02\x02a\0b\0\x01c\0";
    let m = beta::Outer::from_slice(bytes).map(|m| m.into_inner());
    let got: Result<Vec<Vec<String>>, String> = m.map_err(|e| format!("{:?}", e)).and_then(|m| m.inners.iter().map(|i| {
        let i = i.map_err(|e| format!("{:?}", e))?;
        i.leaves.iter().map(|l| l.map(|l| l.s.to_string()).map_err(|e| format!("{:?}", e))).collect()
    }).collect());
    let want = Ok(vec![vec!["a".to_string(), "b".into()], vec!["c".into()]]);
    if got != want {
        println!("{:?} instead of {:?}", got, want);
        std::process::exit(1);
    }
}
