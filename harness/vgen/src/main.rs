mod forms;
mod fuzz;
mod out;
mod parts;
mod reject;
mod tmpl;
mod worlds;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if let Err(e) = out::guard(|| run(&args)) {
        eprintln!("monitor panic: {}", e);
        std::process::exit(3);
    }
}

fn run(args: &[String]) {
    match args[1].as_str() {
        "worlds" => worlds::main(&args[2..]),
        "fuzz" => fuzz::main(&args[2..]),
        "fuzz-dump" => fuzz::dump(&args[2..]),
        "reject" => reject::main(&args[2..]),
        "options" => parts::options(&args[2..]),
        "build-script" => parts::build_script_main(&args[2..]),
        "forms" => forms::main(&args[2..]),
        "probe" => forms::probe(&args[2..]),
        "determ" => parts::determ(&args[2..]),
        "once" => parts::once_main(&args[2..]),
        "imports" => parts::imports(&args[2..]),
        "tmpl" => tmpl::main(&args[2..]),
        c => {
            println!("CRASH\tunknown command {}", c);
            std::process::exit(3);
        }
    }
}
