//! `mmv check <ID> [task]`, `mmv replay <file>`, `mmv list`

use mmv::engine;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let arg = |i: usize| args.get(i).map(|s| s.as_str());
    std::process::exit(engine::cli(&mmv::properties(), arg(0), arg(1), arg(2)));
}
