//! Checks that use the low-level (`derivre::raw`) interface.
#[path = "../raw/c12_hashcons.rs"]
mod c12_hashcons;
#[path = "../raw/c15_forced.rs"]
mod c15_forced;
#[path = "../raw/c19_bytesets.rs"]
mod c19_bytesets;
#[path = "../raw/c21_shared.rs"]
mod c21_shared;
#[path = "../raw/c23_render.rs"]
mod c23_render;
#[path = "../raw/c26_map.rs"]
mod c26_map;
#[path = "../raw/c28_pending.rs"]
mod c28_pending;
#[path = "../raw/c29_direct.rs"]
mod c29_direct;
use mc::run;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 2 {
        eprintln!("usage: mcraw <id> run <tier> | worker ... | one ... | replay <file>");
        std::process::exit(2);
    }
    let rest = &args[1..];
    let rc = match args[0].as_str() {
        "C12" => run::main(c12_hashcons::Hash, rest),
        "C15" => run::main(c15_forced::Forced, rest),
        "C19" => run::main(c19_bytesets::Sets, rest),
        "C21" => run::main(c21_shared::SharedPieces, rest),
        "C23" => run::main(c23_render::Render, rest),
        "C26" => run::main(c26_map::GraphMap, rest),
        "C28" => run::main(c28_pending::Pending, rest),
        "C29" => run::main(c29_direct::Direct, rest),
        x => {
            eprintln!("unknown check {x}");
            2
        }
    };
    std::process::exit(rc);
}
