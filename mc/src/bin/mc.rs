use mc::checks_lang::*;
use mc::explore::*;
use mc::run;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() < 2 {
        eprintln!("usage: mc <id> run <tier> | worker ... | one ... | replay <file>");
        std::process::exit(2);
    }
    let id = args[0].clone();
    let rest = &args[1..];
    let rc = match id.as_str() {
        "C01" => run::main(
            LangCheck { id: "C01", mon: Mon { acc: true, ..MON0 }, bytes: Bytes::Reps, cap: 60_000 },
            rest,
        ),
        "C04" => run::main(
            LangCheck { id: "C04", mon: Mon { dead: true, ..MON0 }, bytes: Bytes::Reps, cap: 60_000 },
            rest,
        ),
        "C06" => run::main(
            LangCheck { id: "C06", mon: Mon { next: true, ..MON0 }, bytes: Bytes::Reps1, cap: 60_000 },
            rest,
        ),
        "C16" => run::main(
            LangCheck { id: "C16", mon: Mon { finite: true, ..MON0 }, bytes: Bytes::Reps1, cap: 60_000 },
            rest,
        ),
        "C03" => run::main(
            mc::c03_lookahead::LaCheck { id: "C03", mon: Mon { acc: true, len: true, ..MON0 } },
            rest,
        ),
        "C02" => run::main(mc::c02_patterns::Patterns::new(), rest),
        "C11" => run::main(mc::c11_unicode::Unicode, rest),
        "C20" => run::main(mc::c20_flags::Flags::new(), rest),
        "C10" => run::main(mc::c10_json::Json, rest),
        "C07" => run::main(mc::c07_history::Hist, rest),
        "C08" => run::main(mc::c08_builder::Builder, rest),
        "C14" => run::main(mc::c14_repro::Repro, rest),
        "C17" => run::main(mc::c17_large::Large, rest),
        "C24" => run::main(mc::c24_hints::Hints, rest),
        "C25" => run::main(mc::c25_entry::Entry, rest),
        "C27" => run::main(mc::c27_stats::Numbers, rest),
        "C22" => run::main(mc::c22_mapper::Mapper, rest),
        "C05" => run::main(mc::c05_contain::Contain, rest),
        "C09" => run::main(mc::c09_alphabet::Alphabet, rest),
        "C13" => run::main(mc::c09_alphabet::DfaTable, rest),
        "C18" => run::main(mc::c18_words::Words, rest),
        _ => {
            eprintln!("unknown check {id}");
            2
        }
    };
    std::process::exit(rc);
}
