//! Verification harness: binds the TLA+ specifications in /verif/spec to the code in /repo.
mod amb;
mod ast;
mod bytes;
mod dec;
mod fgen;
mod gencode;
mod hooks;
mod huff;
mod ivals;
mod names;
mod num;
mod parser_rt;
mod print;
mod ship;
mod sizes;
mod types;
mod util;
mod views;

fn main() {
    // The code under test is allowed to panic: a panic is an observation, not a crash of the harness.
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    let rest = &args[1.min(args.len())..];
    let rest = rest.to_vec();
    let cmd = cmd.to_string();
    // deep recursion in both the code under test and the harness
    let h = std::thread::Builder::new()
        .stack_size(512 << 20)
        .spawn(move || run(&cmd, &rest))
        .unwrap();
    match h.join() {
        Ok(()) => {}
        Err(e) => {
            eprintln!("VH-INTERNAL {}", util::panic_msg(&e));
            std::process::exit(2);
        }
    }
}

fn run(cmd: &str, rest: &[String]) {
    match cmd {
        "parser-rt" => parser_rt::main(rest),
        "print" => print::main(rest),
        "types" => types::main(rest),
        "types-gen" => types::generate(rest),
        "dec" => dec::main(rest),
        "amb" => amb::main(rest),
        "bytes" => bytes::main(rest),
        "gen" => gencode::generate(rest),
        "gen-compare" => gencode::compare(rest),
        "ivals" => ivals::main(rest),
        "sizes" => sizes::formats(rest),
        "sizes-exprs" => sizes::exprs(rest),
        "names-hist" => names::histories(rest),
        "names-programs" => names::programs(rest),
        "names-shipped" => names::shipped(rest),
        "num-eval" => num::eval_main(rest),
        "num-fns" => num::fns_main(rest),
        "num-emit" => num::emit_main(rest),
        "num-emit-compare" => num::emit_compare(rest),
        "huff-codes" => huff::codes(rest),
        "huff-expand" => huff::expand(rest),
        "ship-dump" => ship::dump(rest),
        "ship-texts" => ship::texts(rest),
        "ship-compare" => ship::compare(rest),
        "views" => views::main(rest),
        other => panic!("unknown command {other}"),
    }
}
