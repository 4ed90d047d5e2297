//! Runs the committed decoders on given inputs: reads `decoder TAB … TAB hex` lines, writes one outcome per line.
#![allow(warnings)]
mod shipped;
use std::cell::RefCell;

thread_local! { static PANIC: RefCell<String> = RefCell::new(String::new()); }

/// What panicked and the innermost decoder it happened in.
fn describe(info: &std::panic::PanicHookInfo) -> String {
    let msg = match info.payload().downcast_ref::<String>() {
        Some(s) => s.clone(),
        None => info.payload().downcast_ref::<&str>().unwrap_or(&"").to_string(),
    };
    let bt = std::backtrace::Backtrace::force_capture().to_string();
    let site = bt.lines().find_map(|l| l.find("shipped::Decoder").map(|i| {
        l[i + 9..].chars().take_while(|c| c.is_alphanumeric() || *c == '_').collect::<String>()
    }));
    format!("{}\t{}", site.unwrap_or("?".into()), msg.replace(['\t', '\n', '\r'], " "))
}

fn main() {
    std::panic::set_hook(Box::new(|i| { let t = describe(i); PANIC.with(|p| *p.borrow_mut() = t) }));
    let h = std::thread::Builder::new().stack_size(512 << 20).spawn(run).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}

fn run() {
    use std::io::{BufRead, Write};
    let f = std::io::BufReader::new(std::fs::File::open(std::env::args().nth(1).unwrap()).unwrap());
    let mut out = std::fs::File::create(std::env::args().nth(2).unwrap()).unwrap();
    for l in f.lines() {
        let l = l.unwrap();
        let (name, h) = l.rsplit_once('\t').unwrap();
        let name = name.split(['\t', '#']).next().unwrap();
        let s: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let line = match std::panic::catch_unwind(|| shipped::vh_run(name, &s)) {
            Ok(Some(Ok((t, o)))) => format!("ok\t{o}\t{t}\n"),
            Ok(Some(Err(()))) => "err\n".to_string(),
            Ok(None) => "none\n".to_string(),
            Err(_) => format!("panic\t{}\n", PANIC.with(|p| p.borrow().clone())),
        };
        out.write_all(line.as_bytes()).unwrap();
    }
}
