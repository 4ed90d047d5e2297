//! The formats the project ships: their JSON form for the specifications, inputs that get far into them, and
//! what the interpreter does with those inputs.
use crate::gencode::{parse_debug, stands_for};
use crate::util::{self, Report, guard, opt, opt_u64};
use crate::dec;
use doodle::decoder::Compiler;
use doodle::{Format, FormatModule};
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::Mutex;

pub fn shipped() -> (FormatModule, Format) {
    let mut m = FormatModule::new();
    let f = doodle_formats::format::main(&mut m).call();
    (m, f)
}

pub fn dump(_: &[String]) {
    let (m, f) = shipped();
    println!("{}", json!({"m": m, "f": f}));
}

pub fn hex(s: &[u8]) -> String {
    s.iter().map(|b| format!("{b:02x}")).collect()
}
pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// What the shipped decoders (runs.tsv, one outcome per line of inputs.tsv) and the interpreter did, one record per
/// decoder, for the specification to judge.
pub fn compare(args: &[String]) {
    let dir = opt(args, "--dir").unwrap();
    let cap = opt_u64(args, "--cases", 1000) as usize;
    let rep = Report::new();
    let (ins, runs) = (
        std::fs::read_to_string(format!("{dir}/inputs.tsv")).unwrap(),
        std::fs::read_to_string(format!("{dir}/runs.tsv")).unwrap(),
    );
    let mut by: std::collections::BTreeMap<(&str, usize), Vec<(Vec<u8>, &str)>> = Default::default();
    for (l, r) in ins.lines().zip(runs.lines()) {
        let p: Vec<&str> = l.split('\t').collect();
        by.entry((p[0], p[1].parse().unwrap())).or_default().push((unhex(p[2]), r));
    }
    let by: Vec<_> = by.into_iter().collect();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    util::parallel_watched(by.len(), 120, &rep, Some(dir), |w, k, t| {
        let ((name, ix), cases) = &by[t];
        w.enter(k, json!({"decoder": name, "phase": "compile"}));
        let (m, _) = shipped();
        let Ok(Ok(p)) = guard(|| Compiler::compile_program(&m, &Format::ItemVar(*ix, vec![], vec![]))) else {
            rep.count("not compiled by itself", 1);
            return;
        };
        let (mut differ, mut same) = (vec![], vec![]);
        for (s, txt) in cases {
            w.enter(k, json!({"decoder": name, "phase": "interpret", "input": hex(s)}));
            let o = dec::run(&p, s);
            let mut q = txt.splitn(3, '\t');
            let g = match q.next().unwrap() {
                "ok" => {
                    let off: u64 = q.next().unwrap().parse().unwrap();
                    let text = q.next().unwrap();
                    if o[0] == "ok" && parse_debug(text).is_some_and(|d| stands_for(&d, &o[1])) {
                        json!(["ok", o[1], off])
                    } else {
                        json!(["ok", ["text", text], off])
                    }
                }
                x => json!([x]),
            };
            rep.count("runs", 1);
            rep.count(&format!("shipped decoder: {}", g[0].as_str().unwrap()), 1);
            let case = json!({"in": s, "out": g, "int": o});
            if g != o {
                rep.count(&format!("differ: {} for {}", g[0].as_str().unwrap(), o[0].as_str().unwrap()), 1);
                differ.push(case);
            } else {
                same.push(case);
            }
        }
        differ.extend(same);
        differ.truncate(cap);
        rep.count("decoders", 1);
        rep.count("cases", differ.len() as u64);
        writeln!(out.lock().unwrap(), "{}", json!({"id": name, "i": ix, "cases": differ})).unwrap();
    }, || out.lock().unwrap().flush().unwrap());
}

/// Which of the lines {"text": Debug text, "values": […]} of a file hold a value the text stands for.
pub fn texts(args: &[String]) {
    for l in std::fs::read_to_string(opt(args, "--file").unwrap()).unwrap().lines() {
        let j: J = serde_json::from_str(l).unwrap();
        let d = parse_debug(j["text"].as_str().unwrap());
        println!("{}", d.is_some_and(|d| j["values"].as_array().unwrap().iter().any(|v| stands_for(&d, v))));
    }
}
