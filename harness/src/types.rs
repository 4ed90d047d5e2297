//! Types reported for given programs, and values those programs decode.
use crate::dec::{strings, build, focus};
use crate::fgen::{self, ALPHABET, Gen};
use crate::util::*;
use crate::{ast, hooks};
use serde_json::{Value as J, json};
use std::io::{BufRead, Write};
use std::sync::Mutex;

/// Well-typed programs, one per line.
pub fn generate(args: &[String]) {
    let (seed, n) = (opt_u64(args, "--seed", 1), opt_u64(args, "--n", 1000));
    let depth = opt_u64(args, "--depth", 3) as usize;
    let fc = opt(args, "--focus").unwrap_or("all");
    let mut out = std::io::BufWriter::new(std::fs::File::create(opt(args, "--out").unwrap()).unwrap());
    let rep = Report::new();
    for i in 0..n {
        let (items, f) = Gen::new(mix(seed, i), focus(fc)).program(depth);
        if fgen::heavy(&items) || fgen::heavy(&f) {
            continue;
        }
        writeln!(out, "{}", json!({"M": items, "f": f})).unwrap();
        rep.count("programs", 1);
    }
    rep.finish();
}

pub fn main(args: &[String]) {
    let rep = Report::new();
    let dir = opt(args, "--dir").unwrap();
    let input = std::io::BufReader::new(std::fs::File::open(opt(args, "--in").unwrap()).unwrap());
    let lines: Vec<J> = input.lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(opt(args, "--out").unwrap()).unwrap()));
    let inputs = strings(&ALPHABET, 3);
    parallel_watched(lines.len(), 20, &rep, Some(dir), |w, k, i| {
        let (items, f) = (&lines[i]["M"], &lines[i]["f"]);
        w.enter(k, json!({"M": items, "f": f, "id": i, "phase": "infer"}));
        // a format the type checker refuses may be refused by panicking
        let ty = guard(|| {
            let m = ast::module(items)?;
            hooks::infer_format_type(&m, &ast::format(f)).map(|t| ast::vtype_json(&t))
        })
        .and_then(|r| r);
        let mut cases = vec![];
        let (ty, msg) = match ty {
            Ok(t) => (t, String::new()),
            Err(e) => (J::Null, e),
        };
        rep.count(if ty.is_null() { "refused" } else { "accepted" }, 1);
        if !ty.is_null() && lines[i]["run"] == true {
            w.phase(k, "compile");
            if let Ok(c) = build(items, f) {
                w.phase(k, "run");
                let mut left = 4000;
                for s in &inputs {
                    if cases.len() >= 6 {
                        break;
                    }
                    let o = crate::dec::run(&c.program, s);
                    if o[0] == "ok" && o[1].to_string().len() < left {
                        left -= o[1].to_string().len();
                        cases.push(json!({"in": s, "v": o[1]}));
                    }
                }
                rep.count("compiled", 1);
                rep.count("values", cases.len() as u64);
            }
        }
        let rec = json!({"id": i, "M": items, "f": f, "ty": ty, "msg": msg.chars().take(200).collect::<String>(), "cases": cases});
        writeln!(out.lock().unwrap(), "{rec}").unwrap();
    }, || out.lock().unwrap().flush().unwrap());
    rep.finish();
}
