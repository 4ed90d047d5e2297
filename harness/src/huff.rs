//! Huffman codes and the shipped deflate and run-length formats: what the engines do with given tables and streams.
use crate::dec;
use crate::ship::{hex, shipped, unhex};
use crate::util::{self, Report, guard, opt};
use doodle::decoder::Compiler;
use doodle::parser::Parser;
use doodle::prelude::*;
use doodle::{DynFormat, Expr, Format, FormatModule};
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::Mutex;

fn nums(j: &J) -> Vec<u8> {
    j.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

/// Numbers of a decoded sequence.
fn plain(o: &J) -> J {
    if o[0] != "ok" {
        return o.clone();
    }
    let v: Vec<u64> = o[1][1].as_array().unwrap().iter().map(|x| {
        x[1].as_array().unwrap().iter().rev().fold(0, |a, l| a * 4096 + l.as_u64().unwrap())
    }).collect();
    json!(["ok", v, o[2]])
}

/// Lines {"lens", "vals" (a list of at most one list), "k", "ins"}: k symbols decoded from each input by the three engines.
pub fn codes(args: &[String]) {
    let (file, dir) = (opt(args, "--file").unwrap(), opt(args, "--dir").unwrap());
    let rep = Report::new();
    let recs: Vec<J> = std::fs::read_to_string(file).unwrap().lines().map(|l| serde_json::from_str(l).unwrap()).collect();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    util::parallel_watched(recs.len(), 120, &rep, Some(dir), |w, slot, t| {
        let r = &recs[t];
        let (lens, k) = (nums(&r["lens"]), r["k"].as_u64().unwrap());
        let vals = r["vals"].as_array().unwrap().first().map(nums);
        let seq = |v: &[u8]| Box::new(Expr::Seq(v.iter().map(|n| Expr::U8(*n)).collect()));
        let f = Format::Bits(Box::new(Format::Dynamic(
            "h".into(),
            DynFormat::Huffman(seq(&lens), vals.as_ref().map(|v| seq(v))),
            Box::new(Format::RepeatCount(Box::new(Expr::U32(k as u32)), Box::new(Format::Apply("h".into())))),
        )));
        let p = match guard(|| Compiler::compile_program(&FormatModule::new(), &f)) {
            Ok(Ok(p)) => p,
            e => {
                rep.mismatch(json!({"kind": "huffman format not compiled", "table": r["lens"], "why": format!("{:?}", e.map(|x| x.map(|_| ())))}));
                return;
            }
        };
        let mut cases = vec![];
        for i in r["ins"].as_array().unwrap() {
            let s = unhex(i.as_str().unwrap());
            w.enter(slot, json!({"table": r["lens"], "input": i}));
            let a = plain(&dec::run(&p, &s));
            let b = plain(&dec::run_loc(&p, &s).0);
            let g = guard(|| {
                let mut p = Parser::new(&s);
                p.enter_bits_mode().map_err(|_| ())?;
                let h = parse_huffman(&lens, vals.clone());
                let mut v = vec![];
                for _ in 0..k {
                    v.push(h(&mut p).map_err(|_| ())?);
                }
                p.escape_bits_mode().map_err(|_| ())?;
                Ok::<_, ()>((v, p.get_offset_u64()))
            });
            let g = match g {
                Ok(Ok((v, o))) => json!(["ok", v, o]),
                Ok(Err(())) => json!(["err"]),
                Err(_) => json!(["panic"]),
            };
            rep.count(&format!("symbols: {}", a[0].as_str().unwrap()), 1);
            cases.push(json!({"in": s, "int": a, "loc": b, "gen": g}));
        }
        writeln!(out.lock().unwrap(), "{}", json!({"lens": r["lens"], "vals": r["vals"], "k": k, "cases": cases})).unwrap();
    }, || out.lock().unwrap().flush().unwrap());
}

/// What the interpreter makes of each input (hex lines): the bytes in the given field of the item with the given number, run on bits or bytes.
pub fn expand(args: &[String]) {
    let (file, dir, item, field) =
        (opt(args, "--file").unwrap(), opt(args, "--dir").unwrap(), opt(args, "--item").unwrap(), opt(args, "--field").unwrap());
    let bits = opt(args, "--bits").is_some();
    let rep = Report::new();
    let ins: Vec<Vec<u8>> = std::fs::read_to_string(file).unwrap().lines().map(unhex).collect();
    let res: Vec<Mutex<J>> = ins.iter().map(|_| Mutex::new(J::Null)).collect();
    const CHUNK: usize = 40;
    util::parallel_watched(ins.len().div_ceil(CHUNK), 200, &rep, Some(dir), |w, slot, c| {
        let (m, _) = shipped();
        let f = Format::ItemVar(item.parse().unwrap(), vec![], vec![]);
        let f = if bits { Format::Bits(Box::new(f)) } else { f };
        let p = Compiler::compile_program(&m, &f).unwrap();
        for t in c * CHUNK..ins.len().min((c + 1) * CHUNK) {
        w.enter(slot, json!({"item": item, "input": hex(&ins[t])}));
        let mut both = vec![];
        for o in [dec::run(&p, &ins[t]), dec::run_loc(&p, &ins[t]).0] {
            both.push(if o[0] == "ok" {
                let mut v = &o[1];
                while v[0] == "var" {
                    v = &v[2];
                }
                let x = v[1].as_array().unwrap().iter().find(|x| x[0] == field).expect("no such field");
                plain(&json!(["ok", x[1], o[2]]))
            } else {
                o
            });
        }
        rep.count(&format!("streams: {}", both[0][0].as_str().unwrap()), 1);
        *res[t].lock().unwrap() = json!(both);
        }
    }, || {
        let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/expanded.ndjson")).unwrap());
        for r in &res {
            writeln!(out, "{}", r.lock().unwrap()).unwrap();
        }
        out.flush().unwrap();
    });
}
