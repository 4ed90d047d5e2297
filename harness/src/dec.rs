//! Runs generated formats through the interpreter and records what it did, for validation by TLC.
use crate::ast;
use crate::fgen;
use crate::fgen::{ALPHABET, Focus, Gen};
use crate::util::{self, Report, guard, opt, opt_u64};
use doodle::Format;
use doodle::FormatModule;
use doodle::decoder::{Compiler, Program};
use doodle::read::ReadCtxt;
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::Mutex;

pub fn strings(alpha: &[u8], max: usize) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    let mut last = vec![vec![]];
    for _ in 0..max {
        let mut nx = vec![];
        for s in &last {
            for b in alpha {
                let mut t: Vec<u8> = s.clone();
                t.push(*b);
                nx.push(t);
            }
        }
        out.extend(nx.iter().cloned());
        last = nx;
    }
    out
}

pub fn focus(s: &str) -> Focus {
    match s {
        "choice" => Focus::Choice,
        "exprs" => Focus::Exprs,
        "patterns" => Focus::Patterns,
        "views" => Focus::Views,
        "codegen" => Focus::Codegen,
        "backtrack" => Focus::Backtrack,
        "ops" => Focus::Ops,
        "follow" => Focus::Follow,
        _ => Focus::All,
    }
}

/// What the interpreter does with `input`: ["ok", value, position] | ["err"] | ["panic"].
pub fn run(p: &Program, input: &[u8]) -> J {
    match guard(|| p.run(ReadCtxt::new(input)).map(|(v, r)| (ast::value_json(&v), r.offset)).map_err(|_| ())) {
        Ok(Ok((v, o))) => json!(["ok", v, o]),
        Ok(Err(())) => json!(["err"]),
        Err(_) => json!(["panic"]),
    }
}

/// Location tree of a decoded value: [offset, length, components], offset -1 if it has no place in the input.
pub fn loc_json(p: &J) -> J {
    let d = &p["data"];
    let root = |d: &J| match d["loc"].get("InBuffer") {
        Some(b) => (b["offset"].clone(), b["length"].clone()),
        None => (json!(-1), json!(0)),
    };
    let node = |d: &J, kids: Vec<J>| {
        let (o, l) = root(d);
        json!([o, l, kids])
    };
    match p["tag"].as_str().unwrap() {
        "Flat" => node(d, vec![]),
        "Tuple" => node(d, d["data"].as_array().unwrap().iter().map(loc_json).collect()),
        "Record" => node(d, d["data"].as_array().unwrap().iter().map(|f| loc_json(&f[1])).collect()),
        "Seq" => {
            let s = &d["data"];
            node(
                d,
                match s["tag"].as_str().unwrap() {
                    "Strict" => s["data"].as_array().unwrap().iter().map(loc_json).collect(),
                    _ => vec![loc_json(&s["data"][1]); s["data"][0].as_u64().unwrap() as usize],
                },
            )
        }
        "Variant" | "Branch" | "Mapped" => loc_json(&d[1]),
        "Permit" => loc_json(d.get("Ok").or(d.get("Err")).unwrap()),
        "Option" => match d {
            J::Null => json!([-1, 0, []]),
            d => loc_json(d),
        },
        t => panic!("tag {t}"),
    }
}

/// What the locating decoder does with `input`, and the location tree of the value.
pub fn run_loc(p: &Program, input: &[u8]) -> (J, J) {
    let r = guard(|| {
        p.run_with_loc(ReadCtxt::new(input)).map_err(|_| ()).map(|(v, r)| {
            let loc = loc_json(&serde_json::to_value(&v).unwrap());
            let v: doodle::decoder::Value = v.into();
            (ast::value_json(&v), r.offset, loc)
        })
    });
    match r {
        Ok(Ok((v, o, loc))) => (json!(["ok", v, o]), loc),
        Ok(Err(())) => (json!(["err"]), J::Null),
        Err(_) => (json!(["panic"]), J::Null),
    }
}

pub struct Case {
    pub items: J,
    pub f: J,
    pub module: FormatModule,
    pub format: Format,
    pub program: Program,
}

/// Builds and compiles a generated program; Err(reason) if doodle rejects it.
pub fn build(items: &J, f: &J) -> Result<Case, (String, bool)> {
    let module = ast::module(items).map_err(|e| (format!("module: {e}"), false))?;
    let format = guard(|| ast::format(f)).map_err(|e| (format!("format: {e}"), false))?;
    // a format the type checker refuses is not a format; it may refuse by panicking
    let typed = guard(|| {
        let mut m = ast::module(items).unwrap();
        m.define_format("top", format.clone());
    });
    if let Err(e) = typed {
        return Err((format!("type: {e}"), false));
    }
    match guard(|| Compiler::compile_program(&module, &format)) {
        Ok(Ok(program)) => Ok(Case { items: items.clone(), f: f.clone(), module, format, program }),
        Ok(Err(e)) => Err((format!("compile: {e}"), false)),
        Err(m) => Err((m, true)),
    }
}

pub fn kinds(f: &J, out: &mut std::collections::BTreeSet<String>) {
    match f {
        J::Object(o) => {
            if let Some(k) = o.get("k").and_then(|k| k.as_str()) {
                out.insert(k.to_string());
            }
            for v in o.values() {
                kinds(v, out);
            }
        }
        J::Array(a) => a.iter().for_each(|v| kinds(v, out)),
        _ => {}
    }
}

pub fn main(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 1000) as usize;
    let depth = opt_u64(args, "--depth", 3) as usize;
    let maxlen = opt_u64(args, "--maxlen", 4) as usize;
    let fc = focus(opt(args, "--focus").unwrap_or("all"));
    let dir = opt(args, "--dir").unwrap();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    let rep = Report::new();
    let inputs = strings(&ALPHABET, maxlen);
    let only = opt(args, "--only").map(|s| s.parse::<usize>().unwrap());
    util::parallel_watched(n, 20, &rep, Some(dir), |w, k, i| {
        if only.is_some_and(|o| o != i) {
            return;
        }
        let mut g = Gen::new(util::mix(seed, i as u64), fc);
        let (items, f) = g.program(depth);
        if fgen::heavy(&items) || fgen::heavy(&f) {
            rep.count("skipped: exponential expressions", 1);
            return;
        }
        w.enter(k, json!({"M": items, "f": f, "id": i, "phase": "compile"}));
        rep.count("programs", 1);
        let c = match build(&items, &f) {
            Ok(c) => c,
            Err((m, true)) if m.contains("`None` value") && f.to_string().contains("\"rem\"") => {
                // documented: size analysis panics on a constant remainder by zero
                rep.count("rejected:constant x % 0", 1);
                return;
            }
            Err((m, true)) => {
                rep.count("compile_panics", 1);
                rep.mismatch(json!({"kind": "compile-panic", "id": i, "msg": m, "M": items, "f": f}));
                return;
            }
            Err((m, false)) => {
                rep.count(&format!("rejected:{}", m.chars().take(60).collect::<String>()), 1);
                return;
            }
        };
        w.phase(k, "run");
        let with_loc = opt(args, "--loc").is_some();
        let case = |s: &Vec<u8>, o: J| {
            if with_loc {
                let (lo, loc) = run_loc(&c.program, s);
                json!({"in": s, "out": o, "lout": lo, "loc": if loc.is_null() { json!([]) } else { loc }})
            } else {
                json!({"in": s, "out": o})
            }
        };
        let mut acc: Vec<J> = vec![];
        let mut seen = vec![];
        let (mut rej, mut pan) = (vec![], vec![]);
        for s in &inputs {
            let o = run(&c.program, s);
            rep.count("runs", 1);
            if with_loc {
                let (lo, _) = run_loc(&c.program, s);
                // whichever way it does not return a value, both decoders must agree that there is none
                if lo != o && (lo[0] == "ok" || o[0] == "ok") {
                    rep.mismatch(json!({"kind": "loc-differs", "id": i, "M": items, "f": f, "in": s, "plain": o, "loc": lo}));
                }
            }
            match o[0].as_str().unwrap() {
                "ok" => {
                    rep.count("accepted", 1);
                    let sig = (s.len(), o[2].clone());
                    if !seen.contains(&sig) && acc.len() < 6 {
                        seen.push(sig);
                        acc.push(case(s, o));
                    } else if g.r.chance(1, 40) && acc.len() < 9 {
                        acc.push(case(s, o));
                    }
                }
                "err" => rej.push((s, o)),
                _ => pan.push((s, o)),
            }
        }
        let take = |v: &mut Vec<(&Vec<u8>, J)>, n: usize, g: &mut Gen| -> Vec<J> {
            let mut o = vec![];
            while !v.is_empty() && o.len() < n {
                let i = g.r.below(v.len());
                let (s, r) = v.swap_remove(i);
                o.push(case(s, r));
            }
            o
        };
        rep.count("rejected_inputs", rej.len() as u64);
        rep.count("panics", pan.len() as u64);
        acc.extend(take(&mut rej, 3, &mut g));
        acc.extend(take(&mut pan, 2, &mut g));
        let mut ks = Default::default();
        kinds(&f, &mut ks);
        for k in ks {
            rep.count(&format!("kind:{k}"), 1);
        }
        rep.count("compiled", 1);
        rep.count("cases", acc.len() as u64);
        let line = json!({"id": i, "M": items, "f": f, "cases": acc}).to_string();
        writeln!(out.lock().unwrap(), "{line}").unwrap();
    }, || out.lock().unwrap().flush().unwrap());
}
