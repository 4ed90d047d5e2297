//! Identifiers of generated code: histories of the allocator, and what emitted programs define and mention.
use crate::dec::{self, build};
use crate::fgen::{self, Gen};
use crate::gencode::{hostile_names, wrap};
use crate::hooks;
use crate::util::{self, Report, Rng, guard, opt, opt_u64};
use doodle::codegen::*;
use serde_json::{Value as J, json};
use std::collections::BTreeSet;
use std::io::Write;
use std::sync::Mutex;

fn nm(s: &str) -> J {
    json!([s, s.bytes().collect::<Vec<u8>>()])
}

/// (types, functions, mentions) of a program, in order of appearance.
/// A mention counts if it is of a decoder, or begins with the name of a format: types are named after formats.
pub fn scan(src: &str, stems: &[String]) -> (Vec<J>, Vec<J>, Vec<J>) {
    let (mut types, mut fns, mut uses) = (vec![], vec![], BTreeSet::new());
    for l in src.lines() {
        let l = l.trim_start();
        if l.starts_with("//") {
            continue;
        }
        for kw in ["pub enum ", "pub struct "] {
            if let Some(r) = l.strip_prefix(kw) {
                types.push(nm(r.split([' ', '<', '{', '(', ';']).next().unwrap()));
            }
        }
        for kw in ["fn ", "pub fn "] {
            if let Some(r) = l.strip_prefix(kw) {
                let n = r.split(['<', '(']).next().unwrap();
                if n.starts_with("Decoder") {
                    fns.push(nm(n));
                }
            }
        }
        if l.starts_with("use ") || l.starts_with("#!") {
            continue;
        }
        let b: Vec<char> = l.chars().collect();
        let word = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '#';
        let mut i = 0;
        while i < b.len() {
            if b[i] == '"' {
                i += 1;
                while i < b.len() && b[i] != '"' {
                    i += if b[i] == '\\' { 2 } else { 1 };
                }
                i += 1;
                continue;
            }
            if !word(b[i]) {
                i += 1;
                continue;
            }
            let s = i;
            while i < b.len() && word(b[i]) {
                i += 1;
            }
            let w: String = b[s..i].iter().collect();
            let rest: String = b[i..].iter().take(2).collect();
            if w.starts_with("Decoder") && rest.starts_with(['(', '<']) {
                uses.insert(w);
            } else if rest == "::" && (s < 2 || b[s - 1] != ':')
                && stems.iter().any(|p| w.strip_prefix(p.as_str()).is_some_and(|r| r.is_empty() || r.starts_with('_')))
            {
                uses.insert(w);
            }
        }
    }
    (types, fns, uses.iter().map(|s| nm(s)).collect())
}
fn program(m: &doodle::FormatModule, f: &doodle::Format) -> Result<J, String> {
    let stems: Vec<String> = m.iter_formats().map(|(l, _)| m.get_name(l).replace(['.', '-', ' '], "_")).collect();
    let one = || guard(|| scan(&format!("{}", generate_code(m, f).to_fragment()), &stems));
    let (t, u, v) = one()?;
    let again = one()?;
    Ok(json!({"kind": "program", "types": t, "fns": u, "uses": v, "again": again}))
}

pub fn programs(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 400) as usize;
    let depth = opt_u64(args, "--depth", 3) as usize;
    let fc = dec::focus(opt(args, "--focus").unwrap_or("all"));
    let hostile = opt_u64(args, "--hostile", 0) == 1;
    let dir = opt(args, "--dir").unwrap();
    let rep = Report::new();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    util::parallel_watched(n, 20, &rep, Some(dir), |w, k, i| {
        let mut g = Gen::new(util::mix(seed, i as u64), fc);
        let (mut items, mut f) = g.program(depth);
        if fgen::heavy(&items) || fgen::heavy(&f) {
            return;
        }
        if hostile {
            hostile_names(&mut g.r, &mut items, &mut f);
        }
        w.enter(k, json!({"M": items, "f": f, "id": i, "phase": "compile"}));
        if build(&items, &f).is_err() {
            return;
        }
        let (items, f) = wrap(&items, &f);
        let Ok(c) = build(&items, &f) else { return };
        rep.count("programs", 1);
        match program(&c.module, &c.format) {
            Ok(mut r) => {
                let t = r["types"].as_array().unwrap().len();
                rep.count("emitted", 1);
                rep.count("types", t as u64);
                rep.count("programs with several types", (t > 1) as u64);
                r["M"] = items;
                r["f"] = f;
                r["cases"] = json!([0]);
                writeln!(out.lock().unwrap(), "{r}").unwrap();
            }
            Err(_) => rep.count("not emitted", 1),
        }
    }, || out.lock().unwrap().flush().unwrap());
}

/// The shipped definitions.
pub fn shipped(args: &[String]) {
    let dir = opt(args, "--dir").unwrap();
    let rep = Report::new();
    let mut m = doodle::FormatModule::new();
    let f = doodle_formats::format::main(&mut m).call();
    match program(&m, &f) {
        Ok(mut r) => {
            rep.count("types", r["types"].as_array().unwrap().len() as u64);
            rep.count("functions", r["fns"].as_array().unwrap().len() as u64);
            rep.count("mentions", r["uses"].as_array().unwrap().len() as u64);
            r["f"] = json!("the shipped definitions");
            r["cases"] = json!([0]);
            std::fs::write(format!("{dir}/cases.ndjson"), format!("{r}\n")).unwrap();
        }
        Err(e) => rep.mismatch(json!({"kind": "shipped definitions not emitted", "panic": e})),
    }
    rep.finish();
}

/// Locations built from few labels, so that they often yield the same words.
fn paths() -> Vec<Vec<(char, String)>> {
    let p = |s: &str| s.split(' ').map(|a| (a.chars().next().unwrap(), a[1..].to_string())).collect::<Vec<_>>();
    ["Ea", "Ea Rb", "Ea_b", "Ea.b", "Ea Vb", "Ea Bb", "Ea P0", "Ea P1", "Ea_ix0", "Ea D", "Ea X", "Ea X Rb", "Ea Eb", "Eb", "Ea Rb X",
     "Eb Ra Rb", "Ea Rb_c", "Ea Rb Rc", "Etype", "Ea_alt1", "Ea__dupX1", "E1a", "E_1a"]
        .iter().map(|s| p(s)).collect()
}

pub fn histories(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let len = opt_u64(args, "--len", 3) as usize;
    let n = opt_u64(args, "--n", 1000) as usize;
    let dir = opt(args, "--dir").unwrap();
    let rep = Report::new();
    let mut out = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    let ps = paths();
    let mut emit = |h: Vec<(usize, usize)>| {
        let reqs: Vec<(usize, Vec<(char, String)>)> = h.iter().map(|&(d, p)| (d, ps[p].clone())).collect();
        rep.count("histories", 1);
        let jh: Vec<J> = reqs.iter().map(|(d, p)| json!([d, p.iter().map(|(c, s)| format!("{c}{s}")).collect::<Vec<_>>()])).collect();
        match guard(|| hooks::name_history(&reqs)) {
            Ok(r) => {
                let (a, b): (Vec<J>, Vec<J>) = r.iter().map(|(a, b)| (nm(a), nm(b))).unzip();
                rep.count("renamed", r.iter().any(|(a, b)| a != b) as u64);
                writeln!(out, "{}", json!({"kind": "history", "h": jh, "first": a, "last": b, "cases": [0], "f": jh})).unwrap();
            }
            Err(e) => rep.mismatch(json!({"kind": "panic", "panic": e, "h": jh})),
        }
    };
    // all histories of `len` requests, types numbered in order of first request
    let total = ps.len().pow(len as u32);
    for x in 0..total {
        let mut locs = vec![];
        let mut y = x;
        for _ in 0..len {
            locs.push(y % ps.len());
            y /= ps.len();
        }
        let mut types = vec![vec![0usize]];
        for _ in 1..len {
            types = types.into_iter().flat_map(|t: Vec<usize>| {
                let m = *t.iter().max().unwrap();
                (0..=m + 1).map(move |d| { let mut u = t.clone(); u.push(d); u })
            }).collect();
        }
        for t in types {
            emit(t.into_iter().zip(locs.iter().copied()).collect());
        }
    }
    let mut r = Rng(seed);
    for _ in 0..n {
        let l = r.range(4, 12);
        let k = r.range(2, 6);
        emit((0..l).map(|_| (r.below(k), r.below(ps.len()))).collect());
    }
    out.flush().unwrap();
    drop(out);
    rep.finish();
}
