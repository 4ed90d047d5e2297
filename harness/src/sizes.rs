//! Size analysis: records ranges reported for generated formats and expressions, and what the formats really do.
use crate::fgen::{self, ALPHABET, Cx, Gen};
use crate::util::{self, Report, guard, opt, opt_u64};
use crate::{ast, dec, hooks};
use doodle::bounds::Bounds;
use serde_json::{Value as J, json};
use std::collections::HashMap;
use std::io::Write;
use std::sync::Mutex;

fn range(b: Bounds) -> J {
    json!([ast::limbs(b.min() as u128), b.max().map(|m| vec![ast::limbs(m as u128)]).unwrap_or_default()])
}

/// Constructs that read input other than by advancing over it.
const ELSEWHERE: [&str; 5] = ["fromview", "capture", "readarr", "decbytes", "reify"];

pub fn formats(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 1000) as usize;
    let depth = opt_u64(args, "--depth", 3) as usize;
    let maxlen = opt_u64(args, "--maxlen", 4) as usize;
    let fc = dec::focus(opt(args, "--focus").unwrap_or("all"));
    let dir = opt(args, "--dir").unwrap();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    let rep = Report::new();
    let inputs = dec::strings(&ALPHABET, maxlen);
    util::parallel_watched(n, 20, &rep, Some(dir), |w, k, i| {
        let mut g = Gen::new(util::mix(seed, i as u64), fc);
        let (items, f) = g.program(depth);
        if fgen::heavy(&items) || fgen::heavy(&f) {
            return;
        }
        w.enter(k, json!({"M": items, "f": f, "id": i, "phase": "compile"}));
        rep.count("programs", 1);
        let Ok(c) = dec::build(&items, &f) else {
            rep.count("rejected", 1);
            return;
        };
        rep.count("compiled", 1);
        w.phase(k, "run");
        let ranges = guard(|| {
            let m = hooks::match_bounds(&c.module, &c.format);
            let l = hooks::lookahead_bounds(&c.module, &c.format);
            assert_eq!(hooks::is_nullable(&c.module, &c.format), m.min() == 0, "is_nullable");
            (m, l)
        });
        let (m, l) = match ranges {
            Ok(r) => r,
            Err(e) if e.contains("`None` value") && json!([items, f]).to_string().contains("\"rem\"") => {
                return rep.count("constant x % 0", 1); // documented
            }
            Err(e) => return rep.mismatch(json!({"kind": "analysis-panic", "id": i, "M": items, "f": f, "msg": e})),
        };
        let mut ms = vec![m];
        let mut ls = vec![l];
        // code generation has its own analysis; formats it does not support are not its concern
        if let Ok(Some((tm, tl))) = guard(|| hooks::typed_bounds(&c.module, &c.format)) {
            rep.count("typed", 1);
            ms.push(tm);
            ls.push(tl);
        }
        let mut ks = Default::default();
        dec::kinds(&f, &mut ks);
        dec::kinds(&items, &mut ks);
        let direct = !ks.iter().any(|k| ELSEWHERE.contains(&&k[..]));
        for k in &ks {
            rep.count(&format!("kind:{k}"), 1);
        }
        let la = ls.iter().map(|b| b.max().unwrap_or(usize::MAX)).min().unwrap();
        let mut groups: HashMap<(usize, &[u8]), (&Vec<u8>, J)> = HashMap::new();
        let (mut cases, mut seen, mut pairs) = (vec![], vec![], vec![]);
        for s in &inputs {
            let o = dec::run(&c.program, s);
            rep.count("runs", 1);
            if direct && la < s.len() {
                let key = (s.len(), &s[..la]);
                match groups.get(&key) {
                    None => {
                        groups.insert(key, (s, o.clone()));
                    }
                    Some((t, p)) => {
                        rep.count("lookahead-pairs", 1);
                        if *p != o {
                            rep.mismatch(json!({"kind": "look-ahead", "id": i, "M": items, "f": f, "max": la, "a": [t, p], "b": [s, o]}));
                        } else if pairs.len() < 2 && g.r.chance(1, 20) {
                            pairs.push(json!([t, s]));
                        }
                    }
                }
            }
            if o[0] != "ok" {
                continue;
            }
            rep.count("accepted", 1);
            let used = o[2].as_u64().unwrap() as usize;
            for (b, who) in ms.iter().zip(["decoder", "codegen"]) {
                rep.count("bounded-accepts", (b.max().is_some()) as u64);
                if used < b.min() || b.max().is_some_and(|m| used > m) {
                    rep.mismatch(json!({"kind": "size", "id": i, "who": who, "M": items, "f": f, "in": s, "used": used, "range": b.to_string()}));
                }
            }
            if !seen.contains(&used) && cases.len() < 5 {
                seen.push(used);
                cases.push(json!({"in": s, "out": o}));
            }
        }
        if cases.is_empty() && pairs.is_empty() {
            return;
        }
        rep.count("cases", (cases.len() + pairs.len()) as u64);
        let line = json!({"id": i, "M": items, "f": f, "cases": cases, "pairs": pairs,
                          "match": ms.iter().map(|b| range(*b)).collect::<Vec<_>>()});
        writeln!(out.lock().unwrap(), "{line}").unwrap();
    }, || out.lock().unwrap().flush().unwrap());
}

/// Numeric expressions over x, y, z with the ranges reported for them.
pub fn exprs(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 1000) as usize;
    let dir = opt(args, "--dir").unwrap();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    let rep = Report::new();
    util::parallel(n, |i| {
        let mut g = Gen::new(util::mix(seed ^ 0xb0b0, i as u64), fgen::Focus::Exprs);
        let ts = ["u8", "u16", "u32", "u64"];
        let mut cx = Cx::default();
        for v in ["x", "y"] {
            cx.vars.push((v.into(), json!(*g.r.pick(&ts))));
        }
        let t = json!(*g.r.pick(&ts));
        let d = g.r.range(1, 4);
        let e = g.arith(&t, d, &cx);
        let ex = ast::expr(&e);
        rep.count("exprs", 1);
        let r = match guard(|| hooks::expr_bounds(&ex)) {
            Ok(r) => r,
            Err(m) if m.contains("`None` value") && e.to_string().contains("\"rem\"") => {
                return rep.count("constant x % 0", 1); // documented
            }
            Err(m) => return rep.mismatch(json!({"kind": "analysis-panic", "id": i, "e": e, "msg": m})),
        };
        if r == Bounds::any() {
            return rep.count("unbounded", 1);
        }
        rep.count("bounded", 1);
        let mut envs = vec![];
        for _ in 0..8 {
            let mut env = vec![];
            for (v, t) in &cx.vars {
                let k = g.konst(t.as_str().unwrap());
                env.push(json!([v, [t, k["n"]]]));
            }
            envs.push(env);
        }
        if g.r.chance(1, 500) {
            rep.sample(json!({"e": e, "range": r.to_string()}));
        }
        let line = json!({"id": i, "e": e, "r": range(r), "envs": envs, "cases": envs});
        writeln!(out.lock().unwrap(), "{line}").unwrap();
    });
    out.lock().unwrap().flush().unwrap();
    rep.finish();
}
