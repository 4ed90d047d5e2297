//! Replays the verdicts of Ambiguity.tla: which choices compile, and what the compiled ones decode; each format
//! once as it is and once with every part a named format of its own.
use crate::dec;
use crate::util::{Report, opt, opt_u64, parallel, tlc_lines};
use serde_json::{Value as J, json};
use std::collections::BTreeSet;

/// `f` with every part moved to a named format; `items` are the named formats.
fn named(f: &J, items: &mut Vec<J>) -> J {
    let mut g = f.clone();
    if g.get("f").is_some() {
        g["f"] = named(&f["f"], items);
    }
    if let Some(fs) = f.get("fs").and_then(|x| x.as_array()) {
        g["fs"] = fs.iter().map(|x| named(x, items)).collect();
    }
    if matches!(f["k"].as_str(), Some("byte" | "variant")) {
        return g;
    }
    items.push(json!({"f": g, "args": [], "views": []}));
    json!({"k": "item", "i": items.len() - 1, "args": [], "views": []})
}

fn bytes(s: &J) -> Vec<u8> {
    s.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect()
}

pub fn main(args: &[String]) {
    let lines = tlc_lines(opt(args, "--edges").unwrap(), "AMB");
    let cut = opt_u64(args, "--cut", 5) as usize;
    let rep = Report::new();
    let all = dec::strings(&[1, 65], cut);
    parallel(lines.len(), |i| {
        let l = &lines[i];
        let v = l["v"].as_str().unwrap();
        let looks = l["looks"].as_bool().unwrap();
        rep.count("formats", 1);
        rep.count(&format!("verdict:{v}"), 1);
        let lang: BTreeSet<Vec<u8>> = l["L"].as_array().unwrap().iter().map(bytes).collect();
        let parts: BTreeSet<(Vec<u8>, usize)> =
            l["R"].as_array().unwrap().iter().map(|p| (bytes(&p[0]), p[1].as_u64().unwrap() as usize)).collect();
        let long: Vec<Vec<u8>> = l["P"].as_array().unwrap().iter().map(bytes).collect();
        let mut items = vec![];
        let call = named(&l["f"], &mut items);
        for (m, f) in [(json!([]), l["f"].clone()), (json!(items), call)] {
            if m.as_array().unwrap().is_empty() && f["k"] == "item" {
                continue;
            }
            let built = dec::build(&m, &f);
            match &built {
                Err((e, true)) => {
                    rep.mismatch(json!({"kind": "compile-panic", "M": m, "f": f, "msg": e}));
                    continue;
                }
                Err((e, false)) if v == "accept" => {
                    rep.mismatch(json!({"kind": "unambiguous-refused", "M": m, "f": f, "msg": e}));
                    continue;
                }
                Ok(_) if v == "refuse" => {
                    rep.mismatch(json!({"kind": "ambiguous-accepted", "M": m, "f": f}));
                    continue;
                }
                Err(_) => {
                    rep.count("refused", 1);
                    continue;
                }
                Ok(_) => rep.count("compiled", 1),
            }
            let c = built.ok().unwrap();
            for s in &all {
                let o = dec::run(&c.program, s);
                rep.count("runs", 1);
                let whole = lang.contains(s);
                let described = |n: usize| if looks { parts.contains(&(s.clone(), n)) } else { lang.contains(&s[..n]) };
                let ok = match o[0].as_str().unwrap() {
                    "ok" => {
                        let n = o[2].as_u64().unwrap() as usize;
                        described(n) && (!whole || n == s.len())
                    }
                    "err" => !whole,
                    _ => false,
                };
                if !ok {
                    rep.mismatch(json!({"kind": "language", "M": m, "f": f, "in": s, "out": o, "whole": whole}));
                }
            }
            for s in &long {
                let o = dec::run(&c.program, s);
                rep.count("long_runs", 1);
                if o[0] != "ok" || o[2].as_u64() != Some(s.len() as u64) {
                    rep.mismatch(json!({"kind": "long", "M": m, "f": f, "in": s, "out": o}));
                }
            }
        }
        rep.sample(json!({"f": l["f"], "verdict": v, "strings": lang.len()}));
    });
    rep.finish();
}
