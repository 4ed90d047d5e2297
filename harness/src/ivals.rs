//! Judges ranges against the value table of Intervals.tla.
use crate::ast;
use crate::util::*;
use doodle::bounds::Bounds;
use num_traits::{CheckedAdd, CheckedDiv, CheckedMul};
use serde_json::{Value as J, json};
use std::collections::HashMap;

fn num(j: &J) -> usize {
    ast::unlimbs(j) as usize
}

/// A range by its ends' indices in the table; `None`: no upper limit.
type R = (usize, Option<usize>);

pub fn main(args: &[String]) {
    let lines = tlc_lines(opt(args, "--edges").unwrap(), "IV");
    let rep = Report::new();
    let n = lines.iter().map(|l| l["i"].as_u64().unwrap() as usize).max().unwrap();
    let mut v = vec![0usize; n];
    let mut bytes = vec![0usize; n];
    let ops: Vec<String> = lines[0]["r"].as_object().unwrap().keys().cloned().collect();
    let exact: Vec<bool> = ops.iter().map(|o| lines[0]["exact"].as_array().unwrap().iter().any(|e| e == o)).collect();
    let mut table = vec![vec![None::<usize>; n * n]; ops.len()];
    for l in &lines {
        let (i, j) = (l["i"].as_u64().unwrap() as usize - 1, l["j"].as_u64().unwrap() as usize - 1);
        v[i] = num(&l["x"]);
        bytes[i] = num(&l["bytes"]);
        for (k, o) in ops.iter().enumerate() {
            table[k][i * n + j] = l["r"][o].as_array().unwrap().first().map(num);
        }
        rep.count("states", 1);
    }
    assert!(v.windows(2).all(|w| w[0] < w[1]), "values must increase");
    let mut ranges: Vec<R> = vec![];
    for a in 0..n {
        ranges.push((a, None));
        for b in a..n {
            ranges.push((a, Some(b)));
        }
    }
    let mk = |r: R| match r.1 {
        None => Bounds::at_least(v[r.0]),
        Some(b) => Bounds::new(v[r.0], v[b]),
    };
    let members = |r: R| r.0..r.1.map_or(n, |b| b + 1);
    let show = |r: R| mk(r).to_string();
    let cover = |b: &Bounds, x: usize| b.min() <= x && b.max().is_none_or(|m| x <= m);
    let bad = |what: &str, detail: J| rep.mismatch(json!({"kind": "range", "what": what, "detail": detail}));
    // one range
    for &r in &ranges {
        let b = mk(r);
        let top = r.1.map(|h| v[h]);
        let mut ck = |what: &str, ok: Result<bool, String>| {
            rep.count("unary", 1);
            if ok != Ok(true) {
                bad(what, json!({"range": show(r), "outcome": format!("{ok:?}")}));
            }
        };
        ck("min/max", guard(|| b.min() == v[r.0] && b.max() == top));
        for x in 0..n {
            ck("contains", guard(|| b.contains(v[x]) == members(r).contains(&x)));
        }
        ck("as_exact", guard(|| b.as_exact() == top.filter(|h| *h == v[r.0])));
        ck("bits_to_bytes", guard(|| b.bits_to_bytes() == match r.1 {
            None => Bounds::at_least(bytes[r.0]),
            Some(h) => Bounds::new(bytes[r.0], bytes[h]),
        }));
        if r.0 == 0 && v[0] == 0 {
            ck("at_most", guard(|| r.1.is_none_or(|h| Bounds::at_most(v[h]) == b)));
        }
        if r.1 == Some(r.0) {
            let x = v[r.0] as u64;
            ck("exact", guard(|| Bounds::exact(v[r.0]) == b && Bounds::from(x) == b && Bounds::from(v[r.0]) == b));
        }
        if let Some(h) = r.1 {
            ck("from range", guard(|| Bounds::from(v[r.0]..=v[h]) == b && Bounds::from(v[r.0] as u64..=v[h] as u64) == b));
        } else {
            ck("from open range", guard(|| Bounds::from(v[r.0]..) == b));
        }
        ck("display", guard(|| b.to_string() == match top {
            Some(t) => format!("({}..={})", v[r.0], t),
            None => format!("({}..)", v[r.0]),
        }));
        ck("try_from u8", guard(|| {
            let t: Result<(u8, Option<u8>), _> = b.try_into();
            match (u8::try_from(v[r.0]), top.map(u8::try_from).transpose()) {
                (Ok(a), Ok(h)) => t.ok() == Some((a, h)),
                _ => t.is_err(),
            }
        }));
        for &(lo, hi) in ranges.iter().filter(|x| x.1.is_some()) {
            let (lo, hi) = (v[lo], v[hi.unwrap()]);
            ck("clamp", guard(|| {
                let (a, z) = (b.min().max(lo), top.map_or(hi, |t| t.min(hi)));
                b.clamp(lo, hi) == (a <= z).then(|| Bounds::new(a, z))
            }));
        }
    }
    // pairs of ranges
    parallel(ranges.len(), |ri| {
        let r = ranges[ri];
        let a = mk(r);
        let mut cnt: HashMap<&str, u64> = HashMap::new();
        for &s in &ranges {
            let b = mk(s);
            let both = json!([show(r), show(s)]);
            let u = guard(|| Bounds::union(a, b));
            *cnt.entry("union").or_default() += 1;
            let want = Bounds::at_least(a.min().min(b.min()));
            let want = match (a.max(), b.max()) {
                (Some(x), Some(y)) => Bounds::new(want.min(), x.max(y)),
                _ => want,
            };
            if u != Ok(want) {
                bad("union", json!({"of": both, "outcome": format!("{u:?}")}));
            }
            for (k, o) in ops.iter().enumerate() {
                *cnt.entry(o).or_default() += 1;
                let zero_rem = o == "rem" && a.as_exact().is_some() && b.as_exact() == Some(0);
                if zero_rem {
                    continue; // documented to panic
                }
                let mut got = vec![guard(|| match &o[..] {
                    "add" => Some(a + b),
                    "sub" => Some(a - b),
                    "mul" => Some(a * b),
                    "div" => Some(a / b),
                    "and" => Some(a & b),
                    "or" => Some(a | b),
                    "shl" => Some(a << b),
                    "shr" => Some(a >> b),
                    "rem" => crate::hooks::bounds_rem(a, b),
                    _ => None,
                })];
                match &o[..] {
                    "add" => got.push(guard(|| a.checked_add(&b))),
                    "mul" => got.push(guard(|| a.checked_mul(&b))),
                    "div" => got.push(guard(|| a.checked_div(&b))),
                    "shl" => got.push(guard(|| a.checked_shl(b))),
                    "shr" => got.push(guard(|| a.checked_shr(b))),
                    _ => {}
                }
                for (form, g) in got.into_iter().enumerate() {
                    let g = match g {
                        Err(e) => {
                            bad(o, json!({"of": both, "panic": e}));
                            continue;
                        }
                        Ok(g) => g,
                    };
                    let Some(g) = g else {
                        // a checked form may give up, but not where the operation is defined on single values
                        if form == 1 && a.as_exact().is_some() && b.as_exact().is_some() && table[k][r.0 * n + s.0].is_some() {
                            bad(o, json!({"of": both, "outcome": "gave up"}));
                        }
                        continue;
                    };
                    if g.max().is_some_and(|m| m < g.min()) && members(r).any(|x| members(s).any(|y| table[k][x * n + y].is_some())) {
                        bad(o, json!({"of": both, "outcome": g.to_string(), "why": "not a range"}));
                    }
                    let miss = members(r).find_map(|x| {
                        members(s).find_map(|y| table[k][x * n + y].filter(|z| !cover(&g, *z)).map(|z| (v[x], v[y], z)))
                    });
                    if let Some((x, y, z)) = miss {
                        bad(o, json!({"of": both, "outcome": g.to_string(), "x": x, "y": y, "result": z}));
                    } else if exact[k] && r.1 == Some(r.0) && s.1 == Some(s.0) {
                        if let Some(z) = table[k][r.0 * n + s.0] {
                            if g.as_exact() != Some(z) {
                                bad(o, json!({"of": both, "outcome": g.to_string(), "why": "single values", "result": z}));
                            }
                        }
                    }
                }
            }
        }
        for (k, c) in cnt {
            rep.count(&format!("op:{k}"), c);
        }
    });
    rep.sample(json!({"values": n, "ranges": ranges.len(), "first": lines[0]}));
    rep.finish();
}
