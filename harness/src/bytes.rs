//! Replays ByteSets.tla: every explored set, every query and every operation on it.
use crate::util::*;
use doodle::byte_set::ByteSet;
use serde_json::{Value as J, json};
use std::collections::BTreeSet;

type Set = BTreeSet<u8>;

/// `[firsts, lasts]` of the runs, each in any order.
fn runs(j: &J) -> Vec<(u8, u8)> {
    let n = |x: &J| {
        let mut v: Vec<u8> = x.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect();
        v.sort();
        v
    };
    n(&j[0]).into_iter().zip(n(&j[1])).collect()
}

fn of_runs(r: &[(u8, u8)]) -> Set {
    r.iter().flat_map(|(a, b)| *a..=*b).collect()
}

fn bits(s: &Set) -> ByteSet {
    let mut w = [0u64; 4];
    for b in s {
        w[*b as usize / 64] |= 1u64 << (b % 64);
    }
    ByteSet::from_bits(w)
}

/// What a textual form denotes.
fn parse(text: &str) -> Option<Set> {
    let list = |t: &str| -> Option<Set> {
        if t.is_empty() {
            return Some(Set::new());
        }
        t.split(',').map(|x| x.trim().parse::<u8>().ok()).collect()
    };
    let mut out = Set::new();
    for tok in text.split(" ∪ ") {
        let s: Set = match tok {
            "U8" => (0..=255).collect(),
            "ASCII" => (0..=127).collect(),
            "ASCII.Strict" => (32..=127).chain([9, 10, 13]).collect(),
            "ASCII.Decimal" => (b'0'..=b'9').collect(),
            "ASCII.Octal" => (b'0'..=b'7').collect(),
            "ASCII.Hex" => "0123456789abcdefABCDEF".bytes().collect(),
            "ASCII.HexLower" => "0123456789abcdef".bytes().collect(),
            "ASCII.HexUpper" => "0123456789ABCDEF".bytes().collect(),
            "∅" => Set::new(),
            t => {
                if let Some(x) = t.strip_prefix("[= ").and_then(|t| t.strip_suffix("]")) {
                    [x.parse::<u8>().ok()?].into()
                } else if let Some(x) = t.strip_prefix("[!= ").and_then(|t| t.strip_suffix("]")) {
                    let x = x.parse::<u8>().ok()?;
                    (0..=255).filter(|b| *b != x).collect()
                } else if let Some(x) = t.strip_prefix("∁({").and_then(|t| t.strip_suffix("})")) {
                    let x = list(x)?;
                    (0..=255).filter(|b| !x.contains(b)).collect()
                } else if let Some(x) = t.strip_prefix("⟦").and_then(|t| t.strip_suffix("⟧")) {
                    let (a, b) = x.split_once(',')?;
                    (a.trim().parse::<u8>().ok()?..=b.trim().parse::<u8>().ok()?).collect()
                } else if let Some(x) = t.strip_prefix("{").and_then(|t| t.strip_suffix("}")) {
                    list(x)?
                } else {
                    return None;
                }
            }
        };
        out.extend(s);
    }
    Some(out)
}

fn debug_denotes(text: &str) -> Option<Set> {
    let (neg, t) = match text.strip_prefix('!') {
        Some(t) => (true, t),
        None => (false, text),
    };
    let t = t.strip_prefix('{')?.strip_suffix('}')?.trim();
    let s: Set = t.split(',').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|x| x.parse::<u8>().ok()).collect::<Option<Set>>()?;
    Some(if neg { (0..=255).filter(|b| !s.contains(b)).collect() } else { s })
}

fn json_denotes(j: &J) -> Option<Set> {
    let s: Set = j["data"].as_array()?.iter().map(|x| x.as_u64().map(|x| x as u8)).collect::<Option<Set>>()?;
    match j["tag"].as_str()? {
        "includes" => Some(s),
        "excludes" => Some((0..=255).filter(|b| !s.contains(b)).collect()),
        _ => None,
    }
}

macro_rules! chk {
    ($bad:ident, $what:expr, $want:expr, $got:expr) => {{
        let (w, g) = ($want, guard(|| $got));
        match g {
            Ok(g) if g == w => {}
            Ok(g) => $bad.push(json!({"what": $what, "want": format!("{w:?}"), "got": format!("{g:?}")})),
            Err(e) => $bad.push(json!({"what": $what, "want": format!("{w:?}"), "panic": e})),
        }
    }};
}

/// Everything a set of bytes must answer, given as the specification's observations.
fn queries(bs: &ByteSet, want: &Set, obs: &J, operands: &[Set]) -> Vec<J> {
    let mut bad = vec![];
    let opt = |j: &J| j.as_array().unwrap().first().map(|x| x.as_u64().unwrap() as u8);
    for b in 0..=255u8 {
        chk!(bad, format!("contains {b}"), want.contains(&b), bs.contains(b));
    }
    let (min, max) = (opt(&obs["min"]), opt(&obs["max"]));
    chk!(bad, "iter", want.iter().copied().collect::<Vec<_>>(), bs.iter().collect::<Vec<_>>());
    chk!(bad, "len", obs["len"].as_u64().unwrap(), bs.len() as u64);
    chk!(bad, "is_empty", obs["len"] == 0, bs.is_empty());
    chk!(bad, "is_full", obs["len"] == 256, bs.is_full());
    chk!(bad, "min_elem", min, bs.min_elem());
    chk!(bad, "max_elem", max, bs.max_elem());
    chk!(bad, "bounds", min.zip(max), bs.bounds());
    chk!(bad, "span", obs["span"].as_u64().unwrap(), bs.span() as u64);
    chk!(bad, "is_contiguous", obs["contiguous"].as_bool().unwrap(), bs.is_contiguous());
    for n in obs["near"].as_array().unwrap() {
        let b = n[0].as_u64().unwrap() as u8;
        let r = n[1].as_array().unwrap();
        let w = (!r.is_empty()).then(|| (r[0].as_u64().unwrap() as u8, r[1].as_u64().unwrap() as u8));
        chk!(bad, format!("find_enclosing_range {b}"), w, bs.find_enclosing_range(b));
        if let Some((lo, hi)) = w {
            chk!(bad, format!("contains_range {lo} {hi}"), true, bs.contains_range(lo..=hi));
            if hi < 255 {
                chk!(bad, format!("contains_range {lo} {}", hi + 1), false, bs.contains_range(lo..=hi + 1));
            }
            if lo > 0 {
                chk!(bad, format!("contains_range {} {hi}", lo - 1), false, bs.contains_range(lo - 1..=hi));
            }
        }
    }
    for (i, o) in operands.iter().enumerate() {
        let ob = bits(o);
        chk!(bad, format!("is_disjoint {i}"), obs["disjoint"][i].as_bool().unwrap(), bs.is_disjoint(&ob));
        chk!(bad, format!("is_disjoint {i} (other way)"), obs["disjoint"][i].as_bool().unwrap(), ob.is_disjoint(bs));
        chk!(bad, format!("== {i}"), o == want, *bs == ob);
    }
    chk!(bad, "to_string", Some(want.clone()), parse(&bs.to_string()));
    chk!(bad, "to_best_string", Some(want.clone()), parse(&bs.to_best_string()));
    chk!(bad, "as_range_string", true, bs.as_range_string().is_none_or(|t| parse(&t) == Some(want.clone())));
    chk!(bad, "as_token", true, bs.as_token().is_none_or(|t| parse(t) == Some(want.clone())));
    chk!(bad, "debug", Some(want.clone()), debug_denotes(&format!("{bs:?}")));
    chk!(bad, "debug-pretty", Some(want.clone()), debug_denotes(&format!("{bs:#?}")));
    chk!(bad, "serialize", Some(want.clone()), json_denotes(&serde_json::to_value(bs).unwrap()));
    bad
}

/// All the ways of building a given set.
fn builders(want: &Set, rs: &[(u8, u8)]) -> Vec<(&'static str, Result<ByteSet, String>)> {
    let v: Vec<u8> = want.iter().copied().collect();
    let rev: Vec<u8> = v.iter().rev().copied().collect();
    let co: Vec<u8> = (0..=255).filter(|b| !want.contains(b)).collect();
    let one = |f: &dyn Fn() -> ByteSet| guard(|| f());
    vec![
        ("slice", one(&|| ByteSet::from(&v[..]))),
        ("iterator", one(&|| rev.iter().copied().collect())),
        ("doubled", one(&|| v.iter().chain(rev.iter()).copied().collect())),
        ("inclusive-ranges", one(&|| rs.iter().fold(ByteSet::empty(), |s, (a, b)| s.union(&ByteSet::from(*a..=*b))))),
        ("ranges", one(&|| rs.iter().fold(ByteSet::new(), |s, (a, b)| {
            ByteSet::union(&if *b == 255 { ByteSet::from(*a..=*b) } else { ByteSet::from(*a..*b + 1) }, &s)
        }))),
        ("inserts", one(&|| {
            let mut s = ByteSet::new();
            rev.iter().for_each(|b| s.insert(*b));
            s
        })),
        ("removes", one(&|| {
            let mut s = ByteSet::full();
            co.iter().for_each(|b| s.remove(*b));
            s
        })),
        ("singletons", one(&|| v.iter().fold(ByteSet::empty(), |s, b| s.union(&ByteSet::singleton(*b))))),
        ("array", one(&|| v.iter().fold(ByteSet::empty(), |s, b| s.union(&ByteSet::from([*b]))))),
        ("double-not", one(&|| !!bits(want))),
        ("not-ref", one(&|| !&co.iter().copied().collect::<ByteSet>())),
        ("complement", one(&|| ByteSet::from(&co[..]).complement())),
        ("runs-removed", one(&|| {
            rs.iter().fold(ByteSet::full(), |s, (a, b)| s.difference(&ByteSet::from(*a..=*b))).complement()
        })),
        ("bits", one(&|| ByteSet::from_bits(bits(want).to_bits()))),
    ]
}

pub fn main(args: &[String]) {
    let lines = tlc_lines(opt(args, "--edges").unwrap(), "BS");
    let spec: J = serde_json::from_str(opt(args, "--operands").unwrap()).unwrap();
    let operands: Vec<Set> = spec.as_array().unwrap().iter().map(|r| of_runs(&runs(r))).collect();
    let rep = Report::new();
    let texts = std::sync::Mutex::new(std::collections::HashMap::<String, Set>::new());
    parallel(lines.len(), |i| {
        let l = &lines[i];
        rep.count("states", 1);
        let rs = runs(&l["runs"]);
        let want = of_runs(&rs);
        let at = |bad: Vec<J>, how: &str| {
            for b in bad {
                rep.mismatch(json!({"kind": "byteset", "set": l["runs"], "how": how, "detail": b}));
            }
        };
        let bs = bits(&want);
        at(queries(&bs, &want, &l["obs"], &operands), "bits");
        for (how, r) in builders(&want, &rs) {
            rep.count("built", 1);
            let r = r.map(|s| (s, s.to_bits(), s == bs));
            if r != Ok((bs, bs.to_bits(), true)) {
                at(vec![json!({"what": "construction", "got": format!("{r:?}")})], how);
            }
        }
        for o in l["ops"].as_array().unwrap() {
            let (name, n) = (o[0][0].as_str().unwrap(), o[0][1].as_u64().unwrap() as usize);
            let w = bits(&of_runs(&runs(&o[1])));
            rep.count(&format!("op:{name}"), 1);
            let got = guard(|| match name {
                "insert" => {
                    let mut s = bs;
                    s.insert(n as u8);
                    s
                }
                "remove" => {
                    let mut s = bs;
                    s.remove(n as u8);
                    s
                }
                "complement" => bs.complement(),
                "union" => bs.union(&bits(&operands[n - 1])),
                "intersection" => bs.intersection(&bits(&operands[n - 1])),
                "difference" => bs.difference(&bits(&operands[n - 1])),
                _ => panic!("unknown operation"),
            });
            if got.as_ref() != Ok(&w) {
                at(vec![json!({"what": format!("{name} {n}"), "want": format!("{w:?}"), "got": format!("{got:?}")})], "operation");
            }
        }
        // the text of a set must not also be the text of another one
        if let Ok(t) = guard(|| bs.to_string()) {
            if let Some(other) = texts.lock().unwrap().insert(t.clone(), want.clone()) {
                if other != want {
                    at(vec![json!({"what": "same text for two sets", "text": t})], "text");
                }
            }
        }
    });
    rep.sample(json!({"states": lines.len(), "first": lines.first()}));
    rep.finish();
}
