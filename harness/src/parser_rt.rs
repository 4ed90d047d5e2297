//! Replays the transition graph of ParserRT.tla into doodle::parser::Parser.
use crate::util::*;
use doodle::parser::error::{ParseError, StateError};
use doodle::parser::{Parser, View};
use serde_json::{Value as J, json};
use std::collections::HashMap;

struct Edge {
    s: usize,
    t: usize,
    op: String,
    arg: u64,
    res: J,
    failed: bool,
    obs: [i64; 4],
}

fn err_class(e: &ParseError) -> J {
    match e {
        ParseError::Overrun(_) => json!(["err", "overrun"]),
        ParseError::NegativeIndex { .. } => json!(["err", "negative"]),
        ParseError::IncompleteParse { bytes_remaining } => json!(["err", "incomplete", bytes_remaining]),
        ParseError::InternalError(s) => match s {
            StateError::NoRestore => json!(["err", "no_restore"]),
            StateError::NoRecovery => json!(["err", "no_recovery"]),
            StateError::MissingSlice => json!(["err", "missing_slice"]),
            StateError::UnstackableSlices { .. } => json!(["err", "unstackable"]),
            StateError::BinaryModeError => json!(["err", "mode"]),
            other => json!(["err", format!("{other:?}")]),
        },
        other => json!(["err", format!("{other:?}")]),
    }
}

fn unit(r: Result<(), ParseError>) -> J {
    match r {
        Ok(()) => json!(["ok", 0]),
        Err(e) => err_class(&e),
    }
}

fn apply(p: &mut Parser<'_>, op: &str, arg: u64) -> J {
    match op {
        "read_byte" => match p.read_byte() {
            Ok(b) => json!(["ok", b]),
            Err(e) => err_class(&e),
        },
        "advance_by" => unit(p.advance_by(arg as u32)),
        "skip_remainder" => {
            p.skip_remainder();
            json!(["ok", 0])
        }
        "skip_align" => unit(p.skip_align(arg as usize)),
        "enter_bits_mode" => unit(p.enter_bits_mode()),
        "escape_bits_mode" => match p.escape_bits_mode() {
            Ok(n) => json!(["ok", n]),
            Err(e) => err_class(&e),
        },
        "start_slice" => unit(p.start_slice(arg as usize)),
        "end_slice" => unit(p.end_slice()),
        "open_peek_context" => {
            p.open_peek_context();
            json!(["ok", 0])
        }
        "open_peek_not_context" => {
            p.open_peek_not_context();
            json!(["ok", 0])
        }
        "start_alt" => {
            p.start_alt();
            json!(["ok", 0])
        }
        "close_peek_context" => unit(p.close_peek_context()),
        "close_peek_not_context" => unit(p.close_peek_not_context()),
        "next_alt" => unit(p.next_alt(arg == 1)),
        "end_alt" => unit(p.end_alt()),
        "advance_or_seek" => match p.advance_or_seek(arg as u32) {
            Ok(b) => json!(["ok", b as u8]),
            Err(e) => err_class(&e),
        },
        "finish" => unit(p.finish()),
        "view" => {
            let v: View<'_> = p.view();
            // length of a view, observed through its public interface
            let mut n = 0usize;
            while v.offset(n + 1).is_ok() {
                n += 1;
            }
            json!(["ok", n])
        }
        "get_offset_u64" => json!(["ok", p.get_offset_u64()]),
        other => panic!("unknown op {other}"),
    }
}

fn observe(p: &Parser<'_>) -> [i64; 4] {
    let (byte, bit) = p.get_current_offset().as_bytes();
    [
        byte as i64,
        bit.map(|b| b as i64).unwrap_or(-1),
        p.get_bits_read().map(|b| b as i64).unwrap_or(-1),
        p.remaining() as i64,
    ]
}

pub fn main(args: &[String]) {
    let file = opt(args, "--edges").unwrap();
    let base = opt_u64(args, "--base", 0) as usize;
    let seed = opt_u64(args, "--seed", 1);
    let walk = opt_u64(args, "--walk", 3) as usize;
    let buf: Vec<u8> = opt(args, "--buf").unwrap().split(',').map(|s| s.parse().unwrap()).collect();
    let mut whole = vec![0xEEu8; base];
    whole.extend_from_slice(&buf);

    let lines = tlc_lines(file, "EDGE");
    let mut ids: HashMap<String, usize> = HashMap::new();
    let mut edges: Vec<Edge> = Vec::with_capacity(lines.len());
    let key = |ids: &mut HashMap<String, usize>, k: &str| -> usize {
        let n = ids.len();
        *ids.entry(k.to_string()).or_insert(n)
    };
    let init = key(&mut ids, "<<0, -1, <<>>, FALSE>>");
    for l in lines {
        let s = key(&mut ids, l["s"].as_str().unwrap());
        let t = key(&mut ids, l["t"].as_str().unwrap());
        let o = &l["obs"];
        edges.push(Edge {
            s,
            t,
            op: l["op"].as_str().unwrap().to_string(),
            arg: l["arg"].as_u64().unwrap(),
            res: l["res"].clone(),
            failed: l["f"].as_bool().unwrap(),
            obs: [
                o["byte"].as_i64().unwrap(),
                o["bit"].as_i64().unwrap(),
                o["read"].as_i64().unwrap(),
                o["rem"].as_i64().unwrap(),
            ],
        });
    }
    let n = ids.len();
    let mut outs: Vec<Vec<usize>> = vec![vec![]; n];
    for (i, e) in edges.iter().enumerate() {
        outs[e.s].push(i);
    }
    // breadth-first tree: the shortest way into each state
    let mut via: Vec<Option<usize>> = vec![None; n];
    let mut seen = vec![false; n];
    seen[init] = true;
    let mut q = std::collections::VecDeque::from([init]);
    while let Some(s) = q.pop_front() {
        for &ei in &outs[s] {
            let t = edges[ei].t;
            if !seen[t] {
                seen[t] = true;
                via[t] = Some(ei);
                q.push_back(t);
            }
        }
    }
    assert!(seen.iter().all(|b| *b), "TLC graph has unreachable states: the dump is incomplete");
    let path_to = |mut s: usize| -> Vec<usize> {
        let mut p = vec![];
        while s != init {
            let e = via[s].unwrap();
            p.push(e);
            s = edges[e].s;
        }
        p.reverse();
        p
    };
    let rep = Report::new();
    rep.count("states", n as u64);
    rep.count("edges", edges.len() as u64);
    let mut by_op: HashMap<String, u64> = HashMap::new();
    for e in &edges {
        *by_op.entry(format!("op:{}:{}", e.op, e.res[0].as_str().unwrap())).or_insert(0) += 1;
    }
    for (k, v) in by_op {
        rep.count(&k, v);
    }
    const CH: usize = 4096;
    let chunks = edges.len().div_ceil(CH);
    let stop = std::sync::atomic::AtomicBool::new(false);
    parallel(chunks, |c| {
        let mut rng = Rng(seed.wrapping_mul(7919).wrapping_add(c as u64));
        let mut steps = 0u64;
        for ei in c * CH..((c + 1) * CH).min(edges.len()) {
            if stop.load(std::sync::atomic::Ordering::Relaxed) {
                break;
            }
            let mut tr = path_to(edges[ei].s);
            let prefix = tr.len();
            tr.push(ei);
            // a short continuation, so that a context left in a wrong state shows up
            let mut cur = edges[ei].t;
            for _ in 0..walk {
                if outs[cur].is_empty() {
                    break;
                }
                let e = *rng.pick(&outs[cur]);
                tr.push(e);
                cur = edges[e].t;
            }
            let mk = || -> Parser<'_> {
                if base == 0 {
                    Parser::new(&whole)
                } else {
                    Parser::from(View::new(&whole).offset(base).unwrap())
                }
            };
            let mut p = mk();
            for (k, &e) in tr.iter().enumerate() {
                let e = &edges[e];
                let got = guard(|| apply(&mut p, &e.op, e.arg)).unwrap_or_else(|m| json!(["panic", m]));
                steps += 1;
                let mut bad = got != e.res;
                let mut gobs = [0i64; 4];
                if !bad && !e.failed && k >= prefix {
                    match guard(|| observe(&p)) {
                        Ok(o) => {
                            gobs = o;
                            bad = o != e.obs;
                        }
                        Err(m) => {
                            bad = true;
                            eprintln!("observe panicked: {m}");
                        }
                    }
                }
                if bad {
                    let ops: Vec<J> = tr[..=k].iter().map(|&x| json!([edges[x].op, edges[x].arg])).collect();
                    rep.mismatch(json!({"kind": "parser-rt", "buf": buf, "base": base, "ops": ops,
                        "spec": {"res": e.res, "obs": e.obs}, "impl": {"res": got, "obs": gobs}}));
                    if rep.total_mismatch.load(std::sync::atomic::Ordering::Relaxed) > 100 {
                        stop.store(true, std::sync::atomic::Ordering::Relaxed);
                    }
                    break;
                }
            }
            if ei % 40009 == 0 {
                rep.sample(json!({"ops": tr.iter().map(|&x| json!([edges[x].op, edges[x].arg, edges[x].res])).collect::<Vec<_>>()}));
            }
        }
        rep.count("steps", steps);
    });
    rep.finish();
}
