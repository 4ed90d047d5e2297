//! Integer expressions (Numeric.tla): evaluation, the machine-level functions, emitted code.
use crate::dec;
use crate::gencode;
use crate::util::{self, *};
use doodle::numeric::core::{BasicBinOp, BasicUnaryOp, BinOp, CastOp, Expr, MachineRep, NumRep, TypedConst, UnaryOp, VOID, Value};
use doodle::numeric::eval::{self as e, Eval};
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use serde_json::{Value as J, json};
use std::io::Write;
use std::sync::Mutex;

pub const REPS: [&str; 8] = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64"];
fn machine(r: &str) -> MachineRep {
    match r {
        "u8" => MachineRep::U8,
        "u16" => MachineRep::U16,
        "u32" => MachineRep::U32,
        "u64" => MachineRep::U64,
        "i8" => MachineRep::I8,
        "i16" => MachineRep::I16,
        "i32" => MachineRep::I32,
        "i64" => MachineRep::I64,
        _ => panic!("rep {r}"),
    }
}
pub fn rep_name(r: NumRep) -> &'static str {
    match r {
        NumRep::Auto => "auto",
        NumRep::Concrete(m) => REPS.iter().copied().find(|x| machine(x) == m).unwrap(),
    }
}
pub fn zjson(z: &BigInt) -> J {
    let (mut m, mut ls) = (z.abs(), vec![]);
    let base = BigInt::from(4096);
    while !m.is_zero() {
        ls.push(u64::try_from(&m % &base).unwrap());
        m /= &base;
    }
    json!([if z.is_negative() { -1 } else { 1 }, ls])
}
pub fn zof(j: &J) -> BigInt {
    let m = j[1].as_array().unwrap().iter().rev().fold(BigInt::zero(), |a, l| a * 4096 + l.as_u64().unwrap());
    if j[0] == -1 { -m } else { m }
}
fn s(j: &J) -> &str {
    j.as_str().unwrap()
}

pub fn tree(t: &J) -> Expr {
    let sub = |f: &str| Box::new(tree(&t[f]));
    let out = || match s(&t["r"]) {
        "none" => None,
        r => Some(machine(r)),
    };
    match s(&t["k"]) {
        "c" => Expr::Const(TypedConst(zof(&t["z"]), if t["r"] == "auto" { NumRep::Auto } else { NumRep::Concrete(machine(s(&t["r"]))) })),
        "v" => Expr::NumVar(crate::ast::lbl(&t["l"])),
        "b" => {
            let op = match s(&t["op"]) {
                "add" => BasicBinOp::Add,
                "sub" => BasicBinOp::Sub,
                "mul" => BasicBinOp::Mul,
                "div" => BasicBinOp::Div,
                _ => BasicBinOp::Rem,
            };
            Expr::BinOp(BinOp::new(op, out()), sub("a"), sub("b"))
        }
        "u" => {
            let op = match s(&t["op"]) {
                "neg" => BasicUnaryOp::Negate,
                "abs" => BasicUnaryOp::AbsVal,
                "succ" => BasicUnaryOp::IntSucc,
                _ => BasicUnaryOp::IntPred,
            };
            Expr::UnaryOp(UnaryOp::new(op, out()), sub("a"))
        }
        "cast" => {
            let m = machine(s(&t["r"]));
            Expr::Cast(if t["bit"] == true { CastOp::bitwise(m) } else { CastOp::arith(m) }, sub("a"))
        }
        k => panic!("numeric kind {k}"),
    }
}

// ---------------------------------------------------------------- generation
pub fn limits(r: &str) -> (BigInt, BigInt) {
    let w: u32 = r[1..].parse().unwrap();
    if r.starts_with('u') {
        (BigInt::zero(), (BigInt::one() << w) - 1)
    } else {
        (-(BigInt::one() << (w - 1)), (BigInt::one() << (w - 1)) - 1)
    }
}
/// Values at and around the limits of all types, inside the type (or, `wide`, just outside as well).
pub fn pool(r: &str, wide: bool) -> Vec<BigInt> {
    let mut v: Vec<BigInt> = [0i64, 1, 2, 3, 7, 10, 100].iter().map(|x| BigInt::from(*x)).collect();
    v.extend([-1i64, -2, -3, -7, -100].iter().map(|x| BigInt::from(*x)));
    for t in REPS {
        let (lo, hi) = limits(t);
        for d in -1..=1 {
            v.push(&lo + d);
            v.push(&hi + d);
        }
    }
    v.sort();
    v.dedup();
    if r != "auto" {
        let (lo, hi) = limits(r);
        let d = if wide { 1 } else { 0 };
        v.retain(|x| *x >= &lo - d && *x <= &hi + d);
    }
    v
}
fn any_rep<'a>(r: &mut Rng, auto: bool) -> &'a str {
    if auto && r.chance(1, 6) { "auto" } else { REPS[r.below(8)] }
}
fn value(r: &mut Rng, rep: &str, wide: bool) -> BigInt {
    let w = wide && r.chance(1, 12);
    let p = pool(rep, w);
    if r.chance(1, 4) {
        // anything in between
        let (lo, hi) = limits(if rep == "auto" { "i32" } else { rep });
        let span = &hi - &lo + 1;
        return &lo + BigInt::from(r.next()) % span;
    }
    r.pick(&p).clone()
}
struct G<'a> {
    r: &'a mut Rng,
    vars: Vec<(String, String)>,
    emit: bool,
}
impl G<'_> {
    /// A tree; its type is `want` if that is a machine type.
    fn tree(&mut self, depth: usize, want: Option<&str>) -> J {
        let want = want.map(|w| w.to_string());
        let rep = want.clone().unwrap_or_else(|| any_rep(self.r, !self.emit).to_string());
        if depth == 0 || self.r.chance(1, 6) {
            let vs: Vec<_> = self.vars.iter().filter(|v| want.as_ref().is_none_or(|w| v.1 == *w)).cloned().collect();
            if !vs.is_empty() && self.r.chance(3, 5) {
                return json!({"k": "v", "l": self.r.pick(&vs).0});
            }
            let z = value(self.r, &rep, !self.emit);
            return json!({"k": "c", "z": zjson(&z), "r": rep});
        }
        // the type of the result: stated, or that of the operands
        let stated = want.is_none() && self.r.chance(1, 2) || self.r.chance(1, 2);
        let out = if stated && rep != "auto" { json!(rep) } else { json!("none") };
        let inner = |g: &mut Self| -> Option<String> {
            if out == "none" {
                (want.is_some() || g.r.chance(3, 4)).then(|| rep.clone())
            } else if g.emit {
                // mostly operand types the result type includes (others are emitted through a generic fallback)
                let (lo, hi) = limits(&rep);
                let sub: Vec<&str> = REPS.iter().copied().filter(|t| limits(t).0 >= lo && limits(t).1 <= hi).collect();
                Some(if g.r.chance(14, 15) { (*g.r.pick(&sub)).to_string() } else { any_rep(g.r, false).to_string() })
            } else {
                g.r.chance(1, 2).then(|| any_rep(g.r, true).to_string())
            }
        };
        match self.r.below(10) {
            0..=5 => {
                let op = *self.r.pick(&["add", "sub", "mul", "div", "rem"]);
                let (x, y) = (inner(self), inner(self));
                let mut a = self.tree(depth - 1, x.as_deref());
                let mut b = self.tree(depth - 1, y.as_deref());
                if self.emit && self.r.chance(1, 8) {
                    // an untyped constant beside a typed operand
                    let z = BigInt::from(self.r.below(100));
                    let c = json!({"k": "c", "z": zjson(&z), "r": "auto"});
                    if self.r.chance(1, 2) { a = c } else { b = c }
                }
                json!({"k": "b", "op": op, "r": out, "a": a, "b": b})
            }
            6 | 7 => {
                let ops: &[&str] = if self.emit { &["neg", "abs"] } else { &["neg", "abs", "succ", "pred"] };
                let op = *self.r.pick(ops);
                let x = inner(self);
                json!({"k": "u", "op": op, "r": out, "a": self.tree(depth - 1, x.as_deref())})
            }
            _ => {
                let r = if rep == "auto" { "u8".to_string() } else { rep };
                let x = any_rep(self.r, !self.emit).to_string();
                json!({"k": "cast", "r": r, "bit": self.r.chance(1, 2), "a": self.tree(depth - 1, Some(&x))})
            }
        }
    }
}

// ---------------------------------------------------------------- evaluation
fn ok_json(v: &Value) -> (J, J) {
    let c = v.as_const().unwrap();
    (zjson(c.as_raw_value()), json!(rep_name(c.get_rep())))
}
fn direct(t: &J) -> J {
    let x = tree(t);
    let ev = match guard(|| x.eval(VOID).map_err(|_| ())) {
        Ok(Ok(v)) => {
            let (z, r) = ok_json(&v);
            json!(["ok", z, r])
        }
        Ok(Err(())) => json!(["err"]),
        Err(_) => json!(["panic"]),
    };
    let st = match guard(|| x.eval_strict(VOID).map_err(|_| ())) {
        Ok(Ok(v)) => {
            let (z, r) = ok_json(&v.value);
            json!(["ok", z, r, v.is_valid])
        }
        Ok(Err(())) => json!(["err"]),
        Err(_) => json!(["panic"]),
    };
    json!({"t": "eval", "env": [], "eval": ev, "strict": st})
}

/// Binds the variables around a format; `how` varies the shape of the bound value.
fn bind(r: &mut Rng, env: &J, f: J) -> J {
    let mut f = f;
    for v in env.as_array().unwrap().iter().rev() {
        let (l, z, rep) = (&v[0], &v[1], s(&v[2]));
        let e = if rep == "other" {
            json!({"k": "bool", "b": true})
        } else if rep.starts_with('u') && r.chance(2, 3) {
            json!({"k": "num", "t": rep, "n": z[1]})
        } else {
            json!({"k": "numeric", "e": {"k": "c", "z": z, "r": rep}})
        };
        f = match r.below(3) {
            0 => json!({"k": "let", "l": l, "e": e, "f": f}),
            1 => json!({"k": "letf", "l": l, "f": {"k": "compute", "e": e}, "g": f}),
            _ => json!({"k": "letf", "l": l, "f": {"k": "map", "f": {"k": "compute", "e": e},
                        "x": {"k": "lam", "l": "q", "e": {"k": "var", "l": "q"}}}, "g": f}),
        };
    }
    f
}
/// ["ok", payload...] without the position
fn strip(o: &J) -> J {
    match (o[0].as_str().unwrap(), o[1][0].as_str()) {
        ("ok", Some("numeric")) => json!(["ok", o[1][1], o[1][2]]),
        ("ok", Some("bool")) => json!(["ok", o[1][1]]),
        ("ok", _) => json!(["ok", o[1]]),
        (x, _) => json!([x]),
    }
}

pub fn eval_main(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 20000) as usize;
    let per = opt_u64(args, "--pairs", 4) as usize;
    let depth = opt_u64(args, "--depth", 4) as usize;
    let dir = opt(args, "--dir").unwrap();
    let rep = Report::new();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap()));
    let put = |t: &J, cases: Vec<J>| writeln!(out.lock().unwrap(), "{}", json!({"e": t, "cases": cases})).unwrap();
    // one operation, all types
    let mut one = vec![];
    let reps: Vec<&str> = REPS.iter().copied().chain(["auto"]).collect();
    let outs: Vec<&str> = REPS.iter().copied().chain(["none"]).collect();
    let mut r = Rng(util::mix(seed, 77));
    for ra in &reps {
        let va = pool(ra, true);
        for o in &outs {
            for z in &va {
                let a = json!({"k": "c", "z": zjson(z), "r": ra});
                for op in ["neg", "abs", "succ", "pred"] {
                    one.push(json!({"k": "u", "op": op, "r": o, "a": a}));
                }
                if *o != "none" {
                    for bit in [true, false] {
                        one.push(json!({"k": "cast", "r": o, "bit": bit, "a": a}));
                    }
                }
            }
            for rb in &reps {
                let vb = pool(rb, true);
                for op in ["add", "sub", "mul", "div", "rem"] {
                    for _ in 0..per {
                        let (x, y) = (r.pick(&va).clone(), r.pick(&vb).clone());
                        one.push(json!({"k": "b", "op": op, "r": o, "a": {"k": "c", "z": zjson(&x), "r": ra}, "b": {"k": "c", "z": zjson(&y), "r": rb}}));
                    }
                }
            }
        }
    }
    rep.count("trees of one operation", one.len() as u64);
    util::parallel(one.len(), |i| put(&one[i], vec![direct(&one[i])]));
    // larger trees, directly and inside formats
    util::parallel(n, |i| {
        let mut r = Rng(util::mix(seed, i as u64));
        let names = ["a", "b", "c", "d"];
        let k = r.below(5);
        let mut env = vec![];
        for name in names.iter().take(k) {
            let rp = any_rep(&mut r, true);
            if r.chance(1, 25) {
                env.push(json!([name, [1, []], "other"]));
            } else {
                let rp = if rp == "auto" { "u8" } else { rp };
                env.push(json!([name, zjson(&value(&mut r, rp, false)), rp]));
            }
        }
        if k > 1 && r.chance(1, 4) {
            // a shadowed name
            env[k - 1][0] = env[0][0].clone();
        }
        let vars: Vec<(String, String)> =
            env.iter().map(|v| (s(&v[0]).to_string(), s(&v[2]).to_string())).collect();
        let d = 1 + r.below(depth);
        let t = G { r: &mut r, vars: vars.clone(), emit: false }.tree(d, None);
        if vars.is_empty() {
            rep.count("direct", 1);
            put(&t, vec![direct(&t)]);
            return;
        }
        let env = json!(env);
        let mut cases = vec![];
        let body = json!({"k": "compute", "e": {"k": "numeric", "e": t}});
        let f = bind(&mut r, &env, body);
        match dec::build(&json!([]), &f) {
            Ok(c) => {
                rep.count("in formats", 1);
                cases.push(json!({"t": "run", "env": env, "out": strip(&dec::run(&c.program, &[])), "loc": strip(&dec::run_loc(&c.program, &[]).0)}));
            }
            Err(_) => rep.count("refused by type inference", 1),
        }
        // comparisons
        let m = r.chance(1, 2);
        let other = if m {
            let rp = REPS[r.below(4)];
            json!({"k": "c", "z": zjson(&value(&mut r, rp, false)), "r": rp})
        } else {
            G { r: &mut r, vars, emit: false }.tree(1, None)
        };
        let flip = r.chance(1, 2);
        let op = *r.pick(&["eq", "ne", "lt", "le", "gt", "ge"]);
        let x = json!({"k": "numeric", "e": t});
        let y = if m { json!({"k": "num", "t": other["r"], "n": other["z"][1]}) } else { json!({"k": "numeric", "e": other}) };
        let (x, y) = if flip { (y, x) } else { (x, y) };
        let f = bind(&mut r, &env, json!({"k": "compute", "e": {"k": "rel", "op": op, "a": x, "b": y}}));
        match dec::build(&json!([]), &f) {
            Ok(c) => {
                rep.count("comparisons", 1);
                cases.push(json!({"t": "rel", "env": env, "op": op, "other": other, "m": m, "flip": flip,
                    "out": strip(&dec::run(&c.program, &[])), "loc": strip(&dec::run_loc(&c.program, &[]).0)}));
            }
            Err(_) => rep.count("comparison refused by type inference", 1),
        }
        if !cases.is_empty() {
            put(&t, cases);
        }
    });
    out.lock().unwrap().flush().unwrap();
    rep.finish();
}

// ---------------------------------------------------------------- machine-level functions
fn outcome<T: Copy>(x: Eval<T>) -> J
where
    BigInt: From<T>,
{
    match x.eval() {
        Ok(v) => json!(["ok", zjson(&BigInt::from(v))]),
        Err(e::EvalError::Indirect(z)) => json!(["out", zjson(&z)]),
        Err(e::EvalError::NotANumber) => json!(["nan"]),
    }
}
struct F {
    name: &'static str,
    op: &'static str,
    l: &'static str,
    r: Option<&'static str>,
    o: &'static str,
    call: fn(i128, i128) -> J,
}
fn table() -> Vec<F> {
    let mut v: Vec<F> = vec![];
    macro_rules! binary { ($($f:ident $op:literal $l:ident, $r:ident => $o:ident;)*) => { $(
        v.push(F { name: stringify!($f), op: $op, l: stringify!($l), r: Some(stringify!($r)), o: stringify!($o),
                   call: |x, y| { let z: Eval<$o> = e::$f(x as $l, y as $r); outcome(z) } });
    )* } }
    macro_rules! unary { ($($f:ident $op:literal $l:ident => $o:ident;)*) => { $(
        v.push(F { name: stringify!($f), op: $op, l: stringify!($l), r: None, o: stringify!($o),
                   call: |x, _| { let z: Eval<$o> = e::$f(x as $l); outcome(z) } });
    )* } }
    include!("num_fns.rs");
    v
}
pub fn fns_main(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let pairs = opt_u64(args, "--pairs", 60) as usize;
    let dir = opt(args, "--dir").unwrap();
    let rep = Report::new();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/fns.ndjson")).unwrap()));
    let fs = table();
    util::parallel(fs.len(), |i| {
        let f = &fs[i];
        let mut r = Rng(util::mix(seed, i as u64 + 1000));
        let i128of = |z: &BigInt| i128::try_from(z).unwrap();
        let xs: Vec<i128> = pool(f.l, false).iter().map(i128of).collect();
        let mut args: Vec<(i128, i128)> = vec![];
        match f.r {
            None => args.extend(xs.iter().map(|x| (*x, 0))),
            Some(rr) => {
                let ys: Vec<i128> = pool(rr, false).iter().map(i128of).collect();
                // the corners always, the others sampled
                for x in [xs[0], 0, *xs.last().unwrap()] {
                    for y in [ys[0], if rr.starts_with('i') { -1 } else { 1 }, 0, *ys.last().unwrap()] {
                        args.push((x, y));
                    }
                }
                let mut rest: Vec<(i128, i128)> = xs.iter().flat_map(|x| ys.iter().map(|y| (*x, *y))).collect();
                while !rest.is_empty() && args.len() < pairs {
                    args.push(rest.swap_remove(r.below(rest.len())));
                }
            }
        }
        let z = |x: i128| zjson(&BigInt::from(x));
        let cases: Vec<J> = args
            .iter()
            .map(|(x, y)| {
                let o = guard(|| (f.call)(*x, *y)).unwrap_or(json!(["panic"]));
                json!({"t": "fn", "x": z(*x), "y": z(*y), "out": o})
            })
            .collect();
        rep.count("functions", 1);
        rep.count("calls", cases.len() as u64);
        let ar = if f.r.is_some() { 2 } else { 1 };
        writeln!(out.lock().unwrap(), "{}", json!({"e": {"name": f.name, "op": f.op, "ar": ar, "o": f.o}, "cases": cases})).unwrap();
    });
    out.lock().unwrap().flush().unwrap();
    rep.finish();
}

// ---------------------------------------------------------------- emitted code
/// The variables an emitted tree may use, from the first two bytes of the input.
const VARS: [(&str, &str, &[usize]); 4] = [("x", "u8", &[0]), ("y", "u16", &[0, 1]), ("z", "u32", &[1, 0, 0, 1]), ("w", "u64", &[1, 1, 0, 0, 0, 0, 1, 0])];
fn program(t: &J) -> J {
    let any = json!({"k": "byte", "bs": [], "neg": true});
    // in a tuple: the failure of a tail expression is emitted with the wrong error type
    let mut f = json!({"k": "compute", "e": {"k": "tuple", "es": [{"k": "numeric", "e": t}, {"k": "var", "l": "x"}]}});
    for (l, ty, bs) in VARS.iter().rev() {
        let b = |i: &usize| json!({"k": "var", "l": format!("in{i}")});
        let e = if bs.len() == 1 {
            b(&bs[0])
        } else {
            json!({"k": "endian", "t": ty, "big": true, "e": {"k": "tuple", "es": bs.iter().map(b).collect::<Vec<_>>()}})
        };
        f = json!({"k": "let", "l": l, "e": e, "f": f});
    }
    json!({"k": "letf", "f": any, "l": "in0", "g": {"k": "letf", "f": any, "l": "in1", "g": f}})
}
fn environment(s: &[u8]) -> J {
    J::Array(
        VARS.iter()
            .map(|(l, ty, bs)| {
                let n = bs.iter().fold(0u64, |a, i| a << 8 | s[*i] as u64);
                json!([l, zjson(&BigInt::from(n)), ty])
            })
            .collect(),
    )
}
pub fn emit_main(args: &[String]) {
    let seed = opt_u64(args, "--seed", 1);
    let n = opt_u64(args, "--n", 1000) as usize;
    let depth = opt_u64(args, "--depth", 3) as usize;
    let dir = opt(args, "--dir").unwrap();
    std::fs::create_dir_all(format!("{dir}/src")).unwrap();
    let rep = Report::new();
    let out = Mutex::new(std::io::BufWriter::new(std::fs::File::create(format!("{dir}/meta.ndjson")).unwrap()));
    util::parallel(n, |i| {
        let mut r = Rng(util::mix(seed, i as u64));
        let vars = VARS.iter().map(|v| (v.0.to_string(), v.1.to_string())).collect();
        let d = 1 + r.below(depth);
        let want = any_rep(&mut r, false);
        let t = G { r: &mut r, vars, emit: true }.tree(d, Some(want));
        let (items, f) = gencode::wrap(&json!([]), &program(&t));
        let Ok(c) = dec::build(&items, &f) else {
            rep.count("refused by type inference", 1);
            return;
        };
        rep.count("programs", 1);
        match gencode::emit(&c) {
            Ok(s) => {
                std::fs::write(format!("{dir}/src/f{i}.rs"), s).unwrap();
                rep.count("emitted", 1);
                writeln!(out.lock().unwrap(), "{}", json!({"id": i, "M": items, "f": f, "e": t})).unwrap();
            }
            Err(m) => rep.count(&format!("not emitted: {}", m.chars().take(70).collect::<String>()), 1),
        }
    });
    out.lock().unwrap().flush().unwrap();
    rep.finish();
}
pub fn emit_compare(args: &[String]) {
    let dir = opt(args, "--dir").unwrap();
    let maxlen = opt_u64(args, "--maxlen", 2) as usize;
    let inputs = dec::strings(&crate::fgen::ALPHABET, maxlen);
    let rep = Report::new();
    let mut runs: std::collections::BTreeMap<u64, Vec<J>> = Default::default();
    for l in std::fs::read_to_string(format!("{dir}/runs.tsv")).unwrap().lines() {
        let p: Vec<&str> = l.splitn(5, '\t').collect();
        let input = &inputs[p[1].parse::<usize>().unwrap()];
        if input.len() < 2 {
            continue;
        }
        let out = match p[2] {
            "ok" => match p[4].trim_start_matches('(').split(',').next().unwrap().parse::<BigInt>() {
                Ok(z) => json!(["ok", zjson(&z)]),
                Err(_) => json!(["ok", ["text", p[4]]]),
            },
            x => json!([x]),
        };
        rep.count(&format!("emitted code: {}", p[2]), 1);
        runs.entry(p[0].parse().unwrap()).or_default().push(json!({"t": "emitted", "env": environment(input), "out": out}));
    }
    let mut o = std::io::BufWriter::new(std::fs::File::create(format!("{dir}/cases.ndjson")).unwrap());
    for l in std::fs::read_to_string(format!("{dir}/meta.ndjson")).unwrap().lines() {
        let m: J = serde_json::from_str(l).unwrap();
        if let Some(cs) = runs.get(&m["id"].as_u64().unwrap()) {
            rep.count("modules", 1);
            writeln!(o, "{}", json!({"e": m["e"], "cases": cs})).unwrap();
        }
    }
    o.flush().unwrap();
    rep.finish();
}
