//! Type-directed generator of well-typed formats, in the JSON form of ast.rs.
use crate::ast::limbs;
use crate::util::Rng;
use serde_json::{Value as J, json};

pub const ALPHABET: [u8; 4] = [0, 1, 2, 200];

#[derive(Clone, Default)]
pub struct Cx {
    pub vars: Vec<(String, J)>,
    pub views: Vec<String>,
    pub dyns: Vec<String>,
    pub bits: bool,
}

#[derive(Clone)]
pub struct Item {
    pub args: Vec<(String, J)>,
    pub views: Vec<String>,
    pub t: J,
    pub f: J,
    pub nul: bool,
    pub bits: bool,
}

/// Which constructs a run concentrates on.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Focus {
    All,
    Choice,
    Exprs,
    Patterns,
    Views,
    /// only what the code generator supports
    Codegen,
    /// constructs that set the input back: alternatives, look-ahead, seeks, slices, fallbacks
    Backtrack,
    /// operators on numbers and truth values
    Ops,
    /// named formats with an open end, called where different things follow
    Follow,
}

pub struct Gen {
    pub r: Rng,
    pub focus: Focus,
    pub items: Vec<Item>,
}

fn num(t: &str, n: u128) -> J {
    json!({"k": "num", "t": t, "n": limbs(n)})
}
fn is_num(t: &J) -> bool {
    matches!(t.as_str(), Some("u8" | "u16" | "u32" | "u64"))
}
fn width(t: &str) -> u32 {
    match t {
        "u8" => 8,
        "u16" => 16,
        "u32" => 32,
        _ => 64,
    }
}
fn tup(ts: Vec<J>) -> J {
    json!({"k": "tup", "ts": ts})
}
fn seqt(t: &J) -> J {
    json!({"k": "seq", "t": t})
}
fn optt(t: &J) -> J {
    json!({"k": "opt", "t": t})
}
fn kind(t: &J) -> &str {
    t.as_str().unwrap_or_else(|| t["k"].as_str().unwrap())
}
fn lam(l: &str, e: J) -> J {
    json!({"k": "lam", "l": l, "e": e})
}
fn var(l: &str) -> J {
    json!({"k": "var", "l": l})
}

const NAMES: [&str; 4] = ["x", "y", "z", "q"];
const FIELDS: [&str; 4] = ["a", "b", "c", "d"];
const LABELS: [&str; 4] = ["Aa", "Bb", "Cc", "Dd"];

impl Cx {
    fn with(&self, l: &str, t: &J) -> Cx {
        let mut c = self.clone();
        c.vars.push((l.to_string(), t.clone()));
        c
    }
    /// Variables visible by name: the innermost binding of each name.
    fn visible(&self) -> Vec<(String, J)> {
        let mut out: Vec<(String, J)> = vec![];
        for (n, t) in self.vars.iter().rev() {
            if !out.iter().any(|(m, _)| m == n) {
                out.push((n.clone(), t.clone()));
            }
        }
        out
    }
}

impl Gen {
    pub fn new(seed: u64, focus: Focus) -> Gen {
        Gen { r: Rng(seed), focus, items: vec![] }
    }
    fn name(&mut self) -> &'static str {
        *self.r.pick(&NAMES)
    }

    pub fn ty(&mut self, d: usize) -> J {
        let n = if d == 0 { 5 } else { 12 };
        match self.r.below(n) {
            0 | 1 => json!("u8"),
            2 => json!("u16"),
            3 => json!(*self.r.pick(&["u32", "bool", "u64"])),
            4 => json!(*self.r.pick(&["u8", "u8", "char", "bool"])),
            5 => {
                let k = self.r.below(4);
                tup((0..k).map(|_| self.ty(d - 1)).collect())
            }
            6 => {
                let k = self.r.range(1, 3);
                json!({"k": "rec", "fs": (0..k).map(|i| json!([FIELDS[i], self.ty(d - 1)])).collect::<Vec<_>>()})
            }
            7 | 8 => {
                let k = self.r.range(1, 3);
                json!({"k": "union", "bs": (0..k).map(|i| json!([LABELS[i], self.ty(d - 1)])).collect::<Vec<_>>()})
            }
            9 | 10 => seqt(&self.ty(d - 1)),
            _ => optt(&self.ty(d - 1)),
        }
    }

    pub fn konst(&mut self, t: &str) -> J {
        let w = width(t);
        let max: u128 = (1u128 << w) - 1;
        let n = match self.r.below(12) {
            0..=2 => 0,
            3..=5 => 1,
            6 | 7 => 2,
            8 => 3,
            9 => *self.r.pick(&[7u128, 8, 15, 16, 31, 32, 63, 64, 255, 256, 65535, 65536]) % (max + 1),
            10 => max - self.r.below(3) as u128,
            _ => (self.r.next() as u128) & max,
        };
        num(t, n)
    }

    /// Arithmetic over numeric constants and variables only, with every operator.
    pub fn arith(&mut self, t: &J, d: usize, cx: &Cx) -> J {
        let k = kind(t).to_string();
        if d == 0 {
            let ps = self.paths(t, cx);
            return if !ps.is_empty() && self.r.chance(1, 3) { self.r.pick(&ps).clone() } else { self.konst(&k) };
        }
        match self.r.below(10) {
            0..=5 => {
                let op = *self.r.pick(&["add", "sub", "mul", "div", "rem", "and", "or", "shl", "shr", "and", "or", "shl"]);
                let a = self.arith(t, d - 1, cx);
                let b = if (op == "shl" || op == "shr") && self.r.chance(2, 3) {
                    num(&k, self.r.below(width(&k) as usize + 1) as u128)
                } else {
                    self.arith(t, d - 1, cx)
                };
                json!({"k": "arith", "op": op, "a": a, "b": b})
            }
            6 | 7 => {
                let u = json!(*self.r.pick(&["u8", "u8", "u16", "u32", "u64"]));
                json!({"k": "as", "t": k, "e": self.arith(&u, d - 1, cx)})
            }
            8 => json!({"k": "un", "op": *self.r.pick(&["succ", "pred"]), "e": self.arith(t, d - 1, cx)}),
            _ => self.arith(t, 0, cx),
        }
    }

    /// Small natural numbers, for counts and sizes.
    fn small(&mut self, cx: &Cx, max: u64) -> J {
        let vs: Vec<(String, J)> = cx.visible().into_iter().filter(|(_, t)| is_num(t)).collect();
        let t = *self.r.pick(&["u8", "u8", "u16", "u32", "u64"]);
        match self.r.below(8) {
            0..=3 if !vs.is_empty() => {
                let (n, t) = self.r.pick(&vs).clone();
                if kind(&t) == "u8" {
                    var(&n)
                } else {
                    json!({"k": "arith", "op": "and", "a": var(&n), "b": num(kind(&t), 3)})
                }
            }
            4 => {
                let e = if self.r.chance(1, 2) { self.expr(&json!("u8"), 1, cx) } else { self.arith(&json!("u8"), 2, cx) };
                json!({"k": "arith", "op": "and", "a": e, "b": num("u8", 3)})
            }
            _ => num(t, self.r.below(max as usize + 1) as u128),
        }
    }

    /// A small u32, for indices.
    fn small32(&mut self, cx: &Cx, max: u64) -> J {
        match self.r.below(3) {
            0 => {
                let e = self.expr(&json!("u32"), 1, cx);
                json!({"k": "arith", "op": "and", "a": e, "b": num("u32", 3)})
            }
            1 => {
                let e = self.small(cx, max);
                json!({"k": "as", "t": "u32", "e": e})
            }
            _ => num("u32", self.r.below(max as usize + 1) as u128),
        }
    }

    /// Occurrences of type t reachable from the variables in scope by projection.
    fn paths(&mut self, t: &J, cx: &Cx) -> Vec<J> {
        let mut out = vec![];
        fn go(e: J, et: &J, t: &J, out: &mut Vec<J>, d: usize) {
            if et == t {
                out.push(e.clone());
            }
            if d == 0 {
                return;
            }
            match kind(et) {
                "tup" => {
                    for (i, u) in et["ts"].as_array().unwrap().iter().enumerate() {
                        go(json!({"k": "tproj", "e": e, "i": i}), u, t, out, d - 1);
                    }
                }
                "rec" => {
                    for p in et["fs"].as_array().unwrap() {
                        go(json!({"k": "rproj", "e": e, "l": p[0]}), &p[1], t, out, d - 1);
                    }
                }
                _ => {}
            }
        }
        for (n, vt) in cx.visible() {
            go(var(&n), &vt, t, &mut out, 2);
        }
        out
    }

    fn leaf(&mut self, t: &J, cx: &Cx) -> J {
        let ps = self.paths(t, cx);
        if !ps.is_empty() && self.r.chance(3, 4) {
            return self.r.pick(&ps).clone();
        }
        match kind(t) {
            "u8" | "u16" | "u32" | "u64" => self.konst(kind(t)),
            "bool" => json!({"k": "bool", "b": self.r.chance(1, 2)}),
            "char" => json!({"k": "aschar", "e": num(if self.r.chance(1, 2) { "u8" } else { "u32" }, self.r.below(128) as u128)}),
            "tup" => {
                let es: Vec<J> = t["ts"].as_array().unwrap().iter().map(|u| self.leaf(u, cx)).collect();
                json!({"k": "tuple", "es": es})
            }
            "rec" => {
                let fs: Vec<J> = t["fs"].as_array().unwrap().iter().map(|p| json!([p[0], self.leaf(&p[1], cx)])).collect();
                json!({"k": "record", "fs": fs})
            }
            "union" => {
                let bs = t["bs"].as_array().unwrap();
                let p = self.r.pick(bs).clone();
                json!({"k": "variant", "l": p[0], "e": self.leaf(&p[1], cx)})
            }
            "seq" => {
                let n = self.r.below(4);
                let es: Vec<J> = (0..n).map(|_| self.leaf(&t["t"], cx)).collect();
                json!({"k": "seq", "es": es})
            }
            "opt" => {
                if self.r.chance(1, 3) {
                    json!({"k": "lifto", "es": []})
                } else {
                    json!({"k": "lifto", "es": [self.leaf(&t["t"], cx)]})
                }
            }
            k => panic!("leaf {k}"),
        }
    }

    /// Types that occur in scope or simple ones, as an intermediate type.
    fn some_type(&mut self, cx: &Cx, d: usize) -> J {
        let vs = cx.visible();
        if !vs.is_empty() && self.r.chance(2, 3) {
            self.r.pick(&vs).1.clone()
        } else {
            self.ty(d.min(1))
        }
    }

    pub fn expr(&mut self, t: &J, d: usize, cx: &Cx) -> J {
        if d == 0 || self.r.chance(1, 5) {
            return self.leaf(t, cx);
        }
        // constructs available at every type
        match self.r.below(14) {
            0 => return self.match_expr(t, d, cx),
            1 => {
                let u = self.some_type(cx, d);
                let (p, bs) = self.irrefutable(&u, 2);
                let mut c = cx.clone();
                c.vars.extend(bs);
                return json!({"k": "destr", "e": self.expr(&u, d - 1, cx), "p": p, "b": self.expr(t, d - 1, &c)});
            }
            2 => {
                let i = self.small32(cx, 3);
                return json!({"k": "seqix", "e": self.expr(&seqt(t), d - 1, cx), "i": i});
            }
            3 => {
                let l = self.name();
                let u = self.ty(0);
                let c = cx.with(l, &tup(vec![t.clone(), u.clone()]));
                let body = self.expr(t, d - 1, &c);
                return json!({"k": "fold", "x": lam(l, body), "init": self.expr(t, d - 1, cx), "vt": t,
                              "e": self.expr(&seqt(&u), d - 1, cx)});
            }
            4 => {
                let k = self.r.range(1, 3);
                let i = self.r.below(k);
                let ts: Vec<J> = (0..k).map(|j| if j == i { t.clone() } else { self.ty(0) }).collect();
                return json!({"k": "tproj", "e": self.expr(&tup(ts), d - 1, cx), "i": i});
            }
            _ => {}
        }
        match kind(t) {
            k @ ("u8" | "u16" | "u32" | "u64") => match self.r.below(12) {
                0..=5 => {
                    let op = *self.r.pick(&["add", "sub", "mul", "div", "rem", "and", "or", "shl", "shr", "add", "sub"]);
                    let a = self.expr(t, d - 1, cx);
                    let b = if (op == "shl" || op == "shr") && self.r.chance(2, 3) {
                        num(k, self.r.below(width(k) as usize + 1) as u128)
                    } else {
                        self.expr(t, d - 1, cx)
                    };
                    json!({"k": "arith", "op": op, "a": a, "b": b})
                }
                6 | 7 => {
                    let u = json!(*self.r.pick(&["u8", "u16", "u32", "u64"]));
                    json!({"k": "as", "t": k, "e": self.expr(&u, d - 1, cx)})
                }
                8 => json!({"k": "un", "op": *self.r.pick(&["succ", "pred"]), "e": self.expr(t, d - 1, cx)}),
                9 if k != "u8" => {
                    let n = (width(k) / 8) as usize;
                    let u8s = tup(vec![json!("u8"); n]);
                    json!({"k": "endian", "t": k, "big": self.r.chance(1, 2), "e": self.expr(&u8s, d - 1, cx)})
                }
                10 if k == "u32" => {
                    let u = self.ty(0);
                    json!({"k": "len", "e": self.expr(&seqt(&u), d - 1, cx)})
                }
                _ => self.leaf(t, cx),
            },
            "bool" => match self.r.below(6) {
                0..=2 => {
                    let u = json!(*self.r.pick(&["u8", "u8", "u16", "u32", "u64"]));
                    let op = *self.r.pick(&["eq", "ne", "lt", "le", "gt", "ge"]);
                    json!({"k": "rel", "op": op, "a": self.expr(&u, d - 1, cx), "b": self.expr(&u, d - 1, cx)})
                }
                3 | 4 => {
                    let op = *self.r.pick(&["band", "bor"]);
                    json!({"k": "arith", "op": op, "a": self.expr(t, d - 1, cx), "b": self.expr(t, d - 1, cx)})
                }
                _ => json!({"k": "un", "op": "not", "e": self.expr(t, d - 1, cx)}),
            },
            "char" => {
                let u = *self.r.pick(&["u8", "u16", "u32", "u32", "u32", "u64"]);
                let e = if self.r.chance(1, 3) {
                    num(u, *self.r.pick(&[0xD7FFu128, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000]) & ((1u128 << width(u)) - 1))
                } else {
                    self.expr(&json!(u), d - 1, cx)
                };
                json!({"k": "aschar", "e": e})
            }
            "tup" => {
                let es: Vec<J> = t["ts"].as_array().unwrap().iter().map(|u| self.expr(u, d - 1, cx)).collect();
                json!({"k": "tuple", "es": es})
            }
            "rec" => {
                let fs: Vec<J> = t["fs"].as_array().unwrap().iter().map(|p| json!([p[0], self.expr(&p[1], d - 1, cx)])).collect();
                json!({"k": "record", "fs": fs})
            }
            "union" => {
                let bs = t["bs"].as_array().unwrap();
                let p = self.r.pick(bs).clone();
                json!({"k": "variant", "l": p[0], "e": self.expr(&p[1], d - 1, cx)})
            }
            "opt" => match self.r.below(4) {
                0 => json!({"k": "lifto", "es": []}),
                1 => {
                    // search by key
                    let l = self.name();
                    let kt = json!(*self.r.pick(&["u8", "u16", "u32"]));
                    let sorted = self.r.chance(1, 2);
                    if sorted && is_num(&t["t"]) {
                        let mut ns: Vec<u128> = (0..self.r.below(6)).map(|_| self.r.below(6) as u128).collect();
                        ns.sort();
                        ns.dedup();
                        let k = kind(&t["t"]);
                        let es: Vec<J> = ns.iter().map(|n| num(k, *n)).collect();
                        let q = json!({"k": "arith", "op": "and", "a": self.expr(&t["t"], d - 1, cx), "b": num(k, 7)});
                        json!({"k": "find", "sorted": true, "x": lam(l, var(l)), "q": q, "e": {"k": "seq", "es": es}})
                    } else {
                        let c = cx.with(l, &t["t"]);
                        let key = self.expr(&kt, d - 1, &c);
                        json!({"k": "find", "sorted": false, "x": lam(l, key), "q": self.expr(&kt, d - 1, cx),
                               "e": self.expr(&seqt(&t["t"]), d - 1, cx)})
                    }
                }
                _ => json!({"k": "lifto", "es": [self.expr(&t["t"], d - 1, cx)]}),
            },
            "seq" => {
                let et = t["t"].clone();
                match self.r.below(10) {
                    0 | 1 => {
                        let n = self.r.below(4);
                        let es: Vec<J> = (0..n).map(|_| self.expr(&et, d - 1, cx)).collect();
                        json!({"k": "seq", "es": es})
                    }
                    2 => {
                        let (a, b) = (self.small32(cx, 2), self.small32(cx, 2));
                        json!({"k": "subseq", "e": self.expr(t, d - 1, cx), "s": a, "n": b})
                    }
                    3 => {
                        let (a, b) = (self.small32(cx, 2), self.small32(cx, 4));
                        json!({"k": "inflate", "e": self.expr(t, d - 1, cx), "s": a, "n": b})
                    }
                    4 => json!({"k": "append", "a": self.expr(t, d - 1, cx), "b": self.expr(t, d - 1, cx)}),
                    5 => {
                        let n = self.small32(cx, 3);
                        json!({"k": "dup", "n": n, "e": self.expr(&et, d - 1, cx)})
                    }
                    6 => {
                        let l = self.name();
                        let u = self.ty(0);
                        let c = cx.with(l, &u);
                        json!({"k": "flatmap", "x": lam(l, self.expr(t, d - 1, &c)), "e": self.expr(&seqt(&u), d - 1, cx)})
                    }
                    7 => {
                        let l = self.name();
                        let u = self.ty(0);
                        let a = self.ty(0);
                        let c = cx.with(l, &tup(vec![a.clone(), u.clone()]));
                        let body = json!({"k": "tuple", "es": [self.expr(&a, d - 1, &c), self.expr(t, d - 1, &c)]});
                        json!({"k": "fmaccum", "x": lam(l, body), "init": self.expr(&a, d - 1, cx), "vt": a,
                               "e": self.expr(&seqt(&u), d - 1, cx)})
                    }
                    8 => {
                        let l = self.name();
                        let u = self.ty(0);
                        let c = cx.with(l, &tup(vec![t.clone(), u.clone()]));
                        json!({"k": "fmlist", "x": lam(l, self.expr(t, d - 1, &c)), "vt": et, "e": self.expr(&seqt(&u), d - 1, cx)})
                    }
                    _ => {
                        // range, observed only through casts
                        if is_num(&et) && self.focus != Focus::Codegen {
                            let l = self.name();
                            let body = json!({"k": "seq", "es": [{"k": "as", "t": kind(&et), "e": var(l)}]});
                            let (a, b) = (self.r.below(3), self.r.below(5));
                            json!({"k": "flatmap", "x": lam(l, body),
                                   "e": {"k": "range", "a": num("u32", a as u128), "b": num("u32", b as u128)}})
                        } else {
                            self.leaf(t, cx)
                        }
                    }
                }
            }
            _ => self.leaf(t, cx),
        }
    }

    /// Boolean conditions that are usually satisfiable both ways.
    fn cond(&mut self, t: &J, l: &str, d: usize, cx: &Cx) -> J {
        let c = cx.with(l, t);
        let ps = self.paths(&json!("u8"), &c);
        if !ps.is_empty() && self.r.chance(1, 2) {
            let e = self.r.pick(&ps).clone();
            let op = *self.r.pick(&["eq", "ne", "lt", "ge", "le", "gt"]);
            return json!({"k": "rel", "op": op, "a": e, "b": num("u8", *self.r.pick(&[0u128, 1, 2, 65]))});
        }
        self.expr(&json!("bool"), d, &c)
    }

    /// A pattern for type t with the variables it binds.
    fn pattern(&mut self, t: &J, d: usize) -> (J, Vec<(String, J)>) {
        if d == 0 || self.r.chance(1, 4) {
            return self.irrefutable(t, 0);
        }
        match kind(t) {
            k @ ("u8" | "u16" | "u32" | "u64") => match self.r.below(3) {
                0 => {
                    let lo = self.r.below(4) as u128;
                    let hi = lo + self.r.below(4) as u128;
                    if self.r.chance(1, 3) {
                        (json!({"k": "int", "lo": limbs(lo), "hasHi": false, "hi": []}), vec![])
                    } else {
                        (json!({"k": "int", "lo": limbs(lo), "hasHi": true, "hi": limbs(hi)}), vec![])
                    }
                }
                _ => {
                    let n = *self.r.pick(&[0u128, 1, 2, 65, (1u128 << width(k)) - 1]);
                    (json!({"k": "num", "t": k, "n": limbs(n)}), vec![])
                }
            },
            "bool" => (json!({"k": "bool", "b": self.r.chance(1, 2)}), vec![]),
            "char" => (json!({"k": "char", "n": limbs(*self.r.pick(&[0u128, 1, 65, 0xFFFD]))}), vec![]),
            "tup" => {
                let mut bs = vec![];
                let ps: Vec<J> = t["ts"]
                    .as_array()
                    .unwrap()
                    .iter()
                    .map(|u| {
                        let (p, b) = self.pattern(u, d - 1);
                        bs.extend(b);
                        p
                    })
                    .collect();
                (json!({"k": "tuple", "ps": ps}), bs)
            }
            "seq" => {
                let n = self.r.below(4);
                let mut bs = vec![];
                let ps: Vec<J> = (0..n)
                    .map(|_| {
                        let (p, b) = self.pattern(&t["t"], d - 1);
                        bs.extend(b);
                        p
                    })
                    .collect();
                (json!({"k": "seq", "ps": ps}), bs)
            }
            "union" => {
                let p = self.r.pick(t["bs"].as_array().unwrap()).clone();
                let (q, b) = self.pattern(&p[1], d - 1);
                (json!({"k": "variant", "l": p[0], "p": q}), b)
            }
            "opt" => {
                if self.r.chance(1, 3) {
                    (json!({"k": "opt", "ps": []}), vec![])
                } else {
                    let (q, b) = self.pattern(&t["t"], d - 1);
                    (json!({"k": "opt", "ps": [q]}), b)
                }
            }
            _ => self.irrefutable(t, 0),
        }
    }

    fn irrefutable(&mut self, t: &J, d: usize) -> (J, Vec<(String, J)>) {
        if d > 0 && kind(t) == "tup" && self.r.chance(2, 3) {
            let mut bs = vec![];
            let ps: Vec<J> = t["ts"]
                .as_array()
                .unwrap()
                .iter()
                .map(|u| {
                    let (p, b) = self.irrefutable(u, d - 1);
                    bs.extend(b);
                    p
                })
                .collect();
            return (json!({"k": "tuple", "ps": ps}), bs);
        }
        if self.r.chance(1, 3) {
            (json!({"k": "wild"}), vec![])
        } else {
            let l = self.name();
            (json!({"k": "bind", "l": l}), vec![(l.to_string(), t.clone())])
        }
    }

    /// Branch patterns, nearly always exhaustive.
    fn patterns(&mut self, t: &J) -> Vec<(J, Vec<(String, J)>)> {
        let n = self.r.range(0, 3);
        let mut out: Vec<_> = (0..n).map(|_| self.pattern(t, 3)).collect();
        if out.is_empty() || self.r.chance(9, 10) {
            out.push(self.irrefutable(t, 1));
        }
        // a pattern must not bind the same name twice
        for (p, bs) in out.iter_mut() {
            let mut seen: Vec<String> = vec![];
            dedupe(p, &mut seen);
            let mut keep: Vec<(String, J)> = vec![];
            for b in bs.iter() {
                if !keep.iter().any(|(m, _)| *m == b.0) {
                    keep.push(b.clone());
                }
            }
            *bs = keep;
        }
        out
    }

    fn match_expr(&mut self, t: &J, d: usize, cx: &Cx) -> J {
        let u = self.some_type(cx, d);
        let head = self.expr(&u, d - 1, cx);
        let bs: Vec<J> = self
            .patterns(&u)
            .into_iter()
            .map(|(p, b)| {
                let mut c = cx.clone();
                c.vars.extend(b);
                json!([p, self.expr(t, d - 1, &c)])
            })
            .collect();
        json!({"k": "match", "e": head, "bs": bs})
    }

    fn byteset(&mut self, bits: bool) -> J {
        if bits {
            return match self.r.below(4) {
                0 => json!({"k": "byte", "bs": [0], "neg": false}),
                1 => json!({"k": "byte", "bs": [1], "neg": false}),
                _ => json!({"k": "byte", "bs": [], "neg": true}),
            };
        }
        match self.r.below(8) {
            0 => json!({"k": "byte", "bs": [], "neg": true}),
            1 => json!({"k": "byte", "bs": [*self.r.pick(&ALPHABET)], "neg": true}),
            2 | 3 => {
                let bs: Vec<u8> = ALPHABET.iter().copied().filter(|_| self.r.chance(1, 2)).collect();
                if bs.is_empty() { json!({"k": "byte", "bs": [1], "neg": false}) } else { json!({"k": "byte", "bs": bs, "neg": false}) }
            }
            _ => json!({"k": "byte", "bs": [*self.r.pick(&ALPHABET)], "neg": false}),
        }
    }

    /// A format of type t; the flag says whether it may consume nothing.
    pub fn fmt(&mut self, t: &J, d: usize, cx: &Cx) -> (J, bool) {
        if d == 0 {
            return self.fmt_leaf(t, cx);
        }
        let cg = self.focus == Focus::Codegen;
        let w = match self.focus {
            Focus::Choice => 8,
            Focus::Exprs => 20,
            _ => 34,
        };
        match self.r.below(w) {
            // alternatives
            0..=2 => {
                let n = self.r.range(2, 3);
                let kindname = if self.r.chance(1, 4) { "nondet" } else { "union" };
                let mut nul = false;
                let fs: Vec<J> = (0..n)
                    .map(|_| {
                        let (f, z) = self.fmt(t, d - 1, cx);
                        if self.r.chance(1, 25) {
                            return json!({"k": "fail"});
                        }
                        nul |= z;
                        f
                    })
                    .collect();
                return (json!({"k": kindname, "fs": fs}), nul);
            }
            3 => {
                let u = self.ty(1);
                let (f, z) = self.fmt(&u, d - 1, cx);
                let (f, z) = match self.r.below(10) {
                    0 if !cx.bits && !cx.views.is_empty() => (json!({"k": "reify", "v": self.view(cx)}), true),
                    1 if !cg => (json!({"k": "phantom", "f": f}), true),
                    _ => (f, z),
                };
                let (g, y) = self.fmt(t, d - 1, cx);
                return (json!({"k": "mseq", "f": f, "g": g}), z && y);
            }
            4 | 8 => {
                let u = self.ty(1);
                let l = self.name();
                let (f, z) = self.fmt(&u, d - 1, cx);
                let (g, y) = self.fmt(t, d - 1, &cx.with(l, &u));
                return (json!({"k": "letf", "f": f, "l": l, "g": g}), z && y);
            }
            5 => {
                let e = self.small(cx, 4);
                let (f, _) = self.fmt(t, d - 1, cx);
                return (json!({"k": "slice", "e": e, "f": f}), true);
            }
            6 => {
                let (f, _) = self.fmt(t, d - 1, cx);
                return (json!({"k": "peek", "f": f}), true);
            }
            9 | 10 => {
                let u = self.ty(1);
                let l = self.name();
                let (f, z) = self.fmt(&u, d - 1, cx);
                let e = self.expr(t, 2, &cx.with(l, &u));
                return (json!({"k": "map", "f": f, "x": lam(l, e)}), z);
            }
            11 | 12 => {
                let l = self.name();
                let (f, z) = self.fmt(t, d - 1, cx);
                let e = self.cond(t, l, 2, cx);
                return (json!({"k": "where", "f": f, "x": lam(l, e), "strict": cg || self.r.chance(4, 5)}), z);
            }
            13 => {
                let u = self.ty(1);
                let l = self.name();
                let e = self.expr(&u, 2, cx);
                let (f, z) = self.fmt(t, d - 1, &cx.with(l, &u));
                return (json!({"k": "let", "l": l, "e": e, "f": f}), z);
            }
            14 | 15 => {
                let u = self.some_type(cx, 1);
                let e = self.expr(&u, 1, cx);
                let mut nul = false;
                let bs: Vec<J> = self
                    .patterns(&u)
                    .into_iter()
                    .map(|(p, b)| {
                        let mut c = cx.clone();
                        c.vars.extend(b);
                        let (f, z) = self.fmt(t, d - 1, &c);
                        nul |= z;
                        json!([p, f])
                    })
                    .collect();
                return (json!({"k": "match", "e": e, "bs": bs}), nul);
            }
            16 => return (json!({"k": "compute", "e": self.expr(t, 2, cx)}), true),
            20 | 21 if !cx.bits => {
                let mut c = cx.clone();
                c.bits = true;
                let (f, z) = self.fmt(t, d - 1, &c);
                return (json!({"k": "bits", "f": f}), z);
            }
            22 if !cx.bits => {
                let (a, b) = (self.small(cx, 1), self.small(cx, 2));
                let (f, _) = self.fmt(t, d - 1, cx);
                let base = json!({"k": "as", "t": "u64", "e": a});
                let off = json!({"k": "as", "t": "u64", "e": b});
                return (json!({"k": "reloff", "base": base, "off": off, "f": f}), true);
            }
            23 if !cx.bits => {
                let e = self.expr(&seqt(&json!("u8")), 2, cx);
                let (f, _) = self.fmt(t, d - 1, cx);
                return (json!({"k": "decbytes", "e": e, "f": f}), true);
            }
            24 | 25 if !cx.bits => {
                let l = *self.r.pick(&["v", "w"]);
                let mut c = cx.clone();
                c.views.push(l.to_string());
                let (f, z) = self.fmt(t, d - 1, &c);
                return (json!({"k": "letview", "l": l, "f": f}), z);
            }
            26 | 27 if !cx.views.is_empty() && !cx.bits => {
                let v = self.view(cx);
                let (f, _) = self.fmt(t, d - 1, cx);
                return (json!({"k": "fromview", "v": v, "f": f}), true);
            }
            28 if is_num(t) && !cg => {
                let (f, _) = self.fmt(t, d - 1, cx);
                let e = self.expr(t, 1, cx);
                return (json!({"k": "permit", "f": f, "e": e}), true);
            }
            29 => {
                let cands: Vec<usize> =
                    (0..self.items.len()).filter(|i| self.items[*i].t == *t && self.items[*i].bits == cx.bits).collect();
                let cands: Vec<usize> = cands.into_iter().filter(|i| self.items[*i].views.is_empty() || !cx.views.is_empty()).collect();
                if !cands.is_empty() {
                    let i = *self.r.pick(&cands);
                    let it = self.items[i].clone();
                    let args: Vec<J> = it.args.iter().map(|(_, u)| self.expr(u, 2, cx)).collect();
                    let views: Vec<J> = it.views.iter().map(|_| self.view(cx)).collect();
                    return (json!({"k": "item", "i": i, "args": args, "views": views}), it.nul);
                }
            }
            30 if cx.bits => {
                let h = "h";
                let lens = match self.r.below(6) {
                    0 => vec![1, 1],
                    1 => vec![2, 1, 2],
                    2 => vec![1, 2, 3, 3],
                    3 => vec![2, 2, 2],
                    4 => vec![0, 2, 1, 0, 2],
                    _ => vec![1],
                };
                let es: Vec<J> = lens.iter().map(|n| num("u8", *n)).collect();
                let vals: Vec<J> = if self.r.chance(1, 3) {
                    let mut p: Vec<usize> = (0..lens.len()).collect();
                    for i in (1..p.len()).rev() {
                        p.swap(i, self.r.below(i + 1));
                    }
                    vec![json!({"k": "seq", "es": p.iter().map(|n| num("u8", *n as u128)).collect::<Vec<_>>()})]
                } else {
                    vec![]
                };
                let mut c = cx.clone();
                c.dyns.push(h.to_string());
                let (f, z) = self.fmt(t, d - 1, &c);
                return (json!({"k": "dyn", "l": h, "len": {"k": "seq", "es": es}, "vals": vals, "f": f}), z);
            }
            _ => {}
        }
        self.fmt_type(t, d, cx)
    }

    fn view(&mut self, cx: &Cx) -> J {
        let v = json!({"k": "var", "l": self.r.pick(&cx.views).clone()});
        if self.r.chance(1, 2) {
            let e = self.small(cx, 3);
            json!({"k": "off", "v": v, "e": e})
        } else {
            v
        }
    }

    fn fmt_leaf(&mut self, t: &J, cx: &Cx) -> (J, bool) {
        match kind(t) {
            "u8" => (self.byteset(cx.bits), false),
            k @ ("u16" | "u32") if !cx.bits && self.r.chance(1, 2) => {
                let n = (width(k) / 8) as usize;
                let fs: Vec<J> = (0..n).map(|_| json!({"k": "byte", "bs": [], "neg": true})).collect();
                let l = self.name();
                let big = self.r.chance(1, 2);
                let m = json!({"k": "map", "f": {"k": "tuple", "fs": fs}, "x": lam(l, json!({"k": "endian", "t": k, "big": big, "e": var(l)}))});
                let h = format!("{k}{}", if big { "be" } else { "le" });
                (if self.r.chance(1, 2) { json!({"k": "hint", "h": h, "f": m}) } else { m }, false)
            }
            "u16" if cx.bits && !cx.dyns.is_empty() => (json!({"k": "apply", "l": cx.dyns.last().unwrap()}), false),
            _ => (json!({"k": "compute", "e": self.leaf(t, cx)}), true),
        }
    }

    fn fmt_type(&mut self, t: &J, d: usize, cx: &Cx) -> (J, bool) {
        let cg = self.focus == Focus::Codegen;
        match kind(t) {
            "u64" if !cx.bits && !cg && self.r.chance(1, 4) => (json!({"k": "pos"}), true),
            "tup" => {
                let ts = t["ts"].as_array().unwrap().clone();
                if ts.is_empty() {
                    return match self.r.below(6) {
                        0 => (json!({"k": "eoi"}), true),
                        1 => (json!({"k": "align", "n": self.r.range(1, 4)}), true),
                        2 => (json!({"k": "skip"}), true),
                        3 | 4 => {
                            let u = self.ty(1);
                            let (f, _) = self.fmt(&u, d - 1, cx);
                            (json!({"k": "peeknot", "f": f}), true)
                        }
                        _ => (json!({"k": "tuple", "fs": []}), true),
                    };
                }
                if ts.len() == 2 && kind(&ts[1]) == "seq" && self.r.chance(1, 2) {
                    let (f, z) = self.fmt(&ts[1]["t"], d - 1, cx);
                    if !z {
                        let (l, m) = (self.name(), self.name());
                        let done = self.expr(&json!("bool"), 2, &cx.with(l, &tup(vec![ts[0].clone(), ts[1].clone()])));
                        let upd = self.expr(&ts[0], 2, &cx.with(m, &tup(vec![ts[0].clone(), ts[1]["t"].clone()])));
                        return (
                            json!({"k": "accum", "done": lam(l, done), "upd": lam(m, upd), "init": self.expr(&ts[0], 1, cx),
                                   "vt": ts[0], "f": f}),
                            true,
                        );
                    }
                }
                let mut nul = true;
                let fs: Vec<J> = ts
                    .iter()
                    .map(|u| {
                        let (f, z) = self.fmt(u, d - 1, cx);
                        nul &= z;
                        f
                    })
                    .collect();
                (json!({"k": "tuple", "fs": fs}), nul)
            }
            "rec" => {
                let fs = t["fs"].as_array().unwrap().clone();
                let mut c = cx.clone();
                let mut parts = vec![];
                let mut nul = true;
                for p in &fs {
                    let l = p[0].as_str().unwrap();
                    if self.r.chance(1, 5) {
                        let u = self.ty(0);
                        let (f, z) = self.fmt(&u, d - 1, &c);
                        nul &= z;
                        parts.push((None, f));
                    }
                    let (f, z) = self.fmt(&p[1], d - 1, &c);
                    nul &= z;
                    parts.push((Some(l.to_string()), f));
                    c = c.with(l, &p[1]);
                }
                let old = parts.iter().all(|p| p.0.is_some());
                let rec: Vec<J> = fs.iter().map(|p| json!([p[0], var(p[0].as_str().unwrap())])).collect();
                let mut f = json!({"k": "compute", "e": {"k": "record", "fs": rec}});
                for (l, p) in parts.into_iter().rev() {
                    f = match l {
                        Some(l) => json!({"k": "letf", "f": p, "l": l, "g": f}),
                        None => json!({"k": "mseq", "f": p, "g": f}),
                    };
                }
                (json!({"k": "hint", "h": "record", "old": old, "f": f}), nul)
            }
            "union" => {
                let bs = t["bs"].as_array().unwrap().clone();
                if self.r.chance(1, 4) || bs.len() == 1 {
                    let p = self.r.pick(&bs).clone();
                    let (f, z) = self.fmt(&p[1], d - 1, cx);
                    return (json!({"k": "variant", "l": p[0], "f": f}), z);
                }
                let mut nul = false;
                let kindname = if self.r.chance(1, 4) { "nondet" } else { "union" };
                let fs: Vec<J> = bs
                    .iter()
                    .map(|p| {
                        let (f, z) = self.fmt(&p[1], d - 1, cx);
                        nul |= z;
                        json!({"k": "variant", "l": p[0], "f": f})
                    })
                    .collect();
                (json!({"k": kindname, "fs": fs}), nul)
            }
            "opt" => {
                let (f, z) = self.fmt(&t["t"], d - 1, cx);
                match self.r.below(4) {
                    0 => (json!({"k": "lifto", "fs": []}), true),
                    1 => (json!({"k": "lifto", "fs": [f]}), z),
                    2 => (json!({"k": "union", "fs": [{"k": "lifto", "fs": [f]}, {"k": "lifto", "fs": []}]}), true),
                    _ => (json!({"k": "maybe", "e": self.expr(&json!("bool"), 2, cx), "f": f}), true),
                }
            }
            "seq" => {
                let et = t["t"].clone();
                if !cx.views.is_empty() && !cx.bits && is_num(&et) && self.r.chance(1, 3) {
                    let v = self.view(cx);
                    let e = self.small(cx, 3);
                    if kind(&et) == "u8" && self.r.chance(1, 2) {
                        return (json!({"k": "capture", "v": v, "e": e}), true);
                    }
                    return (json!({"k": "readarr", "v": v, "e": e, "t": et}), true);
                }
                let (f, z) = self.fmt(&et, d - 1, cx);
                match self.r.below(12) {
                    0..=2 if !z => (json!({"k": "rep", "f": f}), true),
                    3 if !z => (json!({"k": "rep1", "f": f}), false),
                    4 | 5 => {
                        let e = self.small(cx, 3);
                        (json!({"k": "repc", "e": e, "f": f}), true)
                    }
                    6 if !z => {
                        let lo = self.r.below(3);
                        let hi = lo + self.r.below(3);
                        (json!({"k": "repb", "lo": num("u8", lo as u128), "hi": num("u8", hi as u128), "f": f}), lo == 0)
                    }
                    7 if !z => {
                        let l = self.name();
                        let c = self.cond(&et, l, 2, cx);
                        (json!({"k": "repul", "x": lam(l, c), "f": f}), false)
                    }
                    8 if !z => {
                        let l = self.name();
                        let c = cx.with(l, t);
                        let e = if self.r.chance(1, 2) {
                            json!({"k": "rel", "op": "ge", "a": {"k": "len", "e": var(l)}, "b": num("u32", self.r.below(4) as u128)})
                        } else {
                            self.expr(&json!("bool"), 3, &c)
                        };
                        (json!({"k": "repus", "x": lam(l, e), "f": f}), false)
                    }
                    9 => {
                        let l = self.name();
                        let u = self.ty(0);
                        let e = self.expr(&seqt(&u), 2, cx);
                        let (g, _) = self.fmt(&et, d - 1, &cx.with(l, &u));
                        (json!({"k": "foreach", "e": e, "l": l, "f": g}), true)
                    }
                    10 => {
                        let n = self.r.range(1, 3);
                        let mut nul = true;
                        let fs: Vec<J> = (0..n)
                            .map(|_| {
                                let (f, z) = self.fmt(&et, d - 1, cx);
                                nul &= z;
                                f
                            })
                            .collect();
                        (json!({"k": "seq", "fs": fs}), nul)
                    }
                    _ => {
                        let e = self.small(cx, 3);
                        (json!({"k": "repc", "e": e, "f": f}), true)
                    }
                }
            }
            _ => self.fmt_leaf(t, cx),
        }
    }

    /// A module of up to two items and a top-level format.
    /// A format with a u8 value made of constructs that set the input back.  Its second component: does it consume input?
    fn backtrack(&mut self, d: usize, bits: bool) -> (J, bool) {
        let byte = |g: &mut Self| {
            let bs: Vec<u8> = if bits {
                vec![*g.r.pick(&[0u8, 1])]
            } else {
                let k = g.r.range(1, 2);
                let mut v: Vec<u8> = (0..k).map(|_| *g.r.pick(&ALPHABET)).collect();
                v.sort();
                v.dedup();
                v
            };
            if g.r.chance(1, 4) { json!({"k": "byte", "bs": [], "neg": true}) } else { json!({"k": "byte", "bs": bs, "neg": g.r.chance(1, 4)}) }
        };
        if d == 0 {
            return if self.r.chance(1, 8) {
                let n = self.r.below(4) as u128;
                (json!({"k": "compute", "e": num("u8", n)}), false)
            } else {
                (byte(self), true)
            };
        }
        let c = self.r.below(if bits { 17 } else { 20 });
        match c {
            0 | 1 => (byte(self), true),
            2..=5 => {
                let k = self.r.range(2, 3);
                let fs: Vec<(J, bool)> = (0..k).map(|_| self.backtrack(d - 1, bits)).collect();
                let all = fs.iter().all(|f| f.1);
                (json!({"k": "nondet", "fs": fs.into_iter().map(|f| f.0).collect::<Vec<_>>()}), all)
            }
            6..=8 => {
                let (f, a) = self.backtrack(d - 1, bits);
                let (g, b) = self.backtrack(d - 1, bits);
                (json!({"k": "letf", "f": f, "l": self.name(), "g": g}), a || b)
            }
            9..=11 => {
                let (f, a) = match self.r.below(7) {
                    0 => (json!({"k": "peek", "f": self.backtrack(d - 1, bits).0}), false),
                    1 | 2 => (json!({"k": "peeknot", "f": self.backtrack(d - 1, bits).0}), false),
                    3 => {
                        let f = self.backtrack(0, bits);
                        if f.1 { (json!({"k": "rep", "f": f.0}), false) } else { f }
                    }
                    4 => (json!({"k": "skip"}), false),
                    _ => self.backtrack(d - 1, bits),
                };
                let (g, b) = self.backtrack(d - 1, bits);
                (json!({"k": "mseq", "f": f, "g": g}), a || b)
            }
            12 | 13 => {
                let n = self.r.below(4) as u128;
                let (f, _) = self.backtrack(d - 1, bits);
                (json!({"k": "slice", "e": num("u8", n), "f": f}), n > 0)
            }
            14 => (json!({"k": "peek", "f": self.backtrack(d - 1, bits).0}), false),
            15 | 16 => {
                let n = self.r.below(4) as u128;
                (json!({"k": "permit", "f": self.backtrack(d - 1, bits).0, "e": num("u8", n)}), false)
            }
            17 => {
                let n = self.r.below(4) as u128;
                let (f, _) = self.backtrack(d - 1, bits);
                (json!({"k": "reloff", "base": num("u64", 0), "off": num("u64", n), "f": f}), false)
            }
            _ => (json!({"k": "bits", "f": self.backtrack(d - 1, true).0}), false),
        }
    }

    /// An expression made of operators only, over the bytes x and y.
    fn ops(&mut self, t: &str, d: usize) -> J {
        if t == "bool" {
            if d == 0 {
                return json!({"k": "bool", "b": self.r.chance(1, 2)});
            }
            return match self.r.below(6) {
                0..=2 => {
                    let u = *self.r.pick(&["u8", "u8", "u16", "u32", "u64"]);
                    let op = *self.r.pick(&["eq", "ne", "lt", "le", "gt", "ge"]);
                    json!({"k": "rel", "op": op, "a": self.ops(u, d - 1), "b": self.ops(u, d - 1)})
                }
                3 | 4 => {
                    let op = *self.r.pick(&["band", "bor"]);
                    json!({"k": "arith", "op": op, "a": self.ops(t, d - 1), "b": self.ops(t, d - 1)})
                }
                _ => json!({"k": "un", "op": "not", "e": self.ops(t, d - 1)}),
            };
        }
        if d == 0 || self.r.chance(1, 8) {
            if self.r.chance(1, 2) {
                let v = json!({"k": "var", "l": *self.r.pick(&["x", "y"])});
                return if t == "u8" { v } else { json!({"k": "as", "t": t, "e": v}) };
            }
            let n = *self.r.pick(&[0u128, 1, 2, 3, 5, 7, 200]);
            return num(t, n);
        }
        match self.r.below(12) {
            0..=8 => {
                let op = *self.r.pick(&["add", "sub", "mul", "div", "rem", "and", "or", "shl", "shr", "sub", "div"]);
                let a = self.ops(t, d - 1);
                let b = if (op == "shl" || op == "shr") && self.r.chance(2, 3) {
                    num(t, self.r.below(5) as u128)
                } else {
                    self.ops(t, d - 1)
                };
                json!({"k": "arith", "op": op, "a": a, "b": b})
            }
            9 | 10 => {
                let u = *self.r.pick(&["u8", "u16", "u32", "u64"]);
                json!({"k": "as", "t": t, "e": self.ops(u, d - 1)})
            }
            _ => json!({"k": "un", "op": *self.r.pick(&["succ", "pred"]), "e": self.ops(t, d - 1)}),
        }
    }

    /// A format whose extent depends on what follows it, with calls of the items below `lvl`.  Second component: can it be empty?
    fn follow(&mut self, d: usize, lvl: usize) -> (J, bool) {
        let byte = |g: &mut Self| {
            let k = g.r.range(1, 2);
            let mut v: Vec<u8> = (0..k).map(|_| *g.r.pick(&ALPHABET)).collect();
            v.sort();
            v.dedup();
            (json!({"k": "byte", "bs": v, "neg": false}), false)
        };
        let call = |g: &mut Self| {
            let i = g.r.below(lvl);
            (json!({"k": "item", "i": i, "args": [], "views": []}), g.items[i].nul)
        };
        if d == 0 || self.r.chance(1, 6) {
            return if lvl > 0 && self.r.chance(3, 5) { call(self) } else { byte(self) };
        }
        match self.r.below(24) {
            0 | 1 => byte(self),
            2..=4 if lvl > 0 => call(self),
            2..=9 => {
                let k = self.r.range(2, 4);
                let fs: Vec<(J, bool)> = (0..k).map(|_| self.follow(d - 1, lvl)).collect();
                let all = fs.iter().all(|f| f.1);
                (json!({"k": "tuple", "fs": fs.into_iter().map(|f| f.0).collect::<Vec<_>>()}), all)
            }
            10 | 11 => {
                let (f, a) = self.follow(d - 1, lvl);
                let (g, b) = self.follow(d - 1, lvl);
                if self.r.chance(1, 2) {
                    (json!({"k": "letf", "f": f, "l": self.name(), "g": g}), a && b)
                } else {
                    (json!({"k": "mseq", "f": f, "g": g}), a && b)
                }
            }
            12..=14 => {
                let (f, a) = self.follow(d - 1, lvl);
                let (g, b) = if self.r.chance(1, 2) { (json!({"k": "tuple", "fs": []}), true) } else { self.follow(d - 1, lvl) };
                let mut fs = vec![json!({"k": "variant", "l": "Aa", "f": f}), json!({"k": "variant", "l": "Bb", "f": g})];
                if self.r.chance(1, 4) {
                    fs.reverse();
                }
                (json!({"k": "union", "fs": fs}), a || b)
            }
            15..=20 => {
                let (f, z) = self.follow(d - 1, lvl);
                if z {
                    return (f, z);
                }
                match self.r.below(6) {
                    0 | 1 => (json!({"k": "rep", "f": f}), true),
                    2 => (json!({"k": "rep1", "f": f}), false),
                    3 | 4 => {
                        let lo = self.r.below(3);
                        let hi = lo + self.r.below(3);
                        (json!({"k": "repb", "lo": num("u8", lo as u128), "hi": num("u8", hi as u128), "f": f}), lo == 0)
                    }
                    _ => {
                        let n = self.r.below(3);
                        (json!({"k": "repc", "e": num("u8", n as u128), "f": f}), n == 0)
                    }
                }
            }
            21 => {
                let n = self.r.range(1, 2);
                let (f, z) = self.follow(d - 1, lvl);
                let es: Vec<J> = (0..n).map(|i| num("u8", i as u128)).collect();
                (json!({"k": "foreach", "e": {"k": "seq", "es": es}, "l": self.name(), "f": f}), z)
            }
            22 => {
                let (f, _) = self.follow(d - 1, lvl);
                match self.r.below(4) {
                    0 | 3 => (json!({"k": "maybe", "e": {"k": "bool", "b": self.r.chance(2, 3)}, "f": f}), true),
                    1 => (json!({"k": "peek", "f": f}), true),
                    _ => (json!({"k": "slice", "e": num("u8", self.r.range(1, 3) as u128), "f": f}), false),
                }
            }
            _ => {
                // the same item for every element of a sequence, so that the elements have one type
                let k = self.r.range(2, 3);
                let (f, z) = self.follow(d - 1, lvl);
                (json!({"k": "seq", "fs": vec![f; k]}), z)
            }
        }
    }

    pub fn program(&mut self, depth: usize) -> (J, J) {
        self.items.clear();
        if self.focus == Focus::Follow {
            // look-ahead over nested repetitions takes exponential time
            loop {
                let (items, f) = self.follow_program(depth);
                let (nest, open, size) = extent(&f, items.as_array().unwrap());
                if nest <= 1 && open <= 5 && size <= 16 {
                    return (items, f);
                }
            }
        }
        self.program_of(depth)
    }

    fn follow_program(&mut self, depth: usize) -> (J, J) {
        self.items.clear();
        {
            let n = self.r.range(1, 3);
            for i in 0..n {
                let (f, nul) = self.follow(2, i);
                self.items.push(Item { args: vec![], views: vec![], t: J::Null, f, nul, bits: false });
            }
            let k = self.r.range(2, 5);
            let fs: Vec<J> = (0..k)
                .map(|_| {
                    if self.r.chance(1, 2) {
                        let i = self.r.below(n);
                        json!({"k": "item", "i": i, "args": [], "views": []})
                    } else {
                        self.follow(depth - 1, n).0
                    }
                })
                .collect();
            let items: Vec<J> = self.items.iter().map(|it| json!({"f": it.f, "args": [], "views": []})).collect();
            (json!(items), json!({"k": "tuple", "fs": fs}))
        }
    }

    fn program_of(&mut self, depth: usize) -> (J, J) {
        if self.focus == Focus::Backtrack {
            return (json!([]), self.backtrack(depth, false).0);
        }
        if self.focus == Focus::Ops {
            let t = *self.r.pick(&["u8", "u16", "u32", "u64", "bool"]);
            let mut f = json!({"k": "compute", "e": self.ops(t, depth)});
            if self.r.chance(1, 4) {
                let x = self.r.below(4) as u128;
                f = json!({"k": "where", "f": f, "strict": false, "x": lam("z",
                    if t == "bool" { json!({"k": "var", "l": "z"}) }
                    else { json!({"k": "rel", "op": "ge", "a": {"k": "var", "l": "z"}, "b": num(t, x)}) })});
            }
            let any = json!({"k": "byte", "bs": [], "neg": true});
            for l in ["y", "x"] {
                f = json!({"k": "letf", "f": any, "l": l, "g": f});
            }
            return (json!([]), f);
        }
        let n = if self.focus == Focus::Codegen { 0 } else { self.r.below(3) };
        for _ in 0..n {
            let t = self.ty(1);
            let nargs = self.r.below(3);
            let args: Vec<(String, J)> = (0..nargs).map(|i| (["p", "r"][i].to_string(), self.ty(1))).collect();
            let views: Vec<String> = if self.r.chance(1, 4) { vec!["iv".into()] } else { vec![] };
            let bits = views.is_empty() && self.r.chance(1, 5);
            let cx = Cx { vars: args.clone(), views: views.clone(), dyns: vec![], bits };
            let (f, nul) = self.fmt(&t, 2, &cx);
            self.items.push(Item { args, views, t, f, nul, bits });
        }
        let t = match self.focus {
            Focus::Views => seqt(&json!(*self.r.pick(&["u8", "u16", "u32"]))),
            _ => self.ty(2),
        };
        let mut cx = Cx::default();
        let (f, f_wrap) = match self.focus {
            Focus::Exprs | Focus::Patterns => {
                // operands from the input, then one expression
                let nin = self.r.range(1, 3);
                let mut ins = vec![];
                for i in 0..nin {
                    let u = self.ty(if self.focus == Focus::Patterns { 2 } else { 1 });
                    let l = NAMES[i];
                    let (g, _) = self.fmt(&u, if self.focus == Focus::Patterns { 2 } else { 1 }, &cx);
                    ins.push((l, g));
                    cx = cx.with(l, &u);
                }
                let e = if self.focus == Focus::Patterns { self.match_expr(&t, 3, &cx) } else { self.expr(&t, 4, &cx) };
                (json!({"k": "compute", "e": e}), ins)
            }
            Focus::Views => {
                cx.views.push("v".into());
                let (f, _) = self.fmt(&t, depth, &cx);
                (json!({"k": "letview", "l": "v", "f": f}), vec![])
            }
            _ => (self.fmt(&t, depth, &cx).0, vec![]),
        };
        let mut f = f;
        for (l, g) in f_wrap.into_iter().rev() {
            f = json!({"k": "letf", "f": g, "l": l, "g": f});
        }
        let items: Vec<J> = self
            .items
            .iter()
            .map(|it| {
                json!({"f": it.f, "args": it.args.iter().map(|(l, t)| json!([l, t])).collect::<Vec<_>>(), "views": it.views})
            })
            .collect();
        (json!(items), f)
    }
}

/// Nesting of repetitions, number of repetitions and choices, and number of bytes in a format with the items it calls.
fn extent(f: &J, items: &[J]) -> (usize, usize, usize) {
    let join = |a: (usize, usize, usize), b: (usize, usize, usize)| (a.0.max(b.0), a.1 + b.1, a.2 + b.2);
    match f {
        J::Object(o) => {
            let k = o.get("k").and_then(|k| k.as_str()).unwrap_or("");
            if k == "item" {
                return extent(&items[o["i"].as_u64().unwrap() as usize]["f"], items);
            }
            if k == "byte" {
                return (0, 0, 1);
            }
            let (n, c, s) = o.values().map(|v| extent(v, items)).fold((0, 0, 0), join);
            let rep = matches!(k, "rep" | "rep1" | "repb" | "repc" | "foreach") as usize;
            // a choice that is repeated without bound has exponentially many continuations
            let many = (c > 0 && matches!(k, "rep" | "rep1" | "repc" | "foreach")) as usize;
            (n + rep + many, c + rep + matches!(k, "maybe" | "union" | "slice") as usize, s)
        }
        J::Array(a) => a.iter().map(|v| extent(v, items)).fold((0, 0, 0), join),
        _ => (0, 0, 0),
    }
}

/// Replaces repeated binders in a pattern by wildcards.
fn dedupe(p: &mut J, seen: &mut Vec<String>) {
    match p["k"].as_str().unwrap() {
        "bind" => {
            let l = p["l"].as_str().unwrap().to_string();
            if seen.contains(&l) {
                *p = json!({"k": "wild"});
            } else {
                seen.push(l);
            }
        }
        "tuple" | "seq" | "opt" => {
            for q in p["ps"].as_array_mut().unwrap() {
                dedupe(q, seen);
            }
        }
        "variant" => dedupe(&mut p["p"], seen),
        _ => {}
    }
}

/// Loops nested in loop bodies that also grow sequences take time and space exponential in the nesting.
pub fn heavy(f: &J) -> bool {
    fn go(f: &J, nest: usize) -> bool {
        match f {
            J::Object(o) => {
                let k = o.get("k").and_then(|k| k.as_str()).unwrap_or("");
                if nest >= 2 && matches!(k, "append" | "fold" | "fmlist" | "fmaccum" | "flatmap") {
                    return true;
                }
                let inner = matches!(k, "fold" | "fmlist" | "fmaccum" | "flatmap");
                o.iter().any(|(a, v)| go(v, nest + if !inner || a != "x" { 0 } else if k == "flatmap" { 1 } else { 2 }))
            }
            J::Array(a) => a.iter().any(|v| go(v, nest)),
            _ => false,
        }
    }
    go(f, 0)
}
