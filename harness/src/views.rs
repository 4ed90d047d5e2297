//! Replays Views.tla into View, ReadScope, ReadCtxt and ReadArray.
use crate::util::*;
use doodle::parser::View;
use serde_json::{Value as J, json};
use smallsorts::binary::read::*;
use smallsorts::binary::*;
use std::collections::HashMap;
use std::rc::Rc;

trait Be {
    fn be(&self) -> Vec<u8>;
}
macro_rules! be { ($($t:ty),*) => { $( impl Be for $t { fn be(&self) -> Vec<u8> { self.to_be_bytes().to_vec() } } )* } }
be!(u8, i8, u16, i16, u32, i32, u64, i64);
impl<A: Be, B: Be> Be for (A, B) {
    fn be(&self) -> Vec<u8> {
        [self.0.be(), self.1.be()].concat()
    }
}
impl<A: Be, B: Be, C: Be> Be for (A, B, C) {
    fn be(&self) -> Vec<u8> {
        [self.0.be(), self.1.be(), self.2.be()].concat()
    }
}
impl<A: Be, B: Be, C: Be, D: Be> Be for (A, B, C, D) {
    fn be(&self) -> Vec<u8> {
        [self.0.be(), self.1.be(), self.2.be(), self.3.be()].concat()
    }
}

/// The last `size` bytes; what precedes them must be zero (24-bit numbers live in 32 bits).
fn cut(b: Vec<u8>, size: usize) -> Vec<u8> {
    let k = b.len() - size;
    assert!(b[..k].iter().all(|x| *x == 0), "value exceeds its width");
    b[k..].to_vec()
}

trait DynArr {
    fn ask(&self, op: &str, a: usize, want: &J) -> J;
}

struct A<T: ReadUnchecked + 'static>(ReadArray<'static, T>);

impl<T: ReadUnchecked + Copy + 'static> DynArr for A<T>
where
    T::HostType: Be + Copy + 'static,
{
    fn ask(&self, op: &str, a: usize, want: &J) -> J {
        let arr = &self.0;
        let b = |x: T::HostType| cut(x.be(), T::SIZE);
        let cow: ReadArrayCow<'static, T> = ReadArrayCow::Borrowed(*arr);
        match op {
            "len" => {
                let n = arr.len();
                assert_eq!(arr.is_empty(), n == 0);
                assert_eq!(cow.len(), n);
                assert_eq!(cow.is_empty(), n == 0);
                json!(["val", [n]])
            }
            "item" => {
                let r = arr.get_item(a).map(b);
                let q: Option<Vec<u8>> = ReadArray::<T>::read_item(arr, a).ok().map(b);
                assert_eq!(r, q, "get_item and read_item differ");
                assert_eq!(cow.get_item(a).map(b), r);
                assert_eq!(cow.read_item(a).ok().map(b), r);
                assert_eq!(arr.check_index(a).is_ok(), r.is_some());
                assert_eq!(cow.check_index(a).is_ok(), r.is_some());
                match r {
                    Some(v) => json!(["val", v]),
                    None => json!(["err"]),
                }
            }
            "items" => {
                let v: Vec<Vec<u8>> = arr.to_vec().into_iter().map(b).collect();
                let w: Vec<Vec<u8>> = arr.read_to_vec().unwrap().into_iter().map(b).collect();
                assert_eq!(v, w, "to_vec and read_to_vec differ");
                let mut it = arr.iter();
                let mut rs = arr.iter_res();
                let mut ci = cow.iter();
                for k in 0..=v.len() {
                    let left = v.len() - k;
                    assert_eq!(it.size_hint(), (left, Some(left)), "size hint of iter");
                    assert_eq!(rs.size_hint(), (left, Some(left)), "size hint of iter_res");
                    assert_eq!(ci.size_hint(), (left, Some(left)), "size hint of cow");
                    let x = it.next().map(b);
                    assert_eq!(x, v.get(k).cloned());
                    assert_eq!(rs.next().map(|r| b(r.unwrap())), x);
                    assert_eq!(ci.next().map(b), x);
                }
                assert_eq!(arr.last().map(b), v.last().cloned());
                let own: ReadArrayCow<'static, T> = ReadArrayCow::Owned(arr.to_vec());
                assert_eq!(own.iter().map(b).collect::<Vec<_>>(), v);
                assert_eq!(own.len(), v.len());
                json!(["val", v])
            }
            "search" => {
                let r = arr.binary_search_by(|x| b(x)[0].cmp(&(a as u8)));
                let (tag, i) = match r {
                    Ok(i) => ("found", i),
                    Err(i) => ("insert", i),
                };
                // any position holding the value is a right answer
                let ok = want[1][0] == tag && want[1][1].as_array().unwrap().contains(&json!(i));
                if ok { want.clone() } else { json!(["val", [tag, [i]]]) }
            }
            _ => panic!("op {op}"),
        }
    }
}

#[derive(Clone)]
enum O {
    View(View<'static>),
    Scope(ReadScope<'static>),
    Ctxt(ReadCtxt<'static>),
    Arr(Rc<dyn DynArr>),
}

fn amount(a: &J) -> usize {
    match a.as_u64().unwrap() {
        1001 => usize::MAX,
        1002 => 1 << 63,
        1003 => (1 << 63) + 1,
        1004 => 1 << 62,
        1005 => 1 << 61,
        1006 => usize::MAX / 3 + 1,
        n => n as usize,
    }
}

macro_rules! with_type {
    ($name:expr, $T:ident, $body:expr) => {
        match $name {
            "U8" => { type $T = U8; $body }
            "I8" => { type $T = I8; $body }
            "U16Be" => { type $T = U16Be; $body }
            "I16Be" => { type $T = I16Be; $body }
            "U24Be" => { type $T = U24Be; $body }
            "U32Be" => { type $T = U32Be; $body }
            "I32Be" => { type $T = I32Be; $body }
            "U64Be" => { type $T = U64Be; $body }
            "I64Be" => { type $T = I64Be; $body }
            "T2" => { type $T = (U8, U16Be); $body }
            "T3" => { type $T = (U16Be, U8, I8); $body }
            "T4" => { type $T = (U8, I16Be, U8, U8); $body }
            t => panic!("type {t}"),
        }
    };
}

fn obj<E>(r: Result<O, E>, none: O) -> (J, Option<O>, O) {
    match r {
        Ok(o) => (json!(["obj"]), Some(o), none),
        Err(_) => (json!(["err"]), None, none),
    }
}

/// Result, new object, and the object the operation was applied to afterwards.
fn apply(o: &O, op: &J, want: &J) -> (J, Option<O>, O) {
    let n = op["n"].as_str().unwrap();
    let (a, b) = (amount(&op["a"]), amount(&op["b"]));
    let t = op["t"]["n"].as_str().unwrap();
    let val = |r: Option<Vec<u8>>, after: O| match r {
        Some(v) => (json!(["val", v]), None, after),
        None => (json!(["err"]), None, after),
    };
    match o.clone() {
        O::View(v) => match n {
            "read_len" => val(v.read_len(a).ok().map(|s| s.to_vec()), o.clone()),
            "offset" => obj(v.offset(a).map(O::View), o.clone()),
            "read_u16be" => val(v.read_u16be().ok().map(|x| x.be()), o.clone()),
            "array" => {
                // the named accessors must agree with the generic one
                let named: Option<usize> = match t {
                    "U8" => Some(v.read_array_u8(a).map(|x| x.len()).unwrap_or(usize::MAX)),
                    "U16Be" => Some(v.read_array_u16be(a).map(|x| x.len()).unwrap_or(usize::MAX)),
                    "U32Be" => Some(v.read_array_u32be(a).map(|x| x.len()).unwrap_or(usize::MAX)),
                    "U64Be" => Some(v.read_array_u64be(a).map(|x| x.len()).unwrap_or(usize::MAX)),
                    _ => None,
                };
                let r: Result<O, ()> =
                    with_type!(t, T, v.as_read_array::<T>(a).map(|x| O::Arr(Rc::new(A::<T>(x)))).map_err(|_| ()));
                if let Some(k) = named {
                    assert_eq!(k != usize::MAX, r.is_ok(), "named accessor differs");
                }
                obj(r, o.clone())
            }
            "to_scope" => (json!(["obj"]), Some(O::Scope(ReadScope::new(v.read_len(want_len(want)).unwrap()))), o.clone()),
            _ => panic!("op {n}"),
        },
        O::Scope(s) => match n {
            "offset" => (json!(["obj"]), Some(O::Scope(s.offset(a))), o.clone()),
            "offset_length" => obj(s.offset_length(a, b).map(O::Scope), o.clone()),
            "data" => val(Some(s.data().to_vec()), o.clone()),
            "ctxt" => (json!(["obj"]), Some(O::Ctxt(s.ctxt())), o.clone()),
            "read" => {
                let r: Option<Vec<u8>> = with_type!(t, T, s.read::<T>().ok().map(|x| cut(x.be(), <T as ReadUnchecked>::SIZE)));
                let q: Option<Vec<u8>> = with_type!(t, T, s.read_dep::<T>(()).ok().map(|x| cut(x.be(), <T as ReadUnchecked>::SIZE)));
                assert_eq!(r, q);
                val(r, o.clone())
            }
            _ => panic!("op {n}"),
        },
        O::Ctxt(mut c) => match n {
            "scope" => (json!(["obj"]), Some(O::Scope(c.scope())), o.clone()),
            "available" => val(Some(vec![c.bytes_available() as u8]), o.clone()),
            "read" => {
                let mut c2 = c.clone();
                let r: Option<Vec<u8>> = with_type!(t, T, c.read::<T>().ok().map(|x| cut(x.be(), <T as ReadUnchecked>::SIZE)));
                let direct = match t {
                    "U8" => Some(c2.read_u8().ok().map(|x| x.be())),
                    "I8" => Some(c2.read_i8().ok().map(|x| x.be())),
                    "U16Be" => Some(c2.read_u16be().ok().map(|x| x.be())),
                    "I16Be" => Some(c2.read_i16be().ok().map(|x| x.be())),
                    "U32Be" => Some(c2.read_u32be().ok().map(|x| x.be())),
                    "I32Be" => Some(c2.read_i32be().ok().map(|x| x.be())),
                    "U64Be" => Some(c2.read_u64be().ok().map(|x| x.be())),
                    "I64Be" => Some(c2.read_i64be().ok().map(|x| x.be())),
                    _ => None,
                };
                if let Some(x) = direct {
                    assert_eq!(x, r, "direct read differs");
                    assert_eq!(c2.scope(), c.scope(), "direct read leaves another position");
                }
                val(r, O::Ctxt(c))
            }
            "read_array" | "read_array_dep" | "read_array_upto" | "read_array_stride" => {
                let size = op["t"]["size"].as_u64().unwrap() as usize;
                let st = match op["b"].as_u64().unwrap() {
                    2000 => size - 1,
                    x if x > 1000 => b,
                    x => size + x as usize,
                };
                let r: Result<O, ()> = with_type!(t, T, {
                    match n {
                        "read_array" => c.read_array::<T>(a),
                        "read_array_dep" => c.read_array_dep::<T>(a, ()),
                        "read_array_upto" => c.read_array_upto_hack::<T>(a),
                        _ => c.read_array_stride::<T>(a, st),
                    }
                    .map(|x| O::Arr(Rc::new(A::<T>(x))))
                    .map_err(|_| ())
                });
                obj(r, O::Ctxt(c))
            }
            "read_scope" => {
                let r = c.read_scope(a).map(O::Scope);
                obj(r, O::Ctxt(c))
            }
            "read_slice" => {
                let r = c.read_slice(a).ok().map(|s| s.to_vec());
                val(r, O::Ctxt(c))
            }
            "until_nibble" => {
                let r = c.read_until_nibble(a as u8).ok().map(|s| s.to_vec());
                val(r, O::Ctxt(c))
            }
            _ => panic!("op {n}"),
        },
        O::Arr(x) => (x.ask(n, a, want), None, o.clone()),
    }
}
fn want_len(w: &J) -> usize {
    w.as_u64().unwrap() as usize
}

pub fn main(args: &[String]) {
    let lines = tlc_lines(opt(args, "--edges").unwrap(), "ST");
    let buf: Vec<u8> = opt(args, "--buf").unwrap().split(',').map(|s| s.parse().unwrap()).collect();
    let buf: &'static [u8] = Box::leak(buf.into_boxed_slice());
    let rep = Report::new();
    let edges: HashMap<String, &J> = lines.iter().map(|l| (l["s"].to_string(), &l["ops"])).collect();
    rep.count("states", edges.len() as u64);
    let root = json!({"o": "view", "lo": 0, "hi": buf.len()});
    let key = |s: &J| s.to_string();
    let start = edges.keys().find(|k| serde_json::from_str::<J>(k).unwrap() == root).expect("root state").clone();
    let mut objs: HashMap<String, (O, J)> = HashMap::new();
    objs.insert(start.clone(), (O::View(View::new(buf)), json!([])));
    let mut queue = std::collections::VecDeque::from([start]);
    while let Some(k) = queue.pop_front() {
        let (o, path) = objs[&k].clone();
        for e in edges[&k].as_array().unwrap() {
            let (op, res) = (&e[0], &e[1]);
            let want = &res["r"];
            rep.count("edges", 1);
            rep.count(&format!("op:{}", op["n"].as_str().unwrap()), 1);
            let hint = if op["n"] == "to_scope" { json!(buf.len()) } else { want.clone() };
            let step = json!([op["n"], op["a"], op["b"], op["t"]["n"]]);
            let got = guard(|| apply(&o, op, &hint));
            let (r, new, after) = match got {
                Ok(x) => x,
                Err(m) => {
                    rep.mismatch(json!({"kind": "panic", "path": path, "op": step, "msg": m, "want": want}));
                    continue;
                }
            };
            let tag = want[0].as_str().unwrap();
            let ok = match tag {
                "obj" | "obj2" => r[0] == "obj",
                _ => r == *want,
            };
            if !ok {
                rep.mismatch(json!({"kind": "result", "path": path, "op": step, "got": r, "want": want}));
                continue;
            }
            let mut next = path.clone();
            next.as_array_mut().unwrap().push(step);
            let mut put = |t: &J, x: O| {
                if t["o"] != "none" && !objs.contains_key(&key(t)) {
                    objs.insert(key(t), (x, next.clone()));
                    queue.push_back(key(t));
                }
            };
            match tag {
                "obj" => put(&res["t"], new.unwrap()),
                "obj2" => {
                    put(&res["t"], new.unwrap());
                    put(&want[1], after);
                }
                "val" if res["t"]["o"] == "ctxt" => put(&res["t"], after),
                _ => {}
            }
        }
    }
    rep.count("objects", objs.len() as u64);
    rep.finish();
}
