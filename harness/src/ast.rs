//! The JSON form of formats, expressions, patterns and values that the specifications in /verif/spec use,
//! and its translation to and from doodle's own types.
use doodle::bounds::Bounds;
use doodle::byte_set::ByteSet;
use doodle::decoder::{SeqKind, Value};
use doodle::helper;
use doodle::*;
use serde_json::{Value as J, json};

pub type L = Label;

pub fn lbl(j: &J) -> L {
    L::from(j.as_str().unwrap_or_else(|| panic!("label expected: {j}")).to_string())
}

pub fn limbs(mut n: u128) -> J {
    let mut v = vec![];
    while n > 0 {
        v.push((n % 4096) as u64);
        n /= 4096;
    }
    json!(v)
}
pub fn unlimbs(j: &J) -> u128 {
    let mut n = 0u128;
    for d in j.as_array().unwrap().iter().rev() {
        n = n * 4096 + d.as_u64().unwrap() as u128;
    }
    n
}

fn arr(j: &J) -> &Vec<J> {
    j.as_array().unwrap_or_else(|| panic!("array expected: {j}"))
}
fn s<'a>(j: &'a J) -> &'a str {
    j.as_str().unwrap_or_else(|| panic!("string expected: {j}"))
}
fn bx<T>(x: T) -> Box<T> {
    Box::new(x)
}

pub fn vtype(j: &J) -> ValueType {
    if let Some(t) = j.as_str() {
        return match t {
            "u8" => ValueType::U8,
            "u16" => ValueType::U16,
            "u32" => ValueType::U32,
            "u64" => ValueType::U64,
            "bool" => ValueType::BOOL,
            "char" => ValueType::Base(BaseType::Char),
            "view" => ValueType::ViewObj,
            "any" => ValueType::Any,
            "empty" => ValueType::Empty,
            _ => panic!("type {t}"),
        };
    }
    match s(&j["k"]) {
        "tup" => ValueType::Tuple(arr(&j["ts"]).iter().map(vtype).collect()),
        "rec" => ValueType::Record(arr(&j["fs"]).iter().map(|p| (lbl(&p[0]), vtype(&p[1]))).collect()),
        "union" => ValueType::Union(arr(&j["bs"]).iter().map(|p| (lbl(&p[0]), vtype(&p[1]))).collect()),
        "seq" => ValueType::Seq(bx(vtype(&j["t"]))),
        "opt" => ValueType::Option(bx(vtype(&j["t"]))),
        "phantom" => ValueType::PhantomData(bx(vtype(&j["t"]))),
        k => panic!("type kind {k}"),
    }
}

pub fn vtype_json(t: &ValueType) -> J {
    match t {
        ValueType::Any => json!("any"),
        ValueType::Empty => json!("empty"),
        ValueType::ViewObj => json!("view"),
        ValueType::PhantomData(t) => json!({"k": "phantom", "t": vtype_json(t)}),
        ValueType::Base(b) => json!(b.to_static_str()),
        ValueType::NumericHole => json!("numhole"),
        ValueType::Signed(x) => json!(x.to_static_str()),
        ValueType::Tuple(ts) => json!({"k": "tup", "ts": ts.iter().map(vtype_json).collect::<Vec<_>>()}),
        ValueType::Record(fs) => {
            json!({"k": "rec", "fs": fs.iter().map(|(l, t)| json!([l, vtype_json(t)])).collect::<Vec<_>>()})
        }
        ValueType::Union(bs) => {
            json!({"k": "union", "bs": bs.iter().map(|(l, t)| json!([l, vtype_json(t)])).collect::<Vec<_>>()})
        }
        ValueType::Seq(t) => json!({"k": "seq", "t": vtype_json(t)}),
        ValueType::Option(t) => json!({"k": "opt", "t": vtype_json(t)}),
    }
}

pub fn pattern(p: &J) -> Pattern {
    match s(&p["k"]) {
        "bind" => Pattern::Binding(lbl(&p["l"])),
        "wild" => Pattern::Wildcard,
        "bool" => Pattern::Bool(p["b"].as_bool().unwrap()),
        "num" => {
            let n = unlimbs(&p["n"]);
            match s(&p["t"]) {
                "u8" => Pattern::U8(n as u8),
                "u16" => Pattern::U16(n as u16),
                "u32" => Pattern::U32(n as u32),
                "u64" => Pattern::U64(n as u64),
                t => panic!("pattern type {t}"),
            }
        }
        "int" => {
            let lo = unlimbs(&p["lo"]) as usize;
            Pattern::Int(if p["hasHi"].as_bool().unwrap() {
                Bounds::new(lo, unlimbs(&p["hi"]) as usize)
            } else {
                Bounds::at_least(lo)
            })
        }
        "char" => Pattern::Char(char::from_u32(unlimbs(&p["n"]) as u32).unwrap()),
        "tuple" => Pattern::Tuple(arr(&p["ps"]).iter().map(pattern).collect()),
        "seq" => Pattern::Seq(arr(&p["ps"]).iter().map(pattern).collect()),
        "variant" => Pattern::Variant(lbl(&p["l"]), bx(pattern(&p["p"]))),
        "opt" => Pattern::Option(arr(&p["ps"]).first().map(|q| bx(pattern(q)))),
        k => panic!("pattern kind {k}"),
    }
}

pub fn expr(e: &J) -> Expr {
    let b = |f: &str| bx(expr(&e[f]));
    match s(&e["k"]) {
        "var" => Expr::Var(lbl(&e["l"])),
        "num" => {
            let n = unlimbs(&e["n"]);
            match s(&e["t"]) {
                "u8" => Expr::U8(n as u8),
                "u16" => Expr::U16(n as u16),
                "u32" => Expr::U32(n as u32),
                "u64" => Expr::U64(n as u64),
                t => panic!("num type {t}"),
            }
        }
        "bool" => Expr::Bool(e["b"].as_bool().unwrap()),
        "numeric" => Expr::Numeric(bx(crate::num::tree(&e["e"]))),
        "tuple" => Expr::Tuple(arr(&e["es"]).iter().map(expr).collect()),
        "tproj" => Expr::TupleProj(b("e"), e["i"].as_u64().unwrap() as usize),
        "record" => Expr::Record(arr(&e["fs"]).iter().map(|p| (lbl(&p[0]), expr(&p[1]))).collect()),
        "rproj" => Expr::RecordProj(b("e"), lbl(&e["l"])),
        "variant" => Expr::Variant(lbl(&e["l"]), b("e")),
        "seq" => Expr::Seq(arr(&e["es"]).iter().map(expr).collect()),
        "match" => Expr::Match(b("e"), arr(&e["bs"]).iter().map(|p| (pattern(&p[0]), expr(&p[1]))).collect()),
        "destr" => Expr::Destructure(b("e"), pattern(&e["p"]), b("b")),
        "lam" => Expr::Lambda(lbl(&e["l"]), b("e")),
        "rel" => {
            let op = match s(&e["op"]) {
                "eq" => IntRel::Eq,
                "ne" => IntRel::Ne,
                "lt" => IntRel::Lt,
                "le" => IntRel::Lte,
                "gt" => IntRel::Gt,
                "ge" => IntRel::Gte,
                o => panic!("rel {o}"),
            };
            Expr::IntRel(op, b("a"), b("b"))
        }
        "arith" => {
            let op = match s(&e["op"]) {
                "add" => Arith::Add,
                "sub" => Arith::Sub,
                "mul" => Arith::Mul,
                "div" => Arith::Div,
                "rem" => Arith::Rem,
                "and" => Arith::BitAnd,
                "or" => Arith::BitOr,
                "shl" => Arith::Shl,
                "shr" => Arith::Shr,
                "band" => Arith::BoolAnd,
                "bor" => Arith::BoolOr,
                o => panic!("arith {o}"),
            };
            Expr::Arith(op, b("a"), b("b"))
        }
        "un" => {
            let op = match s(&e["op"]) {
                "not" => UnaryOp::BoolNot,
                "succ" => UnaryOp::IntSucc,
                "pred" => UnaryOp::IntPred,
                o => panic!("un {o}"),
            };
            Expr::Unary(op, b("e"))
        }
        "as" => match s(&e["t"]) {
            "u8" => Expr::AsU8(b("e")),
            "u16" => Expr::AsU16(b("e")),
            "u32" => Expr::AsU32(b("e")),
            "u64" => Expr::AsU64(b("e")),
            t => panic!("as {t}"),
        },
        "aschar" => Expr::AsChar(b("e")),
        "endian" => match (s(&e["t"]), e["big"].as_bool().unwrap()) {
            ("u16", true) => Expr::U16Be(b("e")),
            ("u16", false) => Expr::U16Le(b("e")),
            ("u32", true) => Expr::U32Be(b("e")),
            ("u32", false) => Expr::U32Le(b("e")),
            ("u64", true) => Expr::U64Be(b("e")),
            ("u64", false) => Expr::U64Le(b("e")),
            t => panic!("endian {t:?}"),
        },
        "len" => Expr::SeqLength(b("e")),
        "seqix" => Expr::SeqIx(b("e"), b("i")),
        "subseq" => Expr::SubSeq(b("e"), b("s"), b("n")),
        "inflate" => Expr::SubSeqInflate(b("e"), b("s"), b("n")),
        "flatmap" => Expr::FlatMap(b("x"), b("e")),
        "fmaccum" => Expr::FlatMapAccum(b("x"), b("init"), vtype(&e["vt"]).into(), b("e")),
        "fmlist" => Expr::FlatMapList(b("x"), vtype(&e["vt"]).into(), b("e")),
        "find" => Expr::FindByKey(e["sorted"].as_bool().unwrap(), b("x"), b("q"), b("e")),
        "range" => Expr::EnumFromTo(b("a"), b("b")),
        "fold" => Expr::LeftFold(b("x"), b("init"), vtype(&e["vt"]).into(), b("e")),
        "dup" => Expr::Dup(b("n"), b("e")),
        "lifto" => Expr::LiftOption(arr(&e["es"]).first().map(|x| bx(expr(x)))),
        "append" => Expr::Append(b("a"), b("b")),
        k => panic!("expr kind {k}"),
    }
}

pub fn view(v: &J) -> ViewExpr {
    match s(&v["k"]) {
        "var" => ViewExpr::Var(lbl(&v["l"])),
        "off" => ViewExpr::Offset(bx(view(&v["v"])), bx(expr(&v["e"]))),
        k => panic!("view kind {k}"),
    }
}

pub fn byteset(f: &J) -> ByteSet {
    let bs: Vec<u8> = arr(&f["bs"]).iter().map(|b| b.as_u64().unwrap() as u8).collect();
    let x = ByteSet::from_iter(bs);
    if f["neg"].as_bool().unwrap() { !x } else { x }
}

pub fn format(f: &J) -> Format {
    let b = |k: &str| bx(format(&f[k]));
    let e = |k: &str| bx(expr(&f[k]));
    let fs = |k: &str| arr(&f[k]).iter().map(format).collect::<Vec<_>>();
    match s(&f["k"]) {
        "item" => Format::ItemVar(
            f["i"].as_u64().unwrap() as usize,
            arr(&f["args"]).iter().map(expr).collect(),
            arr(&f["views"]).iter().map(view).collect(),
        ),
        "fail" => Format::Fail,
        "eoi" => Format::EndOfInput,
        "align" => Format::Align(f["n"].as_u64().unwrap() as usize),
        "byte" => Format::Byte(byteset(f)),
        "variant" => Format::Variant(lbl(&f["l"]), b("f")),
        "union" => Format::Union(fs("fs")),
        "nondet" => Format::UnionNondet(fs("fs")),
        "tuple" => Format::Tuple(fs("fs")),
        "seq" => Format::Sequence(fs("fs")),
        "rep" => Format::Repeat(b("f")),
        "rep1" => Format::Repeat1(b("f")),
        "repc" => Format::RepeatCount(e("e"), b("f")),
        "repb" => Format::RepeatBetween(e("lo"), e("hi"), b("f")),
        "repul" => Format::RepeatUntilLast(e("x"), b("f")),
        "repus" => Format::RepeatUntilSeq(e("x"), b("f")),
        "accum" => Format::AccumUntil(e("done"), e("upd"), e("init"), vtype(&f["vt"]).into(), b("f")),
        "foreach" => Format::ForEach(e("e"), lbl(&f["l"]), b("f")),
        "maybe" => Format::Maybe(e("e"), b("f")),
        "peek" => Format::Peek(b("f")),
        "peeknot" => Format::PeekNot(b("f")),
        "slice" => Format::Slice(e("e"), b("f")),
        "bits" => Format::Bits(b("f")),
        "reloff" => Format::WithRelativeOffset(e("base"), e("off"), b("f")),
        "map" => Format::Map(b("f"), e("x")),
        "where" => {
            let name = lbl(&f["x"]["l"]);
            let body = expr(&f["x"]["e"]);
            if f["strict"].as_bool().unwrap() {
                helper::where_lambda(format(&f["f"]), name, body)
            } else {
                helper::expect_lambda(format(&f["f"]), name, body)
            }
        }
        "compute" => Format::Compute(e("e")),
        "let" => Format::Let(lbl(&f["l"]), e("e"), b("f")),
        "match" => Format::Match(e("e"), arr(&f["bs"]).iter().map(|p| (pattern(&p[0]), format(&p[1]))).collect()),
        "dyn" => Format::Dynamic(
            lbl(&f["l"]),
            DynFormat::Huffman(e("len"), arr(&f["vals"]).first().map(|x| bx(expr(x)))),
            b("f"),
        ),
        "apply" => Format::Apply(lbl(&f["l"])),
        "pos" => Format::Pos,
        "skip" => Format::SkipRemainder,
        "decbytes" => Format::DecodeBytes(e("e"), b("f")),
        "letf" => Format::LetFormat(b("f"), lbl(&f["l"]), b("g")),
        "mseq" => Format::MonadSeq(b("f"), b("g")),
        "hint" => {
            let h = match f["h"].as_str().unwrap_or("") {
                "record" => StyleHint::Record { old_style: f["old"].as_bool().unwrap() },
                "asciistr" => StyleHint::AsciiStr,
                "asciichar" => StyleHint::AsciiChar,
                "u16be" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U16BE)),
                "u16le" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U16LE)),
                "u32be" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U32BE)),
                "u32le" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U32LE)),
                "u64be" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U64BE)),
                "u64le" => StyleHint::Common(CommonOp::EndianParse(BaseKind::U64LE)),
                h => panic!("hint {h}"),
            };
            Format::Hint(h, b("f"))
        }
        "lifto" => Format::LiftedOption(arr(&f["fs"]).first().map(|x| bx(format(x)))),
        "letview" => Format::LetView(lbl(&f["l"]), b("f")),
        "capture" => Format::WithView(view(&f["v"]), ViewFormat::CaptureBytes(e("e"))),
        "readarr" => {
            let k = match s(&f["t"]) {
                "u8" => BaseKind::U8,
                "u16" => BaseKind::U16BE,
                "u32" => BaseKind::U32BE,
                "u64" => BaseKind::U64BE,
                t => panic!("readarr {t}"),
            };
            Format::WithView(view(&f["v"]), ViewFormat::ReadArray(e("e"), k))
        }
        "reify" => Format::WithView(view(&f["v"]), ViewFormat::ReifyView),
        "fromview" => Format::ParseFromView(view(&f["v"]), b("f")),
        "phantom" => Format::Phantom(b("f")),
        "permit" => Format::Permit(b("f"), e("e")),
        k => panic!("format kind {k}"),
    }
}

/// Builds a module from the JSON list of items; None if an item is rejected.
pub fn module(items: &J) -> Result<FormatModule, String> {
    crate::util::guard(|| {
        let mut m = FormatModule::new();
        for (i, it) in arr(items).iter().enumerate() {
            let args = arr(&it["args"]).iter().map(|p| (lbl(&p[0]), vtype(&p[1]))).collect();
            let views = arr(&it["views"]).iter().map(lbl).collect();
            let name = it["n"].as_str().map(str::to_string).unwrap_or_else(|| format!("item{i}"));
            m.define_format_args_views(name, args, views, format(&it["f"]));
        }
        m
    })
}

/// A decoded value, with the wrappers that record how it came about removed at every depth.
pub fn value_json(v: &Value) -> J {
    match v {
        Value::Bool(b) => json!(["bool", b]),
        Value::U8(n) => json!(["u8", limbs(*n as u128)]),
        Value::U16(n) => json!(["u16", limbs(*n as u128)]),
        Value::U32(n) => json!(["u32", limbs(*n as u128)]),
        Value::U64(n) => json!(["u64", limbs(*n as u128)]),
        Value::Usize(n) => json!(["usize", limbs(*n as u128)]),
        Value::Char(c) => json!(["char", limbs(*c as u128)]),
        Value::Numeric(n) => json!(["numeric", crate::num::zjson(n.as_raw_value()), crate::num::rep_name(n.get_rep())]),
        Value::View { offset } => json!(["view", offset]),
        Value::PhantomData => json!(["phantom"]),
        Value::EnumFromTo(r) => {
            json!(["seq", r.clone().map(|n| json!(["usize", limbs(n as u128)])).collect::<Vec<_>>()])
        }
        Value::Option(None) => json!(["opt", []]),
        Value::Option(Some(v)) => json!(["opt", [value_json(v)]]),
        Value::Tuple(vs) => json!(["tup", vs.iter().map(value_json).collect::<Vec<_>>()]),
        Value::Record(fs) => json!(["rec", fs.iter().map(|(l, v)| json!([l, value_json(v)])).collect::<Vec<_>>()]),
        Value::Variant(l, v) => json!(["var", l, value_json(v)]),
        Value::Seq(SeqKind::Strict(vs)) => json!(["seq", vs.iter().map(value_json).collect::<Vec<_>>()]),
        Value::Seq(SeqKind::Dup(n, v)) => json!(["seq", vec![value_json(v); *n]]),
        Value::Mapped(_, v) | Value::Branch(_, v) => value_json(v),
        Value::Permit(Ok(v)) | Value::Permit(Err(Some(v))) => value_json(v),
        Value::Permit(Err(None)) => json!(["nofallback"]),
    }
}
