"""The shipped formats as the specifications see them: doodle's own JSON form, turned into the AST of FormatSem."""
import json


def limbs(n):
    out = []
    while n:
        out.append(n % 4096)
        n //= 4096
    return out


def z(n):
    return [-1 if n < 0 else 1, limbs(abs(n))]


BASE = {"U8": "u8", "U16": "u16", "U32": "u32", "U64": "u64", "Bool": "bool", "Char": "char"}
ARITH = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "Rem": "rem", "BitAnd": "and", "BitOr": "or", "Shl": "shl",
         "Shr": "shr", "BoolAnd": "band", "BoolOr": "bor"}
REL = {"Eq": "eq", "Ne": "ne", "Lt": "lt", "Lte": "le", "Gt": "gt", "Gte": "ge"}
UN = {"BoolNot": "not", "IntSucc": "succ", "IntPred": "pred"}
NB = {"+": "add", "-": "sub", "*": "mul", "/": "div", "%": "rem"}
NU = {"~": "neg", "abs": "abs", "++": "succ", "--": "pred", "succ": "succ", "pred": "pred"}


def vtype(t):
    if isinstance(t, str):
        return {"Any": "any", "Empty": "empty", "ViewObj": "view"}[t]
    (k, d), = t.items()
    if k == "Base":
        return BASE[d]
    if k == "Signed":
        return d.lower()
    if k == "Tuple":
        return {"k": "tup", "ts": [vtype(x) for x in d]}
    if k == "Record":
        return {"k": "rec", "fs": [[l, vtype(x)] for l, x in d]}
    if k == "Union":
        return {"k": "union", "bs": [[l, vtype(x)] for l, x in d.items()]}
    if k in ("Seq", "Option", "PhantomData"):
        return {"k": {"Seq": "seq", "Option": "opt", "PhantomData": "phantom"}[k], "t": vtype(d)}
    raise ValueError(k)


def num(e):
    t, d = e["tag"], e["data"]
    rep = lambda o: o.get("out_rep") or "none"
    if t == "NumVar":
        return {"k": "v", "l": d}
    if t == "Const":
        return {"k": "c", "z": z(int(d[0])), "r": "auto" if d[1] == "?" else d[1]}
    if t == "Cast":
        return {"k": "cast", "r": d[0]["out_rep"], "bit": d[0].get("cast_semantics") == "Bitwise", "a": num(d[1])}
    if t == "UnaryOp":
        return {"k": "u", "op": NU[d[0]["op"]], "r": rep(d[0]), "a": num(d[1])}
    if t == "BinOp":
        return {"k": "b", "op": NB[d[0]["op"]], "r": rep(d[0]), "a": num(d[1]), "b": num(d[2])}
    raise ValueError(t)


def pat(p):
    t, d = p["tag"], p.get("data")
    if t == "Binding":
        return {"k": "bind", "l": d}
    if t == "Wildcard":
        return {"k": "wild"}
    if t == "Bool":
        return {"k": "bool", "b": d}
    if t in ("U8", "U16", "U32", "U64"):
        return {"k": "num", "t": t.lower(), "n": limbs(d)}
    if t == "Int":
        return {"k": "int", "lo": limbs(d["min"]), "hasHi": d["max"] is not None, "hi": limbs(d["max"] or 0)}
    if t == "ZConst":
        return {"k": "z", "lo": z(int(d)), "hi": z(int(d))}
    if t == "ZRange":
        return {"k": "z", "lo": z(int(d["min"])), "hi": z(int(d["max"]))}
    if t == "Char":
        return {"k": "char", "n": limbs(ord(d))}
    if t in ("Tuple", "Seq"):
        return {"k": t.lower(), "ps": [pat(x) for x in d]}
    if t == "Variant":
        return {"k": "variant", "l": d[0], "p": pat(d[1])}
    if t == "Option":
        return {"k": "opt", "ps": [] if d is None else [pat(d)]}
    raise ValueError(t)


def expr(e):
    t, d = e["tag"], e.get("data")
    if t == "Var":
        return {"k": "var", "l": d}
    if t in ("U8", "U16", "U32", "U64"):
        return {"k": "num", "t": t.lower(), "n": limbs(d)}
    if t == "Bool":
        return {"k": "bool", "b": d}
    if t == "Numeric":
        return {"k": "numeric", "e": num(d)}
    if t in ("Tuple", "Seq"):
        return {"k": t.lower(), "es": [expr(x) for x in d]}
    if t == "TupleProj":
        return {"k": "tproj", "e": expr(d[0]), "i": d[1]}
    if t == "Record":
        return {"k": "record", "fs": [[l, expr(x)] for l, x in d]}
    if t == "RecordProj":
        return {"k": "rproj", "e": expr(d[0]), "l": d[1]}
    if t == "Variant":
        return {"k": "variant", "l": d[0], "e": expr(d[1])}
    if t == "Match":
        return {"k": "match", "e": expr(d[0]), "bs": [[pat(p), expr(x)] for p, x in d[1]]}
    if t == "Destructure":
        return {"k": "destr", "e": expr(d[0]), "p": pat(d[1]), "b": expr(d[2])}
    if t == "Lambda":
        return {"k": "lam", "l": d[0], "e": expr(d[1])}
    if t == "IntRel":
        return {"k": "rel", "op": REL[d[0]], "a": expr(d[1]), "b": expr(d[2])}
    if t == "Arith":
        return {"k": "arith", "op": ARITH[d[0]], "a": expr(d[1]), "b": expr(d[2])}
    if t == "Unary":
        return {"k": "un", "op": UN[d[0]], "e": expr(d[1])}
    if t in ("AsU8", "AsU16", "AsU32", "AsU64"):
        return {"k": "as", "t": t[2:].lower(), "e": expr(d)}
    if t == "AsChar":
        return {"k": "aschar", "e": expr(d)}
    if t in ("U16Be", "U16Le", "U32Be", "U32Le", "U64Be", "U64Le"):
        return {"k": "endian", "t": t[:3].lower(), "big": t.endswith("Be"), "e": expr(d)}
    if t == "SeqLength":
        return {"k": "len", "e": expr(d)}
    if t == "SeqIx":
        return {"k": "seqix", "e": expr(d[0]), "i": expr(d[1])}
    if t in ("SubSeq", "SubSeqInflate"):
        return {"k": "subseq" if t == "SubSeq" else "inflate", "e": expr(d[0]), "s": expr(d[1]), "n": expr(d[2])}
    if t == "FlatMap":
        return {"k": "flatmap", "x": expr(d[0]), "e": expr(d[1])}
    if t == "FlatMapAccum":
        return {"k": "fmaccum", "x": expr(d[0]), "init": expr(d[1]), "vt": vtype(d[2]), "e": expr(d[3])}
    if t == "FlatMapList":
        return {"k": "fmlist", "x": expr(d[0]), "vt": vtype(d[1]), "e": expr(d[2])}
    if t == "FindByKey":
        return {"k": "find", "sorted": d[0], "x": expr(d[1]), "q": expr(d[2]), "e": expr(d[3])}
    if t == "EnumFromTo":
        return {"k": "range", "a": expr(d[0]), "b": expr(d[1])}
    if t == "LeftFold":
        return {"k": "fold", "x": expr(d[0]), "init": expr(d[1]), "vt": vtype(d[2]), "e": expr(d[3])}
    if t == "Dup":
        return {"k": "dup", "n": expr(d[0]), "e": expr(d[1])}
    if t == "LiftOption":
        return {"k": "lifto", "es": [] if d is None else [expr(d)]}
    if t == "Append":
        return {"k": "append", "a": expr(d[0]), "b": expr(d[1])}
    raise ValueError(t)


def view(v):
    (k, d), = v.items()
    return {"k": "var", "l": d} if k == "Var" else {"k": "off", "v": view(d[0]), "e": expr(d[1])}


def fmt(f):
    t, d = f["tag"], f.get("data")
    fs = lambda x: [fmt(y) for y in x]
    if t == "ItemVar":
        return {"k": "item", "i": d[0], "args": [expr(x) for x in d[1]], "views": [view(x) for x in d[2]]}
    if t in ("Fail", "EndOfInput", "Pos", "SkipRemainder"):
        return {"k": {"Fail": "fail", "EndOfInput": "eoi", "Pos": "pos", "SkipRemainder": "skip"}[t]}
    if t == "Align":
        return {"k": "align", "n": d}
    if t == "Byte":
        return {"k": "byte", "bs": d["data"], "neg": d["tag"] == "excludes"}
    if t == "Variant":
        return {"k": "variant", "l": d[0], "f": fmt(d[1])}
    if t in ("Union", "UnionNondet", "Tuple", "Sequence"):
        return {"k": {"Union": "union", "UnionNondet": "nondet", "Tuple": "tuple", "Sequence": "seq"}[t], "fs": fs(d)}
    if t in ("Repeat", "Repeat1", "Peek", "PeekNot", "Bits", "Phantom"):
        return {"k": {"Repeat": "rep", "Repeat1": "rep1", "Peek": "peek", "PeekNot": "peeknot", "Bits": "bits", "Phantom": "phantom"}[t], "f": fmt(d)}
    if t in ("RepeatCount", "Maybe", "Slice", "DecodeBytes"):
        return {"k": {"RepeatCount": "repc", "Maybe": "maybe", "Slice": "slice", "DecodeBytes": "decbytes"}[t], "e": expr(d[0]), "f": fmt(d[1])}
    if t == "RepeatBetween":
        return {"k": "repb", "lo": expr(d[0]), "hi": expr(d[1]), "f": fmt(d[2])}
    if t in ("RepeatUntilLast", "RepeatUntilSeq"):
        return {"k": "repul" if t.endswith("Last") else "repus", "x": expr(d[0]), "f": fmt(d[1])}
    if t == "AccumUntil":
        return {"k": "accum", "done": expr(d[0]), "upd": expr(d[1]), "init": expr(d[2]), "vt": vtype(d[3]), "f": fmt(d[4])}
    if t == "ForEach":
        return {"k": "foreach", "e": expr(d[0]), "l": d[1], "f": fmt(d[2])}
    if t == "WithRelativeOffset":
        return {"k": "reloff", "base": expr(d[0]), "off": expr(d[1]), "f": fmt(d[2])}
    if t == "Map":
        return {"k": "map", "f": fmt(d[0]), "x": expr(d[1])}
    if t == "Where":
        return {"k": "where", "f": fmt(d[0]), "x": expr(d[1]["expr"]), "strict": d[1]["severity"] == "Require"}
    if t == "Compute":
        return {"k": "compute", "e": expr(d)}
    if t == "Let":
        return {"k": "let", "l": d[0], "e": expr(d[1]), "f": fmt(d[2])}
    if t == "Match":
        return {"k": "match", "e": expr(d[0]), "bs": [[pat(p), fmt(x)] for p, x in d[1]]}
    if t == "Dynamic":
        h = d[1]["Huffman"]
        return {"k": "dyn", "l": d[0], "len": expr(h[0]), "vals": [] if h[1] is None else [expr(h[1])], "f": fmt(d[2])}
    if t == "Apply":
        return {"k": "apply", "l": d}
    if t == "LetFormat":
        return {"k": "letf", "f": fmt(d[0]), "l": d[1], "g": fmt(d[2])}
    if t == "MonadSeq":
        return {"k": "mseq", "f": fmt(d[0]), "g": fmt(d[1])}
    if t == "Hint":
        return {"k": "hint", "f": fmt(d[1])}
    if t == "LiftedOption":
        return {"k": "lifto", "fs": [] if d is None else [fmt(d)]}
    if t == "LetView":
        return {"k": "letview", "l": d[0], "f": fmt(d[1])}
    if t == "WithView":
        v, w = d
        if w == "ReifyView":
            return {"k": "reify", "v": view(v)}
        (k, x), = w.items()
        if k == "CaptureBytes":
            return {"k": "capture", "v": view(v), "e": expr(x)}
        ty = "u8" if x[1] == "U8" else {"U16Ext": "u16", "U32Ext": "u32", "U64Ext": "u64"}[list(x[1])[0]]
        return {"k": "readarr", "v": view(v), "e": expr(x[0]), "t": ty}
    if t == "ParseFromView":
        return {"k": "fromview", "v": view(d[0]), "f": fmt(d[1])}
    if t == "Permit":
        return {"k": "permit", "f": fmt(d[0]), "e": expr(d[1])}
    raise ValueError(t)


def items(m):
    views = m["views"]
    return [{"n": n, "args": [[l, vtype(t)] for l, t in a], "views": views.get(str(i), []), "f": fmt(f)}
            for i, (n, a, f) in enumerate(zip(m["names"], m["args"], m["formats"]))]


def uses(x, out):
    """Items a format refers to directly."""
    if isinstance(x, dict):
        if x.get("k") == "item":
            out.add(x["i"])
        for v in x.values():
            uses(v, out)
    elif isinstance(x, list):
        for v in x:
            uses(v, out)
    return out


def closure(its, tops):
    """The items reachable from tops, renumbered; returns (items, {old: new})."""
    seen, todo = set(), list(tops)
    while todo:
        i = todo.pop()
        if i not in seen:
            seen.add(i)
            todo += uses(its[i]["f"], set())
    new = {o: n for n, o in enumerate(sorted(seen))}

    def ren(x):
        if isinstance(x, dict):
            y = {k: ren(v) for k, v in x.items()}
            if y.get("k") == "item":
                y["i"] = new[x["i"]]
            return y
        if isinstance(x, list):
            return [ren(v) for v in x]
        return x
    return [ren(its[o]) for o in sorted(seen)], new
