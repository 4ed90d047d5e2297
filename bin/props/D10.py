"""Type inference: types reported for generated and deliberately damaged formats judged against Typing.tla."""
import copy, json, os, random
import decheck
TECHNIQUE = ("TLA+ spec Typing (types of every expression and format constructor, inhabitation); the type reported for generated formats and "
             "for mutations of them (mostly ill-typed), and the values decoded, validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Generated well-typed formats over all constructors and mutations of their expressions, patterns, types, labels and names; "
              "TLC computes the type (or that there is none) and compares; values decoded from all inputs up to length 3 must inhabit it.")

# what the parts of each construct are: F format, E expression, N numeric tree, P pattern, V view, T type, L name
FMT = {"item": {"args": "E*", "views": "V*"}, "variant": {"l": "L", "f": "F"}, "union": {"fs": "F*"}, "nondet": {"fs": "F*"}, "tuple": {"fs": "F*"},
       "seq": {"fs": "F*"}, "rep": {"f": "F"}, "rep1": {"f": "F"}, "repc": {"e": "E", "f": "F"}, "repb": {"lo": "E", "hi": "E", "f": "F"},
       "repul": {"x": "E", "f": "F"}, "repus": {"x": "E", "f": "F"}, "accum": {"done": "E", "upd": "E", "init": "E", "vt": "T", "f": "F"},
       "foreach": {"e": "E", "l": "L", "f": "F"}, "maybe": {"e": "E", "f": "F"}, "peek": {"f": "F"}, "peeknot": {"f": "F"},
       "slice": {"e": "E", "f": "F"}, "bits": {"f": "F"}, "reloff": {"base": "E", "off": "E", "f": "F"}, "map": {"f": "F", "x": "E"},
       "where": {"f": "F", "x": "E"}, "compute": {"e": "E"}, "let": {"l": "L", "e": "E", "f": "F"}, "match": {"e": "E", "bs": "PF*"},
       "dyn": {"l": "L", "len": "E", "vals": "E*", "f": "F"}, "apply": {"l": "L"}, "decbytes": {"e": "E", "f": "F"},
       "letf": {"f": "F", "l": "L", "g": "F"}, "mseq": {"f": "F", "g": "F"}, "hint": {"f": "F"}, "lifto": {"fs": "F*"},
       "letview": {"l": "L", "f": "F"}, "capture": {"v": "V", "e": "E"}, "readarr": {"v": "V", "e": "E"}, "reify": {"v": "V"},
       "fromview": {"v": "V", "f": "F"}, "phantom": {"f": "F"}, "permit": {"f": "F", "e": "E"}}
EXP = {"var": {"l": "L"}, "numeric": {"e": "N"}, "tuple": {"es": "E*"}, "tproj": {"e": "E"}, "record": {"fs": "LE*"}, "rproj": {"e": "E", "l": "L"},
       "variant": {"l": "L", "e": "E"}, "seq": {"es": "E*"}, "match": {"e": "E", "bs": "PE*"}, "destr": {"e": "E", "p": "P", "b": "E"},
       "lam": {"l": "L", "e": "E"}, "rel": {"a": "E", "b": "E"}, "arith": {"a": "E", "b": "E"}, "un": {"e": "E"}, "as": {"e": "E"},
       "aschar": {"e": "E"}, "endian": {"e": "E"}, "len": {"e": "E"}, "seqix": {"e": "E", "i": "E"}, "subseq": {"e": "E", "s": "E", "n": "E"},
       "inflate": {"e": "E", "s": "E", "n": "E"}, "flatmap": {"x": "E", "e": "E"}, "fmaccum": {"x": "E", "init": "E", "vt": "T", "e": "E"},
       "fmlist": {"x": "E", "vt": "T", "e": "E"}, "find": {"x": "E", "q": "E", "e": "E"}, "range": {"a": "E", "b": "E"},
       "fold": {"x": "E", "init": "E", "vt": "T", "e": "E"}, "dup": {"n": "E", "e": "E"}, "lifto": {"es": "E*"}, "append": {"a": "E", "b": "E"}}
NUM = {"v": {"l": "L"}, "b": {"a": "N", "b": "N"}, "u": {"a": "N"}, "cast": {"a": "N"}}
PAT = {"bind": {"l": "L"}, "tuple": {"ps": "P*"}, "seq": {"ps": "P*"}, "variant": {"l": "L", "p": "P"}, "opt": {"ps": "P*"}}
VIEW = {"var": {"l": "L"}, "off": {"v": "V", "e": "E"}}
PARTS = {"F": FMT, "E": EXP, "N": NUM, "P": PAT, "V": VIEW}


def places(node, role, out):
    """(role, container, key) of every part of a node."""
    for key, what in PARTS[role].get(node["k"], {}).items():
        if what[-1] != "*":
            out.append((what, node, key))
            if what in PARTS:
                places(node[key], what, out)
            continue
        for j, x in enumerate(node[key]):
            if len(what) == 2:
                out.append((what[0], node[key], j))
                places(x, what[0], out)
            else:
                for c, r in enumerate(what[:2]):
                    out.append((r, x, c))
                    if r in PARTS:
                        places(x[c], r, out)


def program_places(p):
    out = [("F", p, "f")]
    places(p["f"], "F", out)
    for it in p["M"]:
        out.append(("F", it, "f"))
        places(it["f"], "F", out)
        for a in it["args"]:
            out.append(("T", a, 1))
    return out


def num(t, n):
    return {"k": "num", "t": t, "n": [n] if n else []}


def fresh_expr(r, names):
    t = r.choice(("u8", "u16", "u32", "u64"))
    return r.choice((lambda: num(t, r.randrange(4)), lambda: {"k": "bool", "b": r.random() < .5}, lambda: {"k": "var", "l": r.choice(names)},
                     lambda: {"k": "seq", "es": [num(t, 1)] * r.randrange(3)}, lambda: {"k": "tuple", "es": [num(t, 1), num("u8", 2)]},
                     lambda: {"k": "aschar", "e": num(t, 65)}, lambda: {"k": "lifto", "es": [num(t, 0)] * r.randrange(2)},
                     lambda: {"k": "variant", "l": r.choice("AB"), "e": num(t, 0)}, lambda: {"k": "record", "fs": [["x", num(t, 0)]]},
                     lambda: {"k": "lam", "l": "x", "e": {"k": "var", "l": "x"}},
                     lambda: {"k": "numeric", "e": {"k": "c", "z": [r.choice((1, -1)), [3]], "r": r.choice(("i8", "i64", "u16", "auto"))}},
                     lambda: {"k": "numeric", "e": {"k": "cast", "r": "u8", "bit": False, "a": {"k": "v", "l": r.choice(names)}}}))()


def fresh_type(r):
    b = r.choice(("u8", "u16", "u32", "u64", "bool", "char"))
    return r.choice((b, b, {"k": "seq", "t": b}, {"k": "opt", "t": b}, {"k": "tup", "ts": [b, "u8"]}, {"k": "rec", "fs": [["x", b]]}))


def mutate(r, p):
    """A copy of a program with one or two parts exchanged."""
    p = copy.deepcopy(p)
    for _ in range(r.choice((1, 1, 2))):
        ps = program_places(p)
        names = sorted({c[k] for role, c, k in ps if role == "L"}) or ["x"]
        by = {}
        for q in ps:
            by.setdefault(q[0], []).append(q)
        role = r.choice([x for x in "EEEEEELPTFNV" if x in by])
        _, c, k = r.choice(by[role])
        old = c[k]
        other = copy.deepcopy((lambda q: q[1][q[2]])(r.choice(by[role])))
        if role == "E":
            op = r.randrange(6)
            if op == 0:
                c[k] = other
            elif op == 1 and old["k"] in ("arith", "rel", "un", "as", "endian", "tproj", "num"):
                if old["k"] == "tproj":
                    old["i"] = r.randrange(4)
                elif old["k"] == "arith":
                    old["op"] = r.choice(("add", "and", "shl", "band", "bor"))
                elif old["k"] == "un":
                    old["op"] = r.choice(("not", "succ"))
                elif old["k"] == "endian":
                    old["t"] = r.choice(("u16", "u32", "u64"))
                elif "t" in old:
                    old["t"] = r.choice(("u8", "u16", "u32", "u64"))
                    if old["k"] == "num":
                        old["n"] = [7]
            elif op == 2:
                c[k] = r.choice(({"k": "len", "e": old}, {"k": "as", "t": r.choice(("u8", "u16", "u32", "u64")), "e": old}, {"k": "lifto", "es": [old]},
                                 {"k": "seq", "es": [old]}, {"k": "un", "op": r.choice(("not", "succ")), "e": old}, {"k": "tproj", "e": old, "i": 0},
                                 {"k": "append", "a": old, "b": other}, {"k": "rel", "op": "eq", "a": old, "b": other}, {"k": "rproj", "e": old, "l": "x"},
                                 {"k": "arith", "op": "add", "a": old, "b": other}, {"k": "dup", "n": num("u32", 1), "e": old}, {"k": "aschar", "e": old}))
            else:
                c[k] = fresh_expr(r, names)
        elif role == "L":
            c[k] = r.choice(names)
        elif role == "T":
            c[k] = fresh_type(r)
        elif role == "P":
            c[k] = r.choice((other, {"k": "bind", "l": r.choice(names)}, {"k": "num", "t": r.choice(("u8", "u32")), "n": [1]}, {"k": "bool", "b": True},
                             {"k": "tuple", "ps": [old]}, {"k": "seq", "ps": [old]}, {"k": "opt", "ps": [old]}, {"k": "opt", "ps": []},
                             {"k": "variant", "l": r.choice("AB"), "p": old}, {"k": "char", "n": [65]}, {"k": "int", "lo": [], "hasHi": True, "hi": [3]}))
        elif role == "N":
            c[k] = r.choice((other, {"k": "v", "l": r.choice(names)}, {"k": "c", "z": [1, [2]], "r": r.choice(("u8", "i16", "auto"))},
                             {"k": "b", "op": "add", "r": "none", "a": old, "b": other}))
        elif role == "V":
            c[k] = r.choice((other, {"k": "var", "l": r.choice(names)}, {"k": "off", "v": old, "e": fresh_expr(r, names)}))
        else:
            c[k] = r.choice((other, {"k": "peek", "f": old}, {"k": "rep", "f": old}, {"k": "variant", "l": "A", "f": old}, {"k": "tuple", "fs": [old]},
                             {"k": "union", "fs": [old, other]}, {"k": "nondet", "fs": [old, other]}, {"k": "lifto", "fs": [old]}, {"k": "pos"},
                             {"k": "compute", "e": fresh_expr(r, names)}, {"k": "slice", "e": fresh_expr(r, names), "f": old},
                             {"k": "reloff", "base": fresh_expr(r, names), "off": num("u32", 0), "f": old}, {"k": "peeknot", "f": other},
                             {"k": "repc", "e": fresh_expr(r, names), "f": old}, {"k": "permit", "f": old, "e": fresh_expr(r, names)},
                             {"k": "map", "f": old, "x": {"k": "lam", "l": r.choice(names), "e": fresh_expr(r, names)}},
                             {"k": "where", "strict": True, "f": old, "x": {"k": "lam", "l": r.choice(names), "e": fresh_expr(r, names)}},
                             {"k": "dyn", "l": r.choice(names), "len": {"k": "seq", "es": [num("u8", 1), num("u8", 1)]}, "vals": [fresh_expr(r, names)], "f": old},
                             {"k": "let", "l": r.choice(names), "e": fresh_expr(r, names), "f": old}, {"k": "letview", "l": r.choice(names), "f": old},
                             {"k": "apply", "l": r.choice(names)}, {"k": "reify", "v": {"k": "var", "l": r.choice(names)}},
                             {"k": "letf", "f": other, "l": r.choice(names), "g": old}, {"k": "decbytes", "e": fresh_expr(r, names), "f": old},
                             {"k": "maybe", "e": fresh_expr(r, names), "f": old}, {"k": "foreach", "e": fresh_expr(r, names), "l": r.choice(names), "f": old},
                             {"k": "repb", "lo": fresh_expr(r, names), "hi": fresh_expr(r, names), "f": old},
                             {"k": "repul", "x": {"k": "lam", "l": r.choice(names), "e": fresh_expr(r, names)}, "f": old}))
    return p


def ty(t):
    """Types as the specification has them."""
    if t is None:
        return ["ill"]
    if isinstance(t, str):
        return [t]
    k = t["k"]
    if k == "tup":
        return [k, [ty(x) for x in t["ts"]]]
    if k == "rec":
        return [k, [[l, ty(x)] for l, x in t["fs"]]]
    if k == "union":
        return [k, {l: ty(x) for l, x in t["bs"]}]
    return [k, ty(t["t"])]


def check(ctx, tag, seed, n, focus, depth, per):
    d = os.path.join(ctx.work, "types_" + tag)
    os.makedirs(d, exist_ok=True)
    src, dst, path = (os.path.join(d, x) for x in ("in.ndjson", "out.ndjson", "cases.ndjson"))
    ctx.vh("types-gen", "--seed", seed, "--n", n, "--focus", focus, "--depth", depth, "--out", src)
    base = [json.loads(l) for l in open(src)]
    r = random.Random(seed)
    with open(src, "w") as f:
        for p in base:
            f.write(json.dumps(dict(p, run=True)) + "\n")
            for _ in range(per):
                f.write(json.dumps(mutate(r, p)) + "\n")
    mism, summ = ctx.vh("types", "--in", src, "--out", dst, "--dir", d, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    c = summ["counters"]
    ctx.extra.setdefault("programs", {})[tag] = c
    with open(path, "w") as f:
        for line in open(dst):
            p = json.loads(line)
            p["ty"] = ty(p["ty"])
            for role, o, k in program_places(p):
                if role == "T":
                    o[k] = ty(o[k])
            f.write(json.dumps(p) + "\n")
    os.remove(src)
    os.remove(dst)
    ctx.require(c.get("accepted", 0) >= n and c.get("refused", 0) >= n, f"{tag}: too few accepted or refused programs")
    decheck.validate(ctx, tag, path, "Typing")
    ctx.traces += c["accepted"] + c["refused"]


def run(ctx):
    ctx.need_hooks()
    s = ctx.seed
    plan = ([("all", s, 3000, "all", 3, 6), ("exprs", s + 1, 2000, "exprs", 3, 6), ("views", s + 2, 1000, "views", 3, 6),
             ("patterns", s + 3, 1000, "patterns", 3, 6)] if ctx.quick else
            [(f"{fc}{j}", s + 10 * j + k, 8000, fc, 3 + j % 2, 8) for j in range(4) for k, fc in enumerate(("all", "exprs", "views", "patterns", "ops"))])
    for tag, seed, n, focus, depth, per in plan:
        check(ctx, tag, seed, n, focus, depth, per)
    ctx.assumptions += ["ranges hold plain machine words and numeric trees exact integers; either inhabits a machine type it fits"]
