"""Printed expressions: the texts the printers produce are read back by the grammar of Printing.tla."""
import json, os, random, re
import decheck
TECHNIQUE = ("TLA+ spec Printing: the grammar the declared operator precedences define, as a parser; TLC reads back the text both printers "
             "produce for every nesting of up to three operators and for random deeper expressions and compares it with the expression")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all well-typed nestings of two operators (three, for infix and numeric operators), in every operand position; "
              "random above that. The contents of tuples, records, lists and match branches, which the printer elides, are not compared.")

# ---------------------------------------------------------------- expressions of the format language
# constructor: (result type, operand types, builder of the JSON tree, name of the tree node)
BIN = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%", "and": "&", "or": "|", "shl": "<<", "shr": ">>"}
REL = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
LAM = {"k": "lam"}
def lam(body):
    return {"k": "lam", "l": "X", "e": body}
C = []
for o, t in BIN.items():
    C.append(("N", "NN", lambda a, b, o=o: {"k": "arith", "op": o, "a": a, "b": b}, t))
for o, t in REL.items():
    C.append(("B", "NN", lambda a, b, o=o: {"k": "rel", "op": o, "a": a, "b": b}, t))
for o, t in (("band", "&&"), ("bor", "||")):
    C.append(("B", "BB", lambda a, b, o=o: {"k": "arith", "op": o, "a": a, "b": b}, t))
C.append(("B", "B", lambda a: {"k": "un", "op": "not", "e": a}, "!"))
for o in ("succ", "pred"):
    C.append(("N", "N", lambda a, o=o: {"k": "un", "op": o, "e": a}, o))
for t in ("u8", "u16", "u32", "u64"):
    C.append(("N", "N", lambda a, t=t: {"k": "as", "t": t, "e": a}, "as-" + t))
for t in ("u16", "u32", "u64"):
    for big in (True, False):
        C.append(("N", "T", lambda a, t=t, big=big: {"k": "endian", "t": t, "big": big, "e": a}, t + ("be" if big else "le")))
C.append(("C", "N", lambda a: {"k": "aschar", "e": a}, "as-char"))
C.append(("S", "SS", lambda a, b: {"k": "append", "a": a, "b": b}, "++"))
C.append(("S", "NN", lambda a, b: {"k": "range", "a": a, "b": b}, ".."))
C.append(("N", "S", lambda a: {"k": "len", "e": a}, "seq-length"))
C.append(("N", "NS", lambda i, a: {"k": "seqix", "e": a, "i": i}, "seq-ix"))
C.append(("T", "NS", lambda i, a: {"k": "seqix", "e": a, "i": i}, "seq-ix"))
C.append(("S", "NNS", lambda s, n, a: {"k": "subseq", "e": a, "s": s, "n": n}, "sub-seq"))
C.append(("S", "NNS", lambda s, n, a: {"k": "inflate", "e": a, "s": s, "n": n}, "sub-seq-inflate"))
C.append(("S", "LS", lambda x, a: {"k": "flatmap", "x": x, "e": a}, "flat-map"))
C.append(("S", "LS", lambda x, a: {"k": "fmlist", "x": x, "vt": "u8", "e": a}, "flat-map-list"))
C.append(("S", "LNS", lambda x, i, a: {"k": "fmaccum", "x": x, "init": i, "vt": "u8", "e": a}, "flat-map-accum"))
C.append(("N", "MNS", lambda x, i, a: {"k": "fold", "x": x, "init": i, "vt": "u8", "e": a}, "left-fold"))
C.append(("O", "MNS", lambda x, q, a: {"k": "find", "sorted": True, "x": x, "q": q, "e": a}, "binary-search"))
C.append(("O", "MNS", lambda x, q, a: {"k": "find", "sorted": False, "x": x, "q": q, "e": a}, "linear-search"))
C.append(("S", "NN", lambda n, a: {"k": "dup", "n": n, "e": a}, "dup"))
C.append(("O", "N", lambda a: {"k": "lifto", "es": [a]}, "some"))
C.append(("L", "S", lam, "->"))
C.append(("M", "N", lam, "->"))
for t in "NBSTO":
    C.append((t, "N", lambda a: {"k": "match", "e": a, "bs": [[{"k": "wild"}, {"k": "var", "l": "Z"}]]}, "match"))
    C.append((t, "O", lambda a: {"k": "match", "e": a, "bs": [[{"k": "wild"}, {"k": "var", "l": "Z"}]]}, "match"))
    C.append((t, "T" + t, lambda h, b: {"k": "destr", "e": h, "p": {"k": "bind", "l": "P"}, "b": b}, "pat-bind"))
    C.append((t, "T", lambda a: {"k": "tproj", "e": a, "i": 3}, ".3"))
    C.append((t, "T", lambda a: {"k": "rproj", "e": a, "l": "fld"}, ".fld"))
C.append(("V", "N", lambda a: {"k": "variant", "l": "Lab", "e": a}, "{Lab"))
C.append(("V", "B", lambda a: {"k": "variant", "l": "Lab", "e": a}, "{Lab"))
for t in "NB":
    C.append((t, "V", lambda a: {"k": "match", "e": a, "bs": [[{"k": "wild"}, {"k": "var", "l": "Z"}]]}, "match"))
INFIX = set(BIN.values()) | set(REL.values()) | {"&&", "||", "++", ".."}

class Leaves:
    def __init__(self):
        self.n = 0
    def var(self, t):
        self.n += 1
        name = "V%d" % self.n
        e = {"k": "var", "l": name}
        if t == "L" or t == "M":
            b, tb = self.var("S" if t == "L" else "N")
            return lam(b), ["->", [["X"], tb]]
        return e, [name]
def build(c, kids):
    """kids: (json, tree) of each operand."""
    e = c[2](*[k[0] for k in kids])
    trees = [k[1] for k in kids]
    if c[3] == "->":
        trees = [["X"]] + trees
    elif c[3] == "pat-bind":
        trees = [["P"]] + trees
    return e, [c[3], trees]
def chains(pool, by, depth, lv):
    """Every constructor of the pool, one operand replaced by every chain of depth - 1 that fits, the others variables."""
    for c in pool:
        if depth == 1:
            yield lambda lv, c=c: build(c, [lv.var(t) for t in c[1]])
        else:
            for p, t in enumerate(c[1]):
                for sub in by(t, depth - 1):
                    yield lambda lv, c=c, p=p, sub=sub: build(c, [sub(lv) if k == p else lv.var(u) for k, u in enumerate(c[1])])
def all_chains(cs, depth):
    memo = {}
    def by(t, d):
        if (t, d) not in memo:
            memo[t, d] = list(chains([c for c in cs if c[0] == t], by, d, None))
        return memo[t, d]
    for t in sorted({c[0] for c in cs}):
        for f in by(t, depth):
            yield f(Leaves())
def rand_expr(rnd, cs, t, depth, lv):
    opts = [c for c in cs if c[0] == t]
    if depth == 0 or not opts or rnd.random() < .15:
        if t == "N" and rnd.random() < .3:
            n = rnd.randrange(1 << rnd.choice([1, 8, 12]))
            return {"k": "num", "t": "u16", "n": [n] if n else []}, [str(n)]
        if t == "B" and rnd.random() < .3:
            b = rnd.random() < .5
            return {"k": "bool", "b": b}, ["true" if b else "false"]
        if t == "O" and rnd.random() < .3:
            return {"k": "lifto", "es": []}, ["none"]
        return lv.var(t)
    c = rnd.choice(opts if rnd.random() < .5 else [c for c in opts if c[3] in INFIX] or opts)
    return build(c, [rand_expr(rnd, cs, u, depth - 1, lv) for u in c[1]])

# ---------------------------------------------------------------- numeric expressions
NB = {"add": "+", "sub": "-", "mul": "*", "div": "/", "rem": "%"}
NU = {"neg": "~", "abs": "abs", "succ": "++", "pred": "--"}
def numeric(reps):
    out = []
    for r in reps:
        sfx = "" if r == "none" else r
        for o, t in NB.items():
            out.append(("N", "NN", lambda a, b, o=o, r=r: {"k": "b", "op": o, "r": r, "a": a, "b": b}, t + sfx))
        for o, t in NU.items():
            out.append(("N", "N", lambda a, o=o, r=r: {"k": "u", "op": o, "r": r, "a": a}, t + sfx))
    for r in ("u8", "i64"):
        for bit in (False, True):
            out.append(("N", "N", lambda a, r=r, bit=bit: {"k": "cast", "r": r, "bit": bit, "a": a}, ("as(rust) " if bit else "as ") + r))
    return out
class NumLeaves(Leaves):
    def var(self, t):
        self.n += 1
        if self.n % 3 == 0:
            z = self.n if self.n % 2 else -self.n
            r = "i16" if self.n % 2 else "auto"
            return {"k": "c", "z": [1 if z > 0 else -1, [abs(z)]], "r": r}, [str(z) + ("" if r == "auto" else r)]
        return {"k": "v", "l": "V%d" % self.n}, ["V%d" % self.n]
def num_chains(cs, depth):
    memo = {}
    def by(t, d):
        if d not in memo:
            memo[d] = list(chains(cs, by, d, None))
        return memo[d]
    for f in by("N", depth):
        yield f(NumLeaves())
def rand_num(rnd, cs, depth, lv):
    if depth == 0 or rnd.random() < .15:
        return lv.var("N")
    c = rnd.choice(cs)
    return build(c, [rand_num(rnd, cs, depth - 1, lv) for _ in c[1]])

# ---------------------------------------------------------------- tokens
WORD = re.compile(r"[A-Za-z][A-Za-z0-9]*(-[a-z0-9]+)*|\d+")
OPS = ["&&", "||", "<<", ">>", "==", "!=", "<=", ">=", "->", ":=", "++", "..", "+", "-", "*", "/", "%", "&", "|", "<", ">", "!", "(", ")", "[", "]", ",", "=", "{ ... }", "{", "}"]
PREFIX = {c[3] for c in C if c[3] not in INFIX and re.fullmatch(r"[a-z0-9-]+", c[3])}
def lex(text):
    """Tokens of an expression of the format language; None where the text has no reading."""
    out, k = [], 0
    while k < len(text):
        if text[k].isspace():
            k += 1
            continue
        m = re.match(r"\.(\d+|[a-z]+)", text[k:])
        if m and k and not text[k - 1].isspace():
            out.append([m.group(0), "proj"]); k += m.end()
            continue
        m = WORD.match(text, k)
        if m:
            w = m.group(0)
            out.append([w, w if w in PREFIX else "leaf"]); k = m.end()
            continue
        for o in sorted(OPS, key=len, reverse=True):
            if text.startswith(o, k):
                out.append([o, "{...}" if o == "{ ... }" else o]); k += len(o)
                break
        else:
            return None
    return out
NUMTOK = re.compile(r"\s*(?:(?P<as>as(?:\(rust\))? [ui]\d+)\b|(?P<num>-?\d+(?:[ui]\d+|\?)?)|(?P<op>\+\+|--|~|abs|[-+*/%])(?P<rep>[ui]\d+(?=\s))?|(?P<par>[()])|(?P<var>V\d+))")
def lexnum(text):
    out, k, operand = [], 0, True
    while k < len(text):
        if text[k].isspace():
            k += 1
            continue
        m = NUMTOK.match(text, k)
        if not m:
            return None
        if m["num"] and not operand and m["num"].startswith("-"):
            m = re.compile(r"(?P<as>)?(?P<num>)?(?P<op>-)(?P<rep>[ui]\d+(?=\s))?(?P<par>)?(?P<var>)?").match(text, k)
        if m["as"]:
            out.append([m["as"], "as"])
        elif m["num"]:
            out.append([m["num"].rstrip("?"), "leaf"]); operand = False
        elif m["op"]:
            out.append([m["op"] + (m["rep"] or ""), m["op"]]); operand = True
        elif m["par"]:
            out.append([m["par"], m["par"]]); operand = m["par"] == "("
        else:
            out.append([m["var"], "leaf"]); operand = False
        k = m.end()
    return out

def judge(ctx, tag, exprs, num):
    """exprs: (json, tree) pairs."""
    src, dst, path = (os.path.join(ctx.work, f"{tag}.{x}") for x in ("in", "out", "ndjson"))
    exprs = list(exprs)
    with open(src, "w") as f:
        for e, _ in exprs:
            f.write(json.dumps({"num": num, "e": e}) + "\n")
    mism, summ = ctx.vh("print", "--in", src, "--out", dst)
    for m in mism:
        ctx.violation(m)
    texts = [json.loads(l) for l in open(dst)]
    ctx.require(len(texts) == len(exprs), f"{tag}: {len(texts)} texts for {len(exprs)} expressions")
    cases = []
    for (e, t), text in zip(exprs, texts):
        if text is None:
            continue
        toks = (lexnum if num else lex)(text)
        cases.append({"e": t, "text": text, "toks": toks if toks else [["?", "?"]], "exact": num})
    with open(path, "w") as f:
        for k in range(0, len(cases), 100):
            f.write(json.dumps({"id": f"{tag}{k}", "cases": cases[k:k + 100]}) + "\n")
    os.remove(src); os.remove(dst)
    ctx.extra.setdefault("expressions", {})[tag] = len(cases)
    decheck.validate(ctx, tag, path, "Printing")

def run(ctx):
    ctx.need_hooks()
    rnd = random.Random(ctx.seed)
    judge(ctx, "single", all_chains(C, 1), False)
    judge(ctx, "pairs", all_chains(C, 2), False)
    infix = [c for c in C if c[3] in INFIX or c[3] in ("!", "succ", "as-u8", "pat-bind", "seq-length", ".3", "match")]
    judge(ctx, "triples", all_chains(infix if ctx.quick else C, 3), False)
    n = 4000 if ctx.quick else 60000
    judge(ctx, "random", (rand_expr(rnd, C, rnd.choice("NNNNBBBSSO"), rnd.randrange(2, 6), Leaves()) for _ in range(n)), False)
    nc = numeric(["none", "u8", "i32"])
    judge(ctx, "num2", list(num_chains(nc, 1)) + list(num_chains(nc, 2)), True)
    judge(ctx, "num3", num_chains(numeric(["none"]) if ctx.quick else nc, 3), True)
    judge(ctx, "numrandom", (rand_num(rnd, nc, rnd.randrange(2, 6), NumLeaves()) for _ in range(n // 2)), True)
    ctx.assumptions.append("The text of a literal or variable identifies it; machine types of literals are not printed by the tree printer.")
