"""Byte sets: ByteSets.tla explored by TLC; every set, query and operation replayed into ByteSet."""
import json, os, random
TECHNIQUE = ("TLA+ spec ByteSets model-checked with TLC; every explored set is rebuilt in every way the API offers and every query and "
             "operation of the specification is replayed into ByteSet, and its printed forms are parsed back")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all changes at the word-boundary bytes of the base sets (empty, full, the named ASCII sets, all single bytes "
              "and pairs of neighbouring bytes, random sets); other sets are covered only through these.")

def runs(s):
    out = []
    for b in sorted(s):
        if out and out[-1][1] == b - 1:
            out[-1][1] = b
        else:
            out.append([b, b])
    return out

def tla(s):
    return "(" + " \\cup ".join(f"({a} .. {b})" for a, b in runs(s)) + ")" if s else "{}"

def graph(ctx, name, bases, r, operands):
    consts = {"Bases": "{" + ", ".join(tla(b) for b in bases) + "}", "R": "{" + ", ".join(map(str, r)) + "}",
              "Operands": "<<" + ", ".join(tla(o) for o in operands) + ">>"}
    out, st = ctx.tlc("ByteSets", consts=consts, name=name, invariants=["Laws", "Emit"])
    mism, summ = ctx.vh("bytes", "--edges", out, "--operands", json.dumps([[[a for a, _ in runs(o)], [b for _, b in runs(o)]] for o in operands]))
    c = summ["counters"]
    ctx.require(c["states"] == st["distinct"], f"{name}: state dump incomplete ({c['states']} of {st['distinct']})")
    ctx.traces += sum(v for k, v in c.items() if k.startswith("op:")) + c["built"]
    ctx.extra.setdefault("operations", {}).update({k: v for k, v in c.items() if k.startswith("op:")})
    for m in mism:
        ctx.violation(m)
    os.remove(out)

def run(ctx):
    rnd = random.Random(ctx.seed)
    alls = set(range(256))
    dec, octal = set(range(48, 58)), set(range(48, 56))
    low, up = dec | set(range(97, 103)), dec | set(range(65, 71))
    strict = set(range(32, 128)) | {9, 10, 13}
    named = [set(), alls, set(range(128)), strict, dec, octal, low, up, low | up]
    def rand(p):
        return {b for b in range(256) if rnd.random() < p}
    def blocks(n):
        s = set()
        for _ in range(n):
            a = rnd.randrange(256); s |= set(range(a, min(256, a + rnd.choice([1, 2, 3, 4, 5, 30, 64]))))
        return s
    q = ctx.quick
    rnds = [rand(p) for p in ([.05, .5, .95] if q else [.02, .05, .2, .5, .8, .95])] + [blocks(k) for k in ((2, 5, 9) if q else (2, 3, 5, 9, 14, 20))]
    edge = [0, 63, 64, 127, 128, 191, 192, 255] if q else [0, 1, 62, 63, 64, 127, 128, 191, 192, 255]
    ops = [{0}, {255}, set(range(64)), set(range(60, 200)), rnds[1], alls - rnds[1], strict, alls, set()]
    graph(ctx, "MC_words", named[:2] + [low | up, set(range(100, 161))] + rnds[:1 if q else 4], edge, ops)
    # sets whose text is special, and those one or two bytes away from them
    near = [47, 48, 55, 58, 64, 70, 97, 103, 31, 127]
    graph(ctx, "MC_named", named + rnds, near[:6] if q else near, ops)
    # single bytes, neighbouring pairs, intervals and their complements
    ones = [{b} for b in range(256)] + [{b, b + 1} for b in range(255)]
    iv = [set(range(a, b + 1)) for a in range(0, 256, 17 if q else 5) for b in range(a + 2, 256, 23 if q else 7)]
    sets = ones + iv
    graph(ctx, "MC_small", sets + [alls - s for s in sets] + rnds, [0, 255], ops)
