"""Interval arithmetic: the exact value table of Intervals.tla against every range with ends in it."""
import os
TECHNIQUE = ("TLA+ spec Intervals (exact word arithmetic over BigNat) evaluated by TLC for all value pairs; every range and pair of ranges "
             "over those values is judged against it through the Bounds API")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all pairs of ranges whose ends (and members) are in the value set: a full small interval, and values around "
              "powers of two up to the word limit.")

def limbs(n):
    out = []
    while n:
        out.append(str(n % 4096)); n //= 4096
    return "<<" + ", ".join(out) + ">>"

def table(ctx, name, values):
    vals = sorted(set(values))
    out, st = ctx.tlc("Intervals", consts={"V": "<<" + ", ".join(limbs(v) for v in vals) + ">>"}, name=name, invariants=["Laws", "Emit"])
    mism, summ = ctx.vh("ivals", "--edges", out)
    c = summ["counters"]
    ctx.require(c["states"] == st["distinct"] == len(vals) ** 2, f"{name}: table incomplete")
    ctx.traces += sum(v for k, v in c.items() if k.startswith("op:")) + c["unary"]
    ops = ctx.extra.setdefault("operations", {})
    for k, v in c.items():
        if k.startswith("op:"):
            ops[k[3:]] = ops.get(k[3:], 0) + v
    for m in mism:
        ctx.violation(m)
    os.remove(out)

def run(ctx):
    ctx.need_hooks()
    w = 1 << 64
    big = [0, 1, 2, 3, 5, 31, 32, 33, 62, 63, 64, 65, 2**31, 2**32 - 1, 2**32, 2**33 + 1, 2**62, 2**63 - 1, 2**63, 2**63 + 1, w - 2, w - 1]
    bits = [0, 1, 5, 7, 8, 10, 12, 15, 16, 21, 42, 63, 64, 85, 96, 127, 128, 129, 170, 200, 254, 255, 256]
    more = [4, 7, 8, 2**16 - 1, 2**16, 2**31 - 1, 2**31 + 1, 2**61, 2**62 + 1, w - 3, w // 3, w // 3 * 2]
    if ctx.quick:
        table(ctx, "MC_small", range(34))
        table(ctx, "MC_words", big + more[:6])
        table(ctx, "MC_bits", bits)
    else:
        table(ctx, "MC_small", range(66))
        table(ctx, "MC_words", big + more + [2**k + d for k in (8, 24, 40, 48, 56) for d in (-1, 0)])
        table(ctx, "MC_bits", bits + [3, 9, 24, 31, 33, 48, 90, 111, 165, 192, 240, 257, 300, 341, 511, 512])
