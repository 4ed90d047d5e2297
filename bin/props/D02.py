"""Look-ahead and ambiguity: TLC enumerates the small choices and their languages; replayed into the compiler."""
import os
import decheck
TECHNIQUE = ("TLA+ spec Ambiguity enumerated by TLC (verdict and language of every small choice) replayed into the real compiler "
             "and decoder; recorded decoder runs on generated choices validated by TLC against FormatSem")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive for the regular fragment up to the size bound (all strings up to the cut), sampled beyond it. Formats with "
              "unbounded repetition may be refused conservatively.")

BASIC = '{"rep", "rep1", "count2"}'
FULL = '{"rep", "rep1", "count2", "opt2", "one2", "slice1", "slice2", "peek", "peeknot"}'

def amb(ctx, family, size, unary, cut, stride=1):
    tag = f"{family}{size}{'b' if unary == BASIC else 'f'}"
    out, st = ctx.tlc("Ambiguity", consts={"Size": size, "Cut": cut, "Shards": "64", "Stride": stride, "Offset": ctx.seed % stride, "Unary": unary, "Family": f"\"{family}\""},
                      name=f"MC_Amb_{tag}_{cut}")
    mism, summ = ctx.vh("amb", "--edges", out, "--cut", cut)
    c = summ["counters"]
    ctx.require(c["formats"] == st["distinct"], "enumeration incomplete")
    ctx.traces += c.get("runs", 0)
    ctx.extra.setdefault("ambiguity", {})[tag] = c
    for m in mism:
        ctx.violation(m)
    os.remove(out)

def run(ctx):
    amb(ctx, "all", 6, BASIC, 5 if ctx.quick else 7)
    amb(ctx, "all", 5, FULL, 4 if ctx.quick else 6)
    amb(ctx, "loops", 0, BASIC, 5)
    s = ctx.seed
    plan = ([("choice", s, 40000, "choice", 4, 4), ("follow", s + 20, 40000, "follow", 3, 4)] if ctx.quick else
            [(f"choice{i}", s + i, 150000, "choice", 4, 4) for i in range(3)] + [("choiced", s + 9, 60000, "choice", 6, 3)]
            + [(f"follow{i}", s + 20 + i, 60000, "follow", 3, 5) for i in range(3)])
    for tag, seed, n, focus, depth, maxlen in plan:
        path, c = decheck.record(ctx, tag, seed, n, focus, depth, maxlen)
        decheck.validate(ctx, tag, path)
    ctx.assumptions += ["constructs whose extent is computed at run time are opaque to look-ahead: no verdict is demanded there"]
