"""Static size analysis: reported ranges against the meaning of formats and expressions."""
import decheck, os
TECHNIQUE = ("TLA+ semantics FormatSem/ExprSem; the ranges reported by the real analyses (interpreter's and code generator's) for generated "
             "formats and expressions are checked by TLC against every allowed outcome, and against the real decoder on all small inputs")
LEVEL = "model_checking"
LEVEL_NOTE = ("All inputs over a small alphabet up to the length bound, for generated formats covering every constructor; expressions "
              "are evaluated in random environments. Look-ahead is judged for formats that read input only by advancing over it.")

def record(ctx, cmd, tag, args, need):
    d = os.path.join(ctx.work, "rec_" + tag)
    os.makedirs(d, exist_ok=True)
    mism, summ = ctx.vh(cmd, "--dir", d, *args, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    c = summ["counters"]
    ctx.extra.setdefault("recorded", {})[tag] = {k: v for k, v in c.items() if not k.startswith("kind:")}
    if not ctx.violations:
        for k, v in need.items():
            ctx.require(c.get(k, 0) >= v, f"{tag}: only {c.get(k, 0)} {k}")
    return os.path.join(d, "cases.ndjson")

def run(ctx):
    ctx.need_hooks()
    s = ctx.seed
    q = ctx.quick
    plan = [("all", s, 30000 if q else 200000, "all", 3, 4), ("choice", s + 100, 15000 if q else 100000, "choice", 3, 4),
            ("codegen", s + 200, 15000 if q else 100000, "codegen", 3, 4)]
    for tag, seed, n, focus, depth, maxlen in plan:
        p = record(ctx, "sizes", tag, ["--seed", seed, "--n", n, "--focus", focus, "--depth", depth, "--maxlen", maxlen],
                   {"accepted": 1000, "bounded-accepts": 1000, "typed": 100 if tag == "codegen" else 0, "lookahead-pairs": 500})
        decheck.validate(ctx, tag, p, module="BoundsTrace")
    p = record(ctx, "sizes-exprs", "exprs", ["--seed", s, "--n", 40000 if q else 400000], {"bounded": 5000})
    decheck.validate(ctx, "exprs", p, module="ExprBounds")
