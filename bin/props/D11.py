"""Integer expressions: exact values, or a failure."""
import json, os, shutil
import decheck, gencheck
TECHNIQUE = ("TLA+ spec Numeric (exact signed integers as limb sequences, machine types, casts, failures); evaluation of generated trees, "
             "every machine-level function of the runtime, and emitted Rust code recorded and validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Trees of one operation: every operation, operand type and result type with boundary operands; larger trees generated. "
              "All machine-level functions named by the generator are called on pairs of boundary values of their types. "
              "Emitted code that rustc refuses is skipped (limitations of the generator).")


def emitted(ctx, tag, seed, n, depth, need):
    d = os.path.join(ctx.work, "num_" + tag)
    os.makedirs(d)
    mism, summ = ctx.vh("num-emit", "--dir", d, "--seed", seed, "--n", n, "--depth", depth, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    if ctx.violations:
        return
    ids = sorted(json.loads(l)["id"] for l in open(os.path.join(d, "meta.ndjson")))
    live, _ = gencheck.build(ctx, d, ids)
    for r in gencheck.run(ctx, d, 2):
        ctx.violation({"kind": "emitted code crashed", **r})
    _, summ = ctx.vh("num-emit-compare", "--dir", d, "--maxlen", 2)
    ctx.extra.setdefault("emitted", {})[tag] = dict(summ["counters"], trees=len(ids), compiled=len(live))
    decheck.validate(ctx, tag, os.path.join(d, "cases.ndjson"), module="Numeric")
    shutil.rmtree(d)
    if not ctx.violations:
        ctx.require(len(live) >= need, f"{tag}: too little emitted code compiles")


def run(ctx):
    s = ctx.seed
    d = os.path.join(ctx.work, "num")
    os.makedirs(d)
    mism, summ = ctx.vh("num-fns", "--seed", s, "--pairs", 60 if ctx.quick else 600, "--dir", d, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    ctx.extra["functions"] = summ["counters"]
    decheck.validate(ctx, "fns", os.path.join(d, "fns.ndjson"), module="Numeric")
    for j in range(1 if ctx.quick else 6):
        mism, summ = ctx.vh("num-eval", "--seed", s + 10 * j, "--n", 20000 if ctx.quick else 60000, "--pairs", 4 if ctx.quick else 12,
                            "--depth", 4 + j % 3, "--dir", d, crash_dir=d)
        for m in mism:
            ctx.violation(m)
        ctx.extra.setdefault("trees", []).append(summ["counters"])
        decheck.validate(ctx, f"eval{j}", os.path.join(d, "cases.ndjson"), module="Numeric")
    for j in range(1 if ctx.quick else 8):
        emitted(ctx, f"emit{j}", s + 4 + 10 * j, 1000 if ctx.quick else 3000, 3, 500)
    ctx.assumptions += ["a remainder by a negative number, and a bitwise cast of a number its type cannot hold, are not defined by the model",
                        "emitted code is judged whenever rustc accepts it"]
