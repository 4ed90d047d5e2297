"""Decoding = format meaning: recorded interpreter runs judged against FormatSem."""
import decheck
TECHNIQUE = ("TLA+ semantics FormatSem/ExprSem; runs of the real interpreter on generated formats and all small inputs, "
             "recorded and validated by TLC as behaviours of the specification")
LEVEL = "model_checking"
LEVEL_NOTE = ("Trace validation: bounded formats (generated, typed, all constructors) x all inputs over a small alphabet up to the "
              "length bound; every recorded outcome must be in the set TLC computes. Trusts TLC, the generator and the value encoding.")

def run(ctx):
    s = ctx.seed
    if ctx.quick:
        plan = [("all", s, 24000, "all", 4, 3), ("long", s + 100, 6000, "codegen", 4, 4), ("deep", s + 200, 6000, "all", 6, 3),
                ("back", s + 300, 5000, "backtrack", 4, 4), ("ops", s + 400, 4000, "ops", 4, 2), ("views", s + 500, 4000, "views", 4, 3),
                ("follow", s + 600, 30000, "follow", 3, 4)]
    else:
        plan = [(f"all{i}", s + i, 60000, "all", 4, 3) for i in range(4)]
        plan += [(f"long{i}", s + 10 + i, 30000, "codegen", 4, 4) for i in range(2)]
        plan += [(f"deep{i}", s + 20 + i, 30000, "all", 6, 3) for i in range(3)]
        plan += [("back", s + 300, 40000, "backtrack", 4, 4), ("ops", s + 400, 40000, "ops", 4, 2), ("views", s + 500, 40000, "views", 4, 3),
                 ("follow", s + 600, 80000, "follow", 3, 4), ("follow5", s + 601, 20000, "follow", 3, 5)]
    for tag, seed, n, focus, depth, maxlen in plan:
        path, c = decheck.record(ctx, tag, seed, n, focus, depth, maxlen)
        decheck.validate(ctx, tag, path)
    ctx.require(len(ctx.extra["constructors"]) >= 78, "constructors not all generated")
    ctx.assumptions += ["where look-ahead cannot see into a construct (computed lengths, fallbacks, views) the specification "
                        "leaves the choice open; expressions without a value may fail or panic"]
