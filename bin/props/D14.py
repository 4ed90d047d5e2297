"""Pattern matching and scoping: recorded evaluations judged against ExprSem."""
import decheck
TECHNIQUE = ("TLA+ spec ExprSem (exact integers as limb sequences, values, patterns, scopes); formats built around generated "
             "expressions run in both decoders, recorded and validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Bounded generated well-typed expressions (patterns and binders nested to the depth bound); every recorded result must equal the one TLC computes. "
              "An expression without a value (overflow, index out of range, no matching branch) must not produce one.")

def run(ctx):
    s = ctx.seed
    if ctx.quick:
        plan = [("e4", s, 24000, "patterns", 4, 2), ("e6", s + 30, 6000, "patterns", 6, 2)]
    else:
        plan = [(f"e4_{i}", s + i, 80000, "patterns", 4, 2) for i in range(4)] + [(f"e6_{i}", s + 30 + i, 40000, "patterns", 6, 2) for i in range(3)]
    for tag, seed, n, focus, depth, maxlen in plan:
        path, c = decheck.record(ctx, tag, seed, n, focus, depth, maxlen, loc=True)
        decheck.validate(ctx, tag, path, module="ValueTrace")
