"""The committed decoders agree with the shipped definitions on any bytes."""
import os
import shipcheck, vlib
TECHNIQUE = ("TLA+ semantics FormatSem/ExprSem/NumSem run on the shipped definitions themselves; inputs derived from the definitions "
             "(and mutated) run through the committed decoders and the interpreter; both validated by TLC (ShipTrace)")
LEVEL = "model_checking"
LEVEL_NOTE = ("Trace validation over inputs derived from the definitions: the definitions are exported from the working tree and are "
              "the model, every committed decoder without parameters is run as compiled, next to the interpreter.")


def one(ctx, its, tp, tag, seed, n, per_alt, cap):
    d = os.path.join(ctx.work, "ship_" + tag)
    os.makedirs(d, exist_ok=True)
    rows = shipcheck.make(its, tp, seed, n, per_alt)
    at = {fn: ix for ix, fn in tp}
    for k in vlib.load_known(ctx.prop):
        if "example" in k and k["example"]["decoder"] in at:
            rows.append((k["example"]["decoder"], at[k["example"]["decoder"]], bytes.fromhex(k["example"]["input"])))
    shipcheck.run(ctx, d, rows)
    c = shipcheck.compare(ctx, d, cap)
    shipcheck.validate(ctx, d, its, tag)
    for k, v in c.items():
        t = ctx.extra.setdefault("runs", {})
        t[k] = t.get(k, 0) + v
    return c


def run(ctx):
    fns = shipcheck.build()
    its = shipcheck.definitions()
    tp = shipcheck.tops(its, fns)
    ctx.extra["definitions"] = len(its)
    ctx.extra["decoders run"] = len(tp)
    if ctx.quick:
        one(ctx, its, tp, "q", ctx.seed, 60, 200, 10000)
    else:
        for j in range(12):
            one(ctx, its, tp, f"t{j}", ctx.seed + j, 120, 400, 10000)
    r = ctx.extra["runs"]
    ctx.require(len(tp) >= 150, f"only {len(tp)} committed decoders can be run by themselves")
    if all(v["kind"] == "shipped-panic" for v in ctx.violations):
        ctx.require(r.get("shipped decoder: ok", 0) >= 2000 and r.get("shipped decoder: err", 0) >= 1000, "too few inputs are accepted or refused")
    ctx.assumptions += ["where an expression of a definition has no value on the input (underflow, an index or a case that does not "
                        "exist) nothing is claimed about the interpreter; the committed decoder must still not panic",
                        "repetition counts above 600 are not judged", "decoders that only run on bits (deflate) are D12's"]
