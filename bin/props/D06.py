"""Parser runtime: every transition of ParserRT.tla replayed into the real Parser."""
TECHNIQUE = "TLA+ spec ParserRT model-checked with TLC; complete state graph replayed into the real parser runtime"
LEVEL = "model_checking"
LEVEL_NOTE = ("Every transition of the bounded model (all operation interleavings up to the nesting depth, on small buffers) is "
              "executed on the real Parser and compared; assumes the bracketing discipline of generated code, trusts TLC and the replayer.")

def model(ctx, name, buf, base, depth, amounts, slices, aligns, bits, walk):
    consts = {"Buf": "<<" + ", ".join(map(str, buf)) + ">>", "Base": base, "MaxDepth": depth,
              "Amounts": "{" + ", ".join(map(str, amounts)) + "}",
              "SliceSizes": "{" + ", ".join(map(str, slices)) + "}",
              "Aligns": "{" + ", ".join(map(str, aligns)) + "}",
              "AllowBits": "TRUE" if bits else "FALSE", "Emit": "TRUE"}
    out, st = ctx.tlc("ParserRT", consts=consts, name=name,
                      invariants=["TypeOK", "Contained", "SlicesNest", "CheckpointsLegal", "ModeOK"],
                      properties=["FallBackExact"])
    mism, summ = ctx.vh("parser-rt", "--edges", out, "--base", base, "--buf", ",".join(map(str, buf)),
                        "--seed", ctx.seed, "--walk", walk)
    c = summ["counters"]
    ctx.require(c["edges"] > 1000 and c["states"] == st["distinct"], f"{name}: dump of the state graph is incomplete")
    ctx.traces += c["edges"]
    ctx.extra.setdefault("operations", {}).update({k: v for k, v in c.items() if k.startswith("op:")})
    ctx.extra["replayed_steps"] = ctx.extra.get("replayed_steps", 0) + c["steps"]
    for m in mism:
        ctx.violation(m)
    import os
    os.remove(out)

def run(ctx):
    if ctx.quick:
        model(ctx, "MC_bits", [165, 60], 2, 2, [0, 1, 2, 8, 9], [0, 1, 2, 3, 8, 9], [1, 2, 3, 8], True, 4)
        model(ctx, "MC_bytes", [1, 2, 3, 4], 0, 3, [0, 1, 2, 3], [0, 1, 2, 3, 5], [1, 2, 4], False, 4)
    else:
        model(ctx, "MC_bits", [165, 60], 1, 2, [0, 1, 2, 3, 7, 8, 9, 15, 16, 17], [0, 1, 2, 3, 7, 8, 9, 15, 16, 17], [1, 2, 3, 4, 8, 16], True, 8)
        model(ctx, "MC_bytes", [1, 2, 3, 4, 5], 2, 3, [0, 1, 2, 3], [0, 1, 2, 3, 4, 5, 6], [1, 2, 3, 4], False, 8)
        model(ctx, "MC_bytes4", [1, 2, 3], 0, 4, [1, 2], [0, 1, 2, 3], [2], False, 8)
    ctx.assumptions += ["contexts are opened and closed in the bracketing discipline generated decoders follow "
                        "(no slice closed across an open peek, bit mode left where it was entered)",
                        "a position is observed through the public accessors; internal representation is not compared"]
