"""Views and zero-copy arrays: the complete graph of Views.tla replayed into the real objects, plus view formats."""
import os
import decheck
TECHNIQUE = ("TLA+ spec Views model-checked with TLC, complete graph of objects and operations replayed into View/ReadScope/ReadCtxt/"
             "ReadArray; recorded runs of view formats validated by TLC against FormatSem")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all chains of operations on a small buffer with all element types, all amounts up to one past the end and "
              "amounts at the machine-word limits; view formats in the decoders are sampled.")
SIZES = {"U8": 1, "I8": 1, "U16Be": 2, "I16Be": 2, "U24Be": 3, "U32Be": 4, "I32Be": 4, "U64Be": 8, "I64Be": 8, "T2": 3, "T3": 4, "T4": 5}

def graph(ctx, name, buf, types, amounts, strides):
    consts = {"Buf": "<<" + ", ".join(map(str, buf)) + ">>",
              "Types": "{" + ", ".join('[n |-> "%s", size |-> %d]' % (t, SIZES[t]) for t in types) + "}",
              "Amounts": "{" + ", ".join(map(str, amounts)) + "}",
              "Strides": "{" + ", ".join(map(str, strides)) + "}", "Nibbles": "0 .. 15"}
    out, st = ctx.tlc("Views", consts=consts, name=name, invariants=["Contained", "Emit"])
    mism, summ = ctx.vh("views", "--edges", out, "--buf", ",".join(map(str, buf)))
    c = summ["counters"]
    ctx.require(c["states"] == st["distinct"], f"{name}: state dump incomplete")
    if not mism:
        ctx.require(c["objects"] == st["distinct"], f"{name}: only {c['objects']} of {st['distinct']} objects were reached")
    ctx.traces += c["edges"]
    ctx.extra.setdefault("operations", {}).update({k: v for k, v in c.items() if k.startswith("op:")})
    for m in mism:
        ctx.violation(m)
    os.remove(out)

def run(ctx):
    small = [0, 1, 2, 3, 4, 5, 6]
    big = [1001, 1002, 1003, 1004, 1005, 1006]
    allt = list(SIZES)
    if ctx.quick:
        graph(ctx, "MC_small", [1, 2, 2, 130, 255], allt, small + big, [0, 1, 3, 1001, 1002, 1005, 2000])
        graph(ctx, "MC_wide", [1, 2, 2, 5, 16, 130, 200, 255, 0], ["U8", "U16Be", "U32Be", "U64Be", "I64Be"],
              [0, 1, 2, 8, 9, 10, 1001, 1005], [0, 1])
    else:
        graph(ctx, "MC_small", [1, 2, 2, 130, 255, 7], allt, small + [7] + big, [0, 1, 2, 3, 1001, 1002, 1005, 2000])
        graph(ctx, "MC_wide", [1, 2, 2, 5, 16, 130, 200, 255, 0], allt, list(range(11)) + big, [0, 1, 2, 1001, 2000])
    s = ctx.seed
    plan = ([("views", s, 20000, "views", 4, 4)] if ctx.quick else [(f"views{i}", s + i, 60000, "views", 4, 4) for i in range(4)])
    for tag, seed, n, focus, depth, maxlen in plan:
        path, c = decheck.record(ctx, tag, seed, n, focus, depth, maxlen, loc=True)
        decheck.validate(ctx, tag, path, module="ValueTrace")
