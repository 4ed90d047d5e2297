"""Names of generated code: allocator histories and emitted programs judged against Names."""
import decheck, os
TECHNIQUE = ("TLA+ spec Names (allocator state machine: a new type gets a fresh identifier, a known one keeps its own); all short request "
             "histories replayed into the real allocator, and the identifiers of emitted programs, validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all histories of three requests at 23 clashing locations, random longer ones; emitted programs of generated "
              "formats with clashing names, emitted twice, and of the shipped definitions.")


def go(ctx, tag, *args, module="Names"):
    d = os.path.join(ctx.work, "n_" + tag)
    os.makedirs(d)
    mism, summ = ctx.vh(*args, "--dir", d, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    ctx.extra.setdefault("runs", {})[tag] = summ["counters"]
    decheck.validate(ctx, tag, os.path.join(d, "cases.ndjson"), module=module)
    return summ["counters"]


def run(ctx):
    ctx.need_hooks()
    s = ctx.seed
    k = 1 if ctx.quick else 8
    c = go(ctx, "hist", "names-hist", "--seed", s, "--len", 3, "--n", 20000 * k)
    ctx.require(c.get("renamed", 0) > 500 or ctx.violations, "no history with a renaming")
    c = go(ctx, "shipped", "names-shipped")
    ctx.require(c.get("types", 0) > 300 or ctx.violations, "shipped definitions have too few types")
    several = 0
    for i, (focus, depth, hostile, n) in enumerate([("all", 4, 1, 6000), ("patterns", 4, 1, 6000), ("patterns", 4, 0, 4000),
                                                    ("choice", 4, 1, 4000), ("codegen", 5, 1, 6000), ("exprs", 4, 1, 4000)]):
        for j in range(k):
            c = go(ctx, f"{focus}{i}_{j}", "names-programs", "--seed", s + 10 * i + 1000 * j, "--n", n, "--focus", focus, "--depth", depth,
                   "--hostile", hostile)
            several += c.get("programs with several types", 0)
    ctx.require(several >= 1000 or ctx.violations, "too few programs with several types")
    ctx.assumptions += ["field and variant labels are the format author's own", "the prelude's names are not redefined"]
