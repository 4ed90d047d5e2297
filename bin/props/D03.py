"""Locating decoder: same outcome as the plain one, and the spans LocSem prescribes."""
import decheck
TECHNIQUE = ("TLA+ spec LocSem (location tree of every decoded value) over FormatSem; recorded runs of the real locating decoder "
             "validated by TLC, both decoders compared on every input")
LEVEL = "model_checking"
LEVEL_NOTE = ("Both decoders run on every generated format and every input up to the length bound; a sample of runs per format, with "
              "full span trees, is judged by TLC. Spans of values built by expressions are constrained only where the code promises one.")

def run(ctx):
    s = ctx.seed
    if ctx.quick:
        plan = [("all", s, 16000, "all", 4, 3), ("views", s + 50, 5000, "views", 4, 3), ("deep", s + 60, 4000, "codegen", 6, 3),
                ("exprs", s + 70, 6000, "exprs", 4, 2), ("back", s + 90, 4000, "backtrack", 4, 4), ("follow", s + 600, 6000, "follow", 3, 3)]
    else:
        plan = [(f"all{i}", s + i, 50000, "all", 4, 3) for i in range(3)]
        plan += [("views", s + 50, 40000, "views", 4, 3), ("deep", s + 60, 30000, "codegen", 6, 3),
                 ("exprs", s + 70, 40000, "exprs", 4, 2), ("pat", s + 80, 30000, "patterns", 4, 3),
                 ("back", s + 90, 40000, "backtrack", 4, 4), ("follow", s + 600, 40000, "follow", 3, 4)]
    for tag, seed, n, focus, depth, maxlen in plan:
        path, c = decheck.record(ctx, tag, seed, n, focus, depth, maxlen, loc=True)
        decheck.validate(ctx, tag, path, module="LocTrace")
    ctx.assumptions += ["offsets inside a bits region or a nested buffer count from its start"]
