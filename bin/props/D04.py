"""Emitted Rust decoders agree with the interpreter and with the format's meaning."""
import gencheck
TECHNIQUE = ("TLA+ semantics FormatSem/ExprSem; decoders emitted for generated formats, compiled by rustc and run on all small inputs; "
             "recorded runs validated by TLC (GenTrace): the outcome is a behaviour of the specification and the interpreter's own")
LEVEL = "model_checking"
LEVEL_NOTE = ("Trace validation: every emitted decoder that rustc accepts is run next to the interpreter on every input up to the length "
              "bound; all differing runs and a sample of the others go to TLC. In the fragments 'backtrack' and 'ops' every format must "
              "be emitted and compile; elsewhere (and where variables are given names the generator uses itself) formats whose emitted code rustc rejects are skipped (limitations of the generator).")

#        tag          seed  n      focus        depth len  all compile  at least
QUICK = [("backtrack", 0, 2600, "backtrack", 4, 4, True, 2000), ("ops", 1, 2000, "ops", 4, 2, True, 1500),
         ("codegen", 2, 3000, "codegen", 3, 3, False, 300), ("all", 3, 3000, "all", 3, 3, False, 300),
         ("choice", 4, 2500, "choice", 4, 3, False, 200), ("patterns", 5, 5000, "patterns", 3, 3, False, 120),
         ("views", 6, 2500, "views", 3, 3, False, 150), ("exprs", 7, 4000, "exprs", 3, 2, False, 200),
         ("follow", 8, 2500, "follow", 3, 4, False, 300)]


ANY = {"k": "byte", "bs": [], "neg": True}
# two variables whose names differ only in a character that is no part of a Rust identifier (see known_findings.jsonl)
LABELS = {"M": [], "f": {"k": "letf", "f": ANY, "l": "a-b", "g": {"k": "letf", "f": ANY, "l": "a_b", "g": {
    "k": "compute", "e": {"k": "var", "l": "a-b"}}}}}
#           tag     seed  n     focus   depth len  at least
HOSTILE = [("h_backtrack", 12, 900, "backtrack", 4, 3, 250), ("h_all", 13, 2500, "all", 3, 3, 200), ("h_ops", 11, 1000, "ops", 4, 2, 300)]


def run(ctx):
    for tag, k, n, focus, depth, maxlen, must, need in QUICK:
        if ctx.quick:
            gencheck.check(ctx, tag, ctx.seed + k, n, focus, depth, maxlen, must, need)
        else:
            for j in range(6):
                gencheck.check(ctx, f"{tag}{j}", ctx.seed + 100 * j + k, n * 2, focus, depth + j % 2, maxlen, must, need)
    for tag, k, n, focus, depth, maxlen, need in HOSTILE:
        for j in range(1 if ctx.quick else 4):
            gencheck.check(ctx, f"{tag}{j}", ctx.seed + 100 * j + k, n, focus, depth, maxlen, False, need, hostile=True,
                           given=[LABELS] if tag == "h_ops" and j == 0 else ())
    ctx.require(len(ctx.extra["constructors"]) >= 70 or ctx.violations, "constructors not all exercised")
    ctx.assumptions += ["where an expression has no value (overflow, narrowing of too large a number, bad index) the emitted decoder "
                        "may fail, panic or wrap around", "the emitted value is compared through its Debug text",
                        "apart from the recorded finding, no two variables of a format become the same Rust identifier"]
