"""Trace validation of generated formats: the harness decodes them, TLC judges what it recorded."""
import json, os


def record(ctx, tag, seed, n, focus, depth, maxlen, loc=False, kinds=(), need=0):
    """Decodes n generated programs; returns (trace file, counters).  Harness mismatches become violations."""
    d = os.path.join(ctx.work, "rec_" + tag)
    os.makedirs(d, exist_ok=True)
    args = ["dec", "--seed", seed, "--n", n, "--depth", depth, "--maxlen", maxlen, "--focus", focus, "--dir", d]
    if loc:
        args += ["--loc", 1]
    mism, summ = ctx.vh(*args, crash_dir=d)
    for m in mism:
        if m.get("kind") == "loc-differs" and not loc:
            continue
        ctx.violation(m)
    c = summ["counters"]
    ctx.extra.setdefault("programs", {})[tag] = {k: v for k, v in c.items() if not k.startswith(("kind:", "rejected:"))}
    kc = ctx.extra.setdefault("constructors", {})
    for k, v in c.items():
        if k.startswith("kind:"):
            kc[k[5:]] = kc.get(k[5:], 0) + v
    if not ctx.violations:
        ctx.require(c.get("compiled", 0) >= max(need, n // 20), f"{tag}: too few generated formats compile")
        ctx.require(c.get("accepted", 0) >= 1000, f"{tag}: too few accepted inputs")
    return os.path.join(d, "cases.ndjson"), c


def validate(ctx, tag, path, module="DecodeTrace", timeout=800):
    """Every recorded run must be a behaviour of the specification."""
    if not os.path.exists(path) or os.path.getsize(path) == 0:
        return 0
    out, st = ctx.tlc(module, consts={"File": '"%s"' % path, "Shards": "64"}, init_next=("Init", "Next"),
                      name=f"MC_{module}_{tag}", timeout=timeout)
    recs = None
    with open(out, errors="replace") as f:
        for line in f:
            if line.startswith('"BAD '):
                b = json.loads(json.loads(line)[4:])
                if recs is None:
                    recs = [json.loads(l) for l in open(path)]
                r = recs[b["n"] - 1]
                b.update(kind="not-a-behaviour", **{k: r[k] for k in ("M", "f", "e") if k in r})
                ctx.violation(b)
    n = 0
    with open(path) as f:
        for line in f:
            r = json.loads(line)
            n += len(r["cases"])
            if len(ctx.samples) < 6 and r["cases"]:
                ctx.samples.append({"format": json.dumps(r.get("f", r.get("e")))[:400], "case": json.dumps(r["cases"][0])[:300]})
    nrec = sum(1 for _ in open(path))
    ctx.require(st["distinct"] == nrec, f"{tag}: TLC judged {st['distinct']} of {nrec} records")
    ctx.traces += n
    os.remove(out)
    os.remove(path)
    return n
