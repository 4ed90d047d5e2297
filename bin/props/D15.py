"""The shipped text formats accept exactly well-formed UTF-8."""
import itertools, json, os, random
import shipcheck, vlib
TECHNIQUE = ("TLA+ definition of UTF-8 from the encoder's side (Utf8.tla); every sequence of up to four boundary bytes and the encodings of "
             "all scalars (in strings) run through the interpreter and the committed decoders; outcomes validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over sequences of up to four bytes drawn from both ends of every byte class of RFC 3629, and (thorough) over all "
              "1,112,064 scalars.")

# both ends of every class of bytes that the grammar of RFC 3629 distinguishes, and one from within
EDGES = [0x00, 0x01, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef,
         0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff]
KINDS = {"text.utf8.char": "char", "text.utf8.char.non-null": "char-nz", "text.string.utf8": "string",
         "text.string.utf8.non-null": "string-nz", "text.string": "string", "text.maybe_gzip": "string"}
CHUNK = 2000


def sequences(quick):
    yield b""
    for n in range(1, 4):
        for t in itertools.product(EDGES, repeat=n):
            yield bytes(t)
    # four bytes: behind anything that cannot start a four-byte character the last byte does not matter
    for t in itertools.product(EDGES, repeat=4):
        if t[0] >= 0xe0 if quick else t[0] >= 0xc0:
            yield bytes(t)


def scalars(quick, r):
    cps = [c for c in range(0x110000) if not 0xd800 <= c < 0xe000]
    if quick:
        edge = {0, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff}
        cps = [c for c in cps if c % 29 == r.randrange(29) or any(abs(c - e) <= 70 for e in edge)]
    return cps


def run(ctx):
    r = random.Random(ctx.seed)
    fns = shipcheck.build()
    its = shipcheck.definitions()
    have = [(k, shipcheck.decoder_of(i), KINDS[i["n"]]) for k, i in enumerate(its)
            if i["n"] in KINDS and not i["args"] and not i["views"]]
    # the decoders of single characters go by number: those that yield a character, told apart by what they do with U+0000
    ix = {its[k]["n"]: k for k, _, _ in have}
    single = sorted(f for f, t in fns.items() if t == "char")
    d = os.path.join(ctx.work, "probe")
    os.makedirs(d)
    shipcheck.run(ctx, d, [(f, 0, b"\0") for f in single])
    for l, o in zip(open(os.path.join(d, "inputs.tsv")), open(os.path.join(d, "runs.tsv"))):
        k, n = ("char", "text.utf8.char") if o.startswith("ok") else ("char-nz", "text.utf8.char.non-null")
        if n in ix:
            have = [h for h in have if h[0] != ix[n] or h[1] in fns] + [(ix[n], l.split("\t")[0], k)]
    ctx.require({"char", "string"} <= {k for _, _, k in have} and any(f in fns for _, f, k in have if k == "char")
                and any(f in fns for _, f, k in have if k == "string"), f"the shipped text formats were not found: {have}")
    d = os.path.join(ctx.work, "utf8")
    os.makedirs(d)
    rows, kind = [], {}

    def add(fn, ix, k, ss):
        for j in range(0, len(ss), CHUNK):
            name = f"{fn}#{k}#{len(kind)}"
            kind[name] = k
            rows.extend((name, ix, s) for s in ss[j:j + CHUNK])
    seqs = list(sequences(ctx.quick))
    cps = scalars(ctx.quick, r)
    text = [c if isinstance(c, bytes) else chr(c).encode() for c in cps]
    for ix, fn, k in have:
        if k.startswith("char"):
            add(fn, ix, k, seqs)
        else:
            # strings: all scalars, and damaged ones
            ss = [b"".join(text[j:j + 50]) for j in range(0, len(text), 50)]
            bad = []
            for s in ss[:: 1 if not ctx.quick else 3]:
                b = bytearray(s)
                p = r.randrange(len(b))
                o = r.randrange(3)
                if o == 0:
                    del b[p]
                elif o == 1:
                    b[p] = r.choice(EDGES)
                else:
                    b.insert(p, r.choice(EDGES))
                bad.append(bytes(b))
            add(fn, ix, k, ss + bad + r.sample(seqs, 3000))
    shipcheck.run(ctx, d, rows)
    c = shipcheck.compare(ctx, d, 10 ** 9)
    ctx.extra["runs"] = c
    ctx.extra["formats"] = [f for _, f, _ in have]
    path, recs, n = os.path.join(d, "trace.ndjson"), [], 0
    with open(path, "w") as f:
        for line in open(os.path.join(d, "cases.ndjson")):
            q = json.loads(line)
            f.write(json.dumps({"id": q["id"], "kind": kind[q["id"]], "cases": q["cases"]}) + "\n")
            recs.append(q["id"])
            n += len(q["cases"])
            if len(ctx.samples) < 6:
                ctx.samples.append({"decoder": q["id"], "case": json.dumps(q["cases"][-1])[:300]})
    out, st = ctx.tlc("Utf8", consts={"File": f'"{path}"', "Shards": "64"}, init_next=("Init", "Next"), heap="20g")
    for line in open(out, errors="replace"):
        if line.startswith('"BAD '):
            b = json.loads(json.loads(line)[4:])
            ctx.violation({"kind": "text", "decoder": b["id"], "input": bytes(b["in"]).hex(), "shipped": b["out"], "interpreter": b["int"]})
    ctx.require(st["distinct"] == len(recs) and len(recs) == len(kind), f"TLC judged {st['distinct']} of {len(kind)} records")
    ctx.traces += n
    os.remove(path)
    os.remove(os.path.join(d, "cases.ndjson"))
    if not ctx.violations:
        ctx.require(c.get("shipped decoder: ok", 0) > 10000 and c.get("shipped decoder: err", 0) > 20000, f"too few runs: {c}")
