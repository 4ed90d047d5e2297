"""Huffman codes, DEFLATE and run lengths expand to exactly what was encoded."""
import itertools, json, os, random, re
import deflategen, shipcheck, vlib
TECHNIQUE = ("TLA+ definitions of canonical codes (Huffman.tla) and of DEFLATE and run lengths (Inflate.tla); small code tables exhaustively, "
             "encoder-made and damaged streams, run through interpreter, locating decoder, parse_huffman and the committed decoders; "
             "every outcome validated by TLC")
LEVEL = "model_checking"
LEVEL_NOTE = ("Exhaustive over all tables of up to 4 (thorough: 5) code lengths up to 4 with every one-byte input; streams are sampled, with every "
              "length and distance code at both ends of its range.")


def tables(ctx, r):
    recs = []
    alls = ["%02x" % b for b in range(256)]
    for n in range(1, 5 if ctx.quick else 6):
        for t in itertools.product(range(5), repeat=n):
            recs.append({"lens": list(t), "vals": [], "k": 2, "ins": alls if n < 4 else r.sample(alls, 60)})
    for j in range(250 if ctx.quick else 2500):
        n = r.choice((3, 5, 6, 8, 19, 30))
        kind = r.randrange(4)
        syms = sorted(r.sample(range(n), r.randint(1, n)))
        lens = deflategen.lengths(r, syms, n, 15 if n > 8 else 7, kind == 0)
        if kind == 3:
            lens[r.randrange(n)] = r.choice((1, 2, 3))       # mostly no code any more
        w = deflategen.words(lens)
        ins = [bytes(r.randrange(256) for _ in range(8)).hex() for _ in range(6)]
        for _ in range(10):
            b = deflategen.Bits()
            for _ in range(4):
                b.word(w[r.choice(sorted(w))])
            ins.append(b.bytes().hex())
        vals = []
        if j % 3 == 0:
            order = list(range(n))
            r.shuffle(order)
            vals, lens = [order], [lens[s] for s in order]
            while lens and lens[-1] == 0 and r.random() < 0.8:
                lens.pop()
        recs.append({"lens": lens, "vals": vals, "k": 4, "ins": ins})
    return recs


def codes(ctx, r):
    d = os.path.join(ctx.work, "codes")
    os.makedirs(d)
    f = os.path.join(d, "tables.ndjson")
    recs = tables(ctx, r)
    open(f, "w").writelines(json.dumps(x) + "\n" for x in recs)
    mism, summ = ctx.vh("huff-codes", "--file", f, "--dir", d, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    ctx.extra["code tables"] = dict(summ["counters"], tables=len(recs))
    p = os.path.join(d, "cases.ndjson")
    if not os.path.exists(p):
        return
    got = sum(1 for _ in open(p))
    out, st = ctx.tlc("HuffTrace", consts={"File": f'"{p}"', "Shards": "64"}, init_next=("Init", "Next"))
    for line in open(out, errors="replace"):
        if line.startswith('"BAD '):
            ctx.violation(dict(json.loads(json.loads(line)[4:]), kind="symbols"))
    ctx.require(st["distinct"] == got, f"TLC judged {st['distinct']} of {got} tables")
    ctx.traces += sum(len(x["ins"]) for x in recs)
    os.remove(p)


def numbers(text, field):
    m = re.findall(r"\b%s: \[([\d, ]*)\]" % field, text)
    return [int(x) for x in m[-1].split(",") if x.strip()] if m else None


def streams(ctx, its, fns, kind, item, name, field, ins, bits):
    """ins: [(stream, content or None)]"""
    ix = [k for k, i in enumerate(its) if i["n"] == item]
    ctx.require(len(ix) == 1, f"no format {item}")
    d = os.path.join(ctx.work, kind)
    os.makedirs(d)
    f = os.path.join(d, "streams.txt")
    open(f, "w").writelines(s.hex() + "\n" for s, _ in ins)
    mism, summ = ctx.vh("huff-expand", "--file", f, "--dir", d, "--item", ix[0], "--field", field, *(["--bits", "1"] if bits else []), crash_dir=d)
    for m in mism:
        ctx.violation(m)
    ctx.extra[kind] = summ["counters"]
    shipcheck.run(ctx, d, [(name, 0, s) for s, _ in ins])
    got = {}
    for l, o in zip(open(os.path.join(d, "inputs.tsv")), open(os.path.join(d, "runs.tsv"))):
        o = o.rstrip("\n").split("\t", 2)
        got[l.rstrip("\n").split("\t")[2]] = ["ok", numbers(o[2], field), int(o[1])] if o[0] == "ok" else [o[0]]
    p = os.path.join(d, "expanded.ndjson")
    if not os.path.exists(p):
        return
    t = os.path.join(d, "trace.ndjson")
    with open(t, "w") as o:
        for (s, plain), l in zip(ins, open(p)):
            both = json.loads(l)
            if both is None:
                continue
            o.write(json.dumps({"kind": kind, "in": list(s), "plain": [] if plain is None else [list(plain)], "int": both[0], "loc": both[1],
                                "out": got.get(s.hex(), ["missing"])}) + "\n")
    n = sum(1 for _ in open(t))
    out, st = ctx.tlc("Inflate", consts={"File": f'"{t}"', "Shards": "64"}, init_next=("Init", "Next"), name="MC_Inflate_" + kind)
    why = {}
    for line in open(out, errors="replace"):
        if line.startswith('"WHY '):
            w = json.loads(line)[4:]
            why[w] = why.get(w, 0) + 1
        elif line.startswith('"BAD '):
            b = json.loads(json.loads(line)[4:])
            ctx.violation({"kind": "stream", "format": kind, "engine": b["engine"], "in": bytes(b["in"]).hex(), "got": b["got"][:1] if b["got"][0] != "ok" else b["got"],
                           "want": b["want"][0], "why": b["want"][1] if b["want"][0] == "err" else ""})
    ctx.extra[kind + ": expected"] = why
    ctx.require(st["distinct"] == n, f"TLC judged {st['distinct']} of {n} streams")
    ctx.traces += n
    os.remove(t)


def run(ctx):
    r = random.Random(ctx.seed)
    fns = shipcheck.build()
    its = shipcheck.definitions()
    codes(ctx, r)
    m = 1 if ctx.quick else 8
    ins = []
    for _ in range(350 * m):
        s, p = deflategen.stream(r, size=r.choice((5, 20, 60)))
        ins.append((s, p))
        ins.append((deflategen.damage(r, s), None))
    for _ in range(12 * m):
        ins.append(deflategen.stream(r, big=r.choice((300, 2000, 5000))))
    for _ in range(m):
        ins += deflategen.every_code(r)
    bad = deflategen.invalid(r)
    ins += [(s, None) for s in bad] + [(deflategen.damage(r, s), None) for s in bad for _ in range(3 * m)]
    ins = list({s: (s, p) for s, p in ins[::-1]}.values())
    if "Decoder_deflate_main" in fns:
        streams(ctx, its, fns, "deflate", "deflate.main", "deflate bits", "inflate", ins, True)
    ctx.require("Decoder_deflate_main" in fns and "Decoder_rle_main" in fns, "the committed decoders were not found")
    seqs = [bytes(t) for n in range(4) for t in itertools.product((0, 1, 2, 3, 65, 255), repeat=n)]
    for _ in range(300 * m):
        seqs.append(bytes([r.choice((0, 1)), *[r.choice((0, 1, 2, 3, 17, 255, r.randrange(256))) for _ in range(r.randrange(20))]]))
    streams(ctx, its, fns, "rle", "rle.main", "Decoder_rle_main", "data", [(s, None) for s in dict.fromkeys(seqs)], False)
    ctx.assumptions += ["streams that RFC 1951 forbids and the shipped definition lets pass (wrong NLEN, symbols 286/287, lengths repeated past the "
                        "end of the table) must not crash an engine, nothing else is claimed about them"]
