"""The shipped formats: the committed decoders and the interpreter on inputs made from the definitions, judged by TLC."""
import json, os, random, re, subprocess, sys
from collections import Counter
from concurrent.futures import ThreadPoolExecutor
import shipast, shipgen, vlib

sys.setrecursionlimit(20000)
RUN = os.path.join(vlib.TARGET, "debug", "shiprun")
PARTS = 8


def definitions():
    """The shipped definitions as the working tree has them."""
    r = vlib.sh([vlib.VH, "ship-dump"], timeout=300)
    if r.returncode != 0:
        raise vlib.ToolError("ship-dump failed: " + r.stderr[-2000:])
    return shipast.items(json.loads(r.stdout)["m"])


def build():
    """A program around a copy of the committed decoders; returns {name it can run: type of its result}."""
    src = open("/repo/generated/gencode.rs").read()
    src = re.sub(r"^#!\[.*$|^(pub )?mod \w+;$", "", src, flags=re.M)
    fns = re.findall(r"^(?:pub )?(?:pub\(crate\) )?fn (Decoder\w*)(?:<'\w+>)?\(\w+: &mut Parser<'\w+>\) -> (?:Result|PResult)<(.*?)(?:, ParseError)?> \{", src, re.M)
    fns = dict(fns)
    src += "\npub fn vh_run(name: &str, s: &[u8]) -> Option<Result<(String, u64), ()>> {\n let mut p = Parser::new(s);\n Some(match name {\n"
    for f in fns:
        src += f' "{f}" => match {f}(&mut p) {{ Ok(v) => Ok((format!("{{v:?}}"), p.get_offset_u64())), Err(_) => Err(()) }},\n'
    if "Decoder_deflate_main" in fns:
        src += (' "deflate bits" => { let r = (|| { p.enter_bits_mode()?; let v = Decoder_deflate_main(&mut p)?; p.escape_bits_mode()?; Ok::<_, ParseError>(v) })();'
                ' match r { Ok(v) => Ok((format!("{v:?}"), p.get_offset_u64())), Err(_) => Err(()) } },\n')
    src += " _ => return None }) }\n"
    d = os.path.join(vlib.ROOT, "shiprun")
    p = os.path.join(d, "src", "shipped.rs")
    if not os.path.exists(p) or open(p).read() != src:
        open(p, "w").write(src)
    r = vlib.sh(["cargo", "build", "--offline", "--quiet", "--target-dir", vlib.TARGET], cwd=d, timeout=600,
                env=dict(vlib.cargo_env(), RUSTFLAGS="--cfg doodle_verif" if vlib.HOOKS else ""))
    if r.returncode != 0:
        raise vlib.ToolError("the committed decoders do not build:\n" + r.stderr[-4000:])
    return fns


def decoder_of(item):
    return "Decoder_" + re.sub(r"\W", "_", item["n"])


def on_bits(its):
    """Items whose every use is on bits."""
    def walk(x, b, out):
        if isinstance(x, dict):
            if x.get("k") == "item":
                out.add((x["i"], b))
            for v in x.values():
                walk(v, b or x.get("k") == "bits", out)
        elif isinstance(x, list):
            for v in x:
                walk(v, b, out)
    bit = [None] * len(its)
    for k in range(len(its) - 1, -1, -1):
        bit[k] = bool(bit[k])
        uses = set()
        walk(its[k]["f"], bit[k], uses)
        for i, b in uses:
            bit[i] = b if bit[i] is None else (bit[i] and b)
    return {k for k, b in enumerate(bit) if b}


def tops(its, fns):
    """[(item, decoder)] of the definitions that stand alone and were compiled to a decoder of their own."""
    c = Counter(decoder_of(i) for i in its)
    bits = on_bits(its)
    return [(k, decoder_of(i)) for k, i in enumerate(its)
            if not i["args"] and not i["views"] and c[decoder_of(i)] == 1 and decoder_of(i) in fns and k not in bits]


def alternatives(its, main):
    """The file formats the top-level format chooses from."""
    out = []

    def walk(x):
        if isinstance(x, dict):
            if x.get("k") == "nondet":
                out.extend(a["f"]["i"] for a in x["fs"] if a["k"] == "variant" and a["f"]["k"] == "item")
            for v in x.values():
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    walk(its[main]["f"])
    return out


def mutate(r, s):
    s = bytearray(s)
    for _ in range(r.randint(1, 2)):
        k = r.randrange(6)
        if k == 0:
            del s[r.randrange(len(s) + 1):]
        elif k == 1:
            s.append(r.choice((0, 1, 255, r.randrange(256))))
        elif s:
            i = r.randrange(len(s))
            if k == 2:
                s[i] = r.choice((0, 1, 2, 127, 128, 255, r.randrange(256)))
            elif k == 3:
                s[i] ^= 1 << r.randrange(8)
            elif k == 4:
                del s[i]
            else:
                s[i] = (s[i] + r.choice((1, -1))) % 256
    return bytes(s)


def some(its, ix, seed, n):
    r = random.Random(seed * 7919 + ix)
    base = shipgen.inputs(its, ix, seed, n)
    return sorted(set(base) | {mutate(r, s) for s in base} | {b""})


def make(its, tp, seed, n, per_alt):
    """[(decoder, item, input)]"""
    jobs = [(ix, fn, n) for ix, fn in tp]
    rows = {}
    for ix, fn, k in jobs:
        rows[fn, ix] = set(some(its, ix, seed, k))
        if fn == "Decoder_main":
            for a in alternatives(its, ix):
                rows[fn, ix] |= set(some(its, a, seed, per_alt))
    return [(fn, ix, s) for (fn, ix), ss in rows.items() for s in sorted(ss)]


def run(ctx, d, rows, timeout=300):
    """Runs the committed decoders; a hang or a crash of the process is a violation naming the input."""
    parts = [rows[k::PARTS] for k in range(PARTS)]

    def one(k):
        i, o = os.path.join(d, f"in{k}.tsv"), os.path.join(d, f"out{k}.tsv")
        with open(i, "w") as f:
            f.writelines(f"{fn}\t{ix}\t{s.hex()}\n" for fn, ix, s in parts[k])
        err = None
        try:
            r = subprocess.run([RUN, i, o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout)
            if r.returncode != 0:
                err = f"the process ended with {r.returncode}: " + r.stderr[-300:].decode(errors="replace")
        except subprocess.TimeoutExpired:
            err = f"no result within {timeout} s"
        res = open(o, errors="replace").read().split("\n")[:-1] if os.path.exists(o) else []
        if err is None and len(res) != len(parts[k]):
            raise vlib.ToolError("shiprun: outcomes missing")
        return res, err
    with ThreadPoolExecutor(PARTS) as ex:
        got = list(ex.map(one, range(PARTS)))
    with open(os.path.join(d, "inputs.tsv"), "w") as fi, open(os.path.join(d, "runs.tsv"), "w") as fo:
        for k, (res, err) in enumerate(got):
            if err is not None:
                fn, ix, s = parts[k][len(res)]
                ctx.violation({"kind": "shipped-crash", "decoder": fn, "input": s.hex(), "what": err})
            for (fn, ix, s), o in zip(parts[k], res):
                if o.startswith("panic\t"):
                    _, site, msg = o.split("\t", 2)
                    ctx.violation({"kind": "shipped-panic", "site": site, "message": re.sub(r"value .*", "value", msg),
                                   "decoder": fn, "input": s.hex()})
                    o = "panic"
                fi.write(f"{fn}\t{ix}\t{s.hex()}\n")
                fo.write(o + "\n")


def compare(ctx, d, cap):
    mism, summ = ctx.vh("ship-compare", "--dir", d, "--cases", cap, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    return summ["counters"]


def validate(ctx, d, its, tag, timeout=700):
    """TLC judges every recorded pair of runs."""
    items, path, src = os.path.join(d, "items.json"), os.path.join(d, "trace.ndjson"), os.path.join(d, "cases.ndjson")
    json.dump(its, open(items, "w"))
    n = k = 0
    recs = []
    with open(path, "w") as f:
        for line in open(src) if os.path.exists(src) else []:
            r = json.loads(line)
            r["top"] = r["id"] == "Decoder_main"
            # records of bounded size, for the load to spread
            for j in range(0, len(r["cases"]), 12):
                f.write(json.dumps(dict(r, cases=r["cases"][j:j + 12])) + "\n")
                k += 1
            n += len(r["cases"])
            if len(ctx.samples) < 6 and r["cases"]:
                ctx.samples.append({"decoder": r["id"], "case": json.dumps(r["cases"][-1])[:300]})
    if not k:
        return 0
    over = {x: "Ship" + x for x in ("Precise", "Lossy", "HasChoice", "MaxReps")}
    out, st = ctx.tlc("ShipTrace", consts={"File": f'"{path}"', "ItemsFile": f'"{items}"', "Shards": "64"}, overrides=over,
                      init_next=("Init", "Next"), name="MC_ShipTrace_" + tag, timeout=timeout)
    bad = [json.loads(json.loads(line)[4:]) for line in open(out, errors="replace") if line.startswith('"BAD ')]
    # a committed decoder's value is known by its Debug text only, unless it is the interpreter's: look it up among the allowed
    ask = [b for b in bad if b["out"][0] == "ok" and b["out"][1][0] == "text" and b["int"] in b["want"]]
    if ask:
        f = os.path.join(d, "texts.ndjson")
        with open(f, "w") as o:
            for b in ask:
                o.write(json.dumps({"text": b["out"][1][1], "values": [w[1] for w in b["used"] if w[0] == "ok" and w[2] == b["out"][2]]}) + "\n")
        for b, t in zip(ask, vlib.sh([vlib.VH, "ship-texts", "--file", f], timeout=100).stdout.split()):
            if t == "true":
                bad.remove(b)
    for b in bad:
        ctx.violation({"kind": "not-a-behaviour", "decoder": b["id"], "input": bytes(b["in"]).hex(), "shipped": b["out"],
                       "interpreter": b["int"], "allowed": b["want"]})
    ctx.require(st["distinct"] == k, f"{tag}: TLC judged {st['distinct']} of {k} records")
    ctx.traces += n
    for p in (path, src, out, items):
        os.remove(p)
    return n
