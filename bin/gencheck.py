"""Emitted Rust: build it, run it on all small inputs, compare with the interpreter, let TLC judge."""
import json, os, re, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
import vlib

BINS = 8
MAIN = """#![allow(warnings)]
#![allow(arithmetic_overflow, unconditional_panic, overflowing_literals, text_direction_codepoint_in_literal)]
%s
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(run).unwrap();
    if h.join().is_err() { std::process::exit(3); }
}
fn run() {
    use std::io::Write;
    let max: usize = std::env::args().nth(1).unwrap().parse().unwrap();
    let mut inputs: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..max {
        let to = inputs.len();
        for i in from..to { for b in [0u8, 1, 2, 200] { let mut t = inputs[i].clone(); t.push(b); inputs.push(t); } }
        from = to;
    }
    let mods: Vec<(u64, fn(&[u8]) -> Result<(String, u64), ()>)> = vec![%s];
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for (id, f) in mods {
        for (k, s) in inputs.iter().enumerate() {
            let r = std::panic::catch_unwind(|| f(s));
            match r {
                Ok(Ok((t, o))) => writeln!(out, "{id}\\t{k}\\tok\\t{o}\\t{t}").unwrap(),
                Ok(Err(())) => writeln!(out, "{id}\\t{k}\\terr").unwrap(),
                Err(_) => writeln!(out, "{id}\\t{k}\\tpanic").unwrap(),
            }
        }
        writeln!(out, "end {id}").unwrap();
        out.flush().unwrap();
    }
}
"""
TOML = """[package]
name = "gencrate"
version = "0.1.0"
edition = "2024"
autobins = false
[workspace]
%s
[dependencies]
doodle = { path = "/repo" }
log = "0.4"
[profile.dev]
opt-level = 0
debug = 0
overflow-checks = true
debug-assertions = true
incremental = false
[profile.dev.package."*"]
opt-level = 1
"""


def build(ctx, d, ids):
    """Builds the emitted modules, dropping those rustc refuses.  Returns (kept ids, {id: first error})."""
    bins = "\n".join(f'[[bin]]\nname = "g{b}"\npath = "src/g{b}.rs"' for b in range(BINS))
    open(os.path.join(d, "Cargo.toml"), "w").write(TOML % bins)
    shutil.copy(os.path.join(vlib.ROOT, "harness", "Cargo.lock"), d)
    bad = {}
    live = list(ids)
    for rnd in range(12):
        for b in range(BINS):
            mine = live[b::BINS]
            open(os.path.join(d, "src", f"g{b}.rs"), "w").write(
                MAIN % ("\n".join(f"mod f{i};" for i in mine), ", ".join(f"({i}, f{i}::vh_run)" for i in mine)))
        r = vlib.sh(["cargo", "build", "--offline", "--keep-going", "--message-format=json", "--target-dir", vlib.TARGET],
                    cwd=d, env=dict(vlib.cargo_env(), RUSTFLAGS="--cfg doodle_verif" if vlib.HOOKS else ""), timeout=600)
        if r.returncode == 0:
            return live, bad
        new = {}
        for line in r.stdout.splitlines():
            m = json.loads(line)
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            # the file is in the spans, or (errors inside macros, the linker, the type checker's overflow) only in the text
            for f in re.findall(r"\bf(\d+)(?:\.rs\b|::)", json.dumps(m["message"])):
                new.setdefault(int(f), m["message"]["message"] + "".join(
                    " | " + s["label"] for s in m["message"]["spans"] if s.get("label") and s["is_primary"]))
        new = {i: e for i, e in new.items() if i in live}
        if not new:
            raise vlib.ToolError("the emitted code does not build:\n" + r.stderr[-3000:] + "\n".join(
                m["message"]["rendered"] for m in map(json.loads, r.stdout.splitlines())
                if m.get("reason") == "compiler-message" and m["message"]["level"] == "error")[:3000])
        bad.update(new)
        live = [i for i in live if i not in new]
    raise vlib.ToolError("the emitted code does not build after 12 rounds")


def run(ctx, d, maxlen):
    def one(b):
        p = os.path.join(d, f"runs{b}.tsv")
        with open(p, "w") as f:
            r = subprocess.run([os.path.join(vlib.TARGET, "debug", f"g{b}"), str(maxlen)], stdout=f, stderr=subprocess.PIPE, timeout=600)
        return r.returncode
    with ThreadPoolExecutor(BINS) as ex:
        rcs = list(ex.map(one, range(BINS)))
    with open(os.path.join(d, "runs.tsv"), "w") as o:
        for b in range(BINS):
            p = os.path.join(d, f"runs{b}.tsv")
            with open(p) as f:
                lines = f.readlines()
            if rcs[b] != 0:
                done = [int(l[4:]) for l in lines if l.startswith("end ")]
                rcs[b] = {"rc": rcs[b], "after": done[-1] if done else None}
            o.writelines(l for l in lines if l[0] != "e" and l.endswith("\n"))
            os.remove(p)
    return [r for r in rcs if r != 0]


def check(ctx, tag, seed, n, focus, depth, maxlen, must_compile=False, need=0, hostile=False, given=()):
    """Emits decoders for n generated programs, builds and runs them; TLC judges the runs."""
    import decheck
    d = os.path.join(ctx.work, "gen_" + tag)
    os.makedirs(d)
    args = ["gen", "--dir", d, "--seed", seed, "--n", n, "--depth", depth, "--focus", focus]
    if hostile:
        args += ["--hostile", 1]
    if given:
        with open(os.path.join(d, "given.ndjson"), "w") as f:
            f.writelines(json.dumps(g) + "\n" for g in given)
        args += ["--given", os.path.join(d, "given.ndjson")]
    mism, summ = ctx.vh(*args, crash_dir=d)
    for m in mism:
        ctx.violation(m)
    if not os.path.exists(os.path.join(d, "meta.ndjson")) or summ["counters"] == {}:
        return
    c = summ["counters"]
    metas = {m["id"]: m for m in map(json.loads, open(os.path.join(d, "meta.ndjson")))}
    live, bad = build(ctx, d, sorted(metas))
    info = {"programs": c.get("programs", 0), "emitted": c.get("emitted", 0), "compiled by rustc": len(live)}
    if must_compile:
        if c.get("emitted", 0) != c.get("programs", 0):
            ctx.violation({"kind": "not emitted", "why": {k: v for k, v in c.items() if k.startswith("not emitted")}})
        for i, e in list(bad.items())[:5]:
            ctx.violation({"kind": "emitted code does not compile", "error": e, "M": metas[i]["M"], "f": metas[i]["f"]})
    for r in run(ctx, d, maxlen):
        ctx.violation({"kind": "emitted decoder crashed", **r})
    _, summ = ctx.vh("gen-compare", "--dir", d, "--maxlen", maxlen)
    c = summ["counters"]
    info.update({k: v for k, v in c.items() if not k.startswith("kind:")})
    ctx.extra.setdefault("emitted", {})[tag] = info
    kc = ctx.extra.setdefault("constructors", {})
    for k, v in c.items():
        if k.startswith("kind:"):
            kc[k[5:]] = kc.get(k[5:], 0) + v
    decheck.validate(ctx, tag, os.path.join(d, "cases.ndjson"), module="GenTrace")
    shutil.rmtree(d)
    if not ctx.violations:
        ctx.require(len(live) >= need, f"{tag}: too few emitted decoders compile")
        ctx.require(c.get("emitted decoder: ok", 0) >= 1000, f"{tag}: too few accepted inputs")
