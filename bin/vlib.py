"""Shared machinery of the checks: build, run TLC, run the harness, report."""
import fcntl, json, os, re, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(ROOT, ".build")
SPEC = os.path.join(ROOT, "spec")
TARGET = os.path.join(BUILD, "target")
VH = os.path.join(TARGET, "debug", "vh")
REPLAYS = os.path.join(ROOT, "evidence", "replays")
KNOWN = os.path.join(ROOT, "known_findings.jsonl")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def cargo_env():
    env = dict(os.environ)
    env.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
               CARGO_INCREMENTAL="1", RUSTC_WRAPPER="", RUST_MIN_STACK="16777216")
    env.pop("CARGO_TARGET_DIR", None)
    env.pop("RUSTFLAGS", None)
    return env


def sh(cmd, cwd=None, timeout=None, env=None, stdout=None):
    return subprocess.run(cmd, cwd=cwd, timeout=timeout, env=env, text=True,
                          stdout=stdout if stdout is not None else subprocess.PIPE, stderr=subprocess.PIPE)


HOOKS = True


def build_harness():
    """Rebuilds the harness against /repo's working tree, with the hooks of src/verif.rs if they still build."""
    global HOOKS
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        t = time.time()
        for flags in ("--cfg doodle_verif", ""):
            r = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", TARGET],
                   cwd=os.path.join(ROOT, "harness"), env=dict(cargo_env(), RUSTFLAGS=flags))
            if r.returncode == 0:
                HOOKS = flags != ""
                return time.time() - t
        raise ToolError("the harness does not build against /repo:\n" + r.stderr[-6000:])


class Ctx:
    def __init__(self, prop, tier, seed, technique_level):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, technique_level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.work = os.path.join(BUILD, "work", prop)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.extra = {}
        self.assumptions = []
        self.violations = []     # list of (signature, dict)
        self.known = []
        self.tlc_runs = []

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, consts=None, defs="", invariants=(), properties=(), spec="Spec", constraint=None,
            postcondition=None, workers=8, timeout=800, name=None, extra_args=(), expect_ok=True, heap="8g", view=None,
            init_next=None, overrides=None):
        """Model-checks `module` (in /verif/spec) through a generated MC module.

        consts: {NAME: TLA expression}.  Returns (path of TLC's output, stats dict)."""
        name = name or ("MC_" + module)
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), d)
        consts = consts or {}
        lines = [f"---- MODULE {name} ----", f"EXTENDS {module}"]
        cfg = []
        if init_next:
            cfg += [f"INIT {init_next[0]}", f"NEXT {init_next[1]}"]
        else:
            cfg += [f"SPECIFICATION {spec}"]
        for k, v in consts.items():
            lines.append(f"mc_{k} == {v}")
            cfg.append(f"CONSTANT {k} <- mc_{k}")
        for k, v in (overrides or {}).items():      # a definition of the specification replaced by another of it
            cfg.append(f"CONSTANT {k} <- {v}")
        if defs:
            lines.append(defs)
        lines.append("====")
        for i in invariants:
            cfg.append(f"INVARIANT {i}")
        for p in properties:
            cfg.append(f"PROPERTY {p}")
        if constraint:
            cfg.append(f"CONSTRAINT {constraint}")
        if view:
            cfg.append(f"VIEW {view}")
        if postcondition:
            cfg.append(f"POSTCONDITION {postcondition}")
        cfg.append("CHECK_DEADLOCK FALSE")
        open(os.path.join(d, name + ".tla"), "w").write("\n".join(lines) + "\n")
        open(os.path.join(d, name + ".cfg"), "w").write("\n".join(cfg) + "\n")
        out = os.path.join(d, "tlc.out")
        cmd = ["java", f"-Xmx{heap}", "-Xss512m", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "states"), "-workers", str(workers), "-config", name + ".cfg",
               *extra_args, name + ".tla"]
        t = time.time()
        with open(out, "w") as f:
            try:
                r = subprocess.run(cmd, cwd=d, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
            except subprocess.TimeoutExpired:
                raise ToolError(f"TLC timed out on {name}")
        shutil.rmtree(os.path.join(d, "states"), ignore_errors=True)
        st = tlc_stats(out)
        st["rc"] = r.returncode
        st["wall_s"] = round(time.time() - t, 1)
        self.states += st["distinct"]
        self.transitions += st["generated"]
        self.tlc_runs.append({"model": name, "distinct_states": st["distinct"], "states_generated": st["generated"],
                              "wall_s": st["wall_s"]})
        # 12: safety violation, 13: liveness/property violation, 10: assumption violation
        if expect_ok and r.returncode != 0:
            raise ToolError(f"TLC failed on {name} (rc {r.returncode}):\n" + tail(out, 60))
        if r.returncode not in (0, 10, 12, 13):
            raise ToolError(f"TLC failed on {name} (rc {r.returncode}):\n" + tail(out, 60))
        return out, st

    # ------------------------------------------------------------ harness
    def vh(self, *args, timeout=800, crash_dir=None):
        r = sh([VH, *map(str, args)], timeout=timeout, env=dict(os.environ, RUST_MIN_STACK="16777216"))
        if r.returncode < 0 and crash_dir is not None:
            # the code under test brought the process down (stack overflow, abort): report what was running
            cur = []
            for f in sorted(os.listdir(crash_dir)):
                if f.startswith("cur-"):
                    try:
                        cur.append(json.load(open(os.path.join(crash_dir, f))))
                    except ValueError:
                        pass
            return [{"kind": "crash", "signal": -r.returncode, "running": cur, "stderr": r.stderr[-500:]}], {"counters": {}}
        if r.returncode != 0:
            raise ToolError(f"harness {args[0]} failed (rc {r.returncode}): {r.stderr[-3000:]}")
        mism, summ = [], None
        for line in r.stdout.splitlines():
            if line.startswith("VH-MISMATCH "):
                mism.append(json.loads(line[len("VH-MISMATCH "):]))
            elif line.startswith("VH-SUMMARY "):
                summ = json.loads(line[len("VH-SUMMARY "):])
        if summ is None:
            raise ToolError(f"harness {args[0]} gave no summary")
        self.samples += summ.get("samples", [])[:4]
        return mism, summ

    # ------------------------------------------------------------ verdict
    def violation(self, detail):
        self.violations.append(detail)

    def require(self, cond, msg):
        """Guards against vacuity: a run that covered nothing is an error, not a pass."""
        if not cond:
            raise ToolError("vacuous run: " + msg)

    def need_hooks(self):
        if not HOOKS:
            raise ToolError("/repo does not build with --cfg doodle_verif")

    def finish(self):
        known = load_known(self.prop)
        fresh = []
        for v in self.violations:
            k = next((k for k in known if matches_known(k, v)), None)
            if k is not None:
                self.known.append(k["what"])
            else:
                fresh.append(v)
        for w in sorted(set(self.known)):
            print(f"KNOWN-FINDING: property={self.prop} {w}")
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:8],
               "tlc_runs": self.tlc_runs}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1), "violations": len(fresh)}
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if fresh:
            os.makedirs(REPLAYS, exist_ok=True)
            path = os.path.join(REPLAYS, f"{self.prop}.json")
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "tier": self.tier,
                           "violations": fresh[:20]}, f, indent=1)
            for v in fresh[:3]:
                print("detail: " + json.dumps(v)[:1500])
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        print(f"OK property={self.prop} states={self.states} traces={self.traces} wall={ev['wall_s']}s")
        return 0


def tail(path, n):
    with open(path, errors="replace") as f:
        return "".join(l if len(l) < 2000 else l[:2000] + "...\n" for l in f.readlines()[-n:] if not l.startswith('"'))


def tlc_stats(path):
    gen = dist = 0
    with open(path, errors="replace") as f:
        for line in f:
            m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
            if m:
                gen, dist = int(m.group(1).replace(",", "")), int(m.group(2).replace(",", ""))
    return {"generated": gen, "distinct": dist}


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#") or line.startswith("fixed:"):
                continue
            k = json.loads(line)
            if k.get("status") == "known" and k["property"] == prop:
                out.append(k)
    return out


def matches_known(k, v):
    """A known finding names the exact failing case: every key of its `match` must be equal."""
    return all(v.get(a) == b for a, b in k["match"].items())
