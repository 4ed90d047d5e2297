"""Inputs for the shipped formats, made from their definitions: a random derivation of the format, lengths, counts and
offsets patched to what they describe.  A best effort: what comes out is an input, not a claim that it is accepted."""
import random


class No(Exception):
    pass


class N:
    """An integer with the bytes it was read from (buffer, indices most significant first) and a bias."""
    __slots__ = ("n", "t", "at")

    def __init__(self, n, t, at=None):
        self.n, self.t, self.at = n, t, at

    def patch(self, n):
        if not self.at or n < 0 or n >= 256 ** len(self.at[1]):
            return False
        b, ix = self.at
        for k, i in enumerate(reversed(ix)):
            b[i] = n >> (8 * k) & 255
        self.n = n
        return True


W = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "usize": 64}


def unl(l):
    return sum(x << (12 * i) for i, x in enumerate(l))


def unz(z):
    return z[0] * unl(z[1])


class Gen:
    def __init__(self, items, seed, size=60):
        self.items, self.r, self.size = items, random.Random(seed), size
        self.fuel = 4000

    # ------------------------------------------------------------ expressions
    def num(self, e, env):
        k = e["k"]
        if k == "c":
            return unz(e["z"])
        if k == "v":
            return env[e["l"]].n
        a = self.num(e["a"], env)
        if k == "cast":
            if e["bit"] and e["r"][0] == "i":
                w = int(e["r"][1:])
                a %= 1 << w
                return a - (1 << w) if a >> (w - 1) else a
            return a
        if k == "u":
            return {"neg": -a, "abs": abs(a), "succ": a + 1, "pred": a - 1}[e["op"]]
        b = self.num(e["b"], env)
        return {"add": a + b, "sub": a - b, "mul": a * b, "div": a // b if b else 0, "rem": a % b if b else 0}[e["op"]]

    def lam(self, f, env, x):
        return self.ev(f["e"], {**env, f["l"]: x})

    def ev(self, e, env):
        k = e["k"]
        if k == "var":
            return env[e["l"]]
        if k == "num":
            return N(unl(e["n"]), e["t"])
        if k == "bool":
            return e["b"]
        if k == "numeric":
            return N(self.num(e["e"], env), "z")
        if k in ("tuple", "seq"):
            return [self.ev(x, env) for x in e["es"]]
        if k == "tproj":
            return self.ev(e["e"], env)[e["i"]]
        if k == "record":
            return {l: self.ev(x, env) for l, x in e["fs"]}
        if k == "rproj":
            return self.ev(e["e"], env)[e["l"]]
        if k == "variant":
            return ("var", e["l"], self.ev(e["e"], env))
        if k == "match":
            x = self.ev(e["e"], env)
            for p, b in e["bs"]:
                m = self.pm(p, x, env)
                if m is not None:
                    return self.ev(b, m)
            raise No
        if k == "destr":
            m = self.pm(e["p"], self.ev(e["e"], env), env)
            if m is None:
                raise No
            return self.ev(e["b"], m)
        if k == "rel":
            a, b = self.ev(e["a"], env).n, self.ev(e["b"], env).n
            return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[e["op"]]
        if k == "arith":
            a, b = self.ev(e["a"], env), self.ev(e["b"], env)
            op = e["op"]
            if op == "band":
                return a and b
            if op == "bor":
                return a or b
            t, a, b = a.t, a.n, b.n
            if op in ("div", "rem") and b == 0 or op in ("shl", "shr") and b > 63:
                raise No
            n = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "div": lambda: a // b, "rem": lambda: a % b,
                 "and": lambda: a & b, "or": lambda: a | b, "shl": lambda: (a << b) & ((1 << W[t]) - 1), "shr": lambda: a >> b}[op]()
            if n < 0 or n >> W.get(t, 64):
                raise No
            return N(n, t)
        if k == "un":
            x = self.ev(e["e"], env)
            return (not x) if e["op"] == "not" else N(x.n + (1 if e["op"] == "succ" else -1), x.t)
        if k == "as":
            x = self.ev(e["e"], env)
            if x.n < 0 or x.n >> W[e["t"]]:
                raise No
            return N(x.n, e["t"], x.at)
        if k == "aschar":
            return N(self.ev(e["e"], env).n, "char")
        if k == "endian":
            bs = self.ev(e["e"], env)
            if not e["big"]:
                bs = bs[::-1]
            n = 0
            for b in bs:
                n = n * 256 + b.n
            at = None
            if all(b.at for b in bs) and len({id(b.at[0]) for b in bs}) == 1:
                at = (bs[0].at[0], [b.at[1][0] for b in bs])
            return N(n, e["t"], at)
        if k == "len":
            return N(len(self.ev(e["e"], env)), "u32")
        if k == "seqix":
            s, i = self.ev(e["e"], env), self.ev(e["i"], env).n
            if i >= len(s):
                raise No
            return s[i]
        if k == "subseq":
            s, a, n = self.ev(e["e"], env), self.ev(e["s"], env).n, self.ev(e["n"], env).n
            return s[a:a + n]
        if k == "inflate":
            s, a, n = list(self.ev(e["e"], env)), self.ev(e["s"], env).n, self.ev(e["n"], env).n
            if a >= len(s):
                raise No
            d, l0 = len(s) - a, len(s)
            for _ in range(min(n, 3000)):
                s.append(s[-d])
            return s[l0:]
        if k == "flatmap":
            return [y for x in self.ev(e["e"], env) for y in self.lam(e["x"], env, x)]
        if k == "fmaccum":
            a, out = self.ev(e["init"], env), []
            for x in self.ev(e["e"], env):
                a, ys = self.lam(e["x"], env, [a, x])
                out += ys
            return out
        if k == "fmlist":
            out = []
            for x in self.ev(e["e"], env):
                out += self.lam(e["x"], env, [list(out), x])
                if len(out) > 20000:
                    raise No
            return out
        if k == "fold":
            a = self.ev(e["init"], env)
            for x in self.ev(e["e"], env):
                a = self.lam(e["x"], env, [a, x])
            return a
        if k == "find":
            q = self.ev(e["q"], env).n
            for x in self.ev(e["e"], env):
                if self.lam(e["x"], env, x).n == q:
                    return ("opt", x)
            return ("opt",)
        if k == "range":
            a, b = self.ev(e["a"], env).n, self.ev(e["b"], env).n
            if b - a > 2000:
                raise No
            return [N(i, "usize") for i in range(a, b)]
        if k == "dup":
            n = self.ev(e["n"], env).n
            if n > 5000:
                raise No
            return [self.ev(e["e"], env)] * n
        if k == "lifto":
            return ("opt",) + tuple(self.ev(x, env) for x in e["es"])
        if k == "append":
            return self.ev(e["a"], env) + self.ev(e["b"], env)
        raise No

    def pm(self, p, x, env):
        k = p["k"]
        if k == "bind":
            return {**env, p["l"]: x}
        if k == "wild":
            return env
        if k == "bool":
            return env if x is p["b"] else None
        if k in ("num", "char"):
            return env if isinstance(x, N) and x.n == unl(p["n"]) else None
        if k == "int":
            return env if unl(p["lo"]) <= x.n and (not p["hasHi"] or x.n <= unl(p["hi"])) else None
        if k == "z":
            return env if unz(p["lo"]) <= x.n <= unz(p["hi"]) else None
        if k == "variant":
            return self.pm(p["p"], x[2], env) if x[1] == p["l"] else None
        xs = list(x[1:]) if k == "opt" else x
        if len(xs) != len(p["ps"]):
            return None
        for q, y in zip(p["ps"], xs):
            env = self.pm(q, y, env)
            if env is None:
                return None
        return env

    # ------------------------------------------------------------ wishes
    def want(self, e, env, n):
        """Make the expression have value n by patching input bytes."""
        k = e["k"]
        try:
            x = self.ev(e, env)
            if isinstance(x, N):
                if x.n == n:
                    return True
                if x.patch(n):
                    return True
            if k == "as" or k == "aschar":
                return self.want(e["e"], env, n)
            if k == "arith":
                a, b = self.ev(e["a"], env).n, self.ev(e["b"], env).n
                if e["op"] == "add":
                    return self.want(e["a"], env, n - b) or self.want(e["b"], env, n - a)
                if e["op"] == "sub":
                    return self.want(e["a"], env, n + b) or self.want(e["b"], env, a - n)
                if e["op"] == "mul" and b and n % b == 0:
                    return self.want(e["a"], env, n // b)
                if e["op"] == "div" and b:
                    return self.want(e["a"], env, n * b)
                if e["op"] == "and":
                    return self.want(e["a"], env, n)
                if e["op"] == "shl":
                    return self.want(e["a"], env, n >> b)
                if e["op"] == "shr":
                    return self.want(e["a"], env, n << b)
            if k == "un" and e["op"] in ("succ", "pred"):
                return self.want(e["e"], env, n + (1 if e["op"] == "pred" else -1))
        except (No, KeyError, AttributeError, TypeError, IndexError):
            pass
        return False

    def satisfy(self, e, env):
        """Try to make a boolean expression true."""
        try:
            if self.ev(e, env) is True:
                return True
            if e["k"] == "arith" and e["op"] == "band":
                self.satisfy(e["a"], env)
                self.satisfy(e["b"], env)
            elif e["k"] == "arith" and e["op"] == "bor":
                self.satisfy(e[self.r.choice("ab")], env)
            elif e["k"] == "rel":
                a, b = self.ev(e["a"], env).n, self.ev(e["b"], env).n
                d = {"eq": 0, "le": 0, "ge": 0, "ne": 1, "gt": 1, "lt": -1}[e["op"]]
                if not self.want(e["a"], env, b + d):
                    self.want(e["b"], env, a - d)
            elif e["k"] == "match":
                for p, b in e["bs"]:
                    if b.get("k") == "bool" and b["b"]:
                        for n in self.consts(p):
                            if self.want(e["e"], env, n):
                                break
            return self.ev(e, env) is True
        except (No, KeyError, AttributeError, TypeError, IndexError):
            return False

    def consts(self, p):
        k = p["k"]
        if k in ("num", "char"):
            return [unl(p["n"])]
        if k == "int":
            return [unl(p["lo"])]
        if k == "z":
            return [unz(p["lo"])]
        return []

    # ------------------------------------------------------------ formats
    def small(self):
        r = self.r.random()
        return 0 if r < 0.35 else self.r.randrange(5) if r < 0.7 else self.r.choice((8, 16, 32, 65, 97, 128, 255)) if r < 0.85 else self.r.randrange(256)

    def byte(self, f, out):
        if f["neg"]:
            bad = set(f["bs"])
            for _ in range(300):
                b = self.small() if self.bits is None else self.r.randrange(2)
                if b not in bad:
                    break
            else:
                raise No
        elif self.bits is not None:
            c = [b for b in f["bs"] if b < 2]
            if not c:
                raise No
            b = self.r.choice(c)
        else:
            if not f["bs"]:
                raise No
            b = self.r.choice(f["bs"])
        out.append(b)
        return N(b, "u8", (out, [len(out) - 1]) if self.bits is None else None)

    bits = None

    def view(self, v, env):
        if v["k"] == "var":
            return env["view " + v["l"]], []
        b, es = self.view(v["v"], env)
        return b, es + [v["e"]]

    def gen(self, f, env, out, depth=0):
        self.fuel -= 1
        if self.fuel < 0 or depth > 120:
            raise No
        k = f["k"]
        g = lambda x, en=env, o=out: self.gen(x, en, o, depth + 1)
        full = len(out) > self.size
        if k == "byte":
            return self.byte(f, out)
        if k in ("tuple", "seq"):
            return [g(x) for x in f["fs"]]
        if k == "hint" or k == "variant":
            v = g(f["f"])
            return ("var", f["l"], v) if k == "variant" else v
        if k == "item":
            it = self.items[f["i"]]
            en = {l: self.ev(x, env) for (l, _), x in zip(it["args"], f["args"])}
            for l, v in zip(it["views"], f["views"]):
                b, es = self.view(v, env)
                # a view handed down at an offset: what the item reads there is placed behind everything
                if es:
                    fresh = []
                    self.defer(fresh, b, es, env)
                    b = (fresh, 0)
                en["view " + l] = b
            return self.gen(it["f"], en, out, depth + 1)
        if k in ("union", "nondet"):
            i = self.r.randrange(len(f["fs"]))
            if k == "nondet" and self.r.random() < 0.5:
                i = min(i, self.r.randrange(len(f["fs"])))
            for j in range(len(f["fs"])):
                m = len(out)
                try:
                    return g(f["fs"][(i + j) % len(f["fs"])])
                except No:
                    if self.fuel < 0:
                        raise
                    del out[m:]
            raise No
        if k in ("rep", "rep1"):
            n = self.r.choice((0, 1, 1, 2, 3, 5)) if not full else 0
            vs = []
            for _ in range(max(n, 1 if k == "rep1" else 0)):
                m = len(out)
                try:
                    vs.append(g(f["f"]))
                except No:
                    if k == "rep1" and not vs:
                        raise
                    del out[m:]
                    break
            return vs
        if k == "repc":
            n = self.ev(f["e"], env).n
            if n > 4 and self.r.random() < 0.8 or n > 300:
                m = self.r.choice((0, 1, 1, 2, 3, 4)) if not full else self.r.randrange(2)
                if self.want(f["e"], env, m):
                    n = m
            if n > 600:
                raise No
            return [g(f["f"]) for _ in range(n)]
        if k == "repb":
            lo, hi = self.ev(f["lo"], env).n, self.ev(f["hi"], env).n
            return [g(f["f"]) for _ in range(self.r.randint(lo, min(hi, lo + 4)))]
        if k in ("repul", "repus"):
            vs = []
            for i in range(60):
                if i > 8:
                    self.stop = True
                v = g(f["f"])
                vs.append(v)
                x = v if k == "repul" else vs
                if self.r.random() < 0.4:
                    self.satisfy(f["x"]["e"], {**env, f["x"]["l"]: x})
                if self.lam(f["x"], env, x):
                    self.stop = False
                    return vs
            raise No
        if k == "accum":
            a, vs = self.ev(f["init"], env), []
            for _ in range(200):
                if self.lam(f["done"], env, [a, vs]):
                    return [a, vs]
                v = g(f["f"])
                vs = vs + [v]
                a = self.lam(f["upd"], env, [a, v])
            raise No
        if k == "foreach":
            xs = self.ev(f["e"], env)
            if len(xs) > 60:
                raise No
            return [g(f["f"], {**env, f["l"]: x}) for x in xs]
        if k == "maybe":
            return ("opt", g(f["f"])) if self.ev(f["e"], env) else ("opt",)
        if k == "peek":
            # what is seen is generated for good, and what follows generated over it
            o = []
            v = self.gen(f["f"], env, o, depth + 1)
            self.ahead = o
            return v
        if k == "peeknot":
            return []
        if k == "slice":
            n = self.ev(f["e"], env).n
            m = len(out)
            v = g(f["f"])
            k2 = len(out) - m
            if k2 != n and not self.want(f["e"], env, k2):
                if k2 > n:
                    raise No
                if n - k2 > 400:
                    raise No
                out += [0] * (n - k2)
            elif self.r.random() < 0.1 and self.want(f["e"], env, k2 + 1):
                out.append(0)
            return v
        if k == "bits":
            if self.bits is not None:
                raise No
            self.bits = bs = []
            try:
                v = self.gen(f["f"], env, bs, depth + 1)
            finally:
                self.bits = None
            for i in range(0, len(bs), 8):
                out.append(sum(b << j for j, b in enumerate(bs[i:i + 8])))
            return v
        if k == "reloff":
            o = []
            self.defer(o, None, [f["base"], f["off"]], env)
            return self.gen(f["f"], env, o, depth + 1)
        if k == "map":
            return self.lam(f["x"], env, g(f["f"]))
        if k == "where":
            for i in range(12):
                m = len(out)
                v = g(f["f"])
                en = {**env, f["x"]["l"]: v}
                if self.ev(f["x"]["e"], en) is True or self.satisfy(f["x"]["e"], en) or not f["strict"]:
                    return v
                if i < 11:
                    del out[m:]
            raise No
        if k == "compute":
            return self.ev(f["e"], env)
        if k == "let":
            return g(f["f"], {**env, f["l"]: self.ev(f["e"], env)})
        if k == "match":
            x = self.ev(f["e"], env)
            if isinstance(x, N) and x.at and self.r.random() < 0.5:
                cs = [c for p, _ in f["bs"] for c in self.consts(p)]
                if cs:
                    self.want(f["e"], env, self.r.choice(cs))
                    x = self.ev(f["e"], env)
            for p, b in f["bs"]:
                m = self.pm(p, x, env)
                if m is not None:
                    return g(b, m)
            for p, b in f["bs"]:
                for c in self.consts(p):
                    if self.want(f["e"], env, c):
                        m = self.pm(p, self.ev(f["e"], env), env)
                        if m is not None:
                            return g(b, m)
            raise No
        if k == "dyn":
            ls = [x.n for x in self.ev(f["len"], env)]
            if f["vals"]:
                vs = [x.n for x in self.ev(f["vals"][0], env)]
                t = [0] * len(vs)
                for l, v in zip(ls, vs):
                    t[v] = l
                ls = t
            return g(f["f"], {**env, "dyn " + f["l"]: codes(ls)})
        if k == "apply":
            t = env["dyn " + f["l"]]
            if not t:
                raise No
            s = self.r.choice(sorted(t))
            if 256 in t and (self.r.random() < 0.2 or getattr(self, "stop", False)):
                s = 256
            c, l = t[s]
            out += [c >> (l - 1 - i) & 1 for i in range(l)]
            return N(s, "u16")
        if k == "pos":
            return N(len(out) // (8 if self.bits is not None else 1), "u64")
        if k in ("eoi", "fail"):
            if k == "fail":
                raise No
            return []
        if k == "skip":
            return []
        if k == "align":
            while len(out) % f["n"]:
                out.append(0)
            return []
        if k == "decbytes":
            raise No
        if k == "letf":
            return g(f["g"], {**env, f["l"]: g(f["f"])})
        if k == "mseq":
            g(f["f"])
            return g(f["g"])
        if k == "lifto":
            return ("opt",) + tuple(g(x) for x in f["fs"])
        if k == "letview":
            return g(f["f"], {**env, "view " + f["l"]: (out, len(out))})
        if k in ("capture", "readarr"):
            n = self.ev(f["e"], env).n
            if n > 6:
                m = self.r.randrange(5)
                if self.want(f["e"], env, m):
                    n = m
            if n > 200:
                raise No
            b, es = self.view(f["v"], env)
            sz = 1 if k == "capture" else W[f["t"]] // 8
            o = []
            self.defer(o, b, es, env)
            vs = []
            for _ in range(n):
                bs = [self.small() for _ in range(sz)]
                o += bs
                vs.append(N(int.from_bytes(bytes(bs), "big"), "u8" if k == "capture" else f["t"], (o, list(range(len(o) - sz, len(o))))))
            return vs
        if k == "reify":
            return []
        if k == "fromview":
            b, es = self.view(f["v"], env)
            if not es and b[0] is not out and not b[0]:
                return self.gen(f["f"], env, b[0], depth + 1)
            o = []
            self.defer(o, b, es, env)
            return self.gen(f["f"], env, o, depth + 1)
        if k == "phantom":
            return []
        if k == "permit":
            if self.r.random() < 0.7:
                m = len(out)
                try:
                    return g(f["f"])
                except No:
                    del out[m:]
            return self.ev(f["e"], env)
        raise No

    def defer(self, buf, base, es, env):
        self.later.append((buf, base, es, env))

    def top(self, i):
        """One input for item i."""
        self.later, self.bits, self.ahead, self.stop = [], None, None, False
        self.fuel = 4000
        out = []
        try:
            self.gen({"k": "item", "i": i, "args": [], "views": []}, {}, out)
        except (No, KeyError, AttributeError, TypeError, IndexError, ValueError, RecursionError):
            pass
        # lay the deferred parts out behind the main part and point the offsets at them
        pos, total = {id(out): 0}, len(out)
        order = [out]
        for buf, base, es, env in self.later:
            if id(buf) not in pos:
                pos[id(buf)] = total
                total += len(buf)
                order.append(buf)
        for buf, base, es, env in self.later:
            at = pos[id(buf)]
            if base is not None:
                at -= pos.get(id(base[0]), 0) + base[1]
            for k, e in enumerate(es):
                rest = 0
                for e2 in es[:k] + es[k + 1:]:
                    try:
                        rest += self.ev(e2, env).n
                    except (No, KeyError, AttributeError, TypeError, IndexError):
                        pass
                if at >= rest and self.want(e, env, at - rest):
                    break
        return bytes(b & 255 for o in order for b in o)


def codes(ls):
    if not ls or max(ls) == 0:
        raise No
    n = max(ls)
    if sum(1 << (n - l) for l in ls if l) > 1 << n:
        raise No
    out, c = {}, 0
    for l in range(1, n + 1):
        for s, x in enumerate(ls):
            if x == l:
                out[s] = (c, l)
                c += 1
        c <<= 1
    return out


def inputs(items, i, seed, n, size=60):
    g = Gen(items, seed * 100003 + i, size)
    out = []
    for _ in range(n):
        s = g.top(i)
        if len(s) <= 4 * size:
            out.append(s)
    return out
