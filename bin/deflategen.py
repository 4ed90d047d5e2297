"""DEFLATE streams of known content: stored, fixed and dynamic blocks with arbitrary codes; and damaged ones."""
import random

LB = [3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 15, 17, 19, 23, 27, 31, 35, 43, 51, 59, 67, 83, 99, 115, 131, 163, 195, 227, 258]
LE = [0] * 8 + [1] * 4 + [2] * 4 + [3] * 4 + [4] * 4 + [5] * 4 + [0]
DB = [1, 2, 3, 4, 5, 7, 9, 13, 17, 25, 33, 49, 65, 97, 129, 193, 257, 385, 513, 769, 1025, 1537, 2049, 3073, 4097, 6145, 8193, 12289, 16385, 24577]
DE = [0, 0, 0, 0] + [k // 2 for k in range(2, 28)]
ORDER = [16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15]
FIXED = [8] * 144 + [9] * 112 + [7] * 24 + [8] * 8


def words(lens):
    """{symbol: (word, length)} of the canonical code."""
    out, c = {}, 0
    for l in range(1, 16):
        for s, x in enumerate(lens):
            if x == l:
                out[s] = (c, l)
                c += 1
        c <<= 1
    return out


def lengths(r, syms, n, limit, complete):
    """Random lengths, at most limit, of a code for the symbols."""
    k = len(syms)
    while True:
        ls = [1, 1]
        if k == 1:
            ls = [r.choice((1, 1, 1, 2, limit))]
        while len(ls) < k:
            i = r.randrange(len(ls)) if r.random() < 0.7 else max(range(len(ls)), key=lambda j: ls[j])
            if ls[i] >= limit:
                c = [j for j in range(len(ls)) if ls[j] < limit]
                i = r.choice(c)
            ls[i] += 1
            ls.append(ls[i])
        ls = ls[:k] if k < len(ls) else ls
        if not complete and r.random() < 0.5:
            ls = [min(limit, x + (r.random() < 0.2)) for x in ls]
        break
    r.shuffle(ls)
    out = [0] * n
    for s, l in zip(syms, ls):
        out[s] = l
    return out


class Bits:
    def __init__(self):
        self.b = []

    def num(self, v, n):
        self.b += [v >> i & 1 for i in range(n)]

    def word(self, w):
        c, l = w
        self.b += [c >> (l - 1 - i) & 1 for i in range(l)]

    def align(self):
        while len(self.b) % 8:
            self.b.append(0)

    def bytes(self):
        b = self.b + [0] * (-len(self.b) % 8)
        return bytes(sum(b[i + j] << j for j in range(8)) for i in range(0, len(b), 8))


def code(base, extra, n):
    k = max(i for i in range(len(base)) if base[i] <= n)
    return k, n - base[k], extra[k]


def tokens(r, out, n, far=False):
    """Literals and references; extends out."""
    ts = []
    alpha = [r.randrange(256) for _ in range(r.choice((1, 2, 5, 30)))]
    for _ in range(n):
        if out and r.random() < 0.4:
            ln = r.choice((3, 4, 10, 11, 12, r.choice(LB), min(258, r.choice(LB) + r.randrange(32)), r.randrange(3, 30)))
            d = r.choice((1, 1, 2, 3, len(out), r.randrange(1, len(out) + 1), r.choice(DB), r.choice(DB) - 1))
            d = max(1, min(d, len(out), 32768))
            ts.append((ln, d))
            for _ in range(ln):
                out.append(out[-d])
        else:
            c = r.choice(alpha)
            ts.append(c)
            out.append(c)
    return ts


def emit(b, ts, ll, dd, r):
    for t in ts:
        if isinstance(t, int):
            b.word(ll[t])
        else:
            k, x, e = code(LB, LE, t[0])
            if t[0] == 258 and 284 in ll and r.random() < 0.3 and 257 + 27 in ll:
                k, x, e = 27, 31, 5          # 227 + 31: another way to say 258
            b.word(ll[257 + k])
            b.num(x, e)
            k, x, e = code(DB, DE, t[1])
            b.word(dd[k])
            b.num(x, e)
    b.word(ll[256])


def dynamic(b, r, ts, empty_ok=True):
    lits = {256} | {t for t in ts if isinstance(t, int)} | {257 + code(LB, LE, t[0])[0] for t in ts if not isinstance(t, int)}
    if any(not isinstance(t, int) and t[0] == 258 for t in ts):
        lits.add(284)
    dist = {code(DB, DE, t[1])[0] for t in ts if not isinstance(t, int)}
    for _ in range(r.choice((0, 0, 1, 5, 20))):
        lits.add(r.randrange(286))
    if not dist and not (empty_ok and r.random() < 0.5):
        dist.add(r.randrange(30))
    for _ in range(r.choice((0, 0, 1, 4))):
        dist.add(r.randrange(30))
    lits, dist = sorted(lits), sorted(dist)
    hlit = max(257, lits[-1] + 1, r.choice((257, 257, 286, r.randrange(257, 287))))
    hdist = max(1, (dist or [0])[-1] + 1, r.choice((1, 1, 30, r.randrange(1, 31))))
    comp = r.random() < 0.7
    ll = lengths(r, lits, hlit, r.choice((15, 15, 10)) if len(lits) <= 256 else 15, comp)
    dd = lengths(r, dist, hdist, r.choice((15, 7, 5)), comp) if dist else [0] * hdist
    both = ll + dd
    # the lengths in code-length symbols, runs said in one of the possible ways
    cl, i = [], 0
    while i < len(both):
        n = 1
        while i + n < len(both) and both[i + n] == both[i]:
            n += 1
        n = r.randint(1, n) if r.random() < 0.3 else n
        if both[i] == 0 and n >= 11 and r.random() < 0.8:
            n = min(n, 138)
            cl.append((18, n - 11, 7))
        elif both[i] == 0 and n >= 3 and r.random() < 0.8:
            n = min(n, 10)
            cl.append((17, n - 3, 3))
        elif i and both[i] == both[i - 1] and n >= 3 and r.random() < 0.8:
            n = min(n, 6)
            cl.append((16, n - 3, 2))
        else:
            n = 1
            cl.append((both[i], 0, 0))
        i += n
    used = sorted({c for c, _, _ in cl} | {r.randrange(19) for _ in range(r.choice((0, 1, 3)))})
    cll = lengths(r, used, 19, 7, r.random() < 0.8)
    in_order = [cll[s] for s in ORDER]
    hclen = max(4, max(k for k in range(19) if in_order[k]) + 1)
    if r.random() < 0.2:
        hclen = 19
    b.num(hlit - 257, 5)
    b.num(hdist - 1, 5)
    b.num(hclen - 4, 4)
    for k in range(hclen):
        b.num(in_order[k], 3)
    w = words(cll)
    for c, x, e in cl:
        b.word(w[c])
        b.num(x, e)
    emit(b, ts, words(ll), words(dd), r)


def stored(b, data, nlen=None):
    b.align()
    b.num(len(data), 16)
    b.num(65535 - len(data) if nlen is None else nlen, 16)
    for c in data:
        b.num(c, 8)


def stream(r, size=20, kinds=(0, 1, 2), blocks=None, big=0):
    """(stream, content)"""
    b, out = Bits(), []
    n = blocks or r.choice((1, 1, 2, 3))
    if big:
        data = [r.randrange(256) for _ in range(big)]
        b.num(0, 3)
        stored(b, data)
        out += data
    for j in range(n):
        k = r.choice(kinds)
        b.num(j == n - 1, 1)
        b.num(k, 2)
        if k == 0:
            data = [r.randrange(256) for _ in range(r.choice((0, 1, 3, size)))]
            stored(b, data)
            out += data
        else:
            ts = tokens(r, out, r.choice((0, 1, 3, size)))
            if k == 1:
                emit(b, ts, words(FIXED), words([5] * 32), r)
            else:
                dynamic(b, r, ts)
    return b.bytes(), bytes(out)


def every_code(r):
    """Streams that use every length and distance code at both ends of its range."""
    out = []
    ln = [LB[k] + x for k in range(29) for x in {0, (1 << LE[k]) - 1}]
    for kind in (1, 2):
        b, o = Bits(), []
        b.num(1, 1)
        b.num(kind, 2)
        ts = [65, 66, 67]
        o += ts
        for n in ln:
            n = min(n, 258)
            d = r.randrange(1, len(o) + 1) if len(o) < 100 else r.randrange(1, 100)
            ts.append((n, d))
            for _ in range(n):
                o.append(o[-d])
        emit(b, ts, words(FIXED), words([5] * 32), r) if kind == 1 else dynamic(b, r, ts)
        out.append((b.bytes(), bytes(o)))
        for part in (range(0, 20), range(20, 30)):
            b = Bits()
            ds = [DB[k] + x for k in part for x in {0, (1 << DE[k]) - 1}]
            o = [r.randrange(256) for _ in range(max(ds))]
            b.num(0, 3)
            stored(b, o)
            b.num(1, 1)
            b.num(kind, 2)
            ts = []
            for d in ds:
                ts.append((r.choice((3, 4)), d))
                for _ in range(ts[-1][0]):
                    o.append(o[-d])
            emit(b, ts, words(FIXED), words([5] * 32), r) if kind == 1 else dynamic(b, r, ts)
            out.append((b.bytes(), bytes(o)))
    return out


def invalid(r):
    """Streams that are wrong in one particular way."""
    out = []
    fx, fd = words(FIXED), words([5] * 32)

    def start(kind):
        b = Bits()
        b.num(1, 1)
        b.num(kind, 2)
        return b
    out.append(start(3).bytes() + b"\0\0\0")
    for d in (30, 31):                                   # reserved distance symbols
        b = start(1)
        b.word(fx[65])
        b.word(fx[257])
        b.word(fd[d])
        b.num(0, 13)
        b.word(fx[256])
        out.append(b.bytes())
    for n, d in ((0, 1), (1, 2), (5, 6), (5, 24577)):    # references beyond the start
        b = start(1)
        for _ in range(n):
            b.word(fx[65])
        b.word(fx[257])
        k, x, e = code(DB, DE, d)
        b.word(fd[k])
        b.num(x, e)
        b.word(fx[256])
        out.append(b.bytes())

    def dyn(cll, syms, hlit=257, hdist=1, tail=()):
        b = start(2)
        b.num(hlit - 257, 5)
        b.num(hdist - 1, 5)
        b.num(15, 4)
        for s in ORDER:
            b.num(cll[s], 3)
        w = words(cll)
        for s, x, e in syms:
            b.word(w[s])
            b.num(x, e)
        for v, n in tail:
            b.num(v, n)
        return b.bytes() + bytes(4)
    cl = [0] * 19
    cl[16], cl[1], cl[2], cl[18] = 2, 2, 2, 2
    out.append(dyn(cl, [(16, 0, 2), (1, 0, 0)]))                                      # nothing to repeat
    over = [0] * 19
    over[0] = over[1] = over[2] = 1
    out.append(dyn(over, []))                                                          # code lengths that are no code
    out.append(dyn(cl, [(1, 0, 0)] * 3 + [(18, 127, 7), (18, 105, 7), (1, 0, 0)] * 1 + [(1, 0, 0)]))    # literals that are no code
    cl0 = [0] * 19
    cl0[0], cl0[1], cl0[18] = 2, 2, 1
    out.append(dyn(cl0, [(18, 127, 7), (18, 107, 7), (1, 0, 0), (0, 0, 0)], tail=[(0, 1)]))   # only the end of block, no distances
    out.append(dyn(cl0, [(18, 127, 7), (18, 107, 7), (0, 0, 0), (0, 0, 0)]))           # no code words at all
    out.append(dyn([0] * 19, []))                                                      # no code for the lengths
    out.append(dyn(cl0, [(1, 0, 0)] + [(18, 127, 7), (18, 106, 7), (1, 0, 0), (1, 0, 0), (1, 0, 0), (1, 0, 0)], hdist=3))   # distances no code, unused or used
    b = start(0)
    stored(b, [1, 2, 3], nlen=0)
    out.append(b.bytes())
    out += [b"", b"\x01", b"\x01\x05", b"\x05"]
    return out


def damage(r, s):
    s = bytearray(s)
    for _ in range(r.choice((1, 1, 2))):
        o = r.randrange(4)
        if o == 0:
            del s[r.randrange(len(s) + 1):]
        elif o == 1 and s:
            s[r.randrange(len(s))] ^= 1 << r.randrange(8)
        elif o == 2 and s:
            s[r.randrange(min(len(s), 12))] ^= 1 << r.randrange(8)
        else:
            s.append(r.randrange(256))
    return bytes(s)
