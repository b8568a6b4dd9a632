"""Generator of Crunch files: random codes, tables, palettes and symbol streams, put together by
the grammar of the format.  It knows what comes next in a file, not what it means: what a file
decodes to is for the specification (spec/Crunch.tla) to say."""
import random

LENGTH_ORDER = [17, 18, 19, 20, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15, 16]
TILES = [1, 2, 2, 3, 3, 3, 3, 4]


class BitWriter:
    def __init__(self):
        self.v, self.n = 0, 0

    def put(self, v, bits):
        assert 0 <= v < (1 << bits)
        self.v, self.n = (self.v << bits) | v, self.n + bits

    def bytes(self, extra=0):
        pad = -self.n % 8
        return (self.v << pad).to_bytes((self.n + pad) // 8, "big") + bytes(extra)


def random_lengths(r, k, limit=16, skew=0.0, complete=True):
    """Lengths of a prefix code with k code words, by splitting leaves of a tree."""
    if k == 1:
        return [1 if complete else r.randint(1, limit)]
    leaves = [1, 1]
    while len(leaves) < k:
        can = [i for i, x in enumerate(leaves) if x < limit]
        if not can:
            break
        i = max(can, key=lambda j: leaves[j]) if r.random() < skew else r.choice(can)
        x = leaves.pop(i)
        leaves += [x + 1, x + 1]
    r.shuffle(leaves)
    leaves = leaves[:k]
    if not complete:
        leaves = [min(limit, x + r.choice([0, 0, 1, 2])) for x in leaves]
    return leaves


class Code:
    """A canonical code over symbols 0..n-1 (length 0: symbol not used)."""

    def __init__(self, lens):
        self.lens = lens
        self.used = [i for i, x in enumerate(lens) if x]
        self.code, c = {}, 0
        for L in range(1, 17):
            for i, x in enumerate(lens):
                if x == L:
                    self.code[i] = c
                    c += 1
            c <<= 1

    def put(self, w, sym):
        w.put(self.code[sym], self.lens[sym])


def random_code(r, n, allowed=None, must=(), limit=16):
    """A code whose alphabet has at most n symbols, of which `allowed' may be used."""
    allowed = list(range(n)) if allowed is None else [x for x in allowed if x < n]
    style = r.random()
    if style < 0.12:
        k = 1
    elif style < 0.6:
        k = len(allowed)
    else:
        k = r.randint(1, len(allowed))
    if style > 0.85 and allowed[-1] > 8:
        k = min(len(allowed), r.randint(1, 6))         # sparse
    use = set(r.sample(allowed, k)) | {x for x in must if x in allowed}
    use = sorted(use)
    lens = random_lengths(r, len(use), limit, skew=r.choice([0.0, 0.0, 0.5, 0.9, 1.0]), complete=r.random() < 0.8)
    total = n if r.random() < 0.7 else use[-1] + 1
    cs = [0] * total
    for s, x in zip(use, lens):
        cs[s] = x
    if len(lens) < len(use):                            # the tree was full
        pass
    return Code(cs)


def put_model(w, r, code, bad=None):
    """Sends the code lengths, with runs where they happen to fit."""
    lens = code.lens
    n = len(lens)
    w.put(n, 14)
    if n == 0:
        return
    ops, i = [], 0
    runs = r.random()
    while i < n:
        j = i
        while j < n and lens[j] == lens[i]:
            j += 1
        run = j - i
        if lens[i] == 0 and run >= 3 and r.random() < runs:
            if run >= 11 and r.random() < 0.8:
                k = r.choice([min(run, 138), r.randint(11, min(run, 138))])
                ops.append((18, 7, k - 11))
            else:
                k = min(run, 10)
                k = r.choice([k, r.randint(3, k)])
                ops.append((17, 3, k - 3))
            i += k
        elif lens[i] and i and lens[i - 1] == lens[i] and run >= 3 and r.random() < runs:
            if run >= 7 and r.random() < 0.8:
                k = r.choice([min(run, 70), r.randint(7, min(run, 70))])
                ops.append((20, 6, k - 7))
            else:
                k = min(run, 6)
                k = r.choice([k, r.randint(3, k)])
                ops.append((19, 2, k - 3))
            i += k
        else:
            ops.append((lens[i], 0, 0))
            i += 1
    used = sorted({o[0] for o in ops})
    if r.random() < 0.4:
        used = sorted(set(used) | {r.randint(0, 20) for _ in range(r.randint(1, 4))})
    cl = [0] * 21
    for s, x in zip(used, random_lengths(r, len(used), 7, skew=r.choice([0.0, 0.3, 0.9]), complete=r.random() < 0.8)):
        cl[s] = x
    clc = Code(cl)
    need = max(LENGTH_ORDER.index(s) for s in used) + 1
    k = need if r.random() < 0.6 else r.randint(need, 21)
    w.put(k, 5)
    for s in LENGTH_ORDER[:k]:
        w.put(cl[s], 3)
    for s, bits, extra in ops:
        clc.put(w, s)
        if bits:
            w.put(extra, bits)


def kind(fmt, unity):
    if fmt == 0:
        return "dxt1"
    if 2 <= fmt <= 6:
        return "dxt5"
    if fmt in (7, 8):
        return "dxn"
    if fmt == 9:
        return "dxt5a"
    if unity:
        return {10: "etc1", 11: "etc1", 12: "etc2a", 13: "dxt1", 14: "dxt5"}.get(fmt, "none")
    return "none"


def syms(r, code):
    """A source of symbols of the code: uniform, or sticking to a few of them."""
    few = r.sample(code.used, min(len(code.used), r.randint(1, 3))) if r.random() < 0.3 else code.used
    return lambda: r.choice(few)


class Crn:
    """The parts of a file, to be put together by bytes()."""

    def __init__(self, r, fmt, unity, w, h, faces=1, levels=1, entries=None, big=False):
        self.r, self.fmt, self.unity, self.w, self.h, self.faces, self.levels = r, fmt, unity, w, h, faces, levels
        k = kind(fmt, unity)
        self.kind = k
        color = k in ("dxt1", "dxt5", "etc1", "etc2a") or (k == "none")
        alpha = k in ("dxt5", "dxn", "dxt5a", "etc2a")
        if r.random() < 0.06:
            color = True                  # a palette nobody needs
        if r.random() < 0.06:
            alpha = True
        pick = lambda: r.choice([1, 2, 3, r.randint(2, 12), r.randint(4, 20), r.randint(17, 40)] + ([r.randint(60, 300)] if big else []))
        self.num = [pick() if color else 0, pick() if color else 0, pick() if alpha else 0, pick() if alpha else 0]
        if entries:
            self.num = [entries[i] if x else 0 for i, x in enumerate(self.num)]
        self.etc_color = unity and 10 <= fmt <= 14
        self.etc_alpha = unity and fmt in (12, 14)
        self.sub = k in ("etc1", "etc2a")
        self.sections = {}
        self._tables()
        self._palettes()
        self.level_data = [self._level(i) for i in range(levels)]

    # --- tables
    def _tables(self):
        r, w = self.r, BitWriter()
        if self.unity:
            n = 256
        else:
            n = 512
        if r.random() < 0.35:
            allowed = sorted(r.sample(range(n), r.randint(1, 12)))
            self.group = random_code(r, n, allowed=allowed)
        elif r.random() < 0.5:
            self.group = random_code(r, n)
        else:
            self.group = random_code(r, r.randint(1, n))
        models = [self.group]
        self.end, self.sel = [None, None], [None, None]
        for c in (0, 1):
            if self.num[2 * c]:
                self.end[c] = random_code(r, self.num[2 * c])
                self.sel[c] = random_code(r, self.num[2 * c + 1])
                models += [self.end[c], self.sel[c]]
        for m in models:
            put_model(w, r, m)
        self.sections["tables"] = w.bytes(r.choice([0, 0, 0, 1, 5]))

    # --- palettes
    def _palettes(self):
        r = self.r
        for k in range(4):
            if not self.num[k]:
                continue
            w = BitWriter()
            if k == 0 and self.etc_color:
                m = random_code(r, 32, must=(0,))
                put_model(w, r, m)
                t = 0
                nxt = syms(r, m)
                for _ in range(self.num[0]):
                    for _ in range(3):
                        m.put(w, nxt())
                    ok = [s for s in m.used if (t + s) % 32 < 8]
                    s = r.choice(ok) if ok else 0
                    t = (t + s) % 32
                    m.put(w, s)
            elif k == 0:
                m0, m1 = random_code(r, 32), random_code(r, 64)
                put_model(w, r, m0)
                put_model(w, r, m1)
                n0, n1 = syms(r, m0), syms(r, m1)
                for _ in range(self.num[0]):
                    for m, nx in ((m0, n0), (m1, n1), (m0, n0), (m0, n0), (m1, n1), (m0, n0)):
                        m.put(w, nx())
            elif k == 2:
                m = random_code(r, 256)
                put_model(w, r, m)
                nx = syms(r, m)
                for _ in range(2 * self.num[2]):
                    m.put(w, nx())
            else:
                top = (16 if k == 1 else 64) if self.unity else (49 if k == 1 else 225)
                m = random_code(r, top)
                put_model(w, r, m)
                nx = syms(r, m)
                for _ in range(8 * self.num[k]):
                    m.put(w, nx())
            self.sections[k] = w.bytes(r.choice([0, 0, 0, 2]))

    # --- levels
    def _level(self, i):
        r, w = self.r, BitWriter()
        wd, ht = max(1, self.w >> i), max(1, self.h >> i)
        bx, by = (wd + 3) // 4, (ht + 3) // 4
        px, py = (bx + 1) & ~1, (by + 1) & ~1
        comps = {"dxt1": [0], "dxt5": [1, 0], "dxt5a": [1], "dxn": [1, 1], "etc1": [0], "etc2a": [0, 1], "none": [0]}[self.kind]
        if self.unity and self.kind == "dxt5":
            comps = [0, 1]
        g = syms(r, self.group)
        e = [syms(r, c) if c else None for c in self.end]
        s = [syms(r, c) if c else None for c in self.sel]
        if not self.unity:
            enc = 1
            for _ in range(self.faces * (px // 2) * (py // 2)):
                if enc == 1:
                    x = g()
                    self.group.put(w, x)
                    enc = x | 512
                tiles = TILES[enc & 7]
                enc >>= 3
                for c in comps:
                    for _ in range(tiles):
                        self.end[c].put(w, e[c]())
                for _ in range(4):
                    for c in comps:
                        self.sel[c].put(w, s[c]())
        elif not self.sub:
            refs = [0] * px
            grp = 0
            for _ in range(self.faces):
                for y in range(py):
                    for x in range(px):
                        if y % 2 == 0 and x % 2 == 0:
                            grp = g()
                            self.group.put(w, grp)
                        if y % 2 == 0:
                            ref, refs[x] = grp & 3, grp >> 2 & 3
                            grp >>= 4
                        else:
                            ref = refs[x]
                        if ref == 0:
                            for c in comps:
                                self.end[c].put(w, e[c]())
                        for c in comps:
                            self.sel[c].put(w, s[c]())
        else:
            refs = [0] * px
            for _ in range(self.faces):
                for y in range(py):
                    for x in range(px):
                        if y % 2 == 0:
                            grp = g()
                            self.group.put(w, grp)
                            ref = grp & 3 | grp >> 2 & 12
                            refs[x] = grp >> 2 & 3 | grp >> 4 & 12
                        else:
                            ref = refs[x]
                        if ref & 3 == 0:
                            for c in comps:
                                self.end[c].put(w, e[c]())
                        for c in comps:
                            self.sel[c].put(w, s[c]())
                        if ref >> 2:
                            self.end[0].put(w, e[0]())
        return w.bytes(r.choice([0, 0, 0, 3]))

    # --- the file
    def bytes(self, crc=None, fields=None):
        r = self.r
        head = 70 + 4 * self.levels
        names = list(self.sections)
        if r.random() < 0.5:
            r.shuffle(names)
        levels_first = r.random() < 0.2 and False
        body, ofs, size = b"", {}, {}
        at = head + (r.choice([0, 0, 0, 4, 11]))
        body += bytes(r.getrandbits(8) for _ in range(at - head))
        for nm in names:
            ofs[nm], size[nm] = at, len(self.sections[nm])
            gap = r.choice([0, 0, 0, 0, 3])
            body += self.sections[nm] + bytes(r.getrandbits(8) for _ in range(gap))
            at += len(self.sections[nm]) + gap
        lofs = []
        for d in self.level_data:
            lofs.append(at)
            body += d
            at += len(d)
        if self.levels == 0:
            pass
        h = bytearray(head)

        def put(o, v, n):
            h[o:o + n] = v.to_bytes(n, "big")
        put(0, 0x4878, 2)
        put(2, r.choice([head, head, 74, 70 + 4 * max(1, self.levels)]) if head >= 74 else 74, 2)
        put(4, r.getrandbits(16), 2)
        put(6, r.choice([at, at, at, max(0, at - r.randint(0, 60)), 0]), 4)
        put(10, r.getrandbits(16), 2)
        put(12, self.w, 2)
        put(14, self.h, 2)
        h[16], h[17], h[18] = self.levels, self.faces, self.fmt
        put(19, r.choice([0, 0, r.getrandbits(16)]), 2)
        put(21, r.choice([0, r.getrandbits(32)]), 4)
        put(25, r.getrandbits(32), 4)
        put(29, r.getrandbits(32), 4)
        for k in range(4):
            put(33 + 8 * k, ofs.get(k, r.choice([0, 0, r.getrandbits(24)])), 3)
            put(36 + 8 * k, size.get(k, 0), 3)
            put(39 + 8 * k, self.num[k], 2)
        put(65, size["tables"], 2)
        put(67, ofs["tables"], 3)
        for i, o in enumerate(lofs):
            put(70 + 4 * i, o, 4)
        self.at = dict(ofs=ofs, size=size, lofs=lofs, head=head, end=at)
        return bytes(h) + body
