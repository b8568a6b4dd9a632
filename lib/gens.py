"""Input generators.  They only aim at variety; what the right result is is the specification's business."""
import random

EIGHT = ["bc1", "bc1a", "bc4", "atc_rgb4", "etc1", "etc2_rgb", "etc2_rgba1", "eacr", "eacr_signed"]
SIXTEEN = ["bc2", "bc3", "bc5", "atc_rgba8", "etc2_rgba8", "eacrg", "eacrg_signed",
           "bc6_signed", "bc6_unsigned", "bc7"]
SMALL = EIGHT + SIXTEEN
ASTC = [(4, 4), (5, 4), (5, 5), (6, 5), (6, 6), (8, 5), (8, 6), (8, 8), (10, 5), (10, 6), (10, 8),
        (10, 10), (12, 10), (12, 12)]


def nbytes(f):
    return 8 if f in EIGHT else 16


def rb(r, n):
    return bytes(r.getrandbits(8) for _ in range(n)) if n < 4 else r.randbytes(n)


def u16(r):
    """An end point: random, extreme, or a single saturated channel."""
    k = r.randrange(10)
    if k < 6:
        return r.getrandbits(16)
    return r.choice([0, 0xFFFF, 0xF800, 0x07E0, 0x001F, 0x8000, 0x7FFF, 1, 0x0800, 0x0020, 0x7C00, 0x03E0,
                     0xFFDF, 0xFFFE, 0x8410, 0x7BEF])


def pair16(r):
    a = u16(r)
    k = r.randrange(8)
    if k == 0:
        b = a
    elif k == 1:
        b = (a + 1) & 0xFFFF
    elif k == 2:
        b = (a - 1) & 0xFFFF
    elif k == 3:
        b = a ^ (1 << r.randrange(16))
    else:
        b = u16(r)
    return a, b


def idx(r, n):
    """n bytes of selectors"""
    k = r.randrange(8)
    if k == 0:
        # all texels alike
        if n == 6:
            return (r.randrange(8) * (((1 << 48) - 1) // 7)).to_bytes(6, r.choice(["little", "big"]))
        if n == 8:
            return bytes([r.randrange(16) * 0x11] * 8)
        return bytes([r.choice([0, 0xFF, 0x55, 0xAA, 0, 0xFF, 0x55, 0xAA, 0xE4, 0x1B])] * n)
    if k == 1:
        return (1 << r.randrange(8 * n)).to_bytes(n, "little")
    if k == 2:
        return ((1 << 8 * n) - 1 ^ (1 << r.randrange(8 * n))).to_bytes(n, "little")
    return rb(r, n)


def colour(r, f=None):
    a, b = pair16(r)
    return a.to_bytes(2, "little") + b.to_bytes(2, "little") + idx(r, 4)


def u8(r):
    return r.getrandbits(8) if r.randrange(3) else r.choice([0, 1, 2, 127, 128, 129, 254, 255])


def ramp(r):
    a = u8(r)
    k = r.randrange(6)
    b = a if k == 0 else (a + 1) & 255 if k == 1 else (a - 1) & 255 if k == 2 else u8(r)
    return bytes([a, b]) + idx(r, 6)


def setbits(v, hi, lo, x):
    m = ((1 << (hi - lo + 1)) - 1) << lo
    return v & ~m | (x << lo) & m


def planes(r):
    """ETC selectors: all texels alike, or in one of the bits, or in each half of the block."""
    a, b = r.choice([0, 0xFFFF, 0xFFFF, 0x00FF, 0x3333]), r.choice([0, 0xFFFF, 0xFFFF, 0xFF00, 0x3333])
    return (r.getrandbits(16) if r.randrange(6) == 0 else a) << 16 | (r.getrandbits(16) if r.randrange(6) == 0 else b)


def etc(r):
    v = r.getrandbits(64)
    k = r.randrange(9)
    if k == 0:
        return rb(r, 8)
    if k == 1:                                   # individual
        v = setbits(v, 33, 33, 0)
        return v.to_bytes(8, "big")
    v = setbits(v, 33, 33, r.randrange(8) > 1)

    def ok(lo5, lo3):
        nonlocal v
        while True:
            b, d = r.randrange(32), r.randrange(8)
            s = b + (d - 8 if d > 3 else d)
            if 0 <= s <= 31:
                v = setbits(setbits(v, lo5 + 4, lo5, b), lo3 + 2, lo3, d)
                return

    def over(lo5, lo3):
        nonlocal v
        while True:
            b, d = r.choice([0, 1, 2, 3, 28, 29, 30, 31]), r.randrange(8)
            s = b + (d - 8 if d > 3 else d)
            if not 0 <= s <= 31:
                v = setbits(setbits(v, lo5 + 4, lo5, b), lo3 + 2, lo3, d)
                return
    if k in (2, 3):                              # T
        over(59, 56)
    elif k in (4, 5):                            # H
        ok(59, 56)
        over(51, 48)
        if r.randrange(3) == 0:
            # equal or nearly equal paint colours decide a distance bit
            c1 = [(v >> 59) & 15, ((v >> 56) & 7) << 1 | (v >> 52) & 1, ((v >> 51) & 1) << 3 | (v >> 47) & 7]
            if r.randrange(2):
                c1[r.randrange(3)] = r.randrange(16)
            v = setbits(setbits(setbits(v, 46, 43, c1[0]), 42, 39, c1[1]), 38, 35, c1[2])
    elif k == 6:                                 # planar
        ok(59, 56)
        ok(51, 48)
        over(43, 40)
        if r.randrange(3) == 0:                  # extreme corners
            for hi, lo in ((62, 57), (54, 49), (38, 34), (31, 25), (24, 19), (18, 13), (12, 6), (5, 0)):
                if r.randrange(2):
                    old = v
                    v = setbits(v, hi, lo, r.choice([0, (1 << hi - lo + 1) - 1]))
                    # keep it planar
                    def sm(l5, l3):
                        b, d = v >> l5 & 31, v >> l3 & 7
                        return b + (d - 8 if d > 3 else d)
                    if not (0 <= sm(59, 56) <= 31 and 0 <= sm(51, 48) <= 31 and not 0 <= sm(43, 40) <= 31):
                        v = old
    else:                                        # differential
        ok(59, 56)
        ok(51, 48)
        ok(43, 40)
    k = r.randrange(12)
    if k < 2:
        v = setbits(v, 31, 0, int.from_bytes(idx(r, 4), "big"))
    elif k < 4:
        v = setbits(v, 31, 0, planes(r))
    return v.to_bytes(8, "big")


def eac(r):
    base = u8(r)
    mul = r.randrange(16) if r.randrange(4) else r.choice([0, 1, 15])
    return bytes([base, mul << 4 | r.randrange(16)]) + idx(r, 6)


BC7_PART = {0: 4, 1: 6, 2: 6, 3: 6, 7: 6}
# subsets, first bit of the end points, bits per colour channel, bits of alpha, p bits
BC7_ENDS = [(3, 5, 4, 0, 6), (2, 8, 6, 0, 2), (3, 9, 5, 0, 0), (2, 10, 7, 0, 4), (1, 8, 5, 6, 0), (1, 8, 7, 8, 0), (1, 7, 7, 7, 2),
            (2, 14, 5, 5, 4)]


def flat_ends(r, e):
    """Pairs of end points (pairs[subset][channel] = [a, b], with their maxima) as simple pictures have them."""
    for pairs in e:
        k = r.randrange(6)
        odd = r.randrange(len(pairs))
        for i, ch in enumerate(pairs):
            a, b, m = ch
            if k < 2 or k == 4 and i != odd:
                ch[1] = a                                        # one colour
            elif k == 2 and r.randrange(2):
                ch[0], ch[1] = r.choice([0, m, a]), r.choice([0, m, b])
            elif k == 3:
                ch[0] = pairs[0][0] * m // pairs[0][2]           # greys
                ch[1] = pairs[0][1] * m // pairs[0][2]


def bc7_flat(r, v, mode):
    n, at, cb, ab, pb = BC7_ENDS[mode]
    e = [[] for _ in range(n)]
    for ch in range(4 if ab else 3):
        w = ab if ch == 3 else cb
        for s in range(n):
            lo = at + 2 * n * cb * ch + 2 * s * w
            e[s].append([v >> lo & (1 << w) - 1, v >> lo + w & (1 << w) - 1, (1 << w) - 1])
    flat_ends(r, e)
    for ch in range(4 if ab else 3):
        w = ab if ch == 3 else cb
        for s in range(n):
            lo = at + 2 * n * cb * ch + 2 * s * w
            v = setbits(setbits(v, lo + w - 1, lo, e[s][ch][0]), lo + 2 * w - 1, lo + w, e[s][ch][1])
    end = at + 2 * n * (3 * cb + ab)
    if pb and r.randrange(2):
        v = setbits(v, end + pb - 1, end, r.choice([0, (1 << pb) - 1, 0b101010 & (1 << pb) - 1]))
    if r.randrange(4) == 0:
        v = setbits(v, 127, end + pb, r.choice([0, (1 << 128 - end - pb) - 1]))
    return v


def bc7(r, mode=None, part=None):
    v = r.getrandbits(128)
    if r.randrange(6) == 0:
        v = r.choice([0, (1 << 128) - 1, v & v >> 1, v | v >> 1])
    if mode is None:
        mode = r.randrange(8) if r.randrange(40) else 8
    if mode == 8:
        return bytes([0]) + v.to_bytes(16, "little")[1:]
    v = setbits(v, mode, 0, 1 << mode)
    if part is not None and mode in BC7_PART:
        v = setbits(v, mode + BC7_PART[mode], mode + 1, part)
    if r.randrange(5) == 0:
        v = bc7_flat(r, v, mode)
    return v.to_bytes(16, "little")


BC6_MODES = [0, 1, 2, 6, 10, 14, 18, 22, 26, 30, 3, 7, 11, 15]
BC6_RESERVED = [19, 23, 27, 31]


def bc6(r, mode=None, part=None):
    v = r.getrandbits(128)
    k = r.randrange(8)
    if k == 0:
        v = r.choice([0, (1 << 128) - 1, v & v >> 1, v | v >> 1])
    if mode is None:
        mode = r.choice(BC6_MODES) if r.randrange(40) else r.choice(BC6_RESERVED)
    v = setbits(v, 1 if mode < 2 else 4, 0, mode)
    if k in (1, 2):
        # end point fields of the layout: saturate runs of bits
        for lo, n in ((5, 10), (15, 10), (25, 10), (35, 10), (45, 10), (55, 10), (65, 6), (71, 6)):
            if r.randrange(3) == 0:
                v = setbits(v, lo + n - 1, lo, r.choice([0, (1 << n) - 1, 1, 1 << n - 1, (1 << n - 1) - 1]))
        v = setbits(v, 1 if mode < 2 else 4, 0, mode)
    if k == 3:
        # differences of zero, or minus one; one colour in the modes without differences
        if mode == 3:
            for lo in (5, 15, 25):
                v = setbits(v, lo + 39, lo + 30, v >> lo & 1023)
        else:
            v = setbits(v, 76 if mode & 3 != 3 else 64, 35, r.choice([0, 0, (1 << 42) - 1]))
    if k in (3, 4) and r.randrange(2):
        v = setbits(v, 127, 82 if mode & 3 != 3 else 65, r.choice([0, (1 << 63) - 1]))
    if part is not None and mode in (0, 1, 2, 6, 10, 14, 18, 22, 26, 30):
        v = setbits(v, 81, 77, part)
    return v.to_bytes(16, "little")


def atc_colour(r):
    return colour(r)


def block(r, f):
    """One block of a small format."""
    if r.randrange(50) == 0:
        return r.choice([bytes(nbytes(f)), b"\xff" * nbytes(f), b"\x80" * nbytes(f), b"\x01" * nbytes(f)])
    if f in ("bc1", "bc1a", "atc_rgb4"):
        return colour(r)
    if f == "bc2":
        return idx(r, 8) + colour(r)
    if f in ("bc3", "atc_rgba8"):
        return ramp(r) + colour(r)
    if f == "bc4":
        return ramp(r)
    if f == "bc5":
        return ramp(r) + ramp(r)
    if f in ("etc1", "etc2_rgb", "etc2_rgba1"):
        return etc(r)
    if f == "etc2_rgba8":
        return eac(r) + etc(r)
    if f in ("eacr", "eacr_signed"):
        return eac(r)
    if f in ("eacrg", "eacrg_signed"):
        return eac(r) + eac(r)
    if f == "bc7":
        return bc7(r)
    if f in ("bc6_signed", "bc6_unsigned"):
        return bc6(r)
    raise KeyError(f)


# --- systematic enumerations -------------------------------------------------

def images(f, blocks, per=16):
    """Pack blocks into 4-texel-high images: (data, width, height)"""
    for k in range(0, len(blocks), per):
        ch = blocks[k:k + per]
        yield b"".join(ch), 4 * len(ch), 4


ALLIDX2 = bytes([0xE4, 0xE4, 0xE4, 0xE4])
ALLIDX3 = (0xFAC688 | 0xFAC688 << 24).to_bytes(6, "little")


def q565(a, b, c):
    return a << 11 | b << 5 | c


def sys_colour(r):
    """565/565 colour halves: every pair of green levels in both orders, every pair of red and of blue levels."""
    out = []
    for g0 in range(64):
        for g1 in range(64):
            for hi in (0, 1):
                r0, r1 = sorted(r.sample(range(32), 2), reverse=bool(hi))
                out.append((q565(r0, g0, r.randrange(32)), q565(r1, g1, r.randrange(32))))
    for x in range(32):
        for y in range(32):
            out.append((q565(x, r.randrange(64), r.randrange(32)), q565(y, r.randrange(64), r.randrange(32))))
            for hi in (0, 1):
                r0, r1 = sorted(r.sample(range(32), 2), reverse=bool(hi))
                out.append((q565(r0, r.randrange(64), x), q565(r1, r.randrange(64), y)))
            g = r.randrange(64)
            out.append((q565(7, g, x), q565(7, g, y)))
    return [a.to_bytes(2, "little") + b.to_bytes(2, "little") + (ALLIDX2 if r.randrange(2) else rb(r, 4))
            for a, b in out]


def sys_atc(r):
    out = []
    for m in (0, 1):
        for g0 in range(32):
            for g1 in range(64):
                out.append((m << 15 | r.randrange(32) << 10 | g0 << 5 | r.randrange(32),
                            q565(r.randrange(32), g1, r.randrange(32))))
        for x in range(32):
            for y in range(32):
                out.append((m << 15 | x << 10 | r.randrange(32) << 5 | y,
                            q565(y, r.randrange(64), x)))
                z = r.randrange(32)
                out.append((m << 15 | z << 10 | r.randrange(32) << 5 | x, q565(r.randrange(32), r.randrange(64), y)))
    return [a.to_bytes(2, "little") + b.to_bytes(2, "little") + (ALLIDX2 if r.randrange(2) else rb(r, 4))
            for a, b in out]


def sys_ramp(r, n=65536):
    """Every pair of end points (or n of them), all eight indices in each block."""
    ps = range(65536) if n >= 65536 else sorted(r.sample(range(65536), n))
    return [bytes([p >> 8, p & 255]) + ALLIDX3 for p in ps]


def sys_eac(r, n=65536):
    """Every base, multiplier and table (or n of the combinations), all eight indices."""
    ps = range(65536) if n >= 65536 else sorted(r.sample(range(65536), n))
    return [bytes([p >> 8, p & 255]) + ALLIDX3 for p in ps]


IDX_ETC = 0x3333_5555     # each of the four selectors in every sub-block, both flips


def etc_word(f):
    v = 0
    for (hi, lo), x in f.items():
        v |= (x & ((1 << hi - lo + 1) - 1)) << lo
    return v.to_bytes(8, "big")


def sys_etc(r, overflow):
    """Individual: 4-bit bases x tables; differential: 5-bit base x delta x table; T/H: paints x distance."""
    out = []

    def tail():
        return {(31, 0): r.choice([IDX_ETC, r.getrandbits(32), r.getrandbits(32), planes(r)]), (32, 32): r.randrange(2)}
    R = r.randrange
    for a in range(16):
        for b in range(16):
            for t in range(8):
                out.append(etc_word({(63, 60): a, (59, 56): b, (55, 52): b, (51, 48): (a + t) & 15, (47, 44): R(16),
                                     (43, 40): R(16), (39, 37): t, (36, 34): (a + b + t) & 7, (33, 33): 0, **tail()}))
    for a in range(32):
        for d in range(8):
            s = a + (d - 8 if d > 3 else d)
            inr = 0 <= s <= 31
            for t in range(8):
                for ch in range(3):
                    if not inr and overflow is False:
                        continue
                    if not inr and overflow == "no":
                        continue
                    base = [16, 16, 16]
                    dl = [R(8), R(8), R(8)]
                    base[ch], dl[ch] = a, d
                    out.append(etc_word({(63, 59): base[0], (58, 56): dl[0], (55, 51): base[1], (50, 48): dl[1],
                                         (47, 43): base[2], (42, 40): dl[2], (39, 37): t, (36, 34): R(8),
                                         (33, 33): 1, **tail()}))
    return out


def sys_etc2_th(r, diff=None):
    out = []
    R = r.randrange
    for mode in ("T", "H"):
        for ch in range(6):
            for x in range(16):
                for dist in range(8):
                    c = [R(16) for _ in range(6)]
                    c[ch] = x
                    if mode == "T":
                        r1 = c[0]
                        f = {(60, 59): r1 >> 2, (57, 56): r1 & 3, (55, 52): c[1], (51, 48): c[2], (47, 44): c[3],
                             (43, 40): c[4], (39, 36): c[5], (35, 34): dist >> 1, (32, 32): dist & 1}
                        # red must overflow: R5 = b63..59, dR = b58..56
                        a, d = (r1 >> 2), (r1 & 3)
                        ok = False
                        for hi3 in range(8):
                            for b58 in range(2):
                                base = hi3 << 2 | a
                                dl = b58 << 2 | d
                                s = base + (dl - 8 if dl > 3 else dl)
                                if not 0 <= s <= 31:
                                    f[(63, 61)], f[(58, 58)], ok = hi3, b58, True
                        if not ok:
                            continue
                    else:
                        f = {(62, 59): c[0], (58, 56): c[1] >> 1, (52, 52): c[1] & 1, (51, 51): c[2] >> 3,
                             (49, 47): c[2] & 7, (46, 43): c[3], (42, 39): c[4], (38, 35): c[5],
                             (34, 34): dist >> 2, (32, 32): dist >> 1 & 1}
                        ok = False
                        d = c[1] >> 1
                        for b63 in range(2):
                            base = b63 << 4 | c[0]
                            s = base + (d - 8 if d > 3 else d)
                            if 0 <= s <= 31:
                                f[(63, 63)], ok = b63, True
                        if not ok:
                            continue
                        ok = False
                        for hi3 in range(8):
                            for b50 in range(2):
                                base = hi3 << 2 | (c[1] & 1) << 1 | c[2] >> 3
                                dl = b50 << 2 | (c[2] >> 1) & 3
                                s = base + (dl - 8 if dl > 3 else dl)
                                if not 0 <= s <= 31:
                                    f[(55, 53)], f[(50, 50)], ok = hi3, b50, True
                        if not ok:
                            continue
                    f[(33, 33)] = (R(2) if diff is None else diff)
                    f[(31, 0)] = r.choice([IDX_ETC, r.getrandbits(32), r.getrandbits(32), planes(r)])
                    out.append(etc_word(f))
    return out


def sys_planar(r):
    """every value of each of the nine planar fields"""
    out = []
    O, H, V = [6, 7, 6], [6, 7, 6], [6, 7, 6]

    def word(o, h, v, diff):
        w = {}
        w[(62, 57)] = o[0]
        w[(56, 56)], w[(54, 49)] = o[1] >> 6, o[1] & 63
        w[(48, 48)], w[(44, 43)], w[(41, 39)] = o[2] >> 5, o[2] >> 3 & 3, o[2] & 7
        w[(38, 34)], w[(32, 32)] = h[0] >> 1, h[0] & 1
        w[(31, 25)], w[(24, 19)] = h[1], h[2]
        w[(18, 13)], w[(12, 6)], w[(5, 0)] = v
        w[(33, 33)] = diff
        x = int.from_bytes(etc_word(w), "big")

        def sm(x, l5, l3):
            b, d = x >> l5 & 31, x >> l3 & 7
            return b + (d - 8 if d > 3 else d)
        for b63 in (0, 1):
            y = setbits(x, 63, 63, b63)
            if 0 <= sm(y, 59, 56) <= 31:
                break
        else:
            return None
        for b55 in (0, 1):
            z = setbits(y, 55, 55, b55)
            if 0 <= sm(z, 51, 48) <= 31:
                break
        else:
            return None
        for b in range(16):
            u = setbits(setbits(z, 47, 45, b >> 1), 42, 42, b & 1)
            if not 0 <= sm(u, 43, 40) <= 31:
                return u.to_bytes(8, "big")
        return None
    for which in range(3):
        for ch in range(3):
            for val in range(1 << O[ch]):
                for ext in range(3):
                    t = [[r.choice([0, (1 << n) - 1, r.randrange(1 << n)]) for n in O] for _ in range(3)]
                    t[which][ch] = val
                    x = word(*t, r.randrange(2) if ext else 1)
                    if x:
                        out.append(x)
    return out


# --- ASTC ---------------------------------------------------------------------

ASTC_WR = {2: (0, 1), 3: (3, 0), 4: (0, 2), 5: (5, 0), 6: (3, 1), 7: (0, 3), 10: (5, 1), 11: (3, 2), 12: (0, 4),
           13: (5, 2), 14: (3, 3), 15: (0, 5)}
ASTC_CR = [(0, 8), (3, 6), (5, 5), (0, 7), (3, 5), (5, 4), (0, 6), (3, 4), (5, 3), (0, 5), (3, 3), (5, 2), (0, 4),
           (3, 2), (5, 1), (0, 3), (3, 1)]


def astc_seqbits(rng, n):
    return n * rng[1] + {0: 0, 3: (8 * n + 4) // 5, 5: (7 * n + 2) // 3}[rng[0]]


def astc_mode(m):
    """(w, h, dual, R) of an 11-bit block mode, or None when reserved or void-extent"""
    A, B, D, H = m >> 5 & 3, m >> 7 & 3, m >> 10 & 1, m >> 9 & 1
    if m & 3:
        R = 2 * (m & 3) + (m >> 4 & 1)
        k = m >> 2 & 3
        w, h = [(B + 4, A + 2), (B + 8, A + 2), (A + 2, B + 8),
                (A + 2, (B & 1) + 6) if not m >> 8 & 1 else ((B & 1) + 2, A + 2)][k]
    else:
        R = 2 * (m >> 2 & 3) + (m >> 4 & 1)
        if B == 0:
            w, h = 12, A + 2
        elif B == 1:
            w, h = A + 2, 12
        elif B == 2:
            w, h, D, H = A + 6, (m >> 9 & 3) + 6, 0, 0
        elif A == 0:
            w, h = 6, 10
        elif A == 1:
            w, h = 10, 6
        else:
            return None
    R += 8 * H
    return (w, h, D, R) if R in ASTC_WR else None


ASTC_MODES = {}
for _m in range(2048):
    _x = astc_mode(_m)
    if _x:
        _n = _x[0] * _x[1] * (1 + _x[2])
        _b = astc_seqbits(ASTC_WR[_x[3]], _n)
        if _n <= 64 and 24 <= _b <= 96:
            ASTC_MODES[_m] = (*_x, _b)
_fit = {}


def astc_modes(bw, bh):
    if (bw, bh) not in _fit:
        # one encoding per distinct (w, h, dual, R) first, so that rare shapes are not drowned
        d = {}
        for m, x in ASTC_MODES.items():
            if x[0] <= bw and x[1] <= bh:
                d.setdefault(x, []).append(m)
        _fit[bw, bh] = list(d.values())
    return _fit[bw, bh]


def astc_places(rng, n):
    """For each of n values of a sequence, the place of its own bits; then the places of the shared ones."""
    t, b = rng
    gaps = {0: [0], 3: [2, 2, 1, 2, 1], 5: [3, 2, 2]}[t]
    own, shared, at = [], [], 0
    for i in range(n):
        own.append(at)
        at += b
        shared += range(at, at + gaps[i % len(gaps)])
        at += gaps[i % len(gaps)]
    return own, [x for x in shared if x < astc_seqbits(rng, n)]


def astc_flat(r, v, at, rng, nv, wb, wr, nw):
    """End points as simple pictures have them (no trits or quints), or all weights alike."""
    if r.randrange(3):
        own, shared = astc_places(rng, nv)
        b = rng[1]
        m = (1 << b) - 1
        for x in shared:
            v = setbits(v, at + x, at + x, 0)
        e = [[[v >> at + own[i] & m, v >> at + own[i + 1] & m, max(m, 1)] for i in range(0, nv, 2)]]
        flat_ends(r, e)
        for i, ch in enumerate(e[0]):
            for j in (0, 1):
                if b:
                    v = setbits(v, at + own[2 * i + j] + b - 1, at + own[2 * i + j], ch[j])
    if r.randrange(3) == 0:
        own, shared = astc_places(wr, nw)
        x = r.getrandbits(wr[1]) if wr[1] else 0
        w = sum((x >> j & 1) << o + j for o in own for j in range(wr[1]))
        # the weights are written from the top down
        v = setbits(v, 127, 128 - wb, int(format(w, f"0{wb}b")[::-1], 2))
    return v


def astc_block(r, bw, bh, mode=None, pn=None, cem=None, want=None):
    """A legal ordinary block; mode: 11-bit block mode; cem: the end point mode of all partitions;
    want: the index of the end point range it should have."""
    for _ in range(3000):
        m = r.choice(r.choice(astc_modes(bw, bh))) if mode is None else mode
        w, h, dual, R, wb = ASTC_MODES[m]
        p = r.choice([1, 1, 2, 2, 3, 4]) if pn is None else pn
        if dual and p == 4:
            continue
        v = r.getrandbits(128)
        k = r.randrange(12)
        if k == 0:
            v &= r.getrandbits(128)
        elif k == 1:
            v |= r.getrandbits(128)
        elif k == 2:
            v = setbits(v, 127, 128 - wb, r.choice([0, (1 << wb) - 1]))
        elif k == 3:
            v = setbits(v, 127 - wb, 17, r.choice([0, (1 << 111 - wb) - 1, v & 1 and 0x5555555555555555555]))
        v = setbits(v, 10, 0, m)
        v = setbits(v, 12, 11, p - 1)
        extra = 0
        if p == 1:
            c = [r.randrange(16) if cem is None else cem]
            v = setbits(v, 16, 13, c[0])
        else:
            base = 0 if r.randrange(2) or cem is not None and r.randrange(3) else r.randrange(1, 4)
            if base == 0:
                c = [r.randrange(16) if cem is None else cem] * p
                v = setbits(setbits(v, 24, 23, 0), 28, 25, c[0])
            else:
                c = [4 * (base - 1 + r.randrange(2)) + r.randrange(4) for _ in range(p)]
                if cem is not None:
                    if cem // 4 not in (base - 1, base):
                        continue
                    c[r.randrange(p)] = cem
                extra = 3 * p - 4
                v = setbits(v, 24, 23, base)
                bits = []
                for x in c:
                    v = setbits(v, 25 + len(bits), 25 + len(bits), x // 4 - (base - 1))
                    bits.append(0)
                mm = [b for x in c for b in (x & 1, x >> 1 & 1)]
                for i, b in enumerate(mm):
                    pos = 25 + p + i if i < 4 - p else 128 - wb - extra + i - (4 - p)
                    v = setbits(v, pos, pos, b)
        nv = sum(2 * (x // 4) + 2 for x in c)
        left = 128 - (17 if p == 1 else 29) - extra - 2 * dual - wb
        if nv > 18 or left < (13 * nv + 4) // 5:
            continue
        if want is not None:
            if next(i for i, g in enumerate(ASTC_CR) if astc_seqbits(g, nv) <= left) != want:
                continue
        if r.randrange(6) == 0:
            v = astc_flat(r, v, 17 if p == 1 else 29, next(g for g in ASTC_CR if astc_seqbits(g, nv) <= left), nv,
                          wb, ASTC_WR[R], w * h * (1 + dual))
        return v.to_bytes(16, "little")
    return None


def astc_void(r, hdr=None):
    hdr = r.randrange(2) if hdr is None else hdr
    v = 0x1FC | hdr << 9 | (3 << 10 if r.randrange(3) else r.randrange(4) << 10)
    ext = r.getrandbits(52) if r.randrange(2) else (1 << 52) - 1
    v |= ext << 12
    for i in range(4):
        x = r.getrandbits(16)
        if r.randrange(3) == 0:
            x = r.choice([0, 1, 255, 256, 0x3C00, 0x3BFF, 0x3C01, 0x7C00, 0xFC00, 0x7C01, 0xFE00, 0x8000, 0x8001, 0xBC00,
                          0x0400, 0x03FF, 0x1C04, 0x1C03, 0xFFFF, 0x7BFF])
        elif r.randrange(2):
            x = r.randrange(0x1800, 0x3D00)
        v |= x << (64 + 16 * i)
    return v.to_bytes(16, "little")


def astc_illegal(r, bw, bh):
    """Aims at blocks the specification makes illegal: most of them are."""
    v = r.getrandbits(128)
    k = r.randrange(9)
    if k == 0:                                                   # reserved modes
        v = setbits(v, 3, 0, 0)
    elif k == 1:
        v = setbits(setbits(v, 8, 6, 7), 1, 0, 0)
        v = setbits(v, 5, 5, r.randrange(2))
    elif k == 2:                                                 # any mode at all
        pass
    elif k == 3:                                                 # grid larger than the block
        v = setbits(v, 10, 0, r.choice(list(ASTC_MODES)))
    elif k == 4:                                                 # two planes and four partitions
        m = r.choice([m for m, x in ASTC_MODES.items() if x[2]])
        v = setbits(setbits(v, 10, 0, m), 12, 11, 3)
    elif k == 5:                                                 # too many or too few weight bits
        m = r.choice([m for m in range(2048) if astc_mode(m) and m not in ASTC_MODES])
        v = setbits(v, 10, 0, m)
    elif k in (6, 7):                                            # too many end point values
        m = r.choice(r.choice(astc_modes(bw, bh)))
        v = setbits(setbits(v, 10, 0, m), 12, 11, r.randrange(1, 4))
        v = setbits(v, 28, 23, r.choice([0b110000, 0b111100, 0b111111, 3, 63, 62, 2, 0b111011]))
    else:                                                        # too few bits for the end points
        m = r.choice(r.choice([x for x in astc_modes(bw, bh)][-40:]))
        v = setbits(setbits(v, 10, 0, m), 16, 13, r.randrange(12, 16))
    return v.to_bytes(16, "little")


def pvrtc(r, two):
    v = r.getrandbits(64)
    k = r.randrange(9)
    if k == 0 or k == 3:
        v = setbits(v, 31, 0, r.choice([0, 0xFFFFFFFF, 0xAAAAAAAA, 0x55555555, 0xE4E4E4E4]))
    if k == 3:                                                   # one colour
        v = setbits(v, 63, 48, v >> 32 & 0xFFFE | v >> 63 & 1) if r.randrange(2) else setbits(v, 63, 33, r.choice([0, (1 << 31) - 1]))
    if k == 1:
        v = setbits(v, 62, 48, r.choice([0, 0x7FFF]))
    if k == 2:
        v = setbits(v, 46, 33, r.choice([0, 0x3FFF]))
    if r.randrange(3):
        v = setbits(v, 32, 32, 1)                                # modulation mode
    if two and r.randrange(2):
        v = setbits(v, 0, 0, 1)
    return v.to_bytes(8, "little")
