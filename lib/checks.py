"""The checks: which inputs and histories each property is explored with, and which
specification module judges them."""
import ast
import glob
import json
import re
import crn
import gens
import vt
from vt import Vec, ToolError

CHECKS = {}


def check(pid):
    def deco(fn):
        CHECKS[pid] = fn
        return fn
    return deco


def fill(r):
    return r.choice([0, 0xFFFFFFFF, 0x12345678, 0x80000000, 0x00FF00FF]) if r.randrange(2) else r.getrandbits(32)


def block_vectors(c, formats, nblocks, make=None, blockfns=(), per_image=16):
    """About nblocks blocks of each format: most in 4-block-wide images, some through the block functions."""
    r = c.rng
    out = []
    for f in formats:
        mk = make or (lambda r, f=f: gens.block(r, f))
        n = nblocks
        while n > 0:
            k = r.randrange(1, per_image + 1)
            if r.randrange(4) == 0:
                # partial blocks at the edges
                bx = r.randrange(1, 5)
                by = max(1, k // bx)
                w, h = 4 * bx - r.randrange(4), 4 * by - r.randrange(4)
                k = bx * by
            else:
                w, h = 4 * k, 4
                if k % 2 == 0 and r.randrange(2):
                    w, h = 2 * k, 8
            d = b"".join(mk(r) for _ in range(k))
            out.append(Vec(f, d, w, h, n=w * h, fill=fill(r)))
            n -= k
            d = mk(r)
            if r.randrange(3) == 0:
                d += gens.rb(r, r.randrange(1, 20))
            out.append(Vec("block:" + f, d, n=16 + (r.randrange(5) if r.randrange(3) == 0 else 0), fill=fill(r)))
            n -= 1
    r.shuffle(out)
    return out


def small(pid, formats, quick, thorough, extra=None, kinds=()):
    @check(pid)
    def run(c):
        v = block_vectors(c, formats, c.scale(quick, thorough))
        v += sample_vecs(c, formats, c.scale(600, 20000))
        if extra:
            v += extra(c)
        w = written(c, "MCBlocks", kinds, formats)
        c.conform(w, "written")
        blocks = sum(len(x.d) // gens.nbytes(x.f.replace("block:", "")) if x.f in formats else 1 for x in v)
        c.cov["blocks"] = blocks
        c.assumptions += ["texel semantics of each format as written in /verif/spec"]
        for k in range(0, len(v), 40000):
            if not c.conform(v[k:k + 40000]):
                break
        return c.finish()
    return run


SAMPLE_OF = {"atc_rgb4": ["ATC_RGB.dds"], "atc_rgba8": ["ATC_RGBA_Interpolated.dds", "ATC_RGBA_Explicit.dds"], "bc1": ["BC1.ktx2"], "bc1a": ["BC1A.ktx2"],
             "bc2": ["BC2.ktx2", "DXT2.ktx2"], "bc3": ["BC3.ktx2", "DXT4.ktx2"], "bc4": ["BC4.ktx2"], "bc5": ["BC5.ktx2"], "bc6_unsigned": ["BC6H.ktx2"],
             "bc7": ["BC7.ktx2"], "etc1": ["ETC1_RGB.ktx2"], "etc2_rgb": ["ETC2_RGB.ktx2"], "etc2_rgba8": ["ETC2_RGBA.ktx2"],
             "etc2_rgba1": ["ETC2_RGB_A1.ktx2"], "eacr": ["EAC_R11.ktx2"], "eacrg": ["EAC_RG11.ktx2"],
             "pvrtc_2bpp": ["PVRTCI_2bpp_RGB.ktx2", "PVRTCI_2bpp_RGBA.ktx2"], "pvrtc_4bpp": ["PVRTCI_4bpp_RGB.ktx2", "PVRTCI_4bpp_RGBA.ktx2"],
             **{f"astc_{a}_{b}": [f"ASTC_{a}x{b}.ktx2"] for a, b in gens.ASTC}}


def sample_data(f):
    """The block data of the repository's sample textures of a format (what real encoders write)."""
    out = []
    for n in SAMPLE_OF.get(f, []):
        try:
            d = open(f"{SAMPLES}/{n}", "rb").read()
        except OSError:
            continue
        if n.endswith("dds"):
            out.append(d[128:])
        else:
            o, k = int.from_bytes(d[80:88], "little"), int.from_bytes(d[88:96], "little")
            out.append(d[o:o + k])
    return out


def sample_vecs(c, formats, blocks):
    """About that many blocks of the sample textures of each format."""
    r = c.rng
    v = []
    for f in formats:
        for d in sample_data(f):
            nb = 8 if f in PVR else GEO[f][2]
            if f in PVR:
                # a power-of-two square of blocks is a run of them
                for _ in range(max(1, blocks // 16)):
                    k = 16 * r.randrange(len(d) // 128)
                    v.append(Vec(f, d[8 * k:8 * k + 128], 4 * PVR[f][0], 16, fill=fill(r)))
                continue
            bw, bh, _ = GEO[f]
            n = len(d) // nb
            seen = set()
            left = blocks
            while left > 0:
                # rows of 8 blocks; blocks that are all alike (background) count little
                k = r.randrange(max(1, n - 8))
                x = d[nb * k:nb * (k + 8)]
                if x in seen:
                    left -= 1
                    continue
                seen.add(x)
                left -= 8
                v.append(Vec(f, x, bw * (len(x) // nb), bh, fill=fill(r)))
    c.cov["sample_texture_calls"] = len(v)
    return v


def written(c, module, kinds, only=None, rounds=None):
    """Check the specification's own theorems, and take the blocks its writers hand out (see Pack.tla)
    as calls, of the given functions."""
    consts = {"Kinds": "{" + ", ".join(f'"{k}"' for k in kinds) + "}"}
    if rounds:
        consts["Rounds"] = rounds
    m = c.model(module, cfg=module + "Deep" if c.thorough else None, consts=consts)
    v = []
    for line in sorted(set(re.findall(r'^"VEC (.*)"$', m.text, re.M))):
        f, a, b, w, h, d = ast.literal_eval(line.replace('\\"', '"').replace("<<", "(").replace(">>", ")"))
        if not only or f in only:
            v.append(Vec(f, bytes(d), w, h, a=a, b=b, n=w * h, fill=fill(c.rng)))
    c.cov["calls_written_by_the_specification"] = c.cov.get("calls_written_by_the_specification", 0) + len(v)
    if not v:
        raise ToolError(f"{module} has written no blocks for {only}")
    return v


def image_vecs(r, f, blocks, prefix=None):
    """Blocks, each with a prefix (an alpha half, say), as images of 16 blocks."""
    if prefix:
        blocks = [prefix(r) + x for x in blocks]
    return [Vec(f, d, w, h, fill=fill(r)) for d, w, h in gens.images(f, blocks)]


def bc1_extra(c):
    r = c.rng
    v = []
    for f in ("bc1", "bc1a"):
        v += image_vecs(r, f, gens.sys_colour(r))
    v += image_vecs(r, "bc2", gens.sys_colour(r), lambda r: gens.idx(r, 8))
    v += image_vecs(r, "bc3", gens.sys_colour(r), gens.ramp)
    v += image_vecs(r, "bc3", [x + gens.colour(r) for x in gens.sys_ramp(r, c.scale(12000, 65536))])
    return v


def bc4_extra(c):
    r = c.rng
    v = image_vecs(r, "bc4", gens.sys_ramp(r))
    x = gens.sys_ramp(r)
    y = x[:]
    r.shuffle(y)
    k = c.scale(20000, 65536)
    v += image_vecs(r, "bc5", [p + q for p, q in list(zip(y, x))[::65536 // k]])
    return v


def atc_extra(c):
    r = c.rng
    return (image_vecs(r, "atc_rgb4", gens.sys_atc(r)) + image_vecs(r, "atc_rgba8", gens.sys_atc(r), gens.ramp) +
            image_vecs(r, "atc_rgba8", [x + gens.colour(r) for x in gens.sys_ramp(r, c.scale(12000, 65536))]))


def etc_extra(c):
    r = c.rng
    v = []
    for _ in range(c.scale(1, 10)):
        v += image_vecs(r, "etc1", gens.sys_etc(r, True) + gens.sys_planar(r))
        v += image_vecs(r, "etc2_rgb", gens.sys_etc(r, True) + gens.sys_etc2_th(r, 1) + gens.sys_planar(r))
    return v


small("P05", ["bc1", "bc1a", "bc2", "bc3"], 12000, 400000, bc1_extra,
      kinds=["bc"])
small("P06", ["bc4", "bc5"], 15000, 600000, bc4_extra,
      kinds=["ramp", "bc"])
small("P09", ["atc_rgb4", "atc_rgba8"], 30000, 600000, atc_extra,
      kinds=["atc"])
small("P10", ["etc1", "etc2_rgb"], 40000, 600000, etc_extra,
      kinds=["etc", "T", "H", "planar"])


def a8_extra(c):
    r = c.rng
    v = [Vec("block:etc2_a8", gens.eac(r), n=16 + r.randrange(3), fill=fill(r)) for _ in range(c.scale(2000, 40000))]
    v += image_vecs(r, "etc2_rgba8", [x + gens.etc(r) for x in gens.sys_eac(r, c.scale(30000, 65536))])
    for _ in range(c.scale(1, 10)):
        v += image_vecs(r, "etc2_rgba1", gens.sys_etc(r, True) + gens.sys_etc2_th(r) + gens.sys_etc2_th(r) +
                        gens.sys_planar(r))
    return v


def eac_extra(c):
    r = c.rng
    out = []
    for _ in range(c.scale(2000, 40000)):
        ch = r.randrange(4)
        fl = fill(r) & ~(0xFF << 8 * ch)
        out.append(Vec(r.choice(["block:eac", "block:eac_signed"]), gens.eac(r), a=ch, n=16 + r.randrange(3), fill=fl))
    for f in ("eacr", "eacr_signed"):
        out += image_vecs(r, f, gens.sys_eac(r))
    for f in ("eacrg", "eacrg_signed"):
        out += image_vecs(r, f, [gens.eac(r) + x for x in gens.sys_eac(r, c.scale(10000, 65536))])
    return out


small("P11", ["etc2_rgba1", "etc2_rgba8"], 20000, 600000, a8_extra,
      kinds=["etc", "T", "H", "planar", "eac"])
small("P12", ["eacr", "eacr_signed", "eacrg", "eacrg_signed"], 12000, 400000, eac_extra,
      kinds=["eac"])


@check("P08")
def p08(c):
    r = c.rng
    v = []
    # every mode with every partition (or rotation/index selection in the random rest)
    for rep in range(c.scale(2, 20)):
        for mode in range(9):
            parts = range(1 << gens.BC7_PART[mode]) if mode in gens.BC7_PART else range(24)
            bl = [gens.bc7(r, mode, p) for p in parts for _ in range(3)]
            for k in range(0, len(bl), 8):
                ch = bl[k:k + 8]
                v.append(Vec("bc7", b"".join(ch), 4 * len(ch), 4, fill=fill(r)))
    c.conform(written(c, "MCBPTC", ["bc7", "tables"]), "written")
    v += sample_vecs(c, ["bc7"], c.scale(1500, 30000))
    v += block_vectors(c, ["bc7"], c.scale(30000, 400000))
    c.cov["blocks"] = sum(max(1, len(x.d) // 16) for x in v)
    for k in range(0, len(v), 20000):
        if not c.conform(v[k:k + 20000]):
            break
    return c.finish()


def bc6_base_sweep(c):
    """The 16-bit end point of mode 15 over its range: every half float the unsigned and signed formats can deliver."""
    r = c.rng
    step = c.scale(8, 1)
    out = []
    for f in ("bc6_signed", "bc6_unsigned"):
        vals = list(range(r.randrange(step), 65536, step)) + [0, 1, 0x7FFF, 0x8000, 0x8001, 0xFFFF]
        r.shuffle(vals)
        bl = []
        for k in range(0, len(vals) - 2, 3):
            x = 15 | r.getrandbits(63) << 65
            for ch, val in enumerate(vals[k:k + 3]):
                x |= (val & 1023) << (5 + 10 * ch)
                for bit in range(10, 16):
                    x |= (val >> bit & 1) << (44 + 10 * ch - (bit - 10))
            for lo in (35, 45, 55):
                x |= r.choice([0, 0, 1, 15, 8, 7, r.randrange(16)]) << lo
            bl.append(x.to_bytes(16, "little"))
        out += image_vecs(r, f, bl)
    return out


@check("P07")
def p07(c):
    r = c.rng
    v = []
    for rep in range(c.scale(1, 10)):
        for f in ("bc6_signed", "bc6_unsigned"):
            for mode in gens.BC6_MODES + gens.BC6_RESERVED:
                bl = [gens.bc6(r, mode, p) for p in range(32) for _ in range(2)]
                for k in range(0, len(bl), 8):
                    v.append(Vec(f, b"".join(bl[k:k + 8]), 16, 8, fill=fill(r)))
    v += block_vectors(c, ["bc6_signed", "bc6_unsigned"], c.scale(25000, 300000))
    c.model("MCBlocks", consts={"Kinds": '{"half"}'})
    c.conform(written(c, "MCBPTC", ["bc6", "tables"]), "written")
    v += bc6_base_sweep(c) + sample_vecs(c, ["bc6_unsigned"], c.scale(1500, 30000))
    for x in r.sample(v, len(v) // 10):
        # the generic entry points
        if x.f == "bc6_signed":
            v.append(Vec("bc6", x.d, x.w, x.h, a=1, n=x.n, fill=x.fill))
        elif x.f == "bc6_unsigned":
            v.append(Vec("bc6", x.d, x.w, x.h, a=0, n=x.n, fill=x.fill))
        else:
            v.append(Vec("block:bc6", x.d, a=int(x.f.endswith("_signed")), n=x.n, fill=x.fill))
    c.cov["blocks"] = sum(max(1, len(x.d) // 16) for x in v)
    for k in range(0, len(v), 20000):
        if not c.conform(v[k:k + 20000]):
            break
    return c.finish()


# --- ASTC and PVRTC -----------------------------------------------------------

def astc_images(r, bw, bh, blocks, per=6):
    """Blocks as images of a few blocks, sometimes with partial blocks at the edges."""
    out = []
    name = f"astc_{bw}_{bh}"
    k = 0
    while k < len(blocks):
        n = r.randrange(1, per + 1)
        ch = blocks[k:k + n]
        k += n
        n = len(ch)
        w, h = n * bw, bh
        if r.randrange(4) == 0:
            w -= r.randrange(bw)
            h -= r.randrange(bh)
        if r.randrange(8) == 0:
            out.append(Vec("astc", b"".join(ch), w, h, a=bw, b=bh, n=w * h, fill=fill(r)))
        elif n == 1 and r.randrange(4) == 0:
            out.append(Vec("block:astc", ch[0], a=bw, b=bh, n=bw * bh + r.randrange(3), fill=fill(r)))
        else:
            out.append(Vec(name, b"".join(ch), w, h, n=w * h, fill=fill(r)))
    return out


LDR = [0, 1, 4, 5, 6, 8, 9, 10, 12, 13]
HDR = [2, 3, 7, 11, 14, 15]


def astc_run(c, v, size=1500):
    r = c.rng
    r.shuffle(v)
    c.cov["blocks"] = sum(max(1, len(x.d) // 16) for x in v)
    c.cov["texels"] = sum(x.n for x in v)
    # batches of bounded size keep TLC's memory and the trace files small
    batch, area = [], 0
    for x in v:
        batch.append(x)
        area += x.n
        if area > size * 1000:
            if not c.conform(batch):
                return
            batch, area = [], 0
    if batch:
        c.conform(batch)


@check("P13")
def p13(c):
    r = c.rng
    c.conform(written(c, "MCASTC", ["mode", "seq", "wseq", "part", "packs", "decimate", "block"]), "written")
    v = []
    for bw, bh in gens.ASTC:
        bl = []
        # every shape of weight grid, plane count and weight range, in one of its encodings
        shapes = gens.astc_modes(bw, bh)
        if not c.thorough and bw * bh > 16:
            shapes = r.sample(shapes, min(len(shapes), max(12, len(shapes) * 30 // (bw * bh))))
        for ms in shapes:
            for m in (ms if c.thorough else [r.choice(ms)]):
                x = gens.astc_block(r, bw, bh, mode=m, cem=r.choice(LDR)) or gens.astc_block(r, bw, bh, mode=m, pn=1)
                if x:
                    bl.append(x)
        for _ in range(c.scale(max(150, 12000 // (bw * bh)), 60000 // (bw * bh) + 2500)):
            x = gens.astc_block(r, bw, bh, cem=r.choice(LDR))
            if x:
                bl.append(x)
        v += astc_images(r, bw, bh, bl)
    v += sample_vecs(c, [f"astc_{a}_{b}" for a, b in gens.ASTC], c.scale(60, 2000))
    # every end point mode with every end point range and partition count
    for rep in range(c.scale(4, 20)):
        for cem in LDR:
            for want in range(17):
                for pn in (1, 2, 3, 4):
                    x = gens.astc_block(r, 4, 4, pn=pn, cem=cem, want=want)
                    if x:
                        v += astc_images(r, 4, 4, [x])
    # every partition index (quick: of the two small tables; the large ones in part)
    for bw, bh in ((4, 4), (6, 5), (6, 6), (12, 12)):
        for pn in (2, 3, 4):
            step = c.scale(1 if bw == 4 else 6 if bw == 6 else 24, 1 if bw < 12 else 2)
            bl = []
            for s in range(r.randrange(step), 1024, step):
                x = gens.astc_block(r, bw, bh, pn=pn)
                if x:
                    n = gens.setbits(int.from_bytes(x, "little"), 22, 13, s)
                    bl.append(n.to_bytes(16, "little"))
            v += astc_images(r, bw, bh, bl)
    astc_run(c, v)
    return c.finish()


@check("P14")
def p14(c):
    r = c.rng
    c.model("MCBlocks", consts={"Kinds": '{"half"}'})
    c.conform(written(c, "MCASTC", ["ends", "block"]), "written")
    v = []
    for bw, bh in gens.ASTC:
        k = c.scale(max(24, 1800 // (bw * bh)), 40000 // (bw * bh))
        bl = [gens.astc_void(r) for _ in range(k)]
        bl += [gens.astc_illegal(r, bw, bh) for _ in range(3 * k)]
        bl += [x for x in (gens.astc_block(r, bw, bh, cem=r.choice(HDR)) for _ in range(2 * k)) if x]
        bl += [gens.rb(r, 16) for _ in range(k)]
        r.shuffle(bl)
        v += astc_images(r, bw, bh, bl)
    for rep in range(c.scale(8, 60)):
        for cem in HDR:
            for want in range(17):
                for pn in (1, 2, 3, 4):
                    x = gens.astc_block(r, 4, 4, pn=pn, cem=cem, want=want)
                    if x:
                        v += astc_images(r, 4, 4, [x])
    for _ in range(c.scale(1500, 40000)):
        v += astc_images(r, 4, 4, [gens.astc_block(r, 4, 4, pn=1, cem=r.choice(HDR), want=r.choice([0, 0, None]))
                                   or gens.astc_void(r)])
    for x in range(r.randrange(c.scale(16, 1)), 65536, c.scale(16, 1)):
        # every half float (quick: a sixteenth of them) as a void-extent component
        comps = [x, r.getrandbits(16), r.getrandbits(16), r.getrandbits(16)]
        r.shuffle(comps)
        v.append(Vec("block:astc", bytes([0xFC, 0xFF]) + gens.rb(r, 6) + b"".join(q.to_bytes(2, "little") for q in comps),
                     a=4, b=4, n=16, fill=fill(r)))
    astc_run(c, v)
    return c.finish()


def pvrtc_calls(c, images, singles):
    r = c.rng
    v = []
    sides = [1, 1, 2, 2, 4, 4, 8] if not c.thorough else [1, 2, 4, 8, 16, 32]
    for rep in range(images):
        two = r.randrange(2)
        bw = 8 if two else 4
        nx, ny = r.choice(sides), r.choice(sides)
        if nx * ny > c.scale(32, 64) and r.randrange(10):
            continue
        w, h = nx * bw, ny * 4
        if r.randrange(4) == 0:
            w, h = w - r.randrange(bw), h - r.randrange(4)
        d = b"".join(gens.pvrtc(r, two) for _ in range(nx * ny))
        if r.randrange(10) == 0:
            d += gens.rb(r, r.randrange(1, 30))
        name = ["pvrtc_4bpp", "pvrtc_2bpp"][two]
        v.append(Vec(name if r.randrange(8) else "pvrtc", d, w, h, a=two, n=w * h + (r.randrange(5) if r.randrange(6) == 0 else 0),
                     fill=fill(r)))
    # every pair of neighbouring weights and colours in one-block images (all neighbours are the block itself)
    for _ in range(singles):
        two = r.randrange(2)
        v.append(Vec(["pvrtc_4bpp", "pvrtc_2bpp"][two], gens.pvrtc(r, two), 8 if two else 4, 4, fill=fill(r)))
    return v


def pvrtc_long(c, count):
    """Grids with more than eight blocks a side, where the order of the blocks has more bits."""
    r = c.rng
    v = []
    grids = [(16, 16), (32, 8), (8, 32), (64, 2), (4, 64), (256, 1), (2, 256), (1, 512), (32, 32), (1024, 1), (16, 32), (64, 16)]
    for i, (nx, ny) in enumerate(r.sample(grids, min(len(grids), count)) if not c.thorough else grids + [(64, 64), (2048, 2), (1, 4096)]):
        two = r.randrange(2)
        bw = 8 if two else 4
        w, h = nx * bw, ny * 4
        if r.randrange(4) == 0:
            w, h = w - r.randrange(bw), h - r.randrange(4)
        v.append(Vec(["pvrtc_4bpp", "pvrtc_2bpp"][two], b"".join(gens.pvrtc(r, two) for _ in range(nx * ny)), w, h, a=two,
                     n=w * h, fill=fill(r)))
    return v


@check("P15")
def p15(c):
    c.conform(written(c, "MCPVRTC", ["grid", "shares", "move", "flat"]), "written")
    v = pvrtc_calls(c, c.scale(2500, 30000), c.scale(1500, 30000))
    v += sample_vecs(c, list(PVR), c.scale(800, 8000))
    astc_run(c, v, 2000)
    c.conform(pvrtc_long(c, 8), name="long")
    c.cov["blocks"] = sum(max(1, len(x.d) // 8) for x in v)
    return c.finish()


# --- images, histories, equivalences, totality ----------------------------------

GEO = {f: (4, 4, gens.nbytes(f)) for f in gens.SMALL}
GEO.update({f"astc_{a}_{b}": (a, b, 16) for a, b in gens.ASTC})
PVR = {"pvrtc_2bpp": (8, 4, 8), "pvrtc_4bpp": (4, 4, 8)}


def up(x, y):
    return -(-x // y)


def any_block(r, f, g=None):
    if f in gens.SMALL:
        return gens.block(r, f)
    if f.startswith("pvrtc"):
        return gens.pvrtc(r, f == "pvrtc_2bpp")
    bw, bh = g or GEO[f][:2]
    k = r.randrange(8)
    if k == 0:
        return gens.astc_void(r)
    if k == 1:
        return gens.rb(r, 16)
    return gens.astc_block(r, bw, bh) or gens.rb(r, 16)


def blocks(r, f, n):
    """n blocks; sometimes many of them equal to or nearly like an earlier one, as a cache would like them."""
    if r.randrange(3) or n < 2:
        return b"".join(any_block(r, f) for _ in range(n))
    out = [any_block(r, f)]
    back = r.choice([1, 1, 2, 16])
    while len(out) < n:
        b = bytearray(out[max(0, len(out) - back)])
        k, h = r.randrange(8), len(b) // 2
        if k == 0:
            b = any_block(r, f)
        elif k == 1:
            b[h:] = any_block(r, f)[h:]
        elif k == 2:
            b[:h] = any_block(r, f)[:h]
        elif k == 3:
            b[r.randrange(len(b))] ^= 1 << r.randrange(8)
        elif k == 4:
            b[r.randrange(len(b))] = r.getrandbits(8)
        elif k == 5:
            b[-1 - r.randrange(4)] ^= 1 << r.randrange(8)
        out.append(bytes(b))
    return b"".join(out)


def image_call(r, f, w, h, extra_d=0, extra_n=0):
    """A call with exactly enough data and image, plus the given surplus."""
    name, a, b = f, 0, 0
    bw, bh, nb = GEO.get(f) or PVR[f]
    d = blocks(r, f, up(w, bw) * up(h, bh)) + gens.rb(r, extra_d)
    if f.startswith("astc") and r.randrange(6) == 0:
        name, a, b = "astc", bw, bh
    elif f.startswith("bc6") and r.randrange(4) == 0:
        name, a = "bc6", int(f == "bc6_signed")
    elif f.startswith("pvrtc") and r.randrange(4) == 0:
        name, a = "pvrtc", int(f == "pvrtc_2bpp")
    return Vec(name, d, w, h, a=a, b=b, n=w * h + extra_n, fill=fill(r))


@check("P01")
def p01(c):
    r = c.rng
    c.model("MCImage", cfg=None if not c.thorough else "MCImageDeep")
    v = []
    for f in GEO:
        bw, bh, nb = GEO[f]
        cheap = f in gens.SMALL and not f.startswith("bc6") and f != "bc7"
        sizes = [(w, h) for w in range(0, 2 * bw + 2) for h in range(0, 2 * bh + 2)]
        if not c.thorough:
            # all combinations of residues for the cheap formats, a sample for the others
            if not cheap:
                sizes = r.sample(sizes, 40 if bw * bh < 50 else 16)
        for w, h in sizes:
            v.append(image_call(r, f, w, h))
        for _ in range(c.scale(6 if cheap else 2, 60)):
            # longer rows and columns of blocks, oblong both ways
            n = c.scale(900, 4000)
            w = r.choice([r.randrange(1, 120), r.randrange(1, 40)])
            h = r.randrange(1, max(2, n // w))
            if r.randrange(2):
                w, h = h, w
            v.append(image_call(r, f, w, h, extra_d=r.choice([0, 0, 1, nb]), extra_n=r.choice([0, 0, 1, w])))
    if c.thorough:
        for f in ("bc1", "etc1", "bc3", "astc_4_4", "astc_12_12", "eacr"):
            for w, h in ((257, 33), (33, 257), (256, 64), (1023, 5), (5, 1023)):
                v.append(image_call(r, f, w, h))
    r.shuffle(v)
    c.cov["formats"] = len(GEO)
    c.cov["sizes"] = len({(x.w, x.h) for x in v})
    for k in range(0, len(v), 3000):
        if not c.conform(v[k:k + 3000], module="TraceImage"):
            break
    c.conform(long_images(c), name="long")
    return c.finish()


def long_images(c):
    """Sides and block counts beyond 8, 10, 12 and 16 bits."""
    r = c.rng
    out = []

    def add(f, w, h):
        if r.randrange(2):
            w, h = h, w
        out.append(image_call(r, f, w, h, extra_n=r.choice([0, 0, 1, w])))
    for f in GEO:
        bw, bh, nb = GEO[f]
        for _ in range(c.scale(1, 6)):
            side = r.choice([256, 257, r.randrange(258, 520), r.randrange(1020, 1030), r.randrange(255, 258) * bw])
            add(f, side, r.choice([1, 2, bh - 1, bh]) if side > 600 else r.randrange(1, bh + 2))
    cheap = [f for f in GEO if f in gens.SMALL and not f.startswith("bc6") and f not in ("bc7", "bc3", "etc2_rgba8")]
    for f in r.sample(cheap, c.scale(1, len(cheap))):
        add(f, r.choice([65535, 65536, 65537, 65541, 4 * 16384 + 3]), 1)
        add(f, r.randrange(4090, 4110), r.choice([1, 5]))
    f = r.choice(cheap)
    add(f, 1028, c.scale(40, 260))
    if c.thorough:
        for f in ("astc_4_4", "astc_12_12", "bc7", "bc6_unsigned"):
            add(f, 65537 if f == "astc_12_12" else 16385, 1)
    return out


MAX = (1 << 64) - 1
# sizes whose products do not fit 64 bits
HUGE = ((1 << 33, 1 << 33), (1 << 32, 1 << 32), (1 << 62, 4), (1 << 63, 2), ((1 << 63) + 8, 2), ((1 << 62) + 4, 4), (2, 1 << 63),
        (4, (1 << 62) + 1), (MAX, 1), (1, MAX), (MAX, MAX), (1 << 60, 8), (1 << 60, 16), (1 << 31, 1 << 33))


def pvrtc_shapes(c):
    """Block counts that are and are not powers of two, with data and images around what is needed."""
    r = c.rng
    pv = []
    for f in PVR:
        bw, bh, nb = PVR[f]
        for nx in range(0, 9):
            for ny in range(0, 9):
                if nx * ny > 16 and not c.thorough and r.randrange(3):
                    continue
                w, h = max(0, nx * bw - r.choice([0, r.randrange(bw)])), max(0, ny * bh - r.choice([0, r.randrange(bh)]))
                need, pix = up(w, bw) * up(h, bh) * 8, w * h
                base = image_call(r, f, w, h, extra_d=9)
                for nd in {need, need - 1, need + 1, need // 2, need * 4 // 8, 0}:
                    for n in {pix, pix - 1, pix + 1, 0}:
                        if 0 <= nd <= len(base.d) and n >= 0 and (nd in (need, need - 1) or r.randrange(3) == 0):
                            if nd >= need and n >= pix and pix > 150 and r.randrange(3):
                                continue
                            pv.append(Vec(base.f, base.d[:nd], w, h, a=base.a, n=n, fill=fill(r)))
        for w, h in ((65536, 65536), (1 << 30, 4), (1 << 30, 1 << 30), (98304, 98304), *HUGE):
            pv.append(Vec(f, gens.rb(r, 64), w, h, n=20, fill=fill(r)))
    return pv


@check("P02")
def p02(c):
    r = c.rng
    c.model("MCImage", cfg=None if not c.thorough else "MCImageDeep")
    v = []
    geo = dict(GEO)
    for f in geo:
        bw, bh, nb = geo[f]
        for _ in range(c.scale(9, 80)):
            w, h = r.choice([(r.randrange(0, 2 * bw + 2), r.randrange(0, 2 * bh + 2)), (r.randrange(0, 30), r.randrange(0, 30)),
                             (bw, bh), (0, r.randrange(20)), (r.randrange(20), 0), (1, 1), (bw + 1, bh), (bw, bh + 1)])
            if bw * bh > 64 and w * h > 300:
                continue
            need, pix = up(w, bw) * up(h, bh) * nb, w * h
            base = image_call(r, f, w, h, extra_d=nb + 3)
            for nd in {need, need - 1, need + 1, need - nb, need + nb, 0, need // 2, need - r.randrange(1, nb + 1)}:
                if nd < 0 or nd > len(base.d):
                    continue
                for n in {pix, pix - 1, pix + 1, 0, pix - w, pix + w, pix - r.randrange(1, 9)}:
                    if n >= 0 and (nd in (need, need - 1) or n in (pix, pix - 1) or r.randrange(4) == 0):
                        if nd >= need and n >= pix and r.randrange(3) and bw * bh > 36:
                            continue
                        v.append(Vec(base.f, base.d[:nd], w, h, a=base.a, b=base.b, n=n, fill=fill(r)))
        # sizes whose products do not fit 32 bits
        for w, h in ((65536, 65536), (65536, 262144), (1 << 20, 1 << 12), (1 << 30, 4), (4, 1 << 30), (1 << 30, 1 << 30),
                     (1 << 17, 1 << 17), (46341, 46341), *HUGE):
            for nd, n in ((0, 0), (nb, 16), (3 * nb + 1, 50)):
                v.append(Vec(f, gens.rb(r, nd), w, h, n=n, fill=fill(r)))
    # ASTC block sizes about the limit of 144 texels
    for bw, bh in ((12, 12), (12, 13), (13, 12), (16, 9), (9, 16), (145, 2), (2, 73), (72, 2), (3, 49), (3, 48), (18, 8), (24, 24),
                   (11, 13), (37, 4), (36, 4), (4, 36), (2, 2), (3, 3), (7, 5), (65536, 65536 // 2), (1 << 15, 1 << 15),
                   (1 << 63, 2), (2, 1 << 63), (1 << 33, 1 << 33), (MAX, MAX), (MAX, 3), ((1 << 63) + 8, 2)):
        for w, h in ((bw, bh), (1, 1), (min(bw, 40) + 1, 3), (0, 0), (0, 5), (20, 20)):
            if w * h > 4000:
                w, h = 30, 30
            need, pix = up(w, bw) * up(h, bh) * 16, w * h
            for nd in (need, need - 1, need + 5):
                for n in (pix, pix - 1, pix + 2):
                    if nd >= 0 and n >= 0:
                        if max(bw, bh) > 1 << 20:
                            d = gens.rb(r, nd)
                        else:
                            d = b"".join(any_block(r, "astc", (min(bw, 12), min(bh, 12))) if bw > 3 and bh > 3 else gens.astc_void(r)
                                         for _ in range(up(need, 16) + 1))[:nd]
                        v.append(Vec("astc", d, w, h, a=bw, b=bh, n=n, fill=fill(r)))
    pv = pvrtc_shapes(c)
    r.shuffle(v)
    r.shuffle(pv)
    c.cov["calls_by_kind"] = {"block formats": len(v), "pvrtc": len(pv)}
    for k in range(0, len(v), 12000):
        if not c.conform(v[k:k + 12000], module="TraceImage"):
            break
    c.conform(pv, name="pvrtc")
    # a debug build has the time for neither 2^63 empty rows nor 2^61 blocks of none
    c.conform(empty(r, c.scale(3, 12)), name="empty", module="TraceImage", profile="plain", limit=5)
    return c.finish()


def empty(r, n):
    """Images without columns or rows, however long the other side."""
    v = []
    for f in list(GEO) + list(PVR):
        for long in (1 << 20, 1 << 31, 1 << 32, (1 << 40) + 5, 1 << 62, 1 << 63, MAX, r.getrandbits(64)):
            for k in range(n):
                w, h = (long, 0) if k % 3 == 2 else (0, long)
                v.append(Vec(f, gens.rb(r, r.choice([0, 0, 3, 16, 40])), w, h, n=r.choice([0, 0, 1, 20]), fill=fill(r)))
    for bw, bh in ((2, 2), (7, 3), (12, 12), (3, 48)):
        for long in (1 << 32, 1 << 62, MAX):
            v += [Vec("astc", gens.rb(r, 16 * k), 0, long, a=bw, b=bh, n=k, fill=fill(r)) for k in (0, 1)]
    r.shuffle(v)
    return v


def grouped(c, name, lines, group):
    """Write records, given as (index, line), so that those of one group stand together."""
    path = f"{c.work}/{name}-grouped.ndjson"
    with open(path, "w") as f:
        for i, line in sorted(lines, key=lambda x: (group[x[0]], x[0])):
            f.write(f'{{"g":{group[i]},' + line[1:])
    return path


def variants(r, v, crunch=False):
    """The same call as far as the outcome is concerned, made differently."""
    out = [Vec(v.f, v.d, v.w, v.h, v.a, v.b, v.n, v.fill)]
    partial = v.f in PARTIAL
    for k in range(2):
        d, n, fl = v.d, v.n, v.fill
        if not partial:
            fl = r.choice([0, 0xFFFFFFFF, 0xDEADBEEF, r.getrandbits(32)])
        if not crunch and enough(v) and r.randrange(2):
            d = d + gens.rb(r, r.choice([1, 7, 8, 16, 33]))
        if n >= v.w * v.h and r.randrange(2):
            n += r.choice([1, 3, 16])
        out.append(Vec(v.f, d, v.w, v.h, v.a, v.b, n, fl))
    return out


PARTIAL = {"block:bc4", "block:bc5", "block:etc2_a8", "block:eac", "block:eac_signed"}


def geo_of(v):
    """block width, height and bytes an image call decodes, None for block functions"""
    f = v.f
    if f == "bc6":
        f = "bc6_signed"
    if f == "pvrtc":
        f = ["pvrtc_4bpp", "pvrtc_2bpp"][v.a != 0]
    if f == "astc":
        return v.a, v.b, 16
    return GEO.get(f) or PVR.get(f)


def enough(v):
    g = geo_of(v)
    return g is None or len(v.d) >= up(v.w, g[0]) * up(v.h, g[1]) * g[2]


def neighbours(r, v):
    """Calls that share as much as possible with v and still mean something else."""
    out = []
    d = bytearray(v.d)
    if d:
        for _ in range(2):
            e = bytearray(d)
            e[r.randrange(len(e))] ^= 1 << r.randrange(8)
            out.append(Vec(v.f, bytes(e), v.w, v.h, v.a, v.b, v.n, v.fill))
        e = bytearray(d)
        e[-1] ^= 1 << r.randrange(8)
        out.append(Vec(v.f, bytes(e), v.w, v.h, v.a, v.b, v.n, v.fill))
    if geo_of(v) is None:
        return out
    nb = geo_of(v)[2]
    if len(d) >= 2 * nb:
        out.append(Vec(v.f, bytes(d[nb:] + d[:nb]), v.w, v.h, v.a, v.b, v.n, v.fill))
        out.append(Vec(v.f, bytes(d[:nb] + d[:len(d) - nb]), v.w, v.h, v.a, v.b, v.n, v.fill))
    if v.w > 1:
        out.append(Vec(v.f, v.d, v.w - 1, v.h, v.a, v.b, v.n, v.fill))
    if v.w != v.h:
        out.append(Vec(v.f, v.d, v.h, v.w, v.a, v.b, v.n, v.fill))
    out.append(Vec(v.f, v.d[:-1], v.w, v.h, v.a, v.b, v.n, v.fill))
    out.append(Vec(v.f, v.d, v.w, v.h, v.a, v.b, max(0, v.w * v.h - 1), v.fill))
    same = [f for f in gens.SMALL if gens.nbytes(f) == nb] if geo_of(v)[:2] == (4, 4) else []
    for f in r.sample(same, min(3, len(same))):
        out.append(Vec(f, v.d, v.w, v.h, 0, 0, v.n, v.fill))
    if v.f.startswith("astc_"):
        f = f"astc_{geo_of(v)[0]}_{geo_of(v)[1]}"
        g = r.choice(list(x for x in GEO if x.startswith("astc") and x != f))
        out.append(Vec(g, v.d, v.w, v.h, 0, 0, v.n, v.fill))
    if v.f in PVR:
        out.append(Vec("pvrtc_2bpp" if v.f == "pvrtc_4bpp" else "pvrtc_4bpp", v.d, v.w, v.h, v.a, v.b, v.n, v.fill))
    return out


def relatives(r, count):
    """Single blocks with the same bytes under all functions that share code for them, one right after the other:
    what one leaves behind must not serve the next."""
    def img(f, d):
        bw, bh, nb = GEO.get(f) or PVR[f]
        return Vec(f, d, bw, bh, a=int(f == "pvrtc_2bpp") if f in PVR else 0, n=bw * bh, fill=fill(r))

    def blk(f, d, a=0):
        return Vec("block:" + f, d, a=a, n=16, fill=fill(r) & ~(0xFF << 8 * a))
    rnd = lambda: gens.rb(r, 8)
    out = []
    for _ in range(count):
        x, y, z, e = gens.colour(r), gens.ramp(r), gens.etc(r), gens.eac(r)
        q = r.choice([gens.bc6(r), gens.bc7(r)])
        g = [[img("bc1", x), img("bc1a", x), img("bc2", rnd() + x), img("bc3", gens.ramp(r) + x), img("atc_rgb4", x), img("atc_rgba8", rnd() + x)],
             [img("bc4", y), img("bc5", y + gens.ramp(r)), img("bc5", gens.ramp(r) + y), img("bc3", y + gens.colour(r)), img("atc_rgba8", y + gens.colour(r))],
             [img("etc1", z), img("etc2_rgb", z), img("etc2_rgba1", z), img("etc2_rgba8", gens.eac(r) + z)],
             [img("eacr", e), img("eacr_signed", e), img("eacrg", e + gens.eac(r)), img("eacrg_signed", gens.eac(r) + e), img("etc2_rgba8", e + gens.etc(r)),
              blk("eac", e, r.randrange(4)), blk("eac_signed", e, r.randrange(4)), blk("etc2_a8", e)],
             [img("bc6_signed", q), img("bc6_unsigned", q), img("bc7", q)]]
        w = gens.pvrtc(r, r.randrange(2))
        g.append([img("pvrtc_4bpp", w), img("pvrtc_2bpp", w)])
        bw, bh = r.choice(gens.ASTC)
        b = any_block(r, "astc", (bw, bh))
        sizes = [(bw, bh)] + r.sample(gens.ASTC, 3)
        g.append([img(f"astc_{i}_{j}", b) for i, j in sizes] + [Vec("block:astc", b, a=j, b=i, n=i * j, fill=fill(r)) for i, j in sizes[:2]])
        for f in g:
            f += [Vec("block:" + v.f, v.d, n=16, fill=fill(r) & ~0xFFFFFF) for v in f if v.f in gens.SMALL and r.randrange(3) == 0]
            r.shuffle(f)
            out += f
    return out


@check("P03")
def p03(c):
    r = c.rng
    base = relatives(r, c.scale(16, 200))
    for f in list(GEO) + list(PVR):
        bw, bh, nb = GEO.get(f) or PVR[f]
        for _ in range(c.scale(7, 40)):
            nx, ny = r.choice([1, 2, 4]), r.choice([1, 1, 2])
            w, h = nx * bw - r.choice([0, 0, 1]), ny * bh - r.choice([0, 0, 1])
            v = image_call(r, f, w, h)
            base.append(v)
            ns = neighbours(r, v)
            base += r.sample(ns, min(len(ns), c.scale(5, 8)))
        big = image_call(r, f, 12 * bw if f in GEO else 8 * bw, 4 * bh)
        base.append(big)
    for f in gens.SMALL + ["etc2_a8", "eac", "eac_signed"]:
        for _ in range(c.scale(2, 20)):
            v = Vec("block:" + f, gens.block(r, f) if f in gens.SMALL else gens.rb(r, 8),
                    a=r.randrange(4) if f.startswith("eac") and len(f) != 5 else 0, n=16 + r.randrange(3), fill=fill(r))
            if f not in ("eac", "eac_signed"):
                v.a = 0
            base.append(v)
            ns = neighbours(r, v)
            base += r.sample(ns, min(len(ns), 2))
    for bw, bh in gens.ASTC:
        v = Vec("block:astc", any_block(r, "astc", (bw, bh)), a=bw, b=bh, n=bw * bh, fill=fill(r))
        base += [v] + neighbours(r, v)
    # Crunch files, good and damaged; calls that differ in one bit of the file or in the decoder
    for _ in range(c.scale(30, 300)):
        unity = r.randrange(2) == 1
        x = crn_file(r, unity, small=True)
        d = x.bytes()
        v = crn_call(r, unity, x, d)
        base.append(v)
        for _ in range(2):
            e = damage(r, x, d)
            base.append(crn_call(r, unity, x, e))
            base.append(Vec("info", e, 0, 0, b=len(e), n=2, fill=fill(r)))
        y = r.choice([d, damage(r, x, d)])
        base.append(Vec("crunch" if unity else "unity_crunch", y, v.w, v.h, 0, 0, v.n, v.fill))
        base.append(Vec("info", d, 0, 0, b=len(d), n=2, fill=fill(r)))
    base += crn_samples(False, 20, r)[:2] + crn_samples(True, 20, r)[:3]
    vecs, group = [], []
    for g, v in enumerate(base):
        for x in variants(r, v, v.f in ("crunch", "unity_crunch", "info")):
            vecs.append(x)
            group.append(g)
    lines = set()
    b = c.bin()
    # one thread, in two orders; two thread counts; many threads on the same calls, again and again; single calls in processes of their own
    for name, order, threads in (("forward", range(len(vecs)), 1), ("backward", range(len(vecs) - 1, -1, -1), 1),
                                 ("spread", r.sample(range(len(vecs)), len(vecs)), 8)):
        o = list(order)
        path = vt.record(b, [vecs[i] for i in o], c.work, name, threads=threads)
        for k, line in vt.read_lines(path):
            lines.add((o[k], re.sub(r'^\{"i":\d+', f'{{"i":{o[k]}', line)))
    made = len(vecs) * 3
    for k in range(c.scale(3, 6)):
        rounds = c.scale(6, 40)
        lines |= set(vt.stress(b, vecs, c.work, "stress", threads=[8, 3, 16][k % 3], rounds=rounds))
        made += len(vecs) * rounds * [8, 3, 16][k % 3]
    # tight races: a handful of calls on many threads
    for k in range(c.scale(24, 200)):
        s = r.sample(range(len(base)), 3)
        idx = [3 * g + q for g in s for q in range(3)]
        rounds = c.scale(60, 300)
        for q, line in vt.stress(b, [vecs[i] for i in idx], c.work, "race", threads=8, rounds=rounds):
            lines.add((idx[q], re.sub(r'^\{"i":\d+', f'{{"i":{idx[q]}', line)))
        made += 9 * rounds * 8
    for i in r.sample(range(len(vecs)), c.scale(60, 400)):
        path = vt.record(b, [vecs[i]], c.work, "alone", threads=1)
        for k, line in vt.read_lines(path):
            lines.add((i, re.sub(r'^\{"i":\d+', f'{{"i":{i}', line)))
        made += 1
    c.cov["calls_made"] = made
    c.cov["distinct_argument_keys"] = len(base)
    c.judge(grouped(c, "history", lines, group), "history", "TraceHistory")
    return c.finish()


@check("P04")
def p04(c):
    r = c.rng
    vecs, group = [], []
    g = 0

    def add(v):
        vecs.append(v)
        group.append(g)

    def img(f, d, bw=4, bh=4, a=0, b=0):
        add(Vec(f, d, bw, bh, a=a, b=b, n=bw * bh + r.choice([0, 0, 5]), fill=fill(r)))

    def blk(f, d, a=0, b=0, bw=4, bh=4, fl=0xFF000000):
        add(Vec("block:" + f, d, a=a, b=b, n=bw * bh, fill=fl))

    def both(f, d):
        img(f, d)
        if f != "etc2_a8":
            blk(f, d)

    for _ in range(c.scale(900, 12000)):
        # S3TC: a colour half and a ramp, in every format that has room for them
        col, rmp, exp = gens.block(r, "bc1"), gens.ramp(r), gens.rb(r, 8)
        both("bc1", col), both("bc1a", col), both("bc2", exp + col), both("bc3", rmp + col)
        both("bc4", rmp), both("bc5", rmp + exp), both("bc5", exp + rmp), both("bc4", exp)
        g += 1
    for _ in range(c.scale(600, 8000)):
        col, rmp = gens.block(r, "atc_rgb4"), gens.ramp(r)
        both("atc_rgb4", col), both("atc_rgba8", rmp + col), both("bc4", rmp)
        g += 1
    for _ in range(c.scale(600, 8000)):
        x, y = gens.block(r, "eacr"), gens.block(r, "eacr")
        for s in ("", "_signed"):
            both("eacr" + s, x), both("eacr" + s, y), both("eacrg" + s, x + y), both("eacrg" + s, y + x)
            for ch in range(4):
                blk("eac" + s, x, a=ch, fl=r.getrandbits(32) & ~(255 << 8 * ch))
        g += 1
    for _ in range(c.scale(900, 12000)):
        col, al = gens.block(r, r.choice(["etc1", "etc2_rgb", "etc2_rgba1"])), gens.block(r, "eacr")
        both("etc1", col), both("etc2_rgb", col), both("etc2_rgba1", col), both("etc2_rgba8", al + col)
        blk("etc2_a8", al, fl=r.getrandbits(32))
        g += 1
    for _ in range(c.scale(900, 12000)):
        d = gens.bc6(r, r.choice(gens.BC6_MODES + gens.BC6_RESERVED), r.randrange(32)) if r.randrange(4) else gens.rb(r, 16)
        for a, s in ((0, "_unsigned"), (1, "_signed")):
            both("bc6" + s, d), img("bc6", d, a=a), blk("bc6", d, a=a)
        g += 1
    for _ in range(c.scale(600, 8000)):
        both("bc7", gens.block(r, "bc7"))
        g += 1
    for bw, bh in gens.ASTC:
        for _ in range(c.scale(max(20, 1500 // (bw * bh)), 6000 // bw)):
            d = any_block(r, "astc", (bw, bh))
            img(f"astc_{bw}_{bh}", d, bw, bh), img("astc", d, bw, bh, a=bw, b=bh), blk("astc", d, a=bw, b=bh, bw=bw, bh=bh)
            g += 1
    for two in (0, 1):
        for _ in range(c.scale(300, 4000)):
            w, h = r.choice([1, 2, 4]) * (8 if two else 4), r.choice([1, 2]) * 4
            d = b"".join(gens.pvrtc(r, two) for _ in range(w * h // (32 if two else 16)))
            f = ["pvrtc_4bpp", "pvrtc_2bpp"][two]
            img(f, d, w, h, a=two), img("pvrtc", d, w, h, a=two)
            g += 1
    c.cov["groups"] = g
    for k in range(0, g, 4000):
        lo = [i for i in range(len(vecs)) if k <= group[i] < k + 4000]
        path = vt.record(c.bin(), [vecs[i] for i in lo], c.work, "facts")
        lines = [(lo[q], line) for q, line in vt.read_lines(path)]
        if not c.judge(grouped(c, "facts", lines, group), "facts", "TraceFacts"):
            break
    return c.finish()


def wild(r, n):
    """bytes of no particular meaning, or of a suspicious one"""
    k = r.randrange(10)
    if k == 0:
        return bytes([r.choice([0, 0xFF, 0x80, 0x7F, 0x01, 0x55, 0xAA])] * n)
    if k == 1:
        return (1 << r.randrange(8 * n)).to_bytes(n, "little")
    if k == 2:
        return ((1 << 8 * n) - 1 ^ (1 << r.randrange(8 * n))).to_bytes(n, "little")
    if k == 3:
        x = r.getrandbits(8 * n) & r.getrandbits(8 * n) & r.getrandbits(8 * n)
        return x.to_bytes(n, "little")
    if k == 4:
        x = r.getrandbits(8 * n) | r.getrandbits(8 * n) | r.getrandbits(8 * n)
        return x.to_bytes(n, "little")
    if k == 5:
        # runs of ones
        a, b = sorted((r.randrange(8 * n + 1), r.randrange(8 * n + 1)))
        return (((1 << b) - 1) ^ ((1 << a) - 1)).to_bytes(n, "little")
    if k == 6:
        return bytes(r.choice([0, 0xFF, r.getrandbits(8)]) for _ in range(n))
    return gens.rb(r, n)


@check("P19")
def p19(c):
    r = c.rng
    vecs = []
    for f in list(GEO) + list(PVR):
        bw, bh, nb = GEO.get(f) or PVR[f]
        astc = f.startswith("astc")
        blocks = c.scale(1400 if astc and bw * bh < 50 else 500 if astc else 2500 if f in PVR else 3000,
                         30000 if astc else 60000)
        while blocks > 0:
            if f in PVR:
                nx, ny = r.choice([1, 2, 4, 8]), r.choice([1, 2, 4])
            else:
                nx, ny = r.choice([1, 2, 5, 13]), r.choice([1, 1, 2])
            k = nx * ny
            d = b"".join(wild(r, nb) if r.randrange(3) else any_block(r, f) for _ in range(k))
            w, h = nx * bw, ny * bh
            if r.randrange(3) == 0:
                w, h = w - r.randrange(bw), h - r.randrange(bh)
            vecs.append(Vec(f, d, w, h, fill=fill(r)))
            if r.randrange(6) == 0 and f in GEO:
                d = wild(r, nb)
                vecs.append(Vec("block:astc", d, a=bw, b=bh, n=bw * bh, fill=fill(r)) if astc
                            else Vec("block:" + f, d, n=16, fill=fill(r)))
            blocks -= k
    # every ASTC block mode, with random and with extreme remainders
    for bw, bh in gens.ASTC:
        for m in range(r.randrange(c.scale(6, 1)), 2048, c.scale(6, 1)):
            d = (int.from_bytes(wild(r, 16), "little") >> 11 << 11 | m).to_bytes(16, "little")
            vecs.append(Vec("block:astc", d, a=bw, b=bh, n=bw * bh, fill=fill(r)))
    for bw in range(2, 73):
        # other ASTC block sizes of at most 144 texels
        for bh in {r.randrange(2, 144 // bw + 1), 144 // bw}:
            vecs.append(Vec("astc", wild(r, 16), bw, bh, a=bw, b=bh, fill=fill(r)))
    for f in ("eac", "eac_signed"):
        for _ in range(c.scale(200, 3000)):
            vecs.append(Vec("block:" + f, wild(r, 8), a=r.randrange(4), n=16, fill=fill(r)))
    for _ in range(c.scale(200, 3000)):
        vecs.append(Vec("block:etc2_a8", wild(r, 8), n=16, fill=fill(r)))
    r.shuffle(vecs)
    c.cov["calls"] = len(vecs)
    a, b, plain = c.bin("release"), c.bin("shipped"), c.bin("plain")
    # a debug build has another way through everything, and no time for 2^61 empty rows
    none = empty(r, c.scale(2, 9))
    r.shuffle(vecs)
    chunks = [(plain, none), (plain, vecs[:c.scale(2500, 30000)])] + [(a, vecs[k:k + 6000]) for k in range(0, len(vecs), 6000)]
    for one, ch in chunks:
        x = vt.read_lines(vt.record(one, ch, c.work, "checked", limit=5 if ch is none else 20))
        y = dict(vt.read_lines(vt.record(b, ch, c.work, "shipped")))
        path = f"{c.work}/pairs.ndjson"
        with open(path, "w") as f:
            for i, line in x:
                if i in y:
                    f.write(line)
                    f.write(y[i])
        if not c.judge(path, "pairs", "TraceTotal"):
            break
    return c.finish()


# --- Crunch ---------------------------------------------------------------------------------------
CRN_FORMATS = [0, 2, 3, 4, 5, 6, 7, 8, 9]
UNITY_FORMATS = CRN_FORMATS + [10, 11, 12, 13, 14]
SAMPLES = vt.REPO + "/resources/tests/textures"


def crn_file(r, unity, fmt=None, small=False, big=False):
    """A well-formed file."""
    if fmt is None:
        fmt = r.choice(UNITY_FORMATS if unity else CRN_FORMATS)
    k = r.randrange(6)
    if small:
        w, h = r.choice([(4, 4), (8, 8), (r.randint(1, 16), r.randint(1, 16))])
    elif k == 0:
        w, h = r.choice([(0, 5), (1, 1), (3, 9), (4, 4), (5, 4), (4, 5), (8, 8), (12, 12)])
    elif k == 1:
        w, h = r.randint(1, 8), r.randint(20, 90)
    elif k == 2:
        w, h = r.randint(20, 90), r.randint(1, 8)
    else:
        w, h = r.randint(1, 40), r.randint(1, 40)
    faces = r.choice([1, 1, 1, 2, 3, 6]) if w * h < 700 else 1
    if r.randrange(40) == 0:
        faces = 0
    return crn.Crn(r, fmt, unity, w, h, faces, r.choice([1, 1, 2, 3, r.randint(1, 16)]), big=big)


def crn_call(r, unity, x, d, a=0):
    """A request for the picture of file x."""
    bx, by = (max(1, x.w) + 3) // 4, (max(1, x.h) + 3) // 4
    k = r.randrange(12)
    w, h = 4 * bx, 4 * by * x.faces
    if k < 3:
        w, h = x.w, x.h
    elif k == 3:
        w, h = r.randint(0, w), r.randint(0, h)
    elif k == 4:
        w, h = h, w
    elif k == 5:
        w, h = w + r.choice([0, 1, 4]), h + r.choice([0, 1, 4])
    n = w * h
    if r.randrange(8) == 0:
        n = max(0, n + r.choice([-1, 1, 7]))
    return Vec("unity_crunch" if unity else "crunch", d, w, h, a=a, n=n, fill=fill(r))


def crn_samples(unity, side, r):
    """The sample files, as they are (side 0) or with smaller sides in their header."""
    out = []
    for p in sorted(glob.glob(SAMPLES + "/*.crn")):
        if ("UNITY" in p) != unity:
            continue
        d = bytearray(open(p, "rb").read())
        w, h = int.from_bytes(d[12:14], "big"), int.from_bytes(d[14:16], "big")
        if side:
            w, h = side - r.randrange(4), side - r.randrange(4)
            d[12:14], d[14:16] = w.to_bytes(2, "big"), h.to_bytes(2, "big")
        out.append(Vec("unity_crunch" if unity else "crunch", bytes(d), w, h, a=1, fill=fill(r)))
    return out


def crunch_models(c, names):
    for n in names:
        deep = {"MCCrnCode": "MCCrnCodeDeep", "MCCrnSend": "MCCrnSendDeep", "MCCrnLayout": "MCCrnLayoutDeep"}
        c.model(n, cfg=deep[n] if c.thorough else None)
        if n == "MCCrnLayout":
            c.model(n, cfg="MCCrnLayoutWide")


def crunch_check(c, unity):
    r = c.rng
    crunch_models(c, ["MCCrnLayout"] if unity else ["MCCrnCode", "MCCrnLayout"])
    fmts = UNITY_FORMATS if unity else CRN_FORMATS
    vecs = []
    for i in range(c.scale(360 if unity else 330, 6000)):
        x = crn_file(r, unity, fmts[i % len(fmts)], big=c.thorough and r.randrange(8) == 0)
        vecs.append(crn_call(r, unity, x, x.bytes(), a=1 if x.faces else 0))
    c.cov["files_generated"] = len(vecs)
    for k in range(0, len(vecs), 1000):
        if not c.conform(vecs[k:k + 1000], name="files", module="TraceCrunch", cfg="TraceCrunchMeant"):
            return c.finish()
    c.conform(written(c, "MCCrnWrite", ["unity" if unity else "crunch"]), name="written", module="TraceCrunch",
              cfg="TraceCrunchMeant")
    # long sides (more than 256 chunks, more than 512 blocks), and palettes beyond 8 bits (thorough: 12)
    large = []
    for fmt in r.sample(fmts, c.scale(2, len(fmts))):
        w, h = r.randrange(2049, 2140), r.randrange(1, 6)
        large.append(crn.Crn(r, fmt, unity, *r.choice([(w, h), (h, w)]), 1, r.choice([1, 2])))
        large.append(crn.Crn(r, fmt, unity, r.randrange(17, 30), r.randrange(17, 30), 1, 1, entries=[r.randrange(257, 330) for _ in range(4)]))
    if c.thorough:
        large.append(crn.Crn(r, r.choice(fmts), unity, 40, 40, entries=[r.randrange(4097, 4400) for _ in range(4)]))
        large.append(crn.Crn(r, r.choice(fmts), unity, 65535, 1))
    c.conform([crn_call(r, unity, x, x.bytes(), a=1) for x in large], name="large", module="TraceCrunch", cfg="TraceCrunchMeant",
              timeout=c.scale(400, 3000))
    s = crn_samples(unity, c.scale(24, 96), r)
    c.cov["sample_files"] = len(s)
    c.conform(s, name="samples", module="TraceCrunch", cfg="TraceCrunchMeant", timeout=c.scale(400, 3000))
    return c.finish()


@check("P17")
def p17(c):
    return crunch_check(c, False)


@check("P18")
def p18(c):
    return crunch_check(c, True)


HEADER = {"sig": (0, 2), "head": (2, 2), "hcrc": (4, 2), "data": (6, 4), "dcrc": (10, 2), "w": (12, 2), "h": (14, 2),
          "levels": (16, 1), "faces": (17, 1), "fmt": (18, 1), "flags": (19, 2), "res": (21, 4), "u0": (25, 4), "u1": (29, 4),
          **{f"{n}{k}": (33 + 8 * k + o, s) for k in range(4) for n, o, s in (("ofs", 0, 3), ("size", 3, 3), ("num", 6, 2))},
          "tsize": (65, 2), "tofs": (67, 3), "l0": (70, 4), "l1": (74, 4)}


def set_field(d, name, v):
    o, s = HEADER[name]
    if o + s <= len(d):
        d[o:o + s] = (v % (1 << 8 * s)).to_bytes(s, "big")


def get_field(d, name):
    o, s = HEADER[name]
    return int.from_bytes(d[o:o + s], "big")


def wild_field(r, d, name):
    s = 8 * HEADER[name][1]
    old = get_field(d, name)
    v = r.choice([0, 1, 2, (1 << s) - 1, 1 << (s - 1), (1 << (s - 1)) - 1, old + 1, old - 1, old + r.randint(-16, 16), old ^ 1 << r.randrange(s),
                  r.getrandbits(s), len(d), len(d) - 1, len(d) + 1, r.randrange(len(d)), 73, 74, 75])
    set_field(d, name, v)


def damage(r, x, d):
    """One way of damaging a file; returns the bytes."""
    d = bytearray(d)
    k = r.randrange(14)
    secs = [(x.at["ofs"][n], x.at["size"][n]) for n in x.at["ofs"]] + [(o, len(l)) for o, l in zip(x.at["lofs"], x.level_data)]
    if k == 0:
        for _ in range(r.choice([1, 1, 2, 5, 20])):
            d[r.randrange(len(d))] ^= 1 << r.randrange(8)
    elif k == 1:
        d = d[:r.randrange(len(d))]
        if len(d) > 10 and r.randrange(2):
            set_field(d, "data", r.choice([0, len(d)]))
    elif k == 2:
        d = d[:r.randrange(0, x.at["head"] + 1)]
        if len(d) > 10 and r.randrange(2):
            set_field(d, "data", r.choice([0, len(d)]))
    elif k in (3, 4, 5):
        for _ in range(r.choice([1, 1, 2, 3])):
            wild_field(r, d, r.choice(list(HEADER)))
    elif k in (6, 7):
        o, s = x.at["ofs"]["tables"], x.at["size"]["tables"]
        for _ in range(r.choice([1, 1, 2, 4])):
            d[o + r.randrange(s)] ^= 1 << r.randrange(8)
    elif k == 8:
        o, s = r.choice(secs)
        f = r.choice([0, 0xFF, 0x55, None])
        a = r.randrange(s + 1)
        d[o + a:o + s] = bytes(r.getrandbits(8) if f is None else f for _ in range(s - a))
    elif k == 9:
        o, s = r.choice(secs)
        if s:
            for _ in range(r.choice([1, 3])):
                d[o + r.randrange(s)] = r.getrandbits(8)
    elif k == 10:
        # the last section, cut
        d = d[:max(x.at["head"], len(d) - r.randint(1, 12))]
        set_field(d, "data", r.choice([0, len(d)]))
    elif k == 11:
        set_field(d, "w", r.choice([r.randint(0, 200), 0xFFFF, r.getrandbits(16)]))
        set_field(d, "h", r.choice([r.randint(0, 200), 0xFFFF, r.getrandbits(16)]))
        if r.randrange(2):
            set_field(d, "faces", r.getrandbits(8))
    elif k == 12:
        set_field(d, "fmt", r.randrange(18))
    else:
        # a section length that ends it early, or makes it reach into the next ones
        n = r.choice(["tsize", "size0", "size1", "size2", "size3"])
        set_field(d, n, max(0, get_field(d, n) + r.choice([-1, -2, -4, 1, 3, 8, 1000])))
    return bytes(d)


def junk_file(r):
    """A header that makes sense, and nothing behind it that does."""
    n = r.randint(60, 400)
    d = bytearray(gens.rb(r, n))
    if n > 80:
        for f in HEADER:
            if f[:3] == "ofs" or f == "tofs":
                set_field(d, f, r.randint(70, n))
            if "size" in f:
                set_field(d, f, r.randint(0, n))
            if f[:3] == "num":
                set_field(d, f, r.choice([0, 1, 3, r.randint(0, 300)]))
        set_field(d, "sig", 0x4878)
        set_field(d, "head", 74)
        set_field(d, "data", r.choice([n, 0]))
        set_field(d, "w", r.randint(1, 40)), set_field(d, "h", r.randint(1, 40))
        set_field(d, "levels", r.choice([1, 1, 2, 0]))
        set_field(d, "faces", r.choice([1, 2, 6]))
        set_field(d, "fmt", r.randrange(16))
        set_field(d, "l0", r.randint(74, n)), set_field(d, "l1", r.randint(74, n))
        if r.randrange(2):
            o = get_field(d, "tofs")
            d[o:] = bytes(r.choice([0, 0xFF, r.getrandbits(8)]) for _ in range(len(d) - o))
    return bytes(d)


def damaged_calls(c, count):
    r = c.rng
    out = []
    for i in range(count):
        unity = r.randrange(2) == 1
        x = crn_file(r, unity, small=True)
        d = x.bytes()
        k = r.randrange(20)
        if k == 0:
            d = junk_file(r)
        elif k == 1:
            unity = not unity                 # read by the wrong decoder
        elif k == 2:
            d = gens.rb(r, r.choice([0, 1, 73, 74, 75, 200]))
        else:
            d = damage(r, x, d)
            if r.randrange(4) == 0 and len(d) > x.at["head"]:
                d = damage(r, x, d + bytes(max(0, x.at["end"] - len(d))))
        out.append(crn_call(r, unity, x, d))
    return out


@check("P20")
def p20(c):
    r = c.rng
    crunch_models(c, ["MCCrnCode", "MCCrnSend"])
    vecs = damaged_calls(c, c.scale(1300, 30000))
    for _ in range(c.scale(2, 12)):
        # every truncation of a file, and (thorough) every bit flip
        for unity in (False, True):
            x = crn_file(r, unity, small=True)
            d = x.bytes()
            step = max(1, len(d) // c.scale(60, 4000))
            for n in sorted(set(range(0, x.at["head"] + 1, c.scale(4, 1))) | set(range(x.at["head"], len(d), step))):
                e = bytearray(d[:n])
                if n > 10 and r.randrange(2):
                    set_field(e, "data", 0)
                vecs.append(crn_call(r, unity, x, bytes(e)))
            if c.thorough:
                for b in range(8 * len(d)):
                    e = bytearray(d)
                    e[b >> 3] ^= 1 << (b & 7)
                    vecs.append(crn_call(r, unity, x, bytes(e)))
    r.shuffle(vecs)
    c.cov["damaged_files"] = len(vecs)
    for k in range(0, len(vecs), 3000):
        for profile in ("release", "shipped"):
            if not c.conform(vecs[k:k + 3000], name="damaged-" + profile, module="TraceCrunch", profile=profile):
                return c.finish()
    return c.finish()


@check("P16")
def p16(c):
    r = c.rng
    vecs = []

    def ask(d, a=0, b=None):
        vecs.append(Vec("info", d, 0, 0, a=a, b=len(d) if b is None else b, n=r.choice([0, 3]), fill=fill(r)))

    def header(levels=None):
        lv = r.choice([0, 1, 1, 2, 5, 16, 255, r.getrandbits(8)]) if levels is None else levels
        n = max(74, 70 + 4 * lv) + r.choice([0, 0, 1, 40])
        d = bytearray(gens.rb(r, n))
        set_field(d, "sig", 0x4878)
        set_field(d, "head", r.choice([74, n, 75, 0xFFFF, r.randint(74, 1100)]))
        set_field(d, "data", r.choice([n, n, 0, n - 1, r.randint(0, n)]))
        set_field(d, "levels", lv)
        set_field(d, "fmt", r.randrange(17) if r.randrange(8) else r.getrandbits(8))
        for f, s in (("w", 16), ("h", 16), ("u0", 32), ("u1", 32), ("faces", 8)):
            set_field(d, f, r.choice([0, 1, (1 << s) - 1, 1 << (s - 1), r.getrandbits(s), r.getrandbits(s)]))
        return d
    for fmt in range(256):
        d = header(1)
        set_field(d, "fmt", fmt)
        ask(bytes(d))
    for lv in range(0, 256, c.scale(3, 1)):
        d = header(lv)
        full = max(74, 70 + 4 * lv)
        for n in (full, full - 1, full - 4, full + 1):
            e = d[:n] + bytes(max(0, n - len(d)))
            set_field(e, "data", r.choice([0, len(e)]))
            ask(bytes(e))
    for _ in range(c.scale(6000, 150000)):
        d = header() if r.randrange(10) else bytearray(crn_file(r, r.randrange(2) == 1, small=True).bytes()[:300])
        k = r.randrange(14)
        if k < 4:
            ask(bytes(d))
        elif k == 4:
            n = r.randrange(len(d))
            if n > 10 and r.randrange(2):
                set_field(d, "data", r.choice([0, n]))
            ask(bytes(d[:n]))
        elif k == 5:
            # a claimed size that is not that of the slice
            dl = get_field(d, "data")
            ask(bytes(d), b=r.choice([0, 73, 74, 75, dl, max(0, dl - 1), dl + 1, len(d) - 1, len(d) + 1, 2 * len(d), (1 << 31) - 1, r.randrange(2000)]))
        elif k == 6:
            n = r.randrange(len(d))
            ask(bytes(d[:n]), b=r.choice([74, len(d), 70, n, (1 << 31) - 1]))
        elif k == 7:
            ask(bytes(d), a=1)
        elif k == 8:
            set_field(d, "sig", r.choice([0x4878 ^ 1 << r.randrange(16), 0x7848, 0, 0xFFFF, r.getrandbits(16)]))
            ask(bytes(d))
        elif k == 9:
            set_field(d, "head", r.choice([0, 73, 74, 75, 70, 0xFF, 0x100, 0x4A00, 0xFFFF, r.getrandbits(16)]))
            ask(bytes(d))
        elif k == 10:
            n = len(d)
            set_field(d, "data", r.choice([n, n + 1, n - 1, n << 8, n << 16, n << 24, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, r.getrandbits(32)]))
            ask(bytes(d))
        elif k == 11:
            wild_field(r, d, r.choice(list(HEADER)))
            ask(bytes(d))
        elif k == 12:
            ask(gens.rb(r, r.choice([0, 1, 2, 73, 74, 75, 200])))
        else:
            for _ in range(r.choice([1, 2, 8])):
                d[r.randrange(len(d))] ^= 1 << r.randrange(8)
            ask(bytes(d))
    for p in sorted(glob.glob(SAMPLES + "/*.crn")):
        ask(open(p, "rb").read()[:6000], b=1 << 20)
    c.cov["requests"] = len(vecs)
    for k in range(0, len(vecs), 20000):
        for profile in ("release", "shipped"):
            if not c.conform(vecs[k:k + 20000], name="requests-" + profile, module="TraceInfo", profile=profile):
                return c.finish()
    return c.finish()


# --- Python ---------------------------------------------------------------------------------------
def words(rec):
    """Bytes as little-endian pixels, for the specifications that speak of those."""
    p = rec["p"]
    rec["p"] = [int.from_bytes(bytes(p[k:k + 4]), "little", signed=True) for k in range(0, len(p), 4)] if rec["r"] == "ok" else [0] * rec["n"]
    if len(p) != 4 * rec["n"] and rec["r"] == "ok":
        rec["r"] = "length"
    if not (rec["s"] and rec["u"]):
        rec["r"] = "other"
    return rec


def dump(c, name, recs):
    path = f"{c.work}/{name}.ndjson"
    with open(path, "w") as f:
        for x in recs:
            f.write(json.dumps(x, separators=(",", ":")) + "\n")
    return path


@check("P21")
def p21(c):
    r = c.rng
    vecs, cr = [], []
    for f in list(GEO) + list(PVR):
        bw, bh, nb = GEO.get(f) or PVR[f]
        for k in range(c.scale(26, 300)):
            if f in PVR:
                nx, ny = r.choice([1, 1, 2, 4, 3]), r.choice([1, 2, 4])
            else:
                nx, ny = r.choice([0, 1, 1, 2, 3]), r.choice([0, 1, 1, 2])
            w, h = max(0, nx * bw - r.choice([0, 0, r.randrange(bw)])), max(0, ny * bh - r.choice([0, 0, r.randrange(bh)]))
            v = image_call(r, f, w, h, extra_d=r.choice([0, 0, 0, 5, nb]))
            v.f, v.a, v.b = f, 0, 0
            if f.startswith("astc") and r.randrange(2):
                v.f, v.a, v.b = "astc", bw, bh
            need = up(w, bw) * up(h, bh) * nb
            if r.randrange(5) == 0 and need:
                v.d = v.d[:r.choice([0, need - 1, need - nb, r.randrange(need)])]
            v.fill = r.randrange(2)           # 1: keyword arguments
            vecs.append(v)
        for w, h in r.sample(HUGE, 4):
            vecs.append(Vec(f, gens.rb(r, r.choice([0, nb])), w, h, n=0, fill=r.randrange(2)))
        for k in r.sample(range(12), c.scale(3, 12)):
            vecs.append(Vec("!" + f, any_block(r, f), bw, bh, a=k, n=0, fill=0))
    # sides beyond 8 and 16 bits: empty images, and others with too little data
    for f in GEO:
        bw, bh, nb = GEO[f]
        for w, h in r.sample([(65536, 0), (0, 65536), (65537, 0), (0, 70000), (1 << 20, 0), (256, 0), (0, 300)], 3):
            vecs.append(Vec(f, gens.rb(r, r.choice([0, nb])), w, h, n=0, fill=r.randrange(2)))
        for w, h in ((65536, 1), (1, 65536), (65536 + bw, 1), (1, 65536 + bh), (256 * bw + bw, 1)):
            vecs.append(Vec(f, gens.rb(r, r.choice([0, nb, 2 * nb])), w, h, n=0, fill=r.randrange(2)))
    for w, h in ((65537, 1), (1, 65537)):
        f = r.choice(["bc1", "bc4", "eacr"])
        v = image_call(r, f, w, h)
        v.a, v.b, v.fill = 0, 0, 0
        vecs.append(v)
    for bw, bh in ((13, 12), (12, 13), (144, 2), (7, 3), (24, 6), (2, 2), (3, 70)):
        for w, h in ((1, 1), (bw, bh), (0, 3)):
            if w * h < 200:
                vecs.append(Vec("astc", gens.astc_void(r), w, h, a=bw, b=bh, n=0, fill=r.randrange(2)))
    big = [image_call(r, f, 512, 256) for f in ("bc1", "bc3", "etc2_rgb")] if c.thorough else [image_call(r, f, 64, 40) for f in ("bc1", "etc2_rgb")]
    for v in big:
        v.fill = 0
    vecs += big
    for f in ("crunch", "unity_crunch"):
        for k in range(12):
            vecs.append(Vec("!" + f, gens.rb(r, 80), 4, 4, a=k, n=0, fill=0))
    r.shuffle(vecs)
    for _ in range(c.scale(60, 600)):
        unity = r.randrange(2) == 1
        x = crn_file(r, unity, small=True)
        v = crn_call(r, unity, x, x.bytes() if r.randrange(3) else damage(r, x, x.bytes()))
        v.fill = r.randrange(2)
        cr.append(v)
    cr += crn_samples(False, 12, r)[:2] + crn_samples(True, 12, r)[-2:]
    for v in cr:
        v.a, v.fill = 0, v.fill & 1
    c.cov["python_calls"] = len(vecs) + len(cr)
    for profile in ("dev", "release"):
        mod = vt.build_python(profile)
        ok = c.judge(dump(c, "python", vt.record_python(mod, vecs, c.work, "python")), "python-" + profile, "TracePython")
        recs = [words(x) for x in vt.record_python(mod, cr, c.work, "crunch")]
        if not (ok and c.judge(dump(c, "crunch", recs), "crunch-" + profile, "TraceCrunch")):
            break
    return c.finish()


# --- without the alloc feature ----------------------------------------------------

@check("P22")
def p22(c):
    c.bin()                         # if not even this builds, no verdict is possible
    try:
        c.bin("noalloc")
    except ToolError as e:
        c.verdict("build", {"property": c.pid, "rejected": "the crate does not compile without the alloc feature", "compiler": str(e)[-3000:]})
        return c.finish()
    r = c.rng
    v = pvrtc_calls(c, c.scale(1600, 20000), c.scale(600, 10000)) + pvrtc_shapes(c)
    for f in GEO:
        bw, bh, nb = GEO[f]
        for _ in range(c.scale(10 if bw * bh > 50 else 25, 300)):
            w, h = r.randrange(1, 3 * bw), r.randrange(1, 3 * bh)
            x = image_call(r, f, w, h, extra_d=r.choice([0, 0, 1, nb]), extra_n=r.choice([0, 0, 1, w]))
            k = r.randrange(8)
            if k == 0:
                x.d = x.d[:r.randrange(len(x.d))]
            elif k == 1:
                x.n = r.randrange(x.n)
            v.append(x)
            x = any_block(r, f)
            v.append(Vec("block:astc", x, a=bw, b=bh, n=bw * bh, fill=fill(r)) if f.startswith("astc") else Vec("block:" + f, x, n=16, fill=fill(r)))
        for w, h in r.sample(HUGE, 2):
            v.append(Vec(f, gens.rb(r, nb), w, h, n=16, fill=fill(r)))
    r.shuffle(v)
    for k in range(0, len(v), 8000):
        if not c.conform(v[k:k + 8000], profile="noalloc"):
            break
    c.conform(pvrtc_long(c, 4), name="long", profile="noalloc")
    return c.finish()


# sizes whose products do not fit 32 bits, and sizes at the end of them
M32 = (1 << 32) - 1
HUGE32 = ((1 << 16, 1 << 16), (1 << 31, 2), (2, 1 << 31), (1 << 31, 1 << 31), (M32, 1), (1, M32), (M32, M32), (M32 - 3, 1), (1 << 30, 4), (1 << 30, 16),
          ((1 << 31) + 8, 2), ((1 << 30) + 4, 4), (1 << 28, 1 << 8), (46341, 92682), (65540, 65540), (M32, 0), (0, M32), (M32, 2), (3, M32))


@check("P23")
def p23(c):
    r = c.rng
    c.bin()                         # if not even this builds, no verdict is possible
    try:
        c.bin("w32")
    except ToolError as e:
        if "harness32 does not build" not in str(e):
            raise
        c.verdict("build", {"property": c.pid, "rejected": "the crate does not compile for a 32-bit target", "compiler": str(e)[-3000:]})
        return c.finish()
    v = []
    for f in GEO:
        bw, bh, nb = GEO[f]
        astc = f.startswith("astc")
        for _ in range(c.scale(4 if bw * bh > 50 else 6 if astc else 30, 300)):
            w, h = r.randrange(1, 2 * bw + 2), r.randrange(1, 2 * bh + 2)
            x = image_call(r, f, w, h, extra_d=r.choice([0, 0, 1, nb]), extra_n=r.choice([0, 0, 1, w]))
            k = r.randrange(12)
            if k == 0:
                x.d = x.d[:r.randrange(len(x.d))]
            elif k == 1:
                x.n = r.randrange(x.n)
            v.append(x)
        for _ in range(c.scale(6 if bw * bh > 50 else 12 if astc else 110, 1000)):
            d = any_block(r, f) if r.randrange(3) else gens.rb(r, nb)
            v.append(Vec("block:astc", d, a=bw, b=bh, n=bw * bh, fill=fill(r)) if astc
                     else Vec("block:" + f, d + gens.rb(r, r.choice([0, 0, 3])), n=16 + r.choice([0, 0, 5]), fill=fill(r)))
        for w, h in HUGE32:
            for nd, n in ((0, 0), (nb, 16), (3 * nb + 1, 50)):
                v.append(Vec(f, gens.rb(r, nd), w, h, n=n, fill=fill(r)))
    for a, b in ((1 << 16, 1 << 16), (1 << 31, 2), (M32, 1), (M32, M32), (12, 13), (145, 1), ((1 << 31) + 2, 2), (1 << 30, 4)):
        for w, h in ((4, 4), (0, 0), (1, 1), (1 << 20, 1 << 20)):
            v.append(Vec("astc", gens.astc_void(r), w, h, a=a, b=b, n=16, fill=fill(r)))
    for f in ("eac", "eac_signed"):
        for _ in range(c.scale(60, 1000)):
            # the decoder of one channel adds to what is there: the channel is 0 before
            ch = r.randrange(4)
            v.append(Vec("block:" + f, gens.rb(r, 8), a=ch, n=16, fill=fill(r) & ~(0xFF << 8 * ch)))
    for _ in range(c.scale(100, 1000)):
        v.append(Vec("block:etc2_a8", gens.rb(r, 8), n=16, fill=fill(r)))
    v += pvrtc_calls(c, c.scale(250, 4000), c.scale(100, 2000))
    for f in PVR:
        for w, h in HUGE32:
            for nd, n in ((0, 0), (8, 16), (25, 50)):
                v.append(Vec(f, gens.rb(r, nd), w, h, n=n, fill=fill(r)))
    r.shuffle(v)
    crunch = []
    for unity in (False, True):
        fmts = UNITY_FORMATS if unity else CRN_FORMATS
        for i in range(c.scale(60, 1500)):
            x = crn_file(r, unity, fmts[i % len(fmts)], small=r.randrange(3) > 0)
            crunch.append(crn_call(r, unity, x, x.bytes(), a=1 if x.faces else 0))
    bad = damaged_calls(c, c.scale(200, 4000))
    for i in range(c.scale(40, 400)):
        # a picture larger than any memory of 32 bits, or a buffer that cannot be as large as it has to be
        unity = i % 2 == 1
        x = crn_file(r, unity, small=True)
        y = crn_call(r, unity, x, x.bytes())
        if r.randrange(3):
            y.w, y.h = r.choice(HUGE32)
        else:
            d = bytearray(y.d)
            # also numbers of blocks that are 0, or small, modulo 2^32
            a, b, n = r.choice([(0xFFFF, 0xFFFF, 1), (0xFFFF, 0xFFFF, 6), (0xFFFF, 0xFFFF, 255), (0xFFFF, 0xFFFD, 16),
                                (0xFFFD, 0xFFFF, 32), (0x8000, 0x8000, 64), (0x8000, 0xFFFF, 32), (0xFFFE, 0x8000, 32),
                                (0x4000, 0xFFFF, 64), (0x4000, 0x8000, 128), (52428, 52429, 25)])
            set_field(d, "w", a), set_field(d, "h", b), set_field(d, "faces", n)
            y.d = bytes(d)
        bad.append(y)
    info = []
    for i in range(c.scale(300, 6000)):
        d = bytearray(crn_file(r, i % 2 == 1, small=True).bytes()[:300])
        for _ in range(r.choice([0, 1, 2])):
            wild_field(r, d, r.choice(list(HEADER)))
        n = r.choice([len(d), len(d), r.randrange(len(d) + 1)])
        info.append(Vec("info", bytes(d[:n]), 0, 0, b=n, n=r.choice([0, 3]), fill=fill(r)))
    for profile in ("w32", "w32shipped") if c.thorough else ("w32",):
        for k in range(0, len(v), 12000):
            if not c.conform(v[k:k + 12000], name="calls", profile=profile):
                return c.finish()
        for k in range(0, len(crunch), 1000):
            if not c.conform(crunch[k:k + 1000], name="crunch", module="TraceCrunch", cfg="TraceCrunchMeant", profile=profile):
                return c.finish()
        for k in range(0, len(bad), 2000):
            if not c.conform(bad[k:k + 2000], name="damaged", module="TraceCrunch", profile=profile):
                return c.finish()
        for k in range(0, len(info), 4000):
            if not c.conform(info[k:k + 4000], name="info", module="TraceInfo", profile=profile):
                return c.finish()
    return c.finish()


@check("P24")
def p24(c):
    r = c.rng
    c.bin()                         # if not even this builds, no verdict is possible
    try:
        c.bin("be")
    except ToolError as e:
        if "harness_be does not build" not in str(e):
            raise
        c.verdict("build", {"property": c.pid, "rejected": "the crate does not compile for a big-endian target", "compiler": str(e)[-3000:]})
        return c.finish()
    v = []
    for f in GEO:
        bw, bh, nb = GEO[f]
        astc = f.startswith("astc")
        for _ in range(c.scale(2 if astc else 8, 60)):
            w, h = r.randrange(1, 2 * bw + 2), r.randrange(1, bh + 2)
            x = image_call(r, f, w, h, extra_d=r.choice([0, 0, 1, nb]), extra_n=r.choice([0, 0, 1, w]))
            k = r.randrange(12)
            if k == 0:
                x.d = x.d[:r.randrange(len(x.d))]
            elif k == 1:
                x.n = r.randrange(x.n)
            v.append(x)
        for _ in range(c.scale(9 if astc else 40, 400)):
            d = any_block(r, f) if r.randrange(3) else gens.rb(r, nb)
            v.append(Vec("block:astc", d, a=bw, b=bh, n=bw * bh, fill=fill(r)) if astc
                     else Vec("block:" + f, d + gens.rb(r, r.choice([0, 0, 3])), n=16 + r.choice([0, 0, 5]), fill=fill(r)))
    for f in ("eac", "eac_signed"):
        for _ in range(c.scale(25, 300)):
            # the decoder of one channel adds to what is there: the channel is 0 before
            ch = r.randrange(4)
            v.append(Vec("block:" + f, gens.rb(r, 8), a=ch, n=16, fill=fill(r) & ~(0xFF << 8 * ch)))
    for _ in range(c.scale(25, 300)):
        v.append(Vec("block:etc2_a8", gens.rb(r, 8), n=16, fill=fill(r)))
    v += pvrtc_calls(c, c.scale(60, 800), c.scale(0, 200))
    crunch, info = [], []
    for unity in (False, True):
        fmts = UNITY_FORMATS if unity else CRN_FORMATS
        for i in range(c.scale(3 * len(fmts), 30 * len(fmts))):
            x = crn_file(r, unity, fmts[i % len(fmts)], small=True)
            crunch.append(crn_call(r, unity, x, x.bytes(), a=1 if x.faces else 0))
    bad = damaged_calls(c, c.scale(60, 800))
    for i in range(c.scale(120, 1500)):
        d = bytearray(crn_file(r, i % 2 == 1, small=True).bytes()[:300])
        for _ in range(r.choice([0, 1, 2])):
            wild_field(r, d, r.choice(list(HEADER)))
        n = r.choice([len(d), len(d), r.randrange(len(d) + 1)])
        info.append(Vec("info", bytes(d[:n]), 0, 0, b=n, n=r.choice([0, 3]), fill=fill(r)))
    r.shuffle(v)
    _ = (c.conform(v, name="calls", profile="be")
         and c.conform(crunch, name="crunch", module="TraceCrunch", cfg="TraceCrunchMeant", profile="be")
         and c.conform(bad, name="damaged", module="TraceCrunch", profile="be")
         and c.conform(info, name="info", module="TraceInfo", profile="be"))
    return c.finish()


def claims(r, unity):
    """A file that claims more than it has: a well-formed one with other sizes, faces or palette lengths in its
    header, and room for a longer level behind it."""
    x = crn_file(r, unity, small=True)
    d = bytearray(x.bytes())
    k = r.randrange(6)
    if k < 5:
        more = r.choice([0, 1, 100, 600, 2000, r.randrange(6000)]) if r.randrange(24) else r.randrange(20000, 80000)
        d += gens.rb(r, more) if r.randrange(2) else bytes(more)
        set_field(d, "data", r.choice([0, len(d)]))
    side = lambda: r.choice([65535, 65532, 16384, 4096, 1024, 4 * r.randint(1, 200), r.getrandbits(16), 1 << r.randrange(16)])
    if k in (0, 1):
        set_field(d, "w", side())
        set_field(d, "h", side())
    elif k == 2:
        # nearly as many blocks in a face as the level has bits
        bits = 8 * (len(d) - x.at["lofs"][0])
        bx = r.randint(1, 60)
        by = max(1, bits // bx + r.choice([-1, 0, 0, 1]))
        set_field(d, "w", 4 * bx)
        set_field(d, "h", min(65535, 4 * by))
    if k in (1, 2, 3) or r.randrange(4) == 0:
        set_field(d, "faces", r.choice([255, 255, 254, 128, 64, 6, 2, r.getrandbits(8)]))
    if k == 4 or r.randrange(6) == 0:
        for q in range(4):
            if get_field(d, f"num{q}") or r.randrange(4) == 0:
                set_field(d, f"num{q}", r.choice([65535, 65535, 4096, r.getrandbits(16)]))
        if r.randrange(2):
            set_field(d, f"size{r.randrange(4)}", 0xFFFFFF)
    if k == 5:
        set_field(d, "levels", r.getrandbits(8))
    return crn_call(r, unity, x, bytes(d))


@check("P25")
def p25(c):
    r = c.rng
    c.model("MCMemory")
    if not vt.tlc("MCMemory", c.work, cfg="MCMemoryUnguarded").violated:
        raise ToolError("the bound of Memory.tla does not tell a level that is guarded from one that is not")
    v = []
    for f in list(GEO) + list(PVR):
        for _ in range(c.scale(6 if f in GEO else 30, 60)):
            if f in PVR:
                bw, bh, nb = PVR[f]
                nx, ny = 1 << r.randrange(6), 1 << r.randrange(6)
                v.append(Vec(f, gens.rb(r, nx * ny * nb), nx * bw - r.randrange(bw), ny * bh - r.randrange(bh), fill=fill(r)))
            else:
                bw, bh, nb = GEO[f]
                v.append(image_call(r, f, r.randrange(0, 5 * bw), r.randrange(0, 4 * bh)))
            x = v[-1]
            k = r.randrange(6)
            if k == 0 and x.d:
                x.d = x.d[:r.randrange(len(x.d))]
            elif k == 1 and x.n:
                x.n = r.randrange(x.n)
            elif k == 2:
                # sizes that are claimed only
                x = Vec(f, gens.rb(r, 64), r.choice([1 << 20, 1 << 40, 65536]), r.choice([1 << 20, 1 << 40, 4096]), a=x.a, b=x.b, n=4, fill=fill(r))
                v.append(x)
        if f in GEO and not f.startswith("astc"):
            v.append(Vec("block:" + f, any_block(r, f), n=16, fill=fill(r)))
    for bw, bh in gens.ASTC:
        for _ in range(c.scale(4, 40)):
            v.append(Vec("block:astc", any_block(r, f"astc_{bw}_{bh}"), a=bw, b=bh, n=bw * bh, fill=fill(r)))
    for i in range(c.scale(2500, 30000)):
        x = claims(r, i % 2 == 1)
        if x.n > 4096:
            x.n = r.choice([0, 5])
        v.append(x)
    v += damaged_calls(c, c.scale(1500, 20000))
    for i in range(c.scale(240, 3000)):
        x = crn_file(r, i % 2 == 1)
        v.append(crn_call(r, i % 2 == 1, x, x.bytes()))
    for unity in (False, True):
        v += crn_samples(unity, c.scale(24, 96), r)
    for i in range(c.scale(400, 5000)):
        d = bytearray(crn_file(r, i % 2 == 1, small=True).bytes()[:300])
        for _ in range(r.choice([0, 1, 2])):
            wild_field(r, d, r.choice(list(HEADER)))
        n = r.choice([len(d), len(d), r.randrange(len(d) + 1)])
        v.append(Vec("info", bytes(d[:n]), 0, 0, b=r.choice([n, (1 << 31) - 1, 0]), n=0, fill=fill(r)))
    r.shuffle(v)
    c.cov["calls"] = len(v)
    for k in range(0, len(v), 6000):
        for profile in ("release", "shipped"):
            if not c.conform(v[k:k + 6000], name="memory-" + profile, module="TraceMemory", profile=profile):
                return c.finish()
    return c.finish()


@check("P26")
def p26(c):
    r = c.rng
    v = []
    # every way through the decoders of a block
    for f in list(GEO) + list(PVR):
        bw, bh, nb = GEO.get(f) or PVR[f]
        for _ in range(c.scale(60, 800)):
            nx, ny = (r.choice([1, 2, 4]), r.choice([1, 2])) if f in PVR else (r.randrange(1, 4), r.randrange(1, 3))
            d = b"".join(any_block(r, f) if r.randrange(4) else wild(r, nb) for _ in range(nx * ny))
            v.append(Vec(f, d, nx * bw - r.randrange(bw) // 2, ny * bh - r.randrange(bh) // 2, fill=fill(r)))
            if r.randrange(8) == 0:
                v[-1].d = v[-1].d[:r.randrange(len(d))]
    for bw, bh in ((2, 2), (3, 48), (12, 12), (72, 2), (16, 9)):
        for _ in range(c.scale(6, 60)):
            v.append(Vec("astc", any_block(r, "astc", (min(bw, 12), min(bh, 12))) if min(bw, bh) > 3 else wild(r, 16), bw, bh, a=bw, b=bh, fill=fill(r)))
    # many blocks, in a row, in a column, in a square
    for f in list(GEO) + list(PVR):
        bw, bh, nb = GEO.get(f) or PVR[f]
        n = 1 << (c.scale(32768, 131072) // (bw * bh)).bit_length() - 1
        side = 1 << n.bit_length() // 2
        for nx, ny in ((n, 1), (1, n), (side, side)):
            one = [any_block(r, f) for _ in range(16)]
            v.append(Vec(f, b"".join(r.choice(one) for _ in range(nx * ny)), nx * bw, ny * bh, fill=fill(r)))
    # Crunch: long pictures, long palettes, long runs in code tables, and all the ways to be damaged
    for i in range(c.scale(400, 4000)):
        x = crn_file(r, i % 2 == 1)
        v.append(crn_call(r, i % 2 == 1, x, x.bytes()))
    for unity in (False, True):
        v += crn_samples(unity, c.scale(96, 512), r)
        for fmt in (UNITY_FORMATS if unity else CRN_FORMATS):
            for w, h, n in [(2100, 3, 9), (3, 2100, 9), (140, 130, 40)] + r.sample([(9, 9, 2000), (4, 4, 7000), (5, 9, 900), (8, 8, 300)], c.scale(1, 4)):
                x = crn.Crn(r, fmt, unity, w, h, entries=[n + r.randrange(9) for _ in range(4)])
                v.append(crn_call(r, unity, x, x.bytes()))
                v[-1].n = max(v[-1].n, v[-1].w * v[-1].h)
    v += damaged_calls(c, c.scale(1500, 20000))
    for i in range(c.scale(1000, 10000)):
        v.append(claims(r, i % 2 == 1))
        if v[-1].n > 4096:
            v[-1].n = r.choice([0, 5])
    for i in range(c.scale(300, 3000)):
        d = bytearray(crn_file(r, i % 2 == 1, small=True).bytes()[:300])
        wild_field(r, d, r.choice(list(HEADER)))
        v.append(Vec("info", bytes(d), 0, 0, b=len(d), n=0, fill=fill(r)))
    r.shuffle(v)
    c.cov["calls"] = len(v)
    for k in range(0, len(v), 3000):
        for profile in ("release", "shipped"):
            lines = vt.read_lines(vt.record(c.bin(profile), v[k:k + 3000], c.work, "stack"))
            path = f"{c.work}/depths.ndjson"
            with open(path, "w") as f:
                for _, x in lines:
                    # neither the data nor the pixels are looked at
                    f.write(re.sub(r'"([dp])":\[[^]]*\]', r'"\1":[]', x))
            if not c.judge(path, "stack-" + profile, "TraceMemory", cfg="TraceStack"):
                return c.finish()
    return c.finish()
