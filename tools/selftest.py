#!/usr/bin/env python3
"""Is the judge awake?  Runs quick checks, and hands TLC copies of their traces in which every call has one thing changed
(a bit of a pixel, the verdict, the error text, a field of the information): each must be rejected.
  tools/selftest.py [P01 ...]      prints, per trace, how many of the changed calls were rejected, and some that were not"""
import json, os, random, re, sys
sys.dont_write_bytecode = True
sys.path.insert(0, "/verif/lib")
import vt, checks

INFO = ["ok", "iw", "ih", "lv", "fc", "bpb", "u0", "u1", "fmt"]
r = random.Random(7)


def damage(rec, measured=None):
    """One change of what was observed; None if there is nothing to change."""
    t = json.loads(json.dumps(rec))
    kinds = ["r"]
    if t.get("p"):
        kinds += ["p"] * 4
    if t["r"] == "err":
        kinds += ["e"]
    if t["f"] == "info" and t["r"] == "ok":
        kinds += ["info"] * 4
    if measured:
        kinds = ["st"] if measured == "TraceStack" else ["r", "m", "k"] if t["r"] in ("ok", "err") else ["r"]
    k = r.choice(kinds)
    if k in ("m", "k", "st"):
        t[k] += {"m": 2056388608 // 2, "k": 8, "st": 33000}[k]
        return t, k
    if k == "r" and measured:
        t["r"] = r.choice(["panic", "died"])
        return t, "r"
    if k == "r":
        t["r"] = r.choice([x for x in ("ok", "err", "panic", "died", "corrupted") if x != t["r"]])
        return t, f"r {rec['r']} -> {t['r']}"
    if k == "e":
        t["e"] = t["e"] + "." if r.randrange(2) else "Not enough data"
        return (t, f"e {rec['e']!r} -> {t['e']!r}") if t["e"] != rec["e"] else damage(rec)
    if k == "info":
        f = r.choice(INFO)
        if f != "ok" and not t["ok"]:
            f = "ok"
        t[f] = 1 - t[f] if f == "ok" else t[f] + 1
        return t, f
    i = r.randrange(len(t["p"]))
    if max(t["p"]) < 256 and min(t["p"]) >= 0 and "s" in t:
        t["p"][i] ^= 1 << r.randrange(8)                   # Python: bytes
    else:
        v = (t["p"][i] & 0xFFFFFFFF) ^ (1 << r.randrange(32))
        t["p"][i] = v - (1 << 32) if v >> 31 else v
    return t, f"p[{i}]"


def judge(self, path, name, module, cfg=None, **kw):
    ok = real(self, path, name, module, cfg, **kw)
    if not ok:
        print(self.pid, name, "is rejected as it is")
        return ok
    recs = [json.loads(x) for x in open(path)]
    out, what = [], []
    if module in ("TraceHistory", "TraceFacts"):
        groups = {}
        for x in recs:
            groups.setdefault(x["g"], []).append(x)
        gs = [g for g in groups.values() if 1 < len(g) < 400]
        for k in range(40):
            g = json.loads(json.dumps(r.choice(gs)))
            i = r.randrange(len(g))
            g[i], w = damage(g[i])
            for x in g:
                x["g"] = k + 1
            out += g
            what.append((w, g[i]))
    elif module == "TraceTotal":
        for _ in range(64):
            i = r.randrange(len(recs) // 2)
            p = [recs[2 * i], recs[2 * i + 1]]
            j = r.randrange(2)
            p[j], w = damage(p[j])
            out += p
            what.append((w, p[j]))
    else:
        for _ in range(6 if name in ("large", "samples") else 64):
            t, w = damage(r.choice(recs), (cfg or module) if module == "TraceMemory" else None)
            out.append(t)
            what.append((w, t))
    f = os.path.join(self.work, "selftest.ndjson")
    with open(f, "w") as h:
        for x in out:
            h.write(json.dumps(x) + "\n")
    res = vt.tlc(module, self.work, trace=f, cfg=cfg, extra=("-continue",), **{**kw, "timeout": 1500})
    hit = set()
    for part in re.split(r"is violated", res.text)[1:]:
        ls = re.findall(r"^(?:/\\ )?l = (\d+)", part, re.M)
        if ls:
            hit.add(int(ls[-1]))
    if module in ("TraceHistory", "TraceFacts"):
        hit = {out[l - 1]["g"] for l in hit}
    miss = [w for i, w in enumerate(what, 1) if i not in hit]
    print(f"{self.pid} {name} {module}: {len(what) - len(miss)} of {len(what)} rejected", flush=True)
    for w, t in miss[:5]:
        print("   not:", w, {k: v for k, v in t.items() if k not in ("d", "p")}, "data", len(t["d"]), flush=True)
    return ok


real = vt.Check.judge
vt.Check.judge = judge
vt.OUT = "/tmp/selftest-out"
for pid in sys.argv[1:] or sorted(checks.CHECKS):
    c = vt.Check(pid, "quick", 1)
    c.finish = lambda *a, **k: 0
    checks.CHECKS[pid](c)
