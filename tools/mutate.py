#!/usr/bin/env python3
"""tools/mutate.py [-n COUNT] [-j WORKERS] [-s SEED] FILE...: mutation testing of the checks.
Random one-token changes of the given source files (relative to /repo/src), each in a scratch copy under
/tmp/mut; those that compile and pass the repository's tests are run against the quick checks of the
properties the file matters to, until one reports a violation.  Prints the survivors.  Development aid: no check uses it."""
import argparse, concurrent.futures as cf, json, os, queue, random, re, shutil, subprocess, sys, time

PROPS = {
    "astc.rs": ["P13", "P14", "P01", "P02", "P19"], "atc.rs": ["P09", "P19"], "bcn.rs": ["P01", "P02", "P05", "P07"],
    "bitreader.rs": ["P07", "P08", "P13"], "color.rs": ["P05", "P01", "P13"], "crnlib.rs": ["P16", "P17", "P20"],
    "crunch.rs": ["P17", "P20"], "unitycrunch.rs": ["P18", "P20"], "etc.rs": ["P10", "P12", "P04"], "f16.rs": ["P07", "P14"],
    "lib.rs": ["P04"], "macros.rs": ["P02", "P01", "P17", "P18"], "pvrtc.rs": ["P15", "P02", "P22", "P19"], "bcn/bc1.rs": ["P05"], "bcn/bc2.rs": ["P05"],
    "bcn/bc3.rs": ["P05", "P06"], "bcn/bc4.rs": ["P06"], "bcn/bc5.rs": ["P06"], "bcn/bc6.rs": ["P07"], "bcn/bc7.rs": ["P08"],
    "bcn/consts.rs": ["P07", "P08"], "etc/consts.rs": ["P10", "P11", "P12"], "etc/eac.rs": ["P12", "P11"], "etc/etc1.rs": ["P10", "P11"],
    "etc/etc2.rs": ["P10", "P11"], "crunch/": ["P17", "P18", "P20", "P16"], "unitycrunch/": ["P18", "P20"]}
WORK = "/tmp/mut"


def props(f):
    return PROPS.get(f) or PROPS[f.split("/")[0] + "/"]


SWAP = [(r"(?<![<>=!+\-*/&|^ (,])\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\*\s", " + "), (r"<<", ">>"), (r">>", "<<"), (r"\s<\s", " <= "), (r"\s<=\s", " < "),
        (r"\s>\s", " >= "), (r"\s>=\s", " > "), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"), (r"\s&\s", " | "),
        (r"\s\|\s", " & "), (r"\s\^\s", " | "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\s%\s", " / "), (r"\s/\s", " * "),
        (r"\+=", "-="), (r"-=", "+="), (r"\|=", "&="), (r"\.\.=", ".."), (r"\s\?", " "), (r"\.rev\(\)", "")]


def mutants(path, r, n):
    src = open(path, newline="").read()
    lines = src.split("\n")
    out = []
    sites = []
    for i, l in enumerate(lines):
        code = l.split("//")[0]
        if re.search(r"#\[|^\s*use |^\s*mod |^\s*(pub )?(const )?fn |println|panic!|assert", code):
            continue
        for pat, rep in SWAP:
            for m in re.finditer(pat, code):
                sites.append((i, m.start(), m.end(), rep))
        for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?=(u8|u16|u32|u64|i8|i16|i32|i64|usize|isize)?(?![\w.]|\.\d))", code):
            t = m[1]
            v = int(t.replace("_", ""), 0)
            for nv in {v + 1, max(0, v - 1), v ^ (1 << r.randrange(max(1, v.bit_length())))} - {v}:
                sites.append((i, m.start(1), m.end(1), hex(nv) if t.startswith("0x") else str(nv)))
        if re.match(r"^\s*[\w.\[\]*]+ [-+|&^*]?= .*;\s*$", code):
            k = len(code) - len(code.lstrip())
            sites.append((i, k, len(code.rstrip()), ";"))
    # tables weigh little
    w = [0.15 if re.match(r"^[\s\d,x\[\]\-a-fA-F]+$", lines[i].strip() or "0") else 1.0 for i, *_ in sites]
    seen = set()
    while len(out) < n and len(seen) < len(sites):
        s = r.choices(sites, w)[0]
        if s in seen:
            if len(seen) > 0.9 * len(sites):
                break
            continue
        seen.add(s)
        i, a, b, rep = s
        nl = lines[i][:a] + rep + lines[i][b:]
        out.append((i + 1, lines[i].strip(), nl.strip(), "\n".join(lines[:i] + [nl] + lines[i + 1:])))
    return out


def sh(cmd, cwd, timeout, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired:
        return 124, "timeout"


DRIVER = """import sys, os
sys.dont_write_bytecode = True
W = sys.argv[1]
sys.path.insert(0, W + "/verif/lib")
import vt
vt.VERIF, vt.REPO, vt.SPEC, vt.OUT = W + "/verif", W + "/repo", W + "/verif/spec", W + "/verif/out"
real = vt.tlc
def tlc(*a, **k):
    k["workers"] = 3; k["heap"] = "4g"
    return real(*a, **k)
vt.tlc = tlc
import checks
c = vt.Check(sys.argv[2], "quick", int(sys.argv[3]))
model = c.model
c.model = lambda m, *a, **k: None if m.startswith("MCCrn") and m != "MCCrnWrite" or m == "MCImage" else model(m, *a, **k)
try:
    sys.exit(checks.CHECKS[sys.argv[2]](c))
except vt.ToolError as e:
    print("TOOL ERROR", e); sys.exit(2)
"""


def setup(k):
    w = f"{WORK}/{k}"
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
    os.makedirs(w + "/verif")
    for d in ("lib", "spec", "harness/src", "harness/Cargo.toml", "harness/Cargo.lock"):
        if os.path.exists("/verif/" + d):
            os.makedirs(os.path.dirname(f"{w}/verif/{d}"), exist_ok=True)
            subprocess.run(["cp", "-a", "/verif/" + d, f"{w}/verif/{d}"], check=True)
    t = open(w + "/verif/harness/Cargo.toml").read().replace('path = "/repo"', f'path = "{w}/repo"')
    open(w + "/verif/harness/Cargo.toml", "w").write(t)
    open(w + "/drive.py", "w").write(DRIVER)
    return w


def one(args):
    (f, ln, old, new, text), pool, seed = args
    w = pool.get()
    try:
        p = f"{w}/repo/src/{f}"
        orig = open(p, newline="").read()
        open(p, "w", newline="").write(text)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TARGET_DIR=w + "/target", CARGO_INCREMENTAL="1",
                   PATH="/root/.cargo/bin:" + os.environ["PATH"])
        try:
            rc, o = sh(["cargo", "test", "--offline", "--no-run", "-q"], w + "/repo", 300, env)
            if rc:
                return f, ln, old, new, "nobuild", ""
            rc, o = sh(["cargo", "test", "--offline", "-q"], w + "/repo", 60, env)
            if rc:
                return f, ln, old, new, "tests", ""
            for q in props(f):
                rc, o = sh(["python3", w + "/drive.py", w, q, str(seed)], w, 900)
                if rc == 1 and "VIOLATION" in o:
                    return f, ln, old, new, "caught", q
                if rc:
                    return f, ln, old, new, "TOOLERROR", q + o[-600:]
            return f, ln, old, new, "SURVIVED", ""
        finally:
            open(p, "w", newline="").write(orig)
    finally:
        pool.put(w)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("-n", type=int, default=20)
    ap.add_argument("-j", type=int, default=3)
    ap.add_argument("-s", type=int, default=1)
    ap.add_argument("files", nargs="+")
    a = ap.parse_args()
    r = random.Random(a.s)
    pool = queue.Queue()
    for k in range(a.j):
        pool.put(setup(f"{os.getpid()}-{k}"))
    todo = [(f, *m) for f in a.files for m in mutants("/repo/src/" + f, r, a.n)]
    r.shuffle(todo)
    tally = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for res in ex.map(one, [(m, pool, a.s) for m in todo]):
            k = res[0] + " " + res[4]
            tally[k] = tally.get(k, 0) + 1
            if res[4] not in ("nobuild", "tests"):
                print(json.dumps(res), flush=True)
    for k in sorted(tally):
        print(k, tally[k])
    for w in list(pool.queue):
        shutil.rmtree(w, ignore_errors=True)


main()
