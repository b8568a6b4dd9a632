"""Plumbing of the checks: build the harness from /repo's working tree, run vectors through it,
run TLC on the recorded trace, report and write evidence.  It judges nothing itself: verdicts
come from the TLA+ modules in /verif/spec."""
import hashlib, json, os, random, re, shutil, struct, subprocess, sys, tempfile, time

VERIF = "/verif"
REPO = "/repo"
SPEC = VERIF + "/spec"
OUT = VERIF + "/out"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PYTHON = "/opt/vp/venv/bin/python"


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0",
             PYO3_PYTHON=PYTHON, PYTHONDONTWRITEBYTECODE="1")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:" + e.get("PATH", "")
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def tree_hash():
    """Hash of the sources the harness and the bindings are built from."""
    h = hashlib.sha256()
    roots = [REPO + "/src", REPO + "/bindings/python/src", VERIF + "/harness/src", VERIF + "/harness32", VERIF + "/harness_be"]
    files = [REPO + "/Cargo.toml", REPO + "/bindings/python/Cargo.toml", VERIF + "/harness/Cargo.toml"]
    for r in roots:
        for d, ds, fs in os.walk(r):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        h.update(f.encode())
        with open(f, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def target_dir():
    """One cargo target directory per state of the sources, so that a build is never stale."""
    base = VERIF + "/harness/target"
    os.makedirs(base, exist_ok=True)
    mine = tree_hash()
    for d in os.listdir(base):
        if d != mine and re.fullmatch(r"[0-9a-f]{16}", d):
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
    return os.path.join(base, mine)


def build(profile="release"):
    """Profiles: release (overflow checks on), shipped (as users have it), noalloc (release without the alloc feature)."""
    td = target_dir()
    if profile == "noalloc":
        profile, td, more = "release", td + "/noalloc", ["--no-default-features"]
    else:
        more = []
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", td] + more
    r = subprocess.run(cmd, cwd=VERIF + "/harness", env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness does not build:\n" + r.stderr[-4000:])
    return f"{td}/{profile}/t2d-harness"


def sysroot32():
    """A sysroot for wasm32 with core and alloc, built from the sources that come with the nightly toolchain:
    the installed toolchains have a standard library for this machine only."""
    s = VERIF + "/harness/target/sysroot32"
    lib = s + "/lib/rustlib/wasm32-unknown-unknown/lib"
    if os.path.exists(s + "/done"):
        return s
    e = env()
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    root = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
    src = root + "/lib/rustlib/src/rust/library"
    e.update(RUSTC_BOOTSTRAP="1", RUSTFLAGS="-Cpanic=abort -Zforce-unstable-if-unmarked")
    e["__CARGO_DEFAULT_LIB_METADATA"] = "vt"
    shutil.rmtree(s, ignore_errors=True)
    os.makedirs(lib)
    cmd = ["cargo", "build", "--offline", "--quiet", "--release", "--locked", "--target", "wasm32-unknown-unknown",
           "--target-dir", s + "/build", "--manifest-path", src + "/alloc/Cargo.toml",
           "--config", 'source.crates-io.replace-with="vendored-sources"',
           "--config", f'source.vendored-sources.directory="{src}/vendor"', "--features", "compiler-builtins-mem"]
    r = subprocess.run(cmd, env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("no sysroot for wasm32:\n" + r.stderr[-4000:])
    for d, _, fs in os.walk(s + "/build/wasm32-unknown-unknown"):
        for f in fs:
            if re.fullmatch(r"lib(core|alloc|compiler_builtins)-\w+\.(rlib|rmeta)", f):
                shutil.copy(os.path.join(d, f), lib)
    shutil.rmtree(s + "/build", ignore_errors=True)
    open(s + "/done", "w").close()
    return s


def build32(profile="release"):
    """The crate for a 32-bit target, with a driver under Node that takes the arguments of the harness."""
    td = target_dir() + "/w32"
    e = env()
    e.update(RUSTUP_TOOLCHAIN="nightly", RUSTFLAGS="--sysroot " + sysroot32())
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target", "wasm32-unknown-unknown",
                        "--target-dir", td], cwd=VERIF + "/harness32", env=e, capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("harness32 does not build:\n" + r.stderr[-4000:])
    b = f"{td}/t2d-{profile}"
    with open(b, "w") as f:
        f.write(f'#!/bin/sh\nexec node {VERIF}/harness32/run.mjs {td}/wasm32-unknown-unknown/{profile}/t2d_harness32.wasm "$@"\n')
    os.chmod(b, 0o755)
    return b


BE = "s390x-unknown-linux-gnu"


class Miri:
    """The crate on a big-endian machine, interpreted by Miri."""
    def __init__(self):
        e = env()
        e.update(RUSTUP_TOOLCHAIN="nightly", CARGO_TARGET_DIR=target_dir() + "/miri")
        sysroot = VERIF + "/harness/target/sysroot-be"
        if not os.path.exists(sysroot + "/done"):
            # the standard library for that machine, from the sources that come with the nightly toolchain
            shutil.rmtree(sysroot, ignore_errors=True)
            os.makedirs(sysroot + "/cargo")
            root = subprocess.run(["rustc", "--print", "sysroot"], env=e, capture_output=True, text=True).stdout.strip()
            with open(sysroot + "/cargo/config.toml", "w") as f:
                f.write('[source.crates-io]\nreplace-with = "vendored-sources"\n[source.vendored-sources]\n'
                        f'directory = "{root}/lib/rustlib/src/rust/library/vendor"\n[net]\noffline = true\n')
            s = dict(e, CARGO_HOME=sysroot + "/cargo", MIRI_SYSROOT=sysroot, RUSTUP_HOME="/root/.rustup")
            s.pop("CARGO_TARGET_DIR")
            r = subprocess.run(["cargo", "miri", "setup", "--target", BE], env=s, capture_output=True, text=True)
            if r.returncode != 0:
                raise ToolError("no sysroot for Miri:\n" + r.stderr[-4000:])
            open(sysroot + "/done", "w").close()
        # the crate has no unsafe code: Miri is used as an interpreter only
        e.update(MIRI_SYSROOT=sysroot, MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks -Zmiri-disable-validation "
                 "-Zmiri-disable-stacked-borrows -Zmiri-disable-alignment-check")
        self.env = e
        self.cmd = ["cargo", "miri", "run", "--offline", "--quiet", "--target", BE, "--"]
        open(target_dir() + "-none", "w").close()
        r = subprocess.run(self.cmd + [target_dir() + "-none", "/dev/null"], cwd=VERIF + "/harness_be", env=e, capture_output=True, text=True)
        os.remove(target_dir() + "-none")
        if r.returncode != 0:
            raise ToolError("harness_be does not build:\n" + r.stderr[-4000:])

    def record(self, vecs, work, name, procs=8, limit=150):
        """Makes the calls; returns the trace.  A call that does not come back is recorded as such."""
        inp, outp = f"{work}/{name}.in", f"{work}/{name}.bin"
        ps = []
        for k in range(procs):
            with open(f"{inp}.{k}", "wb") as f:
                for v in vecs[k::procs]:
                    n = v.f.encode()
                    f.write(struct.pack("<8I", len(n), v.w, v.h, v.a, v.b, v.n, v.fill, len(v.d)) + n + v.d)
            ps.append(subprocess.Popen(self.cmd + [f"{inp}.{k}", f"{outp}.{k}"], cwd=VERIF + "/harness_be", env=self.env,
                                       stdout=subprocess.DEVNULL, stderr=open(f"{outp}.{k}.err", "w"), start_new_session=True))
        # a process whose output does not grow for `limit` seconds (a call takes one or two) is stuck
        grown = {k: (0, time.time()) for k in range(procs)}
        while any(p.poll() is None for p in ps):
            time.sleep(0.3)
            for k, p in enumerate(ps):
                n = os.path.getsize(f"{outp}.{k}") if os.path.exists(f"{outp}.{k}") else 0
                if n != grown[k][0]:
                    grown[k] = n, time.time()
                elif p.poll() is None and time.time() - grown[k][1] > limit:
                    os.killpg(p.pid, 9)
        recs = {}
        for k, p in enumerate(ps):
            err = open(f"{outp}.{k}.err").read().strip()
            p.wait()
            why = "hang" if p.returncode == -9 else err[-300:] or f"status {p.returncode}"
            b = open(f"{outp}.{k}", "rb").read() if os.path.exists(f"{outp}.{k}") else b""
            if not b:
                raise ToolError("Miri did not start: " + str(why))
            order = ">" if b[:4] == bytes([1, 2, 3, 4]) else "<"
            at = 4
            for i in range(k, len(vecs), procs):
                v = vecs[i]
                rec = {"i": i, "f": v.f, "w": min(v.w, 1 << 30), "h": min(v.h, 1 << 30), "a": min(v.a, 1 << 30), "b": min(v.b, (1 << 31) - 1),
                       "n": v.n, "o": i32(v.fill)}
                h = struct.unpack(order + "2I9i", b[at:at + 44]) if len(b) - at >= 44 else None
                if h is None or len(b) - at < 44 + h[1] + 4 * v.n:
                    rec.update(r="died", e=re.sub(r'["\\\x00-\x1f]', "_", why or "?"), d=list(v.d), p=[])
                    recs[i] = rec
                    break
                e = b[at + 44:at + 44 + h[1]].decode()
                at += 44 + h[1]
                rec.update(r=("ok", "err", "panic", "corrupted")[h[0]], e=e)
                if v.f == "info":
                    rec.update(zip(("ok", "iw", "ih", "lv", "fc", "bpb", "u0", "u1", "fmt"), h[2:]))
                rec.update(d=list(v.d), p=list(struct.unpack(f"{order}{v.n}i", b[at:at + 4 * v.n])))
                at += 4 * v.n
                recs[i] = rec
        path = f"{work}/{name}.ndjson"
        with open(path, "w") as f:
            for i in sorted(recs):
                f.write(json.dumps(recs[i], separators=(",", ":")) + "\n")
        return path


def build_python(profile="dev"):
    """The extension module; returns the directory it can be imported from."""
    td = target_dir()
    cmd = ["cargo", "build", "--offline", "--quiet", "--profile", profile, "--target-dir", td + "/py"]
    r = subprocess.run(cmd, cwd=REPO + "/bindings/python", env=env(), capture_output=True, text=True)
    if r.returncode != 0:
        raise ToolError("the bindings do not build:\n" + r.stderr[-4000:])
    d = f"{td}/py/mod-{profile}"
    os.makedirs(d, exist_ok=True)
    shutil.copy(f"{td}/py/{'debug' if profile == 'dev' else profile}/libtexture2ddecoder_rs.so", d + "/texture2ddecoder_rs.so")
    return d


def record_python(mod, vecs, work, name, threads=4, limit=300):
    """Makes the calls from Python; returns the records in order.  The call an interpreter dies in, or
    does not come back from, is recorded as such."""
    inp, outp = f"{work}/{name}.in", f"{work}/{name}.out"
    recs, todo = {}, list(range(len(vecs)))
    for attempt in range(4):
        k = threads if attempt == 0 else 1
        with open(inp, "w") as f:
            for i in todo:
                f.write(vecs[i].line(i) + "\n")
        what = None
        try:
            r = subprocess.run([PYTHON, "-B", VERIF + "/lib/pyrec.py", mod, inp, outp, str(k)], env=env(),
                               capture_output=True, text=True, timeout=limit)
            if r.returncode > 0:
                raise ToolError("pyrec.py failed:\n" + r.stderr[-3000:])
            if r.returncode < 0:
                what = f"signal {-r.returncode}"
        except subprocess.TimeoutExpired:
            what = "hang"
        for q in range(k):
            if os.path.exists(f"{outp}.{q}"):
                for line in open(f"{outp}.{q}"):
                    if line.endswith("\n"):
                        x = json.loads(line)
                        recs[x["i"]] = x
                os.remove(f"{outp}.{q}")
        todo = [i for i in todo if i not in recs]
        if not todo:
            break
        if k == 1 and what:
            v = vecs[todo[0]]
            recs[todo[0]] = {"i": todo[0], "f": v.f, "w": min(v.w, 1 << 30), "h": min(v.h, 1 << 30), "a": v.a, "b": v.b, "n": 0, "o": 0,
                             "r": "died", "e": what, "s": 1, "u": 1, "d": list(v.d), "p": []}
            todo = todo[1:]
    return [recs[i] for i in sorted(recs)]


class Vec:
    """One call to make."""
    __slots__ = ("f", "w", "h", "a", "b", "n", "fill", "d")

    def __init__(self, f, d, w=4, h=4, a=0, b=0, n=None, fill=0x12345678):
        self.f, self.d, self.w, self.h, self.a, self.b = f, d, w, h, a, b
        self.n = w * h if n is None else n
        self.fill = fill

    def line(self, i):
        return f"{i} {self.f} {self.w} {self.h} {self.a} {self.b} {self.n} {self.fill} {self.d.hex() or '-'}"


def i32(x):
    return x - (1 << 32) if x >= 1 << 31 else x


def record(binary, vecs, work, name, threads=8, limit=20):
    """Runs the vectors and returns the path of the merged ndjson trace, in input order.
    A vector the process dies on, or does not return from, is recorded as such, and the rest
    is run without it."""
    recs, died = [None] * len(vecs), 0
    todo = list(range(len(vecs)))
    for attempt in range(12):
        inp, outp = f"{work}/{name}.in", f"{work}/{name}.out"
        with open(inp, "w") as f:
            for i in todo:
                f.write(vecs[i].line(i) + "\n")
        r = subprocess.run([binary, inp, outp, str(threads), str(limit)], capture_output=True, text=True)
        if r.returncode not in (0, 75) and r.returncode >= 0:
            raise ToolError(f"harness exited with {r.returncode}: {r.stderr[-2000:]}")
        for k in range(threads):
            p = f"{outp}.{k}"
            if os.path.exists(p):
                for line in open(p):
                    if line.endswith("\n"):
                        recs[int(re.match(r'\{"i":(\d+)', line).group(1))] = line
                os.remove(p)
        left = [i for i in todo if recs[i] is None]
        if not left:
            break
        # the first unfinished vector of each thread is a suspect: try each alone
        suspects, seen = [], set()
        for pos, i in enumerate(todo):
            if recs[i] is None and pos % threads not in seen:
                seen.add(pos % threads)
                suspects.append(i)
        for i in suspects:
            with open(inp, "w") as f:
                f.write(vecs[i].line(i) + "\n")
            r = subprocess.run([binary, inp, outp, "1", str(limit)], capture_output=True, text=True)
            ls = open(outp + ".0").read() if os.path.exists(outp + ".0") else ""
            if r.returncode == 0 and ls.endswith("\n"):
                recs[i] = ls
                continue
            if r.returncode not in (0, 75) and r.returncode >= 0:
                raise ToolError(f"harness exited with {r.returncode}: {r.stderr[-2000:]}")
            v = vecs[i]
            what = "hang" if r.returncode == 75 else f"signal {-r.returncode}"
            died += 1
            sat = lambda x: min(x, 1 << 30)
            recs[i] = json.dumps({"i": i, "f": v.f, "w": sat(v.w), "h": sat(v.h), "a": sat(v.a), "b": min(v.b, (1 << 31) - 1), "n": v.n,
                                  "o": i32(v.fill), "r": "died", "e": what, "d": list(v.d), "p": []},
                                 separators=(",", ":")) + "\n"
        todo = [i for i in todo if recs[i] is None]
        if not todo or died >= 16:
            break
    else:
        # too many dead calls: what was recorded is enough to reject
        pass
    path = f"{work}/{name}.ndjson"
    with open(path, "w") as f:
        for x in recs:
            if x is not None:
                f.write(x)
    return path


def stress(binary, vecs, work, name, threads=8, rounds=10, limit=60):
    """Every thread makes every call `rounds` times; returns the distinct records seen, as
    (index, line) pairs.  If the process does not survive, that is recorded as one more outcome."""
    inp, outp = f"{work}/{name}.in", f"{work}/{name}.out"
    with open(inp, "w") as f:
        for i, v in enumerate(vecs):
            f.write(v.line(i) + "\n")
    r = subprocess.run([binary, inp, outp, str(threads), str(limit), str(rounds)], capture_output=True, text=True)
    if r.returncode not in (0, 75) and r.returncode >= 0:
        raise ToolError(f"harness exited with {r.returncode}: {r.stderr[-2000:]}")
    seen = set()
    for k in range(threads):
        p = f"{outp}.{k}"
        if os.path.exists(p):
            for line in open(p):
                if line.endswith("\n"):
                    seen.add((int(re.match(r'\{"i":(\d+)', line).group(1)), line))
            os.remove(p)
    if r.returncode != 0:
        v = vecs[0]
        what = "hang" if r.returncode == 75 else f"signal {-r.returncode}"
        seen.add((0, json.dumps({"i": 0, "f": v.f, "w": v.w, "h": v.h, "a": v.a, "b": v.b, "n": v.n, "o": i32(v.fill),
                                 "r": "died", "e": f"{what} while {threads} threads were decoding",
                                 "d": list(v.d), "p": []}, separators=(",", ":")) + "\n"))
    return sorted(seen)


def read_lines(path):
    with open(path) as f:
        return [(int(re.match(r'\{"i":(\d+)', x).group(1)), x) for x in f]


class TlcResult:
    def __init__(self, states, generated, violated, l, text, coverage=None):
        self.states, self.generated, self.violated, self.l, self.text = states, generated, violated, l, text


def tlc(module, work, trace=None, cfg=None, extra=(), workers=8, timeout=800, heap="12g", envs=None):
    meta = tempfile.mkdtemp(prefix="tlc", dir=work)
    e = env()
    if trace:
        e["TRACE"] = trace
    if envs:
        e.update(envs)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg", *extra, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError(f"TLC on {module} took more than {timeout} s")
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    t = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", t)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    viol = re.search(r"Invariant (\S+) is violated|Action property (\S+) is violated|"
                     r"Temporal properties were violated|Assumption .* is false|Postcondition (\S+) is violated", t)
    if "Model checking completed. No error has been found." in t:
        return TlcResult(dist, gen, None, None, t)
    if viol:
        ls = re.findall(r"\bl = (\d+)", t)
        return TlcResult(dist, gen, viol.group(0), int(ls[-1]) if ls else None, t)
    raise ToolError(f"TLC on {module} failed:\n" + t[-6000:] + r.stderr[-2000:])


def trace_line(path, l):
    with open(path) as f:
        for k, line in enumerate(f, 1):
            if k == l:
                return json.loads(line)
    return None


def count_lines(path):
    with open(path) as f:
        return sum(1 for _ in f)


def shorten(rec):
    for k in ("d", "p"):
        if isinstance(rec.get(k), list) and len(rec[k]) > 64:
            rec[k] = rec[k][:64] + [f"... {len(rec[k])} in all"]
    return rec


class Check:
    """One run of one check: collects what was explored, and ends with exit 0 or 1."""

    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.t0 = time.time()
        self.thorough = tier == "thorough"
        self.rng = random.Random(f"{pid}/{seed}")
        self.work = tempfile.mkdtemp(prefix=f"vt-{pid}-")
        self.states = self.transitions = self.traces = 0
        self.samples, self.cov, self.violations = [], {}, []
        self.assumptions = []
        self._bin = {}

    def scale(self, quick, thorough):
        return thorough if self.thorough else quick

    def bin(self, profile="release"):
        if profile not in self._bin:
            self._bin[profile] = (build32(profile[3:] or "release") if profile.startswith("w32") else
                                  Miri() if profile == "be" else build(profile))
        return self._bin[profile]

    def model(self, module, cfg=None, consts=None, **kw):
        """Model-check a specification on its own (consts: values in place of the configuration's)."""
        use = cfg
        if consts:
            t = open(f"{SPEC}/{cfg or module}.cfg").read()
            for k, v in consts.items():
                t, n = re.subn(rf"(?m)^  {k} = .*$", f"  {k} = {v}", t)
                assert n == 1, k
            use = f"{self.work}/{cfg or module}"
            with open(use + ".cfg", "w") as f:
                f.write(t)
        r = tlc(module, self.work, cfg=use, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.cov.setdefault("models", {})[cfg or module] = {"distinct_states": r.states, "generated": r.generated}
        if r.violated:
            # the specification itself is inconsistent: never the code's fault
            raise ToolError(f"the model {cfg or module} is broken: {r.violated}\n" + r.text[-3000:])
        return r

    def conform(self, vecs, name="calls", module="TraceCalls", profile="release", threads=8, cfg=None, limit=20, **kw):
        """Run the vectors, then check the recorded trace against a trace specification."""
        if isinstance(vecs, str):
            path = vecs
        else:
            b = self.bin(profile)
            path = (b.record(vecs, self.work, f"{name}-{profile}") if profile == "be" else
                    record(b, vecs, self.work, f"{name}-{profile}", threads=threads, limit=limit))
        return self.judge(path, name, module, cfg=cfg, **kw)

    def judge(self, path, name, module, cfg=None, **kw):
        n = count_lines(path)
        r = tlc(module, self.work, trace=path, cfg=cfg, **kw)
        self.states += r.states
        self.transitions += r.generated
        self.traces += n
        c = self.cov.setdefault("traces", {}).setdefault(name, {"calls": 0, "states": 0})
        c["calls"] += n
        c["states"] += r.states
        if len(self.samples) < 4:
            with open(path) as f:
                for line in f:
                    if len(line) < 3000:
                        self.samples.append(shorten(json.loads(line)))
                        break
        if r.violated:
            self.report(name, module, path, r)
            return False
        return True

    def report(self, name, module, path, r):
        os.makedirs(OUT, exist_ok=True)
        rep = f"{OUT}/replay-{self.pid}-{name}.json"
        rec = trace_line(path, r.l) if r.l else None
        body = {"property": self.pid, "trace_spec": module, "rejected": r.violated, "position": r.l,
                "call": rec, "tlc": r.text[-3000:] if not rec else None,
                "reproduce": "re-run the harness on `call` (fields f,w,h,a,b,n,o,d) and compare r,e,p "
                             f"with /verif/spec/{module}.tla; TRACE=<file with this line> tlc {module}.tla"}
        if rec:
            with open(rep + ".ndjson", "w") as f:
                f.write(json.dumps(rec) + "\n")
        with open(rep, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append(rep)

    def verdict(self, name, body):
        """A violation that shows before any call can be made."""
        os.makedirs(OUT, exist_ok=True)
        rep = f"{OUT}/replay-{self.pid}-{name}.json"
        with open(rep, "w") as f:
            json.dump(body, f, indent=1)
        self.violations.append(rep)

    def finish(self, level="model_checking", **coverage):
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces, "samples": self.samples[:4] or ["(none)"]}
        cov.update(self.cov)
        cov.update(coverage)
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 1),
              "violations": len(self.violations)}
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        for v in self.violations[:1]:
            print(f"VIOLATION property={self.pid} replay={v}")
        return 1 if self.violations else 0
