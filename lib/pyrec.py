"""Recorder for the Python bindings; runs under the interpreter the extension module is built for.
usage: pyrec.py MODULE_DIR IN OUT THREADS.  Makes the calls of IN (lines as for the harness; w and h
are given to the function as they are, `a' and `b' only to decode_astc) and writes a JSON line for each:
  r  ok | err (ValueError) | exc (another Exception) | panic (anything else), e its text
  p  on success the bytes that were returned, s whether it was a bytes object, u whether the data is unchanged
A line whose function starts with "!" is called with arguments of the wrong kind (number a)."""
import json, sys, threading
sys.path.insert(0, sys.argv[1])
import texture2ddecoder_rs as t

WRONG = [lambda d, w, h: (bytearray(d), w, h), lambda d, w, h: (d, -1, h), lambda d, w, h: (d, w, -5),
         lambda d, w, h: (None, w, h), lambda d, w, h: (d, w), lambda d, w, h: (d, 1.5, h), lambda d, w, h: (d, w, "4"),
         lambda d, w, h: (d, 1 << 64, h), lambda d, w, h: (d, w, 1 << 70), lambda d, w, h: (d.hex(), w, h),
         lambda d, w, h: (), lambda d, w, h: (memoryview(d), w, h)]


def sat(x):
    return min(x, 1 << 30)


def one(line):
    i, f, w, h, a, b, n, fill, d = line.split()
    i, w, h, a, b = int(i), int(w), int(h), int(a), int(b)
    d = b"" if d == "-" else bytes.fromhex(d)
    before = bytes(bytearray(d))
    fn = getattr(t, "decode_" + f.lstrip("!"), None)
    rec = {"i": i, "f": f, "w": sat(w), "h": sat(h), "a": sat(a), "b": sat(b), "n": sat(w * h) if w * h < 1 << 20 else 0,
           "o": 0, "r": "ok", "e": "", "s": 1, "u": 1, "d": list(before), "p": []}
    args = WRONG[a](d, w, h) if f[0] == "!" else (d, w, h, a, b) if f == "astc" else (d, w, h)
    try:
        if f[0] != "!" and fill == "1":
            x = fn(**dict(zip(("data", "width", "height", "block_width", "block_height"), args)))
        else:
            x = fn(*args)
        rec["s"] = int(type(x) is bytes)
        rec["p"] = list(bytes(x))
        hash(x)
    except ValueError as e:
        rec["r"], rec["e"] = "err", str(e)
    except Exception as e:
        rec["r"], rec["e"] = "exc", type(e).__name__
    except BaseException as e:
        rec["r"], rec["e"] = "panic", str(e)
    rec["u"] = int(d == before)
    return json.dumps(rec, separators=(",", ":")) + "\n"


lines = open(sys.argv[2]).read().splitlines()
threads = int(sys.argv[4])


def work(k):
    with open(f"{sys.argv[3]}.{k}", "w") as o:
        for line in lines[k::threads]:
            s = one(line)
            o.write(s)
            o.flush()


ts = [threading.Thread(target=work, args=(k,)) for k in range(threads)]
for x in ts:
    x.start()
for x in ts:
    x.join()
