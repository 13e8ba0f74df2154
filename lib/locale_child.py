"""Run by C11 in interpreters started with various locales: python locale_child.py SRC SEED"""
import io, json, locale, os, random, sys, types
sys.path.insert(0, sys.argv[1])
import rsfile, rsfile.rsfile_utilities as u
ns = types.SimpleNamespace()
u.monkey_patch_io_module(ns)
rng = random.Random(int(sys.argv[2]))
odd = []


def outcome(fn):
    try:
        return ("value", fn())
    except Exception as e:
        return ("raise", type(e).__name__ if isinstance(e, (UnicodeError, LookupError)) else "error")


seen = 0
for n in range(60):
    kw = {}
    if rng.random() < 0.5:
        kw["encoding"] = rng.choice([None, None, "utf-8", "locale", "latin-1"])
    if rng.random() < 0.4:
        kw["errors"] = rng.choice([None, "strict", "replace", "surrogateescape", "ignore", "backslashreplace"])
    if rng.random() < 0.3:
        kw["newline"] = rng.choice([None, "", "\n", "\r\n"])
    data = rng.choice([b"plain\n", b"\xc3\xa9t\xc3\xa9\r\n", b"\xe9\xff\n", b""])
    txt = rng.choice(["plain\n", "\xe9t\xe9\n", "\u65e5\u672c", "\udcff"])
    mode = rng.choice(["r", "w", "a", "r+"])
    outs = []
    for lib in (io.open, ns.open, lambda *a, **k: rsfile.rsopen(*a, locking=False, **k), lambda *a, **k: rsfile.rsopen(*a, thread_safe=False, **k)):
        with io.open("f", "wb") as f:
            f.write(data)

        def go():
            s = lib("f", mode, **kw)
            try:
                res = [s.encoding.lower(), s.errors]
                if mode in ("r", "r+"):
                    res.append(outcome(s.read))
                else:
                    res.append(outcome(lambda: s.write(txt)))
                return res
            finally:
                s.close()
        o = outcome(go)
        with io.open("f", "rb") as f:
            outs.append((o, f.read()))
    seen += 1
    if any(o != outs[0] for o in outs[1:]):
        odd.append((mode, repr(kw), repr(data), ascii(txt), ascii(outs)))
    if n % 6 == 0:
        def write():
            rsfile.write_to_file("f", txt, **kw)
            with io.open("f", "rb") as f:
                return f.read()

        def reference():
            with io.open("f", "w", **kw) as f:
                f.write(txt)
            with io.open("f", "rb") as f:
                return f.read()
        a, b = outcome(reference), outcome(write)
        if a != b:
            odd.append(("write_to_file", repr(kw), ascii(txt), ascii(a), ascii(b)))
        if a[0] == "value":
            def readback():
                with io.open("f", "r", **kw) as f:
                    return f.read()
            a, b = outcome(readback), outcome(lambda: rsfile.read_from_file("f", **kw))
            if a != b:
                odd.append(("read_from_file", repr(kw), ascii(txt), ascii(a), ascii(b)))
print(json.dumps([seen, odd, locale.getpreferredencoding(False)]))
