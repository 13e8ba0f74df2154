"""Ordinary programs, which use files through open(), the io classes and the standard library.

Each takes (rng, d) with d an empty directory, and returns a value; a run with the standard io module is compared with a run on rsfile.
"""
import os, sys


def words(rng, n=None):
    n = rng.choice([0, 1, 3, 20, 200]) if n is None else n
    return [rng.choice(["alpha", "béta", "x", "", "two words", "line\nbreak", "tab\t", "\"quoted\"", "日本", "a,b;c", "\r\n", "0" * 50]) for _ in range(n)]


def blob(rng):
    n = rng.choice([0, 1, 100, 5000, 70000, 200000])
    return (bytes(rng.randrange(256) for _ in range(min(n, 300))) * (1 + n // 300))[:n]


def c_csv(rng, d):
    import csv
    p = os.path.join(d, "t.csv")
    dialect = rng.choice(["excel", "unix", "excel-tab"])
    rows = [words(rng, rng.choice([1, 3, 5])) for _ in range(rng.choice([0, 1, 30, 300]))]
    with open(p, "w", newline="", encoding="utf-8") as f:
        w = csv.writer(f, dialect=dialect)
        w.writerows(rows)
    with open(p, newline="", encoding="utf-8") as f:
        out = list(csv.reader(f, dialect=dialect))
    with open(p, "a+", newline="", encoding="utf-8") as f:
        csv.writer(f).writerow(["end", 1])
        f.seek(0)
        n = sum(1 for _ in f)
    return out, n


def c_json(rng, d):
    import json
    p = os.path.join(d, "t.json")
    obj = {w: words(rng) for w in words(rng)}
    with open(p, "w") as f:
        json.dump(obj, f, indent=rng.choice([None, 2]), ensure_ascii=rng.random() < 0.5)
    with open(p, "rb") as f:
        a = json.load(f)
    with open(p, "r+") as f:
        x = json.load(f)
        f.seek(0)
        f.truncate()
        json.dump([x, 1], f)
    return a == obj, json.load(open(p))


def c_pickle(rng, d):
    import pickle
    p = os.path.join(d, "t.pkl")
    obj = [words(rng), blob(rng), {1: 2.5}]
    with open(p, "wb", buffering=rng.choice([-1, 0, 10])) as f:
        if rng.random() < 0.5:
            pickle.dump(obj, f)
            pickle.dump(obj[0], f)
        else:
            k = pickle.Pickler(f, rng.choice([0, 2, 5]))
            k.dump(obj)
            k.dump(obj[0])
    with open(p, "rb") as f:
        u = pickle.Unpickler(f)
        return u.load() == obj, u.load() == obj[0], f.read(), f.tell()


def c_config(rng, d):
    import configparser
    p = os.path.join(d, "t.ini")
    c = configparser.ConfigParser(interpolation=None)
    for i in range(rng.choice([0, 3, 20])):
        c["s%d" % i] = {"k%d" % j: "v%d" % rng.randrange(100) for j in range(5)}
    with open(p, "w") as f:
        c.write(f)
    e = configparser.ConfigParser(interpolation=None)
    return e.read([p, os.path.join(d, "missing")]) == [p], {s: dict(e[s]) for s in e.sections()} == {s: dict(c[s]) for s in c.sections()}


def c_shelve(rng, d):
    import dbm.dumb, shelve
    p = os.path.join(d, "shelf")
    n = rng.choice([1, 10, 60])
    with shelve.Shelf(dbm.dumb.open(p, "c")) as s:
        for i in range(n):
            s["k%d" % i] = words(rng)
        for i in range(0, n, 3):
            del s["k%d" % i]
    with shelve.Shelf(dbm.dumb.open(p, "r")) as s:
        return sorted((k, s[k]) for k in s)


def c_zip(rng, d):
    import zipfile
    p = os.path.join(d, "t.zip")
    how = rng.choice([zipfile.ZIP_STORED, zipfile.ZIP_DEFLATED, zipfile.ZIP_BZIP2])
    with zipfile.ZipFile(p, "w", how) as z:
        for i in range(rng.choice([0, 1, 5])):
            z.writestr(zipfile.ZipInfo("m%d" % i, (2000, 1, 1, 0, 0, 0)), blob(rng))
    with zipfile.ZipFile(p, "a") as z:
        with z.open(zipfile.ZipInfo("stream"), "w") as f:
            f.write(blob(rng))
    with zipfile.ZipFile(p) as z:
        z.testzip()
        z.extractall(os.path.join(d, "x"))
        with z.open("stream") as f:
            a = f.read(10), f.readline()
        with open(p, "rb") as f:
            b = zipfile.is_zipfile(f)
        return z.namelist(), a, b


def c_tar(rng, d):
    import tarfile
    src = os.path.join(d, "src")
    os.mkdir(src)
    for i in range(3):
        with open(os.path.join(src, "f%d" % i), "wb") as f:
            f.write(blob(rng))
        os.utime(os.path.join(src, "f%d" % i), (1, 1))
        os.chmod(os.path.join(src, "f%d" % i), 0o640)
    kind = rng.choice(["", ":bz2", ":xz"])
    p = os.path.join(d, "t.tar")
    with tarfile.open(p, "w" + kind) as t:
        for i in range(3):
            t.add(os.path.join(src, "f%d" % i), "f%d" % i)
    with tarfile.open(p, rng.choice(["r", "r|*", "r:*"])) as t:
        t.extractall(os.path.join(d, "out"), filter="data")
    with open(p, "rb") as f, tarfile.open(fileobj=f) as t:
        return t.getnames()


def c_gzip(rng, d):
    import bz2, gzip, lzma
    p = os.path.join(d, "t.gz")
    data = blob(rng)
    with gzip.GzipFile(p, "wb", mtime=0) as f:
        f.write(data)
    with open(p, "ab") as g, gzip.GzipFile("x", "wb", fileobj=g, mtime=0) as f:
        f.write(b"second member")
    with gzip.open(p, "rb") as f:
        a = f.read(10), f.seek(5), f.read() == data[5:] + b"second member"
    with bz2.open(p + "2", "wt", encoding="utf-8") as f:
        f.writelines(w + "\n" for w in words(rng))
    with bz2.open(p + "2", "rt", encoding="utf-8") as f:
        b = list(f)
    with lzma.open(p + "x", "wb") as f:
        f.write(data)
    with open(p + "x", "rb") as g, lzma.open(g) as f:
        c = f.read() == data
    return a, b, c


def c_copy(rng, d):
    import filecmp, hashlib, shutil
    a, b = os.path.join(d, "a"), os.path.join(d, "b")
    data = blob(rng)
    with open(a, "wb") as f:
        f.write(data)
    os.chmod(a, rng.choice([0o600, 0o755]))
    rng.choice([shutil.copyfile, shutil.copy, shutil.copy2])(a, b)
    with open(a, "rb") as f, open(os.path.join(d, "c"), "wb") as g:
        f.seek(min(3, len(data)))
        shutil.copyfileobj(f, g, rng.choice([0, 1, 7, 100000]) or 1000 if len(data) < 6000 else 5000)
    with open(b, "rb") as f:
        h = hashlib.file_digest(f, "sha256").hexdigest()
    os.mkdir(os.path.join(d, "tree"))
    with open(os.path.join(d, "tree", "z"), "x") as f:
        print("line", 1, file=f, flush=True)
    shutil.copytree(os.path.join(d, "tree"), os.path.join(d, "tree2"))
    shutil.move(os.path.join(d, "c"), os.path.join(d, "moved"))
    return filecmp.cmp(a, b, shallow=False), h


def c_fdopen(rng, d):
    p = os.path.join(d, "f")
    fd = os.open(p, os.O_RDWR | os.O_CREAT, 0o644)
    with os.fdopen(fd, "w") as f:
        f.write("text\n" * 3)
    fd = os.open(p, os.O_RDWR)
    with os.fdopen(fd, "w+b", buffering=rng.choice([0, -1]), closefd=False) as f:
        a = f.read(4)
        f.seek(2)
        f.write(b"XX")
    b = os.lseek(fd, 0, 1), os.pread(fd, 100, 0)
    os.close(fd)
    r, w = os.pipe()
    with open(r, "rb") as x, open(w, "wb", 0) as y:
        y.write(b"abc\ndef")
        c = x.readline(), x.peek()[:1], x.seekable()
        y.close()
        c += (x.read(),)
    return a, b, c


def c_subprocess(rng, d):
    import subprocess
    text = rng.random() < 0.5
    data = "".join(words(rng)) if text else blob(rng)
    kw = dict(encoding="utf-8") if text else {}
    r = subprocess.run(["cat"], input=data, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)
    q = subprocess.Popen(["sh", "-c", "echo one; echo two >&2; exit 3"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=rng.choice([-1, 0, 1 if text else -1, 100]), text=text)
    with q:
        lines = list(q.stdout), q.stderr.read()
    p = os.path.join(d, "out")
    with open(p, "w") as f:
        f.write("head\n")
        f.flush()
        subprocess.check_call(["echo", "child"], stdout=f)
        f.write("tail\n")
    with open(p, "rb") as f:
        return r.stdout == data if not text else r.stdout, r.stderr, lines, q.returncode, f.readlines(), subprocess.check_output(["head", "-c3"], stdin=open(p))


def c_socket(rng, d):
    import socket, threading
    a, b = socket.socketpair()
    data = blob(rng)

    def serve():
        with b, b.makefile("rwb") as f:
            while True:
                line = f.readline()
                if not line:
                    break
                f.write(line.upper())
                f.flush()
    t = threading.Thread(target=serve)
    t.start()
    with a:
        with a.makefile("rw", encoding="utf-8", newline="\n") as f:
            out = []
            for w in words(rng, 10):
                f.write("x%dé\n" % len(w))
                f.flush()
                out.append(f.readline())
        a.shutdown(socket.SHUT_WR)
        with a.makefile("rb") as f:
            rest = f.read()
    t.join()
    return out, rest


def c_http(rng, d):
    import http.client, http.server, threading, urllib.request
    body = blob(rng)
    p = os.path.join(d, "served.bin")
    with open(p, "wb") as f:
        f.write(body)

    class H(http.server.SimpleHTTPRequestHandler):
        def log_message(self, *a):
            pass

        def __init__(self, *a):
            super().__init__(*a, directory=d)
    s = http.server.HTTPServer(("127.0.0.1", 0), H)
    t = threading.Thread(target=s.handle_request)
    t.start()
    c = http.client.HTTPConnection("127.0.0.1", s.server_port, timeout=20)
    c.request("GET", "/served.bin")
    r = c.getresponse()
    got = r.read()
    t.join()
    s.server_close()
    c.close()
    with urllib.request.urlopen("file://" + p) as u:
        return r.status, got == body, u.read() == body


def c_tempfile(rng, d):
    import tempfile
    out = []
    with tempfile.TemporaryFile(dir=d, mode=rng.choice(["w+b"]), buffering=rng.choice([-1, 0])) as f:
        f.write(b"abc")
        f.seek(0)
        out.append(f.read())
    with tempfile.NamedTemporaryFile("w+", dir=d, suffix=".t", encoding="utf-8") as f:
        f.write("é\n" * 10)
        f.flush()
        with open(f.name, "rb") as g:
            out.append(g.read())
        out.append(oct(os.stat(f.name).st_mode))
    out.append(sorted(os.listdir(d)))
    with tempfile.SpooledTemporaryFile(20, "w+", dir=d) as f:
        f.write("x" * rng.choice([5, 50]))
        f.seek(0)
        out.append((f.read(), f.closed, f._rolled))
    with tempfile.TemporaryDirectory(dir=d) as t:
        with open(os.path.join(t, "q"), "w"):
            pass
    return out


def c_pathlib(rng, d):
    import pathlib
    p = pathlib.Path(d) / "p.txt"
    p.write_text("\n".join(words(rng)), encoding="utf-8")
    a = p.read_text(encoding="utf-8"), p.read_bytes(), p.stat().st_size
    p.write_bytes(blob(rng))
    with p.open("rb") as f:
        b = f.name == str(p), f.read(5)
    with open(p, "ab") as f:
        b += (f.tell(),)
    try:
        (p / "x").read_text()
        e = None
    except OSError as x:
        e = type(x).__name__, x.errno, x.filename == str(p / "x")
    try:
        p.open("xb")
        g = None
    except OSError as x:
        g = type(x).__name__, x.errno, x.filename == str(p)
    return a, b, e, g


def c_logging(rng, d):
    import logging, logging.handlers
    p = os.path.join(d, "log")
    h = rng.choice([lambda: logging.FileHandler(p, encoding="utf-8"), lambda: logging.FileHandler(p, mode="w", delay=True, encoding="utf-8"),
                    lambda: logging.handlers.RotatingFileHandler(p, maxBytes=500, backupCount=3, encoding="utf-8"), lambda: logging.handlers.WatchedFileHandler(p, encoding="utf-8")])()
    h.setFormatter(logging.Formatter("%(levelname)s %(message)s"))
    log = logging.Logger("x")
    log.addHandler(h)
    for i in range(40):
        log.warning("message %d %s", i, rng.choice(words(rng, 1)))
        if i == 20 and rng.random() < 0.5:
            os.rename(p, p + ".moved") if os.path.exists(p) else None
    h.close()
    return None


def c_fileinput(rng, d):
    import fileinput
    p = [os.path.join(d, "i%d" % i) for i in range(3)]
    for q in p:
        with open(q, "w", encoding="utf-8") as f:
            f.writelines(w.replace("\n", " ").replace("\r", " ") + "\n" for w in words(rng))
    out = []
    with fileinput.input(p, inplace=True, backup=rng.choice(["", ".bak"]), encoding="utf-8") as f:
        for line in f:
            out.append((f.filelineno(), os.path.basename(f.filename()), line))
            print(line.upper(), end="")
    with fileinput.FileInput(p, mode="rb") as f:
        return out, [f.readline() for _ in range(5)]


def c_codecs(rng, d):
    import codecs, linecache, tokenize
    p = os.path.join(d, "c.py")
    src = "# -*- coding: latin-1 -*-\nx = 'é'\ndef f():\n    return x\n"
    with codecs.open(p, "w", "latin-1") as f:
        f.write(src)
    with codecs.open(p, "r", "latin-1") as f:
        a = f.readline(), f.read(), f.tell()
    with tokenize.open(p) as f:
        b = f.encoding, f.read()
    with open(p, "rb") as f:
        c = [t[:2] for t in tokenize.tokenize(f.readline)]
    ns = {}
    with open(p, "rb") as f:
        exec(compile(f.read(), p, "exec"), ns)
    return a, b, c, linecache.getline(p, 2), ns["f"]()


def c_mailbox(rng, d):
    import mailbox
    p = os.path.join(d, "mbox")
    m = mailbox.mbox(p)
    for i in range(rng.choice([1, 5])):
        msg = mailbox.mboxMessage("From: a@b\nSubject: s%d\n\nFrom here\nbody %s\n" % (i, "x" * rng.randrange(100)))
        msg.set_from("me Thu Jan  1 00:00:00 1970")
        m.add(msg)
    m.flush()
    k = m.keys()[0]
    a = m[k]["Subject"], m.get_bytes(k)
    m.remove(k)
    m.flush()
    m.close()
    return a, len(mailbox.mbox(p))


def c_media(rng, d):
    import plistlib, xml.etree.ElementTree as ET
    p = os.path.join(d, "w.wav")
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import wave
    with wave.open(p, "wb") as w:
        w.setnchannels(1)
        w.setsampwidth(2)
        w.setframerate(8000)
        w.writeframes(blob(rng)[:1000])
    with wave.open(p) as w:
        a = w.getparams()[:4], w.readframes(10)
    with open(os.path.join(d, "p"), "wb") as f:
        plistlib.dump({"k": words(rng, 3)[:0] + ["x"], "b": blob(rng)[:50]}, f, fmt=rng.choice([plistlib.FMT_XML, plistlib.FMT_BINARY]))
    with open(os.path.join(d, "p"), "rb") as f:
        b = plistlib.load(f)
    root = ET.Element("r")
    for i in range(20):
        ET.SubElement(root, "e", k="é%d" % i).text = "t"
    x = os.path.join(d, "x.xml")
    ET.ElementTree(root).write(x, encoding=rng.choice(["utf-8", "utf-16", "us-ascii"]), xml_declaration=True)
    return tuple(a[0]), a[1], b, [e.attrib for e in ET.parse(x).getroot()]


def c_mmap(rng, d):
    import array, fcntl, mmap, select, struct
    p = os.path.join(d, "m")
    with open(p, "w+b") as f:
        f.write(b"0123456789" * 1000)
        f.flush()
        with mmap.mmap(f.fileno(), 0) as m:
            m[5:8] = b"abc"
            a = m.find(b"abc")
        f.seek(0)
        b = f.read(12)
        arr = array.array("i", [1, 2, 3])
        f.seek(0)
        arr.tofile(f)
        f.seek(0)
        arr2 = array.array("i")
        arr2.fromfile(f, 3)
        buf = bytearray(8)
        n = f.readinto(memoryview(buf)[2:6])
        f.seek(100)
        f.write(struct.pack("<I", 77))
        f.truncate(104)
    return a, b, arr2.tolist(), n, bytes(buf), os.path.getsize(p)


def c_lines(rng, d):
    p = os.path.join(d, "l")
    nl = rng.choice([None, "", "\n", "\r\n"])
    with open(p, mode="w", newline=nl, encoding="utf-8", buffering=rng.choice([-1, 1, 50])) as f:
        print(*words(rng), sep="\n", file=f)
        f.write("".join(words(rng)))
    out = []
    with open(file=p, mode="rt", encoding="utf-8", newline=rng.choice([None, ""])) as f:
        first = f.readline()
        pos = f.tell()
        out.append((first, pos, f.read(3)))
        f.seek(pos)
        for i, line in enumerate(f):
            out.append(line)
            if i == 3:
                break
        out.append(next(f, None))
        out.append(f.newlines)
    with open(p, "r", -1, "utf-8", "strict", None, True, None) as f:
        out.append(len(f.readlines(rng.choice([-1, 10 ** 6]))))
    return out


def c_class(rng, d):
    """open kept in a class, subclasses of the io classes, streams left to the garbage collector, errors."""
    import gc, io

    class H:
        opener = open
    p = os.path.join(d, "h")
    h = H()
    with h.opener(p, "w") as f:
        f.write("kept")

    class Upper(io.TextIOWrapper):
        def write(self, s):
            return super().write(s.upper())

    class Count(io.FileIO):
        n = 0

        def readinto(self, b):
            Count.n += 1
            return super().readinto(b)

        def read(self, n=-1):
            Count.n += 1
            return super().read(n)
    with Upper(io.BufferedWriter(io.FileIO(p, "a")), encoding="utf-8") as t:
        t.write("upper é\n")
        t.writelines(["a", "b"])
    with io.BufferedReader(Count(p), 16) as b:
        data = b.read(3), b.read(), b.raw.name == p, b.raw.mode, b.raw.closefd
    counted = Count.n > 0
    f = open(os.path.join(d, "gc"), "w")
    f.write("left alone" * rng.choice([1, 1000]))
    del f
    gc.collect()
    errs = []
    for a in [("missing",), ("h", "q"), ("h", "x"), ("h/x",), ("", "w"), ("h", "rw"), ("h", "rbt"), ("h", "r", 0), ("h", "rb", -1, "utf-8"), (d + "/", "w"), (d,), (123456,), (-1,), ("a\0b",)]:
        a = (os.path.join(d, a[0]) if isinstance(a[0], str) and a[0] not in ("",) else a[0],) + a[1:]
        try:
            open(*a).close()
            errs.append("opened")
        except Exception as e:
            errs.append((type(e).__name__ if isinstance(e, OSError) else [k.__name__ for k in (ValueError, TypeError) if isinstance(e, k)][:1] or type(e).__name__, getattr(e, "errno", None)))
    with open(os.path.join(d, "two"), "w") as x:
        x.write("abc")
        try:
            x.read()
        except io.UnsupportedOperation:
            errs.append("unsupported")
        s = isinstance(x, io.TextIOBase), isinstance(x.buffer, io.BufferedIOBase), isinstance(x.buffer.raw, io.RawIOBase), isinstance(x, io.IOBase), x.writable(), x.readable()
    return data, counted, errs, s, isinstance(open(p), io.TextIOWrapper), isinstance(open(p, "rb"), io.BufferedReader), isinstance(open(p, "r+b"), io.BufferedRandom)


def c_mix(rng, d):
    """Several streams on the same file."""
    p = os.path.join(d, "m")
    out = []
    fs = []
    with open(p, "wb") as f:
        f.write(bytes(range(100)))
    for _ in range(30):
        r = rng.random()
        if r < 0.2 and len(fs) < 4:
            fs.append(open(p, *rng.choice([("rb", 0), ("r+b", 0), ("ab", -1), ("ab", 0), ("a+b", 0)])))
        elif fs:
            f = rng.choice(fs)
            if r < 0.3:
                f.close()
                fs.remove(f)
            elif r < 0.6 and f.readable():
                f.seek(rng.randrange(120))
                out.append(f.read(rng.choice([1, 20])))
            elif f.writable():
                f.seek(rng.randrange(120))
                f.write(bytes([rng.randrange(256)]) * rng.choice([1, 30]))
                f.flush()
                out.append(f.tell())
    for f in fs:
        f.close()
    return out


def c_inherit(rng, d):
    import subprocess
    p = os.path.join(d, "i")
    with open(p, "w") as f:
        a = os.get_inheritable(f.fileno())
        b = subprocess.call([sys.executable, "-S", "-c", "import os,sys\ntry:\n os.fstat(%d)\nexcept OSError: sys.exit(7)" % f.fileno()], close_fds=False)
        os.set_inheritable(f.fileno(), True)
        f.write("parent")
        f.flush()
        pid = os.fork()
        if not pid:
            try:
                f.write("child")
                f.flush()
            finally:
                os._exit(0)
        os.waitpid(pid, 0)
        f.write("again")
    return a, b


CLIENTS = [v for k, v in sorted(globals().items()) if k.startswith("c_")]
SLOW = {"c_http", "c_inherit", "c_subprocess"}
