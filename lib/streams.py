"""Driver of the specification of streams (Streams.tla): C20, C22."""
import contextlib, ctypes, os, resource, shutil, time
import srcdoc
from api import *

TEXT = {"s1": "int s1;\n", "s0": "", "big": "int big;\n/*" + "a < b && c;\n" * 9000 + "*/\n", "t1": "int t1;\n", "t2": "t2 & é\n"}
SRC = srcdoc.SRC
UNKNOWN = "no such encoding"


def esc(s):
    return s.replace("&", "&amp;").replace("<", "&lt;")


def unit(x):
    return '<unit revision="1.0.0" language="C" filename="%s"><expr>%s</expr></unit>' % (x, esc(TEXT[x]))


HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="%s" revision="1.0.0">\n\n' % SRC
ARCH = {"good": HEAD + unit("t1") + "\n\n" + unit("t2") + "\n\n" + unit("big") + "\n\n</unit>\n",
        "cut": (HEAD + unit("t1") + "\n\n" + unit("t2") + "\n\n" + unit("big"))[:-9],
        "one": HEAD + unit("t1") + "\n\n</unit>\n", "empty": "", "garbage": "\0\1 no srcML"}
ARCH["fail1"] = HEAD + unit("t1") + "\n\n" + unit("t2") + "\n\n" + unit("big")[:2000]
ARCH["fail0"] = ""
for k_ in TEXT:
    ARCH["in" + k_] = TEXT[k_]
NAME = {v: k for k, v in TEXT.items()}


def fds():
    r = {}
    for f in os.listdir("/proc/self/fd"):
        try:
            r[int(f)] = os.readlink("/proc/self/fd/" + f)
        except OSError:
            pass
    return r


def threads():
    return len(os.listdir("/proc/self/task"))


class Partly:
    """memory that can be read up to the end of the data, and not after it: reading it as a file fails there"""

    def __init__(self, data):
        P = resource.getpagesize()
        n = (len(data) + P - 1) // P * P
        libc.mmap.restype = V
        libc.mmap.argtypes = [V, ctypes.c_size_t, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long]
        libc.munmap.argtypes = [V, ctypes.c_size_t]
        self.at, self.n = libc.mmap(None, n + P, 3, 0x22, -1, 0), n
        libc.mprotect.argtypes = [V, ctypes.c_size_t, ctypes.c_int]
        libc.munmap(self.at + n, P)
        self.start = self.at + n - len(data)
        ctypes.memmove(self.start, data, len(data))

    def free(self):
        if self.n:
            libc.munmap(self.at, self.n)
        self.n = 0


@contextlib.contextmanager
def room(n):
    """files can have n bytes"""
    if n is None:
        yield
        return
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
    try:
        yield
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))


class Stream:
    """a stream of the caller"""

    def __init__(self, d, n, how, kind, data=None, out=False, room=None):
        self.room = room if kind == "tight" else None
        self.how, self.kind, self.out, self.n, self.closed, self.got = how, kind, out, n, 0, []
        self.data = data
        self.path = os.path.join(d, "f%d" % n)
        self.mem = None
        self.used = self.given = False
        self.part = Partly(data) if kind == "fail1" and how in ("FILE", "fd") and not out else None
        if self.part:
            self.path = "/proc/self/mem"
        elif kind == "missing":
            self.path = os.path.join(d, "no", "f")
        elif kind == "dir":
            self.path = d
        elif kind == "full":
            self.path = "/dev/full"
        elif data is not None or kind in ("wronly", "rdonly"):
            with open(self.path, "wb") as f:
                f.write(data or b"")
        if how == "FILE":
            mode = b"wb" if (out and kind != "rdonly") or kind == "wronly" else b"rb"
            self.f = libc.fopen(b(self.path), mode)
            if self.part:
                libc.fseeko.argtypes = [V, ctypes.c_long, ctypes.c_int]
                libc.fseeko(V(self.f), self.part.start, 0)
        elif how == "fd":
            if kind == "badfd":
                self.fd = 987
            elif (out and kind != "rdonly") or kind == "wronly":
                self.fd = os.open(self.path, os.O_WRONLY | os.O_CREAT | (0 if kind == "full" else os.O_TRUNC))
            else:
                self.fd = os.open(self.path, os.O_RDONLY)
                if self.part:
                    os.lseek(self.fd, self.part.start, 0)
        elif how == "io":
            self.pos = 0
            self.cb = (WRITECB(self.write) if out else None)
            self.rcb, self.scb = READCB(self.read), SREADCB(self.read)
            self.ccb = CLOSECB(self.close)
        self.ident = self.node() if how in ("fd", "FILE") else None

    def node(self):
        try:
            s = os.fstat(self.fd if self.how == "fd" else libc.fileno(self.f))
            return s.st_dev, s.st_ino
        except OSError:
            return None

    def write(self, c, buf, n):
        if self.kind == "fail0" or self.kind == "fail1" and len(self.got) > 0:
            return -1
        if self.kind == "slow":
            n = min(n, 7 if n < 1000 else 900)
        self.got.append(ctypes.string_at(buf, n))
        return n

    def read(self, c, buf, n):
        if self.kind == "fail0" or self.kind == "fail1" and self.pos >= len(self.data):
            return -1
        m = min(n, len(self.data) - self.pos, 700)
        ctypes.memmove(buf, self.data[self.pos:self.pos + m], m)
        self.pos += m
        return m

    def close(self, c):
        self.closed += 1
        return 0

    def after(self):
        if self.how == "io":
            return "closed %d" % self.closed
        if self.how in ("FILE", "fd"):
            return "still open" if self.node() == self.ident else "lost"
        return "-"

    def content(self, L):
        if self.how == "memory":
            return self.mem.get() or b""
        if self.how == "io":
            return b"".join(self.got)
        if self.how == "FILE":
            libc.fflush(self.f)
        with open(self.path, "rb") as f:
            return f.read()

    def end(self, L):
        """give up the stream; what is wrong with it"""
        if self.mem is not None:
            self.mem.free(L)
        if self.part:
            self.part.free()
        if self.how == "FILE":
            ok = self.node() == self.ident
            if ok:
                libc.fclose(self.f)
            return None if ok else "FILE"
        if self.how == "fd" and self.kind != "badfd":
            ok = self.node() == self.ident
            if ok:
                os.close(self.fd)
            return None if ok else "fd"
        return None


def doc(data):
    try:
        form, root, us = srcdoc.units(data.decode())
        return [NAME.get(srcdoc.text(x), "?") for x in us]
    except (srcdoc.Bad, UnicodeDecodeError) as x:
        return ["not srcML: " + str(x)[:100]]


def texts(data):
    """the texts that were written one after the other"""
    x, r = data.decode("utf-8", "replace"), []
    while x:
        k = next((k for k, v in TEXT.items() if v and x.startswith(v)), None)
        if k is None:
            return r + ["?" + x[:60]]
        r.append(k)
        x = x[len(TEXT[k]):]
    return r


def run(L, sc, progress):
    d = tmpdir()
    for f in ("fopen", "fdopen"):
        getattr(libc, f).restype = V
    libc.fileno.argtypes = libc.fclose.argtypes = libc.fflush.argtypes = [V]
    if not hasattr(L, "_warm"):        # whatever the libraries keep for the process
        a = L.srcml_archive_create()
        L.srcml_archive_read_open_memory(a, b(ARCH["good"]), len(b(ARCH["good"])))
        u = L.srcml_archive_read_unit(a)
        unparse_mem(L, u)
        L.srcml_unit_free(u)
        L.srcml_archive_close(a)
        L.srcml_archive_free(a)
        L._warm = True
    base, tasks = fds(), threads()
    streams, ev = [], []
    o = {"w": None, "r": None, "u": None, "k": None, "ws": None, "rs": None, "wrote": ""}

    def make(how, kind, data=None, out=False, room=None):
        s = Stream(d, len(streams), how, kind, data, out, room)
        streams.append(s)
        return s

    def fresh():
        o["w"], o["r"] = L.srcml_archive_create(), L.srcml_archive_create()
        o["u"] = None
        newunit("C")

    def newunit(lang):
        if o["u"]:
            L.srcml_unit_free(o["u"])
        o["u"] = L.srcml_unit_create(o["w"])
        if lang != "-":
            L.srcml_unit_set_language(o["u"], b("C" if lang == UNKNOWN else lang))
        if lang == UNKNOWN:
            L.srcml_unit_set_src_encoding(o["u"], b(UNKNOWN))
        o["lang"] = lang

    def dropk():
        if o["k"]:
            L.srcml_unit_free(o["k"])
        o["k"] = None

    def op(e):
        n = e["op"]
        if n == "unit":
            newunit(e["lang"])
            return {"st": "OK"}
        if n == "parse":
            kind = e["inp"]
            data = b(TEXT[kind]) if kind in TEXT else b"int half;\n" if kind == "fail1" else b""
            s = make(e["how"], kind, None if kind in ("missing", "dir") or e["how"] == "memory" else data)
            s.data = data
            u = o["u"]
            r = {"memory": lambda: L.srcml_unit_parse_memory(u, data, len(data)), "file": lambda: L.srcml_unit_parse_filename(u, b(s.path)),
                 "FILE": lambda: L.srcml_unit_parse_FILE(u, V(s.f)), "fd": lambda: L.srcml_unit_parse_fd(u, s.fd),
                 "io": lambda: L.srcml_unit_parse_io(u, V(1), cast(s.scb), cast(s.ccb))}[e["how"]]()
            return {"st": st(r), "after": s.after() if kind != "badfd" else "still open"}
        if n == "wopen":
            s = make(e["how"], e["dest"], None, True, e.get("room"))
            w = o["w"]
            if e["how"] == "memory":
                s.mem = Out()
            with room(s.room):
                r = {"memory": lambda: L.srcml_archive_write_open_memory(w, *s.mem.args()), "file": lambda: L.srcml_archive_write_open_filename(w, b(s.path)),
                     "FILE": lambda: L.srcml_archive_write_open_FILE(w, V(s.f)), "fd": lambda: L.srcml_archive_write_open_fd(w, s.fd),
                     "io": lambda: L.srcml_archive_write_open_io(w, V(1), cast(s.cb), cast(s.ccb))}[e["how"]]()
            if r == 0:
                o["ws"], o["wrote"] = s, ""
            return {"st": st(r), "after": s.after() if e["dest"] != "badfd" else "still open"}
        if n == "write":
            x = o[e["x"]]
            if o["ws"] and x:
                o["wrote"] = "units"
            with room(o["ws"] and o["ws"].room):
                return {"st": st(L.srcml_archive_write_unit(o["w"], x))}
        if n == "raw":
            if o["ws"]:
                o["wrote"] = "raw"
            x = b(TEXT[e["x"]])
            with room(o["ws"] and o["ws"].room):
                return {"st": st(L.srcml_archive_write_string(o["w"], x, len(x)))}
        if n in ("wclose", "wfree"):
            s, o["ws"] = o["ws"], None
            said, raw = "-", o["wrote"] == "raw"
            if n == "wclose":
                with room(s and s.room):
                    said = st(L.srcml_archive_close(o["w"]))
            # an archive object is used once
            L.srcml_unit_free(o["u"])
            L.srcml_archive_free(o["w"])
            o["w"], o["u"] = L.srcml_archive_create(), None
            keep(e)
            if s is None:
                return {"st": said, "after": "-", "doc": "-"}
            bad = n == "wfree" or said != "OK" or s.kind not in ("good", "slow", "tight", "fail1")
            return {"st": said, "after": s.after() if s.kind != "badfd" else "still open", "doc": "any" if bad else texts(s.content(L)) if raw else doc(s.content(L))}
        if n == "ropen":
            kind = e["inp"]
            data = b(ARCH.get(kind, ""))
            s = make(e["how"], kind, None if kind in ("missing", "dir") or e["how"] == "memory" else data)
            s.data = data
            r_ = o["r"]
            r = {"memory": lambda: L.srcml_archive_read_open_memory(r_, data, len(data)), "file": lambda: L.srcml_archive_read_open_filename(r_, b(s.path)),
                 "FILE": lambda: L.srcml_archive_read_open_FILE(r_, V(s.f)), "fd": lambda: L.srcml_archive_read_open_fd(r_, s.fd),
                 "io": lambda: L.srcml_archive_read_open_io(r_, V(1), cast(s.rcb), cast(s.ccb))}[e["how"]]()
            if r == 0:
                o["rs"] = s
            return {"st": st(r), "after": "later" if r == 0 else s.after()}
        if n == "read":
            dropk()
            o["k"] = L.srcml_archive_read_unit(o["r"]) or None
            return t(L.srcml_unit_get_filename(o["k"])) if o["k"] else "-"
        if n == "skip":
            return L.srcml_archive_skip_unit(o["r"])
        if n in ("rclose", "rfree"):
            s, o["rs"] = o["rs"], None
            dropk()
            if n == "rclose":
                L.srcml_archive_close(o["r"])
            L.srcml_archive_free(o["r"])
            o["r"] = L.srcml_archive_create()
            return {"after": s.after() if s else "-"}
        if n == "unparse":
            s = make(e["how"], e["dest"], None, True, e.get("room"))
            k = o["k"]
            L.srcml_unit_set_src_encoding(k, b(e["enc"]))
            if e["how"] == "memory":
                s.mem = Out()
            with room(s.room):
                r = {"memory": lambda: L.srcml_unit_unparse_memory(k, *s.mem.args()), "file": lambda: L.srcml_unit_unparse_filename(k, b(s.path)),
                     "FILE": lambda: L.srcml_unit_unparse_FILE(k, V(s.f)), "fd": lambda: L.srcml_unit_unparse_fd(k, s.fd),
                     "io": lambda: L.srcml_unit_unparse_io(k, V(1), cast(s.cb), cast(s.ccb))}[e["how"]]()
            src = "-"
            if r == 0:
                src = "any" if s.kind not in ("good", "slow", "tight", "fail1") else NAME.get(s.content(L).decode("utf-8", "replace"), "?")
            return {"st": st(r), "after": s.after() if s.kind != "badfd" else "still open", "src": src}
        if n == "convert":
            return convert(e)
        if n == "end":
            return end()

    def convert(e):
        k = e["inp"]
        name = os.path.join(d, "c%d" % len(streams))
        inp = {"c": name + ".c", "xml": name + ".xml", "none": name + ".q", "empty.xml": name + ".xml"}.get(k, name + k[k.find("."):])
        if k.startswith("dir"):
            os.mkdir(inp)
        elif not k.startswith("missing"):
            with open(inp, "wb") as f:
                f.write(b({"c": TEXT["s1"], "xml": ARCH["one"], "none": TEXT["s1"], "empty.xml": ""}[k]))
        s = make("file", e["dest"], None, True, e.get("room", 100))
        with room(s.room):
            r = L.srcml(b(inp), b(s.path))
        if r:
            return {"st": "error", "res": "-"}
        if s.kind not in ("good", "tight"):
            return {"st": "OK", "res": "any"}
        c = s.content(L)
        return {"st": "OK", "res": doc(c) if k == "c" else [NAME.get(c.decode("utf-8", "replace"), "?")]}

    def keep(e):
        newunit(o["lang"])

    def end():
        dropk()
        L.srcml_archive_close(o["r"])
        L.srcml_archive_free(o["r"])
        L.srcml_unit_free(o["u"])
        L.srcml_archive_close(o["w"])
        L.srcml_archive_free(o["w"])
        o.update(w=None, r=None, u=None, ws=None, rs=None)
        lost = [x for x in (s.end(L) for s in streams) if x]
        closes = ["closed %d" % s.closed for s in streams if s.closed > 1]
        del streams[:]
        for _ in range(200):           # the kernel takes a moment to remove a thread that was joined
            n = threads() - tasks
            if n <= 0:
                break
            time.sleep(.01)
        left = sorted(v.replace(d, "") for f, v in fds().items() if f not in base and "/proc/" not in v)
        left += ["closed " + base[f] for f in base if f not in fds() and "/proc/" not in base[f]]
        fresh()
        return {"fds": left, "threads": max(n, 0), "lost": lost, "closes": closes}

    try:
        fresh()
        for e in sc["ops"]:
            if e.get("if") and e["op"] == "unparse" and not o["k"]:
                continue
            # text and units are not mixed in one archive
            if o["ws"] and o.get("wrote") == {"raw": "units", "write": "raw"}.get(e["op"], "-"):
                continue
            r = op(e)
            x = dict(e, r=r, **({"loose": True} if sc["cfg"].get("loose") else {}))
            ev.append(x)
            progress(x)
        return ev
    finally:
        end()
        L.srcml_unit_free(o["u"])
        L.srcml_archive_free(o["w"])
        L.srcml_archive_free(o["r"])
        shutil.rmtree(d, ignore_errors=True)
