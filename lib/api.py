"""Small helpers over the ctypes binding, shared by the property drivers."""
import ctypes, os, tempfile
from srcml import *

V = ctypes.c_void_p


def cast(f):
    return ctypes.cast(f, V)


def b(x):
    """NULL is written "NULL" or None in scenarios."""
    if x is None or x == "NULL":
        return None
    return x.encode("utf-8", "surrogateescape") if isinstance(x, str) else x


def t(x, none="-"):
    return none if x is None else x.decode("utf-8", "surrogateescape")


def st(code):
    return STATUS.get(code, "STATUS%d" % code)


class Out:
    """Memory destination of an archive."""

    def __init__(self):
        self.p, self.n = V(), ctypes.c_size_t()

    def args(self):
        return ctypes.byref(self.p), ctypes.byref(self.n)

    def get(self):
        return ctypes.string_at(self.p.value, self.n.value) if self.p.value else None

    def free(self, L):
        if self.p.value:
            L.srcml_memory_free(self.p)
            self.p = V()


def wmem(L, a):
    o = Out()
    return L.srcml_archive_write_open_memory(a, *o.args()), o


def unparse_mem(L, u):
    o = Out()
    s = L.srcml_unit_unparse_memory(u, *o.args())
    r = o.get()
    o.free(L)
    return s, r


def chunk_reader(data, chunks, T=SREADCB, log=None, fail_at=None):
    pos, ci = [0], [0]

    def rd(ctx, buf, ln):
        if fail_at is not None and pos[0] >= fail_at:
            return -1
        c = chunks[ci[0] % len(chunks)] if chunks else ln
        ci[0] += 1
        c = min(c, ln, len(data) - pos[0])
        ctypes.memmove(buf, data[pos[0]:pos[0] + c], c)
        pos[0] += c
        return c
    return T(rd)


def tmpdir():
    return tempfile.mkdtemp(prefix="vtw-", dir=os.getcwd())


METHODS = ["memory", "file", "FILE", "fd", "io", "pipe", "pipeFILE", "cookie"]


def parse_by(L, u, data, how, d, chunks=(), close=True):
    """Parse data into unit u by the given method; returns (status, report on the caller's stream)."""
    import threading
    if how == "memory":
        return L.srcml_unit_parse_memory(u, data, len(data)), "-"
    path = os.path.join(d, "in")
    if how in ("file", "FILE", "fd"):
        with open(path, "wb") as f:
            f.write(data)
    if how == "file":
        return L.srcml_unit_parse_filename(u, b(path)), "-"
    if how == "FILE":
        f = libc.fopen(b(path), b"rb")
        s = L.srcml_unit_parse_FILE(u, f)
        n = libc.fgetc(f)
        ok = "open at end" if n == -1 and libc.fclose(f) == 0 else "lost"
        return s, ok
    if how == "fd":
        fd = os.open(path, os.O_RDONLY)
        s = L.srcml_unit_parse_fd(u, fd)
        try:
            ok = "open at end" if os.read(fd, 1) == b"" else "not read to the end"
            os.close(fd)
        except OSError:
            ok = "lost"
        return s, ok
    if how in ("pipe", "pipeFILE"):
        r, w = os.pipe()

        def feed():
            i = k = 0
            try:
                while i < len(data):
                    n = chunks[k % len(chunks)] if chunks else len(data)
                    os.write(w, data[i:i + n])
                    i += n
                    k += 1
            except OSError:
                pass
            os.close(w)
        th = threading.Thread(target=feed)
        th.start()
        if how == "pipe":
            s = L.srcml_unit_parse_fd(u, r)
            try:
                ok = "open at end" if os.read(r, 1) == b"" else "not read to the end"
            except OSError:
                ok = "lost"
            try:
                os.close(r)
            except OSError:
                pass
        else:
            f = libc.fdopen(r, b"rb")
            s = L.srcml_unit_parse_FILE(u, f)
            n = libc.fgetc(f)
            ok = "open at end" if n == -1 and libc.fclose(f) == 0 else "lost"
        th.join()
        return s, ok
    if how in ("io", "cookie"):
        closed = [0]

        def cl(ctx):
            closed[0] += 1
            return 0
        rd = chunk_reader(data, list(chunks), T=READCB if how == "cookie" else SREADCB)
        cb = CLOSECB(cl)
        if how == "io":
            s = L.srcml_unit_parse_io(u, V(1), cast(rd), cast(cb) if close else None)
            return s, "closed %d" % closed[0]
        s = L.srcml_unit_parse_io(u, V(1), cast(rd), None)
        return s, "closed %d" % closed[0]
    raise ValueError(how)
