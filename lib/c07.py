"""C07: phases of archives and units.  spec: Lifecycle.tla"""
META = {"technique": "every transition of the life cycle machine of two archives and two units replayed into the library, with all units and documents looked at after every operation; random long histories and every missing argument validated against it",
        "note": "Exhaustive to histories of 6 (thorough: 8) operations; random histories of up to 60. A missing argument is tried for every pointer argument of every function that requires one, in every phase reached by the random histories."}
import json, shutil
import vt, srcdoc
from api import *

# functions with the arguments that are required (0 is the handle); the kind of answer
KIND = {"i": "status", "s": "string", "V": "handle", "z": "size", "n": "none"}
OPTIONAL = {"srcml_archive_set_xml_encoding": {1}, "srcml_archive_set_src_encoding": {1}, "srcml_archive_set_language": {1}, "srcml_archive_set_url": {1},
            "srcml_archive_set_version": {1}, "srcml_unit_set_src_encoding": {1}, "srcml_unit_set_language": {1}, "srcml_unit_set_filename": {1},
            "srcml_unit_set_version": {1}, "srcml_unit_set_timestamp": {1}, "srcml_archive_write_open_io": {3}, "srcml_archive_read_open_io": {3},
            "srcml_unit_parse_io": {3}, "srcml_unit_unparse_io": {3}, "srcml_write_start_element": {1, 3}, "srcml_write_attribute": {1, 3, 4}, "srcml_write_namespace": {1},
            "srcml_unit_apply_transforms": {2}}
SPECIAL = {"srcml_archive_get_options": "size", "srcml_archive_has_hash": "size", "srcml_archive_is_solitary_unit": "size", "srcml_archive_skip_unit": "size",
           "srcml_transform_get_unit_size": "size", "srcml_transform_get_type": "size", "srcml_transform_get_unit": "handle"}
EXCLUDE = {"srcml_unit_get_loc", "srcml_archive_error_string", "srcml_unit_error_string", "srcml_archive_get_srcdiff_revision", "srcml_transform_get_bool", "srcml_transform_get_number", "srcml_archive_read_unit_header",
           "srcml_memory_free", "srcml_cleanup_globals", "srcml_check_language", "srcml_check_encoding"}


def missing_calls():
    r = []
    for f, (ret, args) in sorted(SIG.items()):
        if f in EXCLUDE or f == "srcml" or args[:1] != "V":
            continue
        for i, c in enumerate(args):
            if c in "sV" and i not in OPTIONAL.get(f, ()):
                r.append((f, i, SPECIAL.get(f, KIND[ret])))
    return r


def texts(doc):
    """the texts of the units of a written document"""
    if doc is None:
        return ["no document"]
    if b"<unit" not in doc:
        return []
    try:
        return [srcdoc.text(u) for u in srcdoc.units(doc)[2]]
    except (srcdoc.Bad, UnicodeDecodeError) as x:
        return ["ill-formed: %s" % x]


def seen(L, us):
    r = {}
    for k, u in us.items():
        x = L.srcml_unit_get_srcml(u) if u else None
        if x is None:
            r[k] = "-"
            continue
        try:
            r[k] = srcdoc.text(srcdoc.tree(t(x))[1])
        except srcdoc.Bad as y:
            r[k] = "ill-formed: %s" % y
    return r


TWO = b'<unit xmlns="http://www.srcML.org/srcML/src"><unit language="C">r;</unit><unit language="C">s;</unit></unit>'
ONE = b'<unit xmlns="http://www.srcML.org/srcML/src" language="C">t;</unit>'
WAYS = ["memory", "file", "FILE", "fd", "io"]


class World:
    def __init__(self, L, d):
        self.L, self.d = L, d
        self.ar = {h: L.srcml_archive_create() for h in "ab"}
        self.un = {"u": None, "v": None}
        self.dest = {}
        self.keep = []
        self.n = 0

    def wopen(self, h, how):
        L, a = self.L, self.ar[h]
        self.n += 1
        p = os.path.join(self.d, "w%d" % self.n)
        if how == "memory":
            o = Out()
            s, fin = L.srcml_archive_write_open_memory(a, *o.args()), o.get
        elif how == "file":
            s, fin = L.srcml_archive_write_open_filename(a, b(p)), lambda: open(p, "rb").read()
        elif how == "FILE":
            f = libc.fopen(b(p), b"wb")
            s = L.srcml_archive_write_open_FILE(a, f)

            def fin():
                libc.fclose(f)
                return open(p, "rb").read()
        elif how == "fd":
            fd = os.open(p, os.O_CREAT | os.O_WRONLY)
            s = L.srcml_archive_write_open_fd(a, fd)

            def fin():
                os.close(fd)
                return open(p, "rb").read()
        else:
            got = []

            def wr(c, buf, n):
                got.append(ctypes.string_at(buf, n))
                return n
            cb, cl = WRITECB(wr), CLOSECB(lambda c: 0)
            self.keep += [cb, cl]
            s, fin = L.srcml_archive_write_open_io(a, V(1), cast(cb), cast(cl)), lambda: b"".join(got)
        if s == 0:
            self.dest[h] = fin
        elif how == "FILE":
            libc.fclose(f)
        elif how == "fd":
            os.close(fd)
        return st(s)

    def ropen(self, h, doc, how):
        L, a = self.L, self.ar[h]
        if how == "memory":
            return st(L.srcml_archive_read_open_memory(a, doc, len(doc)))
        self.n += 1
        p = os.path.join(self.d, "r%d" % self.n)
        with open(p, "wb") as f:
            f.write(doc)
        if how == "file":
            return st(L.srcml_archive_read_open_filename(a, b(p)))
        if how == "FILE":
            f = libc.fopen(b(p), b"rb")
            s = L.srcml_archive_read_open_FILE(a, f)
            self.after = lambda: libc.fclose(f)
        elif how == "fd":
            fd = os.open(p, os.O_RDONLY)
            s = L.srcml_archive_read_open_fd(a, fd)


            def after():
                try:        # the library closes it too (see C20)
                    os.close(fd)
                except OSError:
                    pass
            self.after = after
        else:
            cb = chunk_reader(doc, [7], T=READCB)
            self.keep.append(cb)
            return st(L.srcml_archive_read_open_io(a, V(1), cast(cb), None))
        if s:
            self.after()
        else:
            self.dest[h] = lambda g=self.after: g()
        return st(s)

    def do(self, e):
        """status, document"""
        L, k, un, ar = self.L, e["op"], self.un, self.ar
        u = un.get(e.get("u"))
        if k == "wopen":
            return self.wopen(e["h"], e["how"]), None
        if k == "ropen":
            return self.ropen(e["h"], TWO if e["d"] == "two" else ONE, e["how"]), None
        if k == "openfail":
            if e["how"] == "r":
                return st(L.srcml_archive_read_open_filename(ar[e["h"]], b(self.d + "/none/x"))), None
            return st(L.srcml_archive_write_open_filename(ar[e["h"]], b(self.d + "/none/x"))), None
        if k == "close":
            L.srcml_archive_close(ar[e["h"]])
            g = self.dest.pop(e["h"], None)
            x = g() if g else None
            return "closed", (texts(x) if isinstance(x, bytes) or (g and x is None and g.__name__ == "get") else ["-"])
        if k == "solitary":
            return st((L.srcml_archive_enable_solitary_unit if e["on"] else L.srcml_archive_disable_solitary_unit)(ar[e["h"]])), None
        if k == "write":
            return st(L.srcml_archive_write_unit(ar[e["h"]], u)), None
        if k == "wstring":
            return st(L.srcml_archive_write_string(ar[e["h"]], b"zzz", 3)), None
        if k == "read":
            x = L.srcml_archive_read_unit(ar[e["h"]])
            if x:
                L.srcml_unit_free(u)
                un[e["u"]] = x
            return "unit" if x else "NULL", None
        if k == "skip":
            return str(L.srcml_archive_skip_unit(ar[e["h"]])), None
        if k == "create":
            L.srcml_unit_free(u)
            un[e["u"]] = L.srcml_unit_create(ar[e["h"]])
            L.srcml_unit_set_language(un[e["u"]], b"C")
            return "unit" if un[e["u"]] else "NULL", None
        if k == "cloneu":
            x = L.srcml_unit_clone(u)
            if x:
                L.srcml_unit_free(un[e["w"]])
                un[e["w"]] = x
            return "unit" if x else "NULL", None
        if k == "free":
            L.srcml_unit_free(u)
            un[e["u"]] = None
            return "freed", None
        if k == "parse":
            return st(L.srcml_unit_parse_memory(u, b(e["x"]), len(e["x"]))), None
        if k == "parsefail":
            return st(L.srcml_unit_parse_filename(u, b(self.d + "/none/x.c"))), None
        if k == "parsenolang":
            L.srcml_unit_set_language(u, None)
            s = L.srcml_unit_parse_memory(u, b"q;", 2)
            L.srcml_unit_set_language(u, b"C")
            return st(s), None
        if k == "wstart":
            return st(L.srcml_write_start_unit(u)), None
        if k == "wtext":
            return st(L.srcml_write_string(u, b(e["x"]))), None
        if k == "wend":
            return st(L.srcml_write_end_unit(u)), None
        if k == "wother":
            o = e["o"]
            return st(L.srcml_write_end_element(u) if o == "endelement" else L.srcml_write_start_element(u, None, b"e", None) if o == "element" else
                      L.srcml_write_attribute(u, None, b"n", None, b"v") if o == "attribute" else L.srcml_write_namespace(u, b"p", b"urn:p")), None
        if k == "unparse":
            s, y = unparse_mem(L, u)
            return st(s) + (" " + y.decode("utf-8", "replace") if s == 0 else ""), None
        if k == "apply":
            r = V()
            return st(L.srcml_unit_apply_transforms(ar[e["h"]], u, ctypes.byref(r) if e.get("res") else None)), None
        if k == "missing":
            return self.missing(e), None
        raise ValueError(k)

    def missing(self, e):
        L, (ret, sig), i = self.L, SIG[e["f"]], e["i"]
        # the handle is an existing one, and so is each other argument
        h = None
        if e["f"].startswith("srcml_transform_"):
            h = None
        elif e["f"].startswith(("srcml_unit_", "srcml_write_")) and e["f"] not in ("srcml_unit_create", "srcml_unit_apply_transforms"):
            h = self.un[e["u"]]
            if i and not h:
                i = 0
        else:
            h = self.ar[e["h"]]
        args = []
        for j, c in enumerate(sig):
            if j == i:
                args.append(None)
            elif j == 0:
                args.append(h)
            elif c == "s":
                args.append(b"C")
            elif c in "zi":
                args.append(1)
            elif e["f"].endswith("_io") and j == 2:
                cb = SREADCB(lambda *a: 0)
                self.keep.append(cb)
                args.append(cast(cb))
            elif e["f"].endswith("_io") and j == 3:
                args.append(None)
            else:
                bf = ctypes.create_string_buffer(64)
                self.keep.append(bf)
                args.append(ctypes.cast(bf, V))
        x = getattr(L, e["f"])(*args)
        k = e["kind"]
        return st(x) if k == "status" else "none" if k == "none" else "NULL" if x is None else "0" if x == 0 and k == "size" else repr(x)

    def end(self):
        for u in self.un.values():
            self.L.srcml_unit_free(u)
        for h, a in self.ar.items():
            self.L.srcml_archive_close(a)
            self.L.srcml_archive_free(a)
            g = self.dest.pop(h, None)
            if g:
                g()


def run(L, sc, progress):
    ev = []
    d = tmpdir()
    w = World(L, d)
    try:
        for e in sc["ops"]:
            e = dict(e)
            s, doc = w.do(e)
            e["r"] = {"st": s, "seen": seen(L, w.un)}
            if doc is not None:
                e["r"]["doc"] = doc
            progress(e)
            ev.append(e)
        w.end()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


def refine(e, rng):
    """what the specification leaves open"""
    e = dict(e)
    if e["op"] in ("wopen", "ropen"):
        e["how"] = rng.choice(WAYS)
    elif e["op"] == "openfail":
        e["how"] = rng.choice("rw")
    elif e["op"] == "apply":
        e["res"] = rng.random() < .5
    elif e["op"] == "wother":
        e["o"] = rng.choice(["endelement", "element", "attribute", "namespace"])
    return e


def random_ops(rng, n, calls):
    """biased towards operations that apply; a rough copy of the phases is kept for that only"""
    ops = []
    ph = {"a": "c", "b": "c"}
    un = {"u": "n", "v": "n"}
    building = {"u": False, "v": False}     # it may be
    writing = {"a": False, "b": False}
    for _ in range(n):
        h, u = rng.choice("ab"), rng.choice("uv")
        if rng.random() < .25:
            k = rng.choice(["wopen", "ropen", "openfail", "close", "solitary", "write", "wstring", "read", "skip", "create", "cloneu", "free", "parse", "parsefail", "parsenolang", "wstart", "wtext", "wend", "wother", "unparse", "apply"])
        elif rng.random() < .12:
            k = "missing"
        elif un[u] == "n":
            k = rng.choice(["create", "create", "read"])
        elif un[u] == "b":
            k = rng.choice(["wtext", "wend", "wend"])
        else:
            k = rng.choice({"c": ["wopen", "ropen"], "r": ["read", "read", "skip", "close"], "w": ["write", "write", "close"]}[ph[h]] + ["parse", "wstart", "unparse", "write"])
        if k in ("wstring", "solitary") and writing[h] or k == "wother" and building[u]:
            continue
        if k == "wopen":
            writing[h] = True
        elif k == "close":
            writing[h] = False
        elif k == "wstart":
            building[u] = True
        elif k in ("create", "free", "parse", "wend"):
            building[u] = False
        e = {"op": k}
        if k in ("wopen", "ropen", "openfail", "close", "solitary", "write", "wstring", "read", "skip", "create", "apply"):
            e["h"] = h
        if k in ("write", "read", "create", "cloneu", "free", "parse", "parsefail", "parsenolang", "wstart", "wtext", "wend", "wother", "unparse", "apply"):
            e["u"] = u
        if k == "ropen":
            e["d"] = rng.choice(["two", "one"])
        if k == "solitary":
            e["on"] = rng.random() < .5
        if k == "cloneu":
            e["w"] = "v" if u == "u" else "u"
        if k in ("parse", "wtext"):
            e["x"] = rng.choice(["p;", "if (a) b;", "w &", "\n"]) if k == "wtext" else rng.choice(["p;", "#if A\nint a;\n#endif\n", "int f() { return 1; }\n"])
        if k == "missing":
            f, i, kind = rng.choice(calls)
            e.update(h=h, u=u, f=f, i=i, kind=kind)
        e = refine(e, rng)
        ops.append(e)
        if k in ("wopen", "ropen") and ph[h] == "c":
            ph[h] = k[0]
        if k == "close":
            ph[h] = "c"
        if k == "wstart" and un[u] != "n":
            un[u] = "b"
        elif k in ("create", "parse", "wend") and (k == "create" or un[u] != "n"):
            un[u] = "d"
        elif k == "read" and ph[h] == "r":
            un[u] = "d"
        elif k == "free":
            un[u] = "n"
        elif k == "cloneu" and un[u] != "n":
            un[e["w"]] = "d"
    return ops


def check(ctx):
    vt.build_lib()
    r = ctx.mc("LifecycleMC", None if ctx.quick else "LifecycleMC2", timeout=3000)
    paths, n = vt.cover(vt.edges(r), maxlen=60)
    rng = ctx.rng
    calls = missing_calls()
    scen = [{"id": "edge%d" % i, "ops": [refine(e, rng) for e in p]} for i, p in enumerate(paths)]
    # wother is refused in every phase but one, so its edges keep what they do
    for i in range(0, len(calls), 6):
        for u in ("u", "v"):
            scen.append({"id": "missing%d%s" % (i, u), "ops": [{"op": "create", "u": "u", "h": "a"}, {"op": "parse", "u": "u", "x": "p;"}] +
                         [{"op": "missing", "h": "a", "u": u, "f": f, "i": j, "kind": k} for f, j, k in calls[i:i + 6]]})
    for i in range(ctx.pick(600, 20000)):
        scen.append({"id": "rnd%d" % i, "ops": random_ops(rng, rng.choice([15, 30, 60]), calls)})
    vt.execute(ctx, "c07", "LifecycleTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the life cycle machine as %d tests; %d functions x missing arguments; random histories" % (n, len(paths), len(calls))
