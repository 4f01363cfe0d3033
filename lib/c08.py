"""C08: settings are independent registers, clones are isolated.  spec: Settings.tla"""
META = {"technique": 'every transition of the bounded register machine replayed into the library, all getters validated after every call',
        "note": 'Exhaustive over call sequences of bounded depth in the model; the code is checked on all of its transitions and on random histories. The state compared is what the public getters show.'}
import re
import vt
from api import *

SRC = "http://www.srcML.org/srcML/src"
URIS = [SRC, "http://www.srcML.org/srcML/cpp", "http://www.srcML.org/srcML/srcerr", "http://www.srcML.org/srcML/position", "urn:a", "urn:b", "", "NULL"]
NAMES = {"srcenc": "src_encoding", "xmlenc": "xml_encoding", "lang": "language", "url": "url", "version": "version", "file": "filename", "time": "timestamp"}
NOSTR = "-"


def arg(x):
    return None if x in (NOSTR, "NULL") else b(x)


class World:
    def __init__(self, L):
        self.L = L
        self.o = {"a": L.srcml_archive_create(), "b": L.srcml_archive_create(), "home": L.srcml_archive_create()}
        self.o["u"] = L.srcml_unit_create(self.o["home"])
        self.o["v"] = L.srcml_unit_create(self.o["home"])

    def close(self):
        for h in "uv":
            self.L.srcml_unit_free(self.o[h])
        for h in ("a", "b", "home"):
            self.L.srcml_archive_free(self.o[h])

    def call(self, h, name, *args):
        if h == "g":
            return getattr(self.L, "srcml_" + name)(*args)
        return getattr(self.L, ("srcml_unit_" if h in "uv" else "srcml_archive_") + name)(self.o[h], *args)

    def snap(self, h):
        L, c = self.L, lambda n, *x: self.call(h, n, *x)
        if h in "uv":
            return {**{k: t(c("get_" + NAMES[k])) for k in ("srcenc", "lang", "file", "version", "time")}, "eol": c("get_eol")}
        r = {k: t(c("get_" + NAMES[k])) for k in ("srcenc", "xmlenc", "lang", "url", "version")}
        r["tabs"] = c("get_tabstop")
        o = c("get_options")
        r["opts"] = [bool(o >> i & 1) for i in range(7)] + (["more %x" % o] if o >> 7 else [])
        r["solitary"] = bool(c("is_solitary_unit")) if h != "g" else False
        r["hash"] = bool(c("has_hash")) if h != "g" else True
        r["pi"] = [t(c("get_processing_instruction_target")), t(c("get_processing_instruction_data"))]
        r["ns"] = [[t(c("get_namespace_prefix", i)), t(c("get_namespace_uri", i))] for i in range(c("get_namespace_size"))]
        r["rev"] = c("get_srcdiff_revision")
        if h == "g":
            r["file"], r["time"], r["eol"] = t(c("get_filename")), t(c("get_timestamp")), c("get_eol")
        return r

    def all(self):
        return {h: self.snap(h) for h in "abuvg"}

    def unit(self, a, name):
        L = self.L
        u = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u, b"C")
        L.srcml_unit_set_filename(u, name)
        L.srcml_unit_parse_memory(u, b"a;\n", 3)
        L.srcml_archive_write_unit(a, u)
        L.srcml_unit_free(u)

    def midway(self, e):
        """a clone made while a document is written, and then written itself"""
        L, a = self.L, self.o[e["h"]]
        s, out = wmem(L, a)
        if e["w"] == "raw":
            x = b'<unit xmlns="%s" filename="m"/>' % SRC.encode()
            L.srcml_archive_write_string(a, x, len(x))
        elif e["w"] in ("unit", "both"):
            self.unit(a, b"m")
        n = L.srcml_archive_clone(a)
        s2, out2 = wmem(L, n)
        if e["w"] in ("both", "none"):
            self.unit(n, b"n")
        L.srcml_archive_close(n)
        L.srcml_archive_close(a)
        docs = []
        for o in (out, out2):
            x = o.get() or b""
            docs.append((["unit"] if re.search(rb"<(\w+:)?unit[ />]", x) else []) + [m.decode() for m in re.findall(rb'filename="([^"]*)"', x)])
            o.free(L)
        L.srcml_archive_free(self.o[e["k"]])
        self.o[e["k"]] = n
        self.docs = docs
        return s or s2

    def do(self, e):
        L, k, h = self.L, e["op"], e.get("h")
        if k == "str":
            return self.call(h, "set_" + NAMES[e["f"]], arg(e["v"]))
        if k == "tabs":
            return self.call(h, "set_tabstop", e["n"])
        if k in ("opts", "enable", "disable"):
            n = sum(1 << i for i in e["bits"])
            return self.call(h, {"opts": "set_options", "enable": "enable_option", "disable": "disable_option"}[k], n)
        if k == "flag":
            return self.call(h, ("enable_" if e["on"] else "disable_") + {"hash": "hash", "solitary": "solitary_unit"}[e["f"]])
        if k == "pi":
            return self.call(h, "set_processing_instruction", arg(e["t"]), arg(e["d"]))
        if k == "rev":
            return self.call(h, "set_srcdiff_revision", e["n"])
        if k == "eol":
            return self.call(h, "set_eol", e["n"])
        if k == "ns":
            return self.call(h, "register_namespace", arg(e["p"]), arg(e["u"]))
        if k in ("clonea", "cloneu"):
            f, fr = (L.srcml_archive_clone, L.srcml_archive_free) if k == "clonea" else (L.srcml_unit_clone, L.srcml_unit_free)
            n = f(self.o[h])
            fr(self.o[e["k"]])
            self.o[e["k"]] = n
            return 0 if n else 1
        if k == "newa":
            L.srcml_archive_free(self.o[h])
            self.o[h] = L.srcml_archive_create()
            return 0
        if k == "newu":
            L.srcml_unit_free(self.o[h])
            self.o[h] = L.srcml_unit_create(self.o["home"])
            return 0
        if k == "use":
            for h in "ab":
                s, out = wmem(L, self.o[h])
                u = L.srcml_unit_create(self.o[h])
                L.srcml_unit_set_language(u, b"C")
                L.srcml_unit_set_version(u, b"zzz")
                L.srcml_unit_parse_memory(u, b"a;\n", 3)
                L.srcml_archive_write_unit(self.o[h], u)
                L.srcml_unit_free(u)
                L.srcml_archive_close(self.o[h])
                out.free(L)
            return 0
        if k == "mid":
            return self.midway(e)
        if k == "none":
            st = {f(None, *x) for f, x in [
                (L.srcml_archive_set_url, (b"x",)), (L.srcml_archive_set_options, (8,)), (L.srcml_archive_enable_option, (8,)),
                (L.srcml_archive_disable_option, (8,)), (L.srcml_archive_set_tabstop, (3,)), (L.srcml_archive_enable_hash, ()),
                (L.srcml_archive_disable_hash, ()), (L.srcml_archive_enable_solitary_unit, ()), (L.srcml_archive_disable_solitary_unit, ()),
                (L.srcml_archive_set_language, (b"C",)), (L.srcml_archive_set_version, (b"C",)), (L.srcml_archive_set_src_encoding, (b"C",)),
                (L.srcml_archive_set_xml_encoding, (b"C",)), (L.srcml_archive_register_namespace, (b"C", b"D")),
                (L.srcml_archive_set_processing_instruction, (b"C", b"D")), (L.srcml_archive_set_srcdiff_revision, (0,)),
                (L.srcml_unit_set_language, (b"C",)), (L.srcml_unit_set_filename, (b"C",)), (L.srcml_unit_set_version, (b"C",)),
                (L.srcml_unit_set_timestamp, (b"C",)), (L.srcml_unit_set_src_encoding, (b"C",)), (L.srcml_unit_set_eol, (1,))]}
            nulls = [L.srcml_archive_clone(None), L.srcml_unit_clone(None), L.srcml_unit_create(None), L.srcml_archive_get_url(None), L.srcml_unit_get_filename(None)]
            return st.pop() if len(st) == 1 and not any(nulls) else 99
        raise KeyError(k)


def run(L, sc, progress):
    w = World(L)
    ev = []
    try:
        for e in sc["ops"]:
            r = w.do(e)
            ev.append(dict(e, r={"st": st(r), "all": w.all(), **({"docs": w.docs} if e["op"] == "mid" else {})}))
    finally:
        w.close()
    return ev


VAL = ["x", "", "C", "Java", "Klingon", "UTF-8", "<&>\"'", "\u00e9\u4e2d", "a b", "1.0", NOSTR, "x" * 300, "\n"]


def rand_op(rng, g):
    h = rng.choice("aaabbbuuvv" + ("gggg" if g else ""))
    k = rng.random()
    if h in "uv":
        if k < .55:
            return dict(op="str", h=h, f=rng.choice(["srcenc", "lang", "file", "version", "time"]), v=rng.choice(VAL))
        if k < .75:
            return dict(op="eol", h=h, n=rng.choice([0, 1, 2, 3, 4, 5, 99]))
        if k < .9:
            return dict(op="cloneu", h=h, k="v" if h == "u" else "u")
        return dict(op="newu", h=h)
    if h == "g" and k < .25:
        return rng.choice([dict(op="str", h=h, f=rng.choice(["file", "time"]), v=rng.choice(VAL)), dict(op="eol", h=h, n=rng.choice([0, 1, 2, 3, 4]))])
    if k < .4:
        return dict(op="str", h=h, f=rng.choice(["srcenc", "xmlenc", "lang", "url", "version"]), v=rng.choice(VAL))
    bits = rng.sample(range(17), rng.choice([0, 1, 1, 1, 2, 4]))
    if k < .66:
        return dict(op=rng.choice(["opts", "enable", "enable", "disable", "disable"]), h=h, bits=bits)
    if k < .72 and h != "g":
        return dict(op="flag", h=h, f=rng.choice(["hash", "solitary"]), on=rng.random() < .5)
    if k < .76:
        return dict(op="tabs", h=h, n=rng.choice([0, 1, 2, 4, 8, 100]))
    if k < .8:
        return dict(op="pi", h=h, t=rng.choice(["x", "", NOSTR, "xml-stylesheet"]), d=rng.choice(["d", "", NOSTR, "a=\"b\""]))
    if k < .84:
        return dict(op="rev", h=h, n=rng.choice([0, 1, 2, 3, 77]))
    if k < .92:
        u = rng.choice(URIS)
        return dict(op="ns", h=h, p=rng.choice(["", "p", "q", "cpp", NOSTR]), u=NOSTR if u == "NULL" else u)
    if h == "g" or k < .97:
        return dict(op="clonea", h="a" if h != "b" else "b", k="b" if h != "b" else "a")
    return rng.choice([dict(op="newa", h=h), dict(op="none")])


def check(ctx):
    vt.build_lib()
    r = ctx.mc("SettingsMC")
    ctx.mc("SettingsMC", "SettingsMC2") if not ctx.quick else None
    paths, n = vt.cover(vt.edges(r), maxlen=60)
    scen = [{"id": "edge%d" % i, "ops": p} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(800, 8000)):
        g = rng.random() < .4
        ops = [rand_op(rng, g) for _ in range(rng.choice([5, 15, 40]))]
        # documents can be written under a solitary or archive form, but only with usable encodings
        if rng.random() < .3 and not any(o["op"] == "str" and o["f"] in ("xmlenc", "srcenc") for o in ops):
            ops.insert(rng.randrange(len(ops) + 1), dict(op="use"))
            for _ in range(rng.choice([0, 1, 2])):
                h = rng.choice("ab")
                ops.insert(rng.randrange(len(ops) + 1), dict(op="mid", h=h, k="b" if h == "a" else "a", w=rng.choice(["raw", "unit", "both", "none"])))
        scen.append({"id": "rnd%d" % i, "ops": ops, "fresh": g})
    vt.execute(ctx, "c08", "SettingsTrace", scen)
    ctx.cov["rule"] = ("all %d (state, operation) transitions of the bounded register machine as %d tests, plus seeded random histories; after "
                       "every call all getters of all objects are compared; distinct = distinct recorded traces" % (n, len(paths)))
