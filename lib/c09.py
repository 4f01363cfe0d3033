"""C09: language selection.  spec: LangRegistry.tla"""
META = {"technique": 'every transition of the bounded registry replayed into the library, recorded results validated',
        "note": 'Exhaustive over a small set of extensions and filenames; random histories over the complete built-in table. The language in force is recognised by the markup of one reference text.'}
import os, re, shutil
import vt
from api import *

EXT = ["c", "h", "cpp", "CPP", "Cpp", "java", "JAVA", "aj", "cs", "x", "foo", "c++", "h++", "", "gz", "C", "i", "ii", "tcc",
       "xml", "m", "cp", "hpp", "cxx", "hxx", "cc", "hh", "H", "z", "g"]
LANGS = ["C", "C++", "C#", "Java", "Objective-C", "Klingon", "", "c", "java", "NULL", "C ", "xml"]


# marked up differently in each language
TEXT = b"""class a { int b; };
@interface c
using d = e::f;
[g] public h(ref i j) { lock (k) { l; } }
foreach (m in n) o;
import p.q;
template <class r> s;
"""
REF = []


def reference(L):
    d = {}
    for lang in LANGS[:5]:
        a = L.srcml_archive_create()
        u = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u, lang.encode())
        if L.srcml_unit_parse_memory(u, TEXT, len(TEXT)) == 0:
            d[L.srcml_unit_get_srcml_inner(u)] = lang
        L.srcml_unit_free(u)
        L.srcml_archive_free(a)
    if len(d) != 5:
        raise RuntimeError("the reference text does not tell the languages apart: %s" % sorted(d.values()))
    return d


def run(L, sc, progress):
    if not REF:
        REF.append(reference(L))
    h = {"a": L.srcml_archive_create(), "b": L.srcml_archive_create()}
    d = tmpdir()
    ev = []
    J = "".join
    try:
        for o in sc["ops"]:
            k = o["op"]
            g = o.get("h") == "g"
            if k == "register":
                f = L.srcml_register_file_extension if g else lambda e, l: L.srcml_archive_register_file_extension(h[o["h"]], e, l)
                r = st(f(b(J(o["ext"])), b(o["lang"])))
            elif k == "check":
                f = b(J(o["file"]))
                r = t(L.srcml_check_extension(f) if g else L.srcml_archive_check_extension(h[o["h"]], f))
            elif k == "setlang":
                x = None if o["lang"] == "-" else b(o["lang"])
                r = st(L.srcml_set_language(x) if g else L.srcml_archive_set_language(h[o["h"]], x))
            elif k == "clone":
                n = L.srcml_archive_clone(h[o["h"]])
                L.srcml_archive_free(h[o["k"]])
                h[o["k"]] = n
                r = "OK" if n else "FAILED"
            elif k == "renew":
                L.srcml_archive_free(h[o["h"]])
                h[o["h"]] = L.srcml_archive_create()
                r = "OK"
            elif k == "parse":
                name = J(o["file"])
                path = os.path.join(d, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "wb") as f:
                    f.write(TEXT)
                if g:      # the one-call interface takes its language the same way
                    outp = os.path.join(d, "out.xml")
                    if os.path.exists(outp):
                        os.unlink(outp)
                    L.srcml_set_filename(None)
                    s = L.srcml(b(path), b(outp))
                    txt = open(outp, "rb").read() if os.path.exists(outp) else b""
                    m = re.search(rb' language="([^"]*)"', txt)
                    r = m.group(1).decode() + "/" + m.group(1).decode() if s == 0 and m else st(s)
                else:
                    so, out = wmem(L, h[o["h"]])
                    u = L.srcml_unit_create(h[o["h"]])
                    if o["ulang"] != "-":
                        L.srcml_unit_set_language(u, b(o["ulang"]))
                    L.srcml_unit_set_filename(u, b"other.java")     # only an attribute: must not matter
                    s = L.srcml_unit_parse_filename(u, b(path)) if o["byname"] else L.srcml_unit_parse_memory(u, TEXT, len(TEXT))
                    r = st(s)
                    if s == 0:
                        how = REF[0].get(L.srcml_unit_get_srcml_inner(u), "unknown markup")
                        L.srcml_archive_write_unit(h[o["h"]], u)
                    L.srcml_unit_free(u)
                    L.srcml_archive_close(h[o["h"]])
                    if s == 0:
                        m = re.search(rb'<unit[^>]*>\s*<unit[^>]* language="([^"]*)"', out.get())
                        # the attribute is not judged when the caller set an unknown language explicitly
                        attr = how if o["ulang"] not in LANGS[:5] + ["-"] else m.group(1).decode() if m else "none"
                        r = how + "/" + attr
                    out.free(L)
                os.unlink(path)
            ev.append(dict(o, r=r))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for x in h.values():
            L.srcml_archive_free(x)
    return ev


def rand_scenario(rng, n):
    def fname(stem="f"):
        k = rng.random()
        e = rng.choice(EXT)
        s = rng.choice([stem, "a.b", "d/x", "d.c/x", ".", "x-y"])
        if k < .6:
            return s + "." + e
        if k < .75:
            return s + "." + e + ".gz"
        if k < .85:
            return s + "." + e + "." + rng.choice(EXT)
        return rng.choice([s, "c", ".c", ".gz", "c.gz", "x.gz", "f.", "f..c", "f.c.gz.gz", "f.gz.c", "a.cgz"])
    ops = []
    withg = rng.random() < .3
    for _ in range(n):
        hd = rng.choice(["a", "a", "b", "g"] if withg else ["a", "b"])
        k = rng.random()
        if k < .25:
            ops.append(dict(op="register", h=hd, ext=list(rng.choice(EXT)), lang=rng.choice(LANGS)))
        elif k < .55:
            ops.append(dict(op="check", h=hd, file=list(fname())))
        elif k < .63:
            ops.append(dict(op="setlang", h=hd, lang=rng.choice(["C", "Java", "-", "C#", "Klingon", "C++"])))
        elif k < .7:
            x, y = rng.sample(["a", "b"], 2)
            ops.append(dict(op="clone", h=x, k=y))
        elif k < .73:
            ops.append(dict(op="renew", h=rng.choice(["a", "b"])))
        else:
            f = fname().replace("d/x", "dx").replace("d.c/x", "d.cx")
            if f in (".", "..") or f.endswith("/"):
                f = "f.c"
            byname = rng.random() < .75
            if f.endswith(".gz"):
                f = f[:-3] + ".c"        # a real compressed file is needed to parse these
            if True:
                ops.append(dict(op="parse", h=rng.choice(["a", "b"]), ulang=rng.choice(["-", "-", "-", "C", "Java", "C#", "Klingon", "C++"]),
                                file=list(f), byname=byname))
    return {"ops": ops}


def check(ctx):
    vt.build_lib()
    ctx.mc("LangRegistryMC", "LangRegistryMC2")
    r = ctx.mc("LangRegistryMC")
    paths, n = vt.cover(vt.edges(r), maxlen=60)
    scen = [{"id": "edge%d" % i, "ops": p} for i, p in enumerate(paths)]
    for i in range(ctx.pick(400, 6000)):
        s = rand_scenario(ctx.rng, ctx.rng.choice([5, 20, 40]))
        s["id"] = "rnd%d" % i
        s["fresh"] = any(o.get("h") == "g" for o in s["ops"])
        scen.append(s)
    # the same few pairs registered over and over, with what they decide looked at after each
    for i in range(ctx.pick(150, 3000)):
        ops, hs = [], ctx.rng.choice(["a", "ab", "g", "ag"])
        exts, langs = ctx.rng.sample(EXT, 2), ctx.rng.sample(LANGS, 2)
        for _ in range(12):
            h = ctx.rng.choice(hs)
            ops.append(dict(op="register", h=h, ext=list(ctx.rng.choice(exts)), lang=ctx.rng.choice(langs)))
            ops += [dict(op="check", h=k, file=list("f." + e)) for k in hs for e in exts]
            if h != "g" and ctx.rng.random() < .3:
                ops.append(dict(op="parse", h=h, ulang="-", file=list("f." + ctx.rng.choice(exts)), byname=True))
        scen.append({"id": "again%d" % i, "fresh": "g" in hs, "ops": ops})
    # every built-in extension, plain, compressed and behind another suffix
    allx = [dict(op="check", h=h, file=list(p + "." + e + q)) for h in ("a", "g") for e in EXT for p in ("f", "d.java/f.cs") for q in ("", ".gz", ".bak")]
    scen.append({"id": "defaults", "fresh": True, "ops": allx})
    vt.execute(ctx, "c09", "LangRegistryTrace", scen)
    ctx.cov["rule"] = ("all %d (state, operation) transitions of the bounded model as %d tests, plus seeded random histories; "
                       "distinct = distinct recorded traces" % (n, len(paths)))

