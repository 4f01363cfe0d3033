"""C15: transformations.  spec: Transform.tla"""
META = {"technique": 'transformations as functions on documents; every transition of the bounded archive state replayed into the library, recorded results validated',
        "note": 'XPath, XSLT and RelaxNG themselves are the libxml2/libxslt engines; the pipeline, its results and their form are what is decided. Random pipelines of up to 4 steps over random documents.'}
import ctypes, os
import vt, srcdoc
from api import *

SRC = srcdoc.SRC
TYPES = {0: "NONE", 1: "UNITS", 2: "BOOLEAN", 3: "NUMBER", 4: "STRING"}


def esc(x):
    return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;")


def xml(docs, bare=False):
    out = ['<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="%s"%s revision="1.0.0">\n' % (SRC, "" if bare else ' xmlns:m="urn:m"')]
    for d in docs:
        stack = []
        for e in d:
            if e[0] == "s":
                out.append("\n<%s%s>" % (e[1], "".join(' %s="%s"' % (n, esc(v)) for n, v in e[2])))
                if e[1] != "unit":
                    out[-1] = out[-1][1:]
                stack.append(e[1])
            elif e[0] == "t":
                out.append(esc(e[1]))
            else:
                out.append("</%s>" % stack.pop())
        out.append("\n")
    return ("".join(out) + "\n</unit>\n").encode()


def qn(u, l, attr):
    if u == "urn:m":
        return "m:" + l
    return l if u == ("" if attr else SRC) else "{%s}%s" % (u, l)


def events(e, out):
    out.append(["s", qn(e.uri, e.local, False), [[qn(u, l, True), v] for _, u, l, v in e.attrs if not (srcdoc.is_unit(e) and l in ("revision", "hash"))]])
    for k in e.kids:
        if isinstance(k, str):
            out.append(["t", k])
        elif isinstance(k, srcdoc.El):
            events(k, out)
        else:
            out.append(["?"])
    out.append(["e"])
    return out


def written(L, us, bare):
    """the units as they are in an archive they are written to"""
    a = L.srcml_archive_create()
    L.srcml_archive_disable_solitary_unit(a)
    L.srcml_archive_disable_hash(a)
    if not bare:
        L.srcml_archive_register_namespace(a, b"m", b"urn:m")
    so, out = wmem(L, a)
    for u in us:
        s = L.srcml_archive_write_unit(a, u)
        if s:
            return [[["write", st(s)]]]
    L.srcml_archive_close(a)
    doc = out.get()
    out.free(L)
    L.srcml_archive_free(a)
    try:
        _, root, units = srcdoc.units(doc)
        if not us:
            return []
        res = [events(x, []) for x in units]
    except (srcdoc.Bad, UnicodeDecodeError) as x:
        return [[["bad", str(x), doc.decode("utf-8", "replace")]]]
    # the other forms of each unit say the same
    for i, u in enumerate(us):
        if i >= len(res):
            break
        inner = t(L.srcml_unit_get_srcml_inner(u))
        try:
            _, w = srcdoc.tree('<unit xmlns="%s" xmlns:m="urn:m" xmlns:cpp="http://www.srcML.org/srcML/cpp">%s</unit>' % (SRC, inner))
            if events(w, [])[1:-1] != res[i][1:-1]:
                res[i].append(["inner", inner])
        except srcdoc.Bad as x:
            res[i].append(["inner", str(x), inner])
        for n, f in (("language", L.srcml_unit_get_language), ("filename", L.srcml_unit_get_filename)):
            if dict(map(tuple, res[i][0][2])).get(n, "-") != t(f(u)):
                res[i].append([n, t(f(u))])
    return res


XSL = '<xsl:stylesheet version="1.0" xmlns:xsl="http://www.w3.org/1999/XSL/Transform" xmlns:src="%s" xmlns="%s" exclude-result-prefixes="src">%%s</xsl:stylesheet>' % (SRC, SRC)
IDENT = '<xsl:template match="@*|node()"><xsl:copy><xsl:apply-templates select="@*|node()"/></xsl:copy></xsl:template>'
RNG = ('<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><ref name="any"/></start><define name="any"><element><anyName><except>'
       '<name ns="%s">%%s</name></except></anyName><zeroOrMore><choice><attribute><anyName/></attribute><text/><ref name="any"/></choice></zeroOrMore></element></define></grammar>' % SRC)


def sheet(x):
    k = x["t"]
    if k == "copy":
        return XSL % IDENT
    if k == "rename":
        return XSL % (IDENT + '<xsl:template match="src:%s"><xsl:element name="%s" namespace="%s"><xsl:apply-templates select="@*|node()"/></xsl:element></xsl:template>' % (x["n"], x["to"], SRC))
    if k == "each":
        return XSL % ('<xsl:template match="/"><xsl:copy-of select="//src:%s"/></xsl:template>' % x["n"])
    if k == "drop":
        return XSL % '<xsl:template match="/"/>'
    if k == "xtext":
        return XSL % '<xsl:output method="text"/><xsl:template match="/"><xsl:value-of select="."/></xsl:template>'
    if k == "param":
        return XSL % ('<xsl:param name="p" select="\'dflt\'"/><xsl:template match="/*"><xsl:copy><xsl:copy-of select="@*"/><xsl:attribute name="p"><xsl:value-of select="$p"/></xsl:attribute>'
                      '<xsl:copy-of select="node()"/></xsl:copy></xsl:template>')
    return RNG % x["n"]


def append(L, a, x, how, d):
    k = x["t"]
    X = {"sel": "//src:%s", "text": "//src:%s/text()", "at": "//src:%s/@" + x.get("a", ""), "count": "count(//src:%s)", "has": "boolean(//src:%s)", "str": "string(//src:%s)"}
    if k in X:
        return L.srcml_append_transform_xpath(a, b(X[k] % x["n"]))
    if k == "mark":
        return L.srcml_append_transform_xpath_attribute(a, b("//src:" + x["n"]), b"m", b"urn:m", b"mk", b(x["v"]))
    if k == "wrap":
        return L.srcml_append_transform_xpath_element(a, b("//src:" + x["n"]), b"m", b"urn:m", b(x["w"]))
    kind, data = ("relaxng" if k == "rng" else "xslt"), sheet(x).encode()
    return load(L, a, kind, data, how, d)


def load(L, a, kind, data, how, d):
    f = lambda n: getattr(L, "srcml_append_transform_%s_%s" % (kind, n))
    if how == 0:
        return f("memory")(a, data, len(data))
    path = os.path.join(d, "t.xml")
    with open(path, "wb") as o:
        o.write(data)
    if how == 1:
        return f("filename")(a, b(path))
    if how == 2:
        fd = os.open(path, os.O_RDONLY)
        s = f("fd")(a, fd)
        os.close(fd)
        return s
    libc = ctypes.CDLL(None)
    libc.fopen.restype = V
    libc.fclose.argtypes = [V]
    F = libc.fopen(b(path), b"r")
    s = f("FILE")(a, F)
    libc.fclose(F)
    return s


def bad(L, a, what, d, how):
    if what == "xpath":
        return L.srcml_append_transform_xpath(a, b"//src:name[")
    if what == "xpathnull":
        return L.srcml_append_transform_xpath(a, None)
    data = {"xslt-malformed": "<a><b></a>", "xslt-other": "<foo/>", "xslt-select": XSL % '<xsl:template match="/"><xsl:value-of select="a["/></xsl:template>',
            "rng-malformed": "<grammar", "rng-other": "<foo/>", "rng-undefined": '<grammar xmlns="http://relaxng.org/ns/structure/1.0"><start><ref name="nope"/></start></grammar>'}[what].encode()
    return load(L, a, "xslt" if what[0] == "x" else "relaxng", data, how, d)


def run(L, sc, progress):
    import shutil
    docs, d = sc["cfg"]["docs"], tmpdir()
    a = L.srcml_archive_create()
    bare = sc.get("bare", False)       # the namespace of what is added is declared nowhere else
    data = xml(docs, bare)
    L.srcml_archive_read_open_memory(a, data, len(data))
    us = []
    while True:
        u = L.srcml_archive_read_unit(a)
        if not u:
            break
        us.append(u)
    h = {"a": a, "b": L.srcml_archive_create()}
    ev = []
    how = sc.get("how", 0)
    try:
        for n, o in enumerate(sc["ops"]):
            k = o["op"]
            if k == "append":
                r = st(append(L, h[o["h"]], o["x"], (how + n) % 4 if how else 0, d))
            elif k == "bad":
                r = st(bad(L, h[o["h"]], o["what"], d, (how + n) % 4 if how else 0))
            elif k == "param":
                r = st(L.srcml_append_transform_stringparam(h[o["h"]], b(o["n"]), b(o["v"])) if not o.get("expr") else
                       L.srcml_append_transform_param(h[o["h"]], b(o["n"]), b("'" + o["v"] + "'")))
            elif k == "clear":
                r = st(L.srcml_clear_transforms(h[o["h"]]))
            elif k == "clone":
                L.srcml_archive_free(h[o["k"]])
                h[o["k"]] = L.srcml_archive_clone(h[o["h"]])
                r = "OK"
            elif k == "apply":
                u = us[o["u"] - 1]
                res = V()
                s = L.srcml_unit_apply_transforms(h[o["h"]], u, ctypes.byref(res))
                if not res.value:
                    r = {"status": st(s), "type": "-"}
                else:
                    ty = L.srcml_transform_get_type(res)
                    n = L.srcml_transform_get_unit_size(res)
                    v = {2: lambda: str(L.srcml_transform_get_bool(res)), 3: lambda: "%g" % L.srcml_transform_get_number(res),
                         4: lambda: t(L.srcml_transform_get_string(res))}.get(ty, lambda: "-")()
                    r = {"status": st(s), "type": TYPES.get(ty, str(ty)), "v": v,
                         "units": written(L, [V(L.srcml_transform_get_unit(res, i)) for i in range(n)], bare), "unit": written(L, [u], bare)[0]}
                    if L.srcml_transform_get_unit(res, n) or L.srcml_transform_get_unit(res, -1):
                        r["type"] = "more units than its size"
                    # only the kind of value it has
                    if (ty != 4 and L.srcml_transform_get_string(res) is not None) or (ty != 2 and L.srcml_transform_get_bool(res) != -1):
                        r["type"] += " and another"
                    L.srcml_transform_free(res)
            else:
                u = us[o["u"] - 1]
                s = L.srcml_unit_apply_transforms(h[o["h"]], u, None)
                r = {"status": st(s), "unit": written(L, [u], bare)[0]}
            ev.append(dict(o, r=r))
            progress(ev[-1])
    finally:
        shutil.rmtree(d, ignore_errors=True)
        for u in us:
            L.srcml_unit_free(u)
        for x in h.values():
            L.srcml_archive_free(x)
    return ev


NAMES = ["expr", "name", "block", "op"]
TX = ["a", " ", "\n", "<", "&amp;", "\"q'", "]]>", "é😀", "x y", "a\nb\n", ">"]


def doc(rng, i):
    ev = [["s", "unit", [["language", rng.choice(["C", "C++", "Java", "C#"])], ["filename", rng.choice(["f%d.c", "d/<&>%d", "é%d"]) % i]] + ([["x", "<&\">"]] if rng.random() < .2 else [])]]

    def go(depth):
        text = False
        for _ in range(rng.randrange(4)):
            if rng.random() < .45:
                if not text:
                    ev.append(["t", rng.choice(TX)])
                text = True
            elif depth < 4:
                ev.append(["s", rng.choice(NAMES), [["type", rng.choice(["", "t", "<\"&>", "é"])]] if rng.random() < .3 else []])
                go(depth + 1)
                ev.append(["e"])
                text = False
    go(0)
    while len(ev) < 3:
        go(0)
    # white space alone, next to the unit tag, is kept too
    return ev + [["e"]]


def merge(d):
    out = []
    for e in d:
        if e[0] == "t" and out and out[-1][0] == "t":
            out[-1] = ["t", out[-1][1] + e[1]]
        else:
            out.append(e)
    return out


def trans(rng):
    n = rng.choice(NAMES + ["unit", "zzz"] + NAMES)
    k = rng.choice(["sel"] * 4 + ["mark"] * 3 + ["wrap"] * 3 + ["copy", "rename", "rename", "each", "each", "param", "rng", "text", "at", "count", "has", "str", "drop", "xtext"])
    x = {"t": k, "n": n}
    if k in ("copy", "drop", "xtext"):
        del x["n"]
    if k == "param":
        return {"t": k, "v": "dflt"}
    if k == "rename":
        x.update(n=rng.choice(NAMES), to=rng.choice(NAMES))
    if k == "mark":
        x["v"] = rng.choice(["1", "2", "<&\">", "é"])
    if k == "wrap":
        x.update(w=rng.choice("wx"), v="-")
    if k == "at":
        x["a"] = rng.choice(["type", "type", "filename", "zzz"])
    return x


def random_scenario(rng, i):
    docs = [merge(doc(rng, j)) for j in range(rng.choice([1, 2, 3]))]
    ops, part = [], set()
    for _ in range(rng.choice([4, 8, 14])):
        h = rng.choice("aaab")
        k = rng.random()
        us = [u for u in range(1, len(docs) + 1) if u not in part]
        if k < .45:
            x = trans(rng)
            ops.append({"op": "append", "h": h, "x": x})
        elif k < .5:
            ops.append({"op": "bad", "h": h, "what": rng.choice(["xpath", "xpathnull", "xslt-malformed", "xslt-other", "xslt-select", "rng-malformed", "rng-other", "rng-undefined"])})
        elif k < .6:
            expr = rng.random() < .5
            ops.append({"op": "param", "h": h, "n": "p", "v": rng.choice(["q", "é", "<&>", "a b", ""] + ([] if expr else ["r'", '"', '"r\'"', "'\"\"s"])), "expr": expr})
        elif k < .65:
            ops.append({"op": "clear", "h": h})
        elif k < .7:
            x, y = rng.sample("ab", 2)
            if x == "b":
                continue
            ops.append({"op": "clone", "h": x, "k": y})
        elif us and k < .75 and rng.random() < .5:
            u = rng.choice(us)
            part.add(u)
            ops.append({"op": "replace", "h": h, "u": u})
        elif us:
            ops.append({"op": "apply", "h": h, "u": rng.choice(us)})
    for u in range(1, len(docs) + 1):
        if u not in part:
            ops += [{"op": "apply", "h": h, "u": u} for h in "ab"]
    return {"id": "rnd%d" % i, "cfg": {"docs": docs}, "ops": ops, "how": rng.choice([0, 0, 1, 2, 3]), "bare": rng.random() < .5}


def check(ctx):
    vt.build_lib()
    scen, total = [], 0
    for name, cfg in (("p", None if ctx.quick else "TransformMC2"), ("s", "TransformMCS")):
        es = vt.edges(ctx.mc("TransformMC", cfg, timeout=3000))
        docs = [[[e[0], e[1], sorted(map(list, e[2]))] if e[0] == "s" else e for e in d] for d in es[0][0]["docs"]]
        slim = lambda s: [s["tr"], s["docs"] != es[0][0]["docs"]] if s["docs"] == es[0][0]["docs"] else s
        paths, n = vt.cover([[slim(x), o, slim(y)] for x, o, y in es], maxlen=60)
        total += n
        scen += [{"id": "%s%d" % (name, i), "cfg": {"docs": docs}, "ops": p, "how": i % 3, "bare": i % 2 == 1} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(1500, 30000)):
        scen.append(random_scenario(rng, i))
    vt.execute(ctx, "c15", "TransformTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the bounded archive state (pipelines of up to %d steps from 23, isolation of a clone); random pipelines over random documents" % (total, 2 if ctx.quick else 3)
