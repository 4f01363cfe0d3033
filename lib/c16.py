"""C16: building units element by element.  spec: Builder.tla"""
META = {"technique": "every transition of the builder machine replayed into the library and random call sequences validated against it; the documents built are compared as resolved trees in every form and after write and read",
        "note": "Exhaustive to sequences of 5 (thorough: 6) calls with two roots; random sequences of up to 40 calls on two units built at the same time. A prefix nothing declares is the caller's; such documents are not judged further."}
import json
import vt, srcdoc
from api import *

SRC = srcdoc.SRC


def events(kids):
    r = []

    def txt(x):
        if not x:
            return
        if r and r[-1][0] == "text":
            r[-1][1] += x
        else:
            r.append(["text", x])

    def go(ks):
        for k in ks:
            if isinstance(k, str):
                txt(k)
            elif isinstance(k, srcdoc.El):
                if k.uri == SRC and k.local == "escape":
                    txt(chr(int(k.attr("char"), 0)))
                    continue
                r.append(["start", k.uri, k.local, [[u, l, v] for _, u, l, v in k.attrs]])
                go(k.kids)
                r.append(["end"])
    go(kids)
    return r


class NotNs(Exception):
    pass


def look(doc):
    """events of the content of a unit that is a document"""
    try:
        root = srcdoc.tree(doc)[1]
    except srcdoc.Bad as x:
        if "is not declared" in str(x) or str(x).startswith("attribute"):
            return [["error", "not namespace well-formed"]]
        return [["error", "ill-formed: %s" % x]]
    if not srcdoc.is_unit(root):
        return [["error", "not a unit"]]
    return events(root.kids)


def within(root, inner):
    """a fragment that takes its namespaces from an archive"""
    q = root + ":unit" if root else "unit"
    return look('<%s xmlns%s="%s">%s</%s>' % (q, ":" + root if root else "", SRC, inner, q))


def raw(x):
    return None if x is None or x == "-" else x.replace("\\xff", "\xff\xff").replace("\\xc3", "\xc3").encode("latin-1") if "\\x" in x and ("\\xff" in x or "\\xc3" in x) else \
        x.replace("\\x01", "\x01").replace("\\x0c", "\x0c").encode()


def run(L, sc, progress):
    root = sc["cfg"]["root"]

    def archive():
        a = L.srcml_archive_create()
        if root:
            L.srcml_archive_register_namespace(a, root.encode(), SRC.encode())
        return a
    a = archive()
    u = {}
    for k in "uv":
        u[k] = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u[k], b"C++")
    ev = []

    def status(x):
        s = st(x)
        return "refused" if s in ("INVALID_ARGUMENT", "INVALID_INPUT") else s
    for o in sc["ops"]:
        e, k, x = dict(o), o["op"], u[o["u"]]
        r = {}
        if k == "start":
            r["st"] = status(L.srcml_write_start_unit(x))
        elif k == "element":
            if o.get("raw"):
                s = L.srcml_write_start_element(x, None, (o["p"] + ":" + o["n"]).encode(), None)
            else:
                s = L.srcml_write_start_element(x, raw(o["p"]), o["n"].encode(), raw(o["uri"]))
            r["st"] = status(s)
        elif k == "attribute":
            if o.get("raw"):
                s = L.srcml_write_attribute(x, None, (o["p"] + ":" + o["n"]).encode(), None, raw(o["v"]))
            else:
                s = L.srcml_write_attribute(x, raw(o["p"]), o["n"].encode(), raw(o["uri"]), raw(o["v"]))
            r["st"] = status(s)
        elif k == "namespace":
            r["st"] = status(L.srcml_write_namespace(x, raw(o["p"]), raw(o["uri"])))
        elif k == "text":
            v = raw(o["x"])
            bf = ctypes.create_string_buffer(v)
            r["st"] = status(L.srcml_write_string(x, bf))
            if bf.raw != v + b"\0":
                r["st"] += ", argument changed"
        elif k == "endelement":
            r["st"] = status(L.srcml_write_end_element(x))
        elif k == "end":
            r["st"] = status(L.srcml_write_end_unit(x))
            if r["st"] == "OK":
                r["full"] = look(t(L.srcml_unit_get_srcml(x)))
                if r["full"] != [["error", "not namespace well-formed"]]:
                    r.update(forms(L, x, root, archive, r["full"]))
        e["r"] = r
        progress(e)
        ev.append(e)
    for x in u.values():
        L.srcml_unit_free(x)
    L.srcml_archive_free(a)
    return ev


def forms(L, x, root, archive, full):
    r = {"outer": within(root, t(L.srcml_unit_get_srcml_outer(x))), "inner": within(root, t(L.srcml_unit_get_srcml_inner(x)))}
    # outer is the unit itself, within the archive
    o = t(L.srcml_unit_get_srcml_outer(x))
    q = root + ":unit" if root else "unit"
    try:
        w = srcdoc.tree('<%s xmlns%s="%s">%s</%s>' % (q, ":" + root if root else "", SRC, o, q))[1]
        r["outer"] = events(w.kids[0].kids) if len(w.kids) == 1 and srcdoc.is_unit(w.kids[0]) else [["error", "not one unit"]]
    except srcdoc.Bad as y:
        r["outer"] = [["error", "ill-formed: %s" % y]]
    out = archive()
    s, mem = wmem(L, out)
    ok = st(L.srcml_archive_write_unit(out, x))
    L.srcml_archive_close(out)
    L.srcml_archive_free(out)
    doc = mem.get()
    mem.free(L)
    if ok != "OK":
        r["back"] = [["error", ok]]
        r["src"] = "-"
        return r
    back = L.srcml_archive_create()
    L.srcml_archive_read_open_memory(back, doc, len(doc))
    v = L.srcml_archive_read_unit(back)
    r["back"] = look(t(L.srcml_unit_get_srcml(v))) if v else [["error", "no unit"]]
    L.srcml_unit_set_src_encoding(v, b"UTF-8")
    s, y = unparse_mem(L, v) if v else (0, b"no unit")
    r["src"] = y.decode("utf-8", "replace") if s == 0 else st(s)
    if v and L.srcml_archive_read_unit(back):
        r["back"] = [["error", "more than one unit"]]
    L.srcml_unit_free(v)
    L.srcml_archive_close(back)
    L.srcml_archive_free(back)
    return r


NAMES = ["e", "f", "name", "block", "e-1", "_x", "été", "unit", "", "a b", "1x", "<", "&", "a:b:c", "e ", "unitx", "xml1"]
URIS = ["-", "-", "urn:p", "urn:q", SRC, "http://www.srcML.org/srcML/cpp", "a&b<\"'>"]
PRE = ["-", "-", "-", "", "p", "q", "s", "cpp", "src"]
TEXTS = ["x", " ", "\n", "a\nb", "<", "&amp;", "\"q\"", "'", "]]>", "\r", "\r\n", "\t", "é", "😀", "\x01", "a\x0cb", "", "<e/>", "\"", "--", "\x7f", "\u2028", "long " * 900, "\\xff", "a\\xc3("]
VALS = ["1", "", "<>&\"'", "\n", "\t \r", "é", "-", "\\x01", "a\\x0cb", "\\xff", "]]>", "v w", "😀"]


def random_ops(rng, n):
    ops = []
    us = rng.choice(["u", "uv"])
    for k in us:
        ops.append({"op": "start", "u": k})
    for _ in range(n):
        u = rng.choice(us)
        k = rng.choices(["element", "attribute", "namespace", "text", "endelement", "end", "start"], [6, 6, 3, 5, 5, .7, .3])[0]
        e = {"op": k, "u": u}
        if k == "element":
            e.update(p=rng.choice(PRE), n=rng.choice(NAMES) if rng.random() < .4 else rng.choice("ef"), uri=rng.choice(URIS))
            if e["p"] in ("p", "q") and e["uri"] == "-" and rng.random() < .6:
                e["uri"] = "urn:" + e["p"]
        elif k == "attribute":
            e.update(p=rng.choice(PRE), n=rng.choice(NAMES) if rng.random() < .3 else rng.choice("abcd"), uri=rng.choice(URIS), v=rng.choice(VALS))
            if e["p"] in ("p", "q", "s", "cpp", "src") and e["uri"] == "-":
                e["uri"] = "urn:" + e["p"]
            if e["p"] in ("-", "") and rng.random() < .9:
                e["uri"] = "-"
        elif k == "namespace":
            e.update(p=rng.choice(PRE + ["a b", "1x", "x:y"]), uri=rng.choice(URIS[2:]))
        elif k == "text":
            e["x"] = rng.choice(TEXTS)
        if k in ("element", "attribute") and e["p"] in ("p", "q") and e["n"].isalpha() and e["n"] != "unit" and rng.random() < .15:
            e.update(raw=True, uri="-")
        ops.append(e)
    for k in us:
        ops.append({"op": "end", "u": k})
    return ops


def check(ctx):
    vt.build_lib()
    r = ctx.mc("BuilderMC", None if ctx.quick else "BuilderMC2", timeout=3000)
    es = vt.edges(r)
    scen, total = [], 0
    for root in ("", "s"):
        paths, n = vt.cover([x for x in es if x[0]["root"] == root], maxlen=40)
        total += n
        scen += [{"id": "edge%s%d" % (root, i), "cfg": {"root": root}, "ops": p + [{"op": "end", "u": "u"}]} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(3000, 60000)):
        scen.append({"id": "rnd%d" % i, "cfg": {"root": rng.choice(["", "", "s", "src"])}, "ops": random_ops(rng, rng.choice([6, 15, 40]))})
    vt.execute(ctx, "c16", "BuilderTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the builder machine; random call sequences" % total
