"""Driver of the archive specification (Archive.tla): C03, C04, C14."""
import ctypes, hashlib, re
import vt, srcdoc, srcgen
from api import *

SRC = srcdoc.SRC
STD = {SRC: "src", "http://www.srcML.org/srcML/cpp": "cpp", "http://www.srcML.org/srcML/error": "err", "http://www.srcML.org/srcML/position": "pos",
       "http://www.srcML.org/srcML/openmp": "omp"}
POS = "http://www.srcML.org/srcML/position"
KNOWN = {"language", "filename", "version", "timestamp", "hash", "revision", "url", "options", "src-encoding"}
OPT = {"CPP_TEXT_ELSE": 1 << 4, "CPP_MARKUP_IF0": 1 << 5}
CARRIED = dict(OPT, LINE=1 << 10)   # the options a document carries; the last is only met on reading
BOOL = {"pos": 1 << 2, "store": 1 << 6}
SOURCES = {"p1": ("C++", "#define A 1\nint f(int a) { return a < 'b' && \"x&\"; }\n"), "p2": ("Java", "class é { int x; } // ]]>\n\fa")}


def digest(kids):
    return hashlib.sha256(srcdoc.canon(kids).encode("utf-8", "surrogatepass")).hexdigest()[:12]


def names(e):
    return str((1 if e.local == "name" and e.uri == SRC else 0) + sum(int(names(k)) for k in e.kids if isinstance(k, srcdoc.El)))


def split(v):
    return [] if v is None or v == "" else v.split(",")


def unit_abs(e, root_decl=None):
    at = {}
    for q, u, l, v in e.attrs:
        at["tabs" if (u, l) == (POS, "tabs") else l if u == "" else "{%s}%s" % (u, l)] = v
    g = lambda n: at.get(n, "-")
    return {"language": g("language"), "filename": g("filename"), "version": g("version"), "timestamp": g("timestamp"), "hash": g("hash"), "rev": g("revision"),
            "url": g("url"), "tabs": g("tabs"), "opts": sorted(split(at.get("options"))), "senc": g("src-encoding"),
            "attrs": sorted([k, v] for k, v in at.items() if k not in KNOWN and k != "tabs"),
            "content": digest(e.kids), "text": srcdoc.text(e), "names": names(e),
            "pos": POS in e.scope.values(), "ns": user(e.scope)}


def user(scope):
    return sorted([p, u] for p, u in scope.items() if u not in STD and p != "xml")


def doc_abs(data):
    """the document as a value; the encoding is the one it declares"""
    # without a declaration, what the first bytes say
    sniff = {b"\xff\xfe": "utf-16", b"\xfe\xff": "utf-16", b"<\0": "utf-16-le", b"\0<": "utf-16-be"}.get(data[:2], "latin-1")
    head = data[:200].decode(sniff, "replace")
    enc, decl = "UTF-8", head.startswith("<?xml ")
    if decl and "encoding=" in head[:60]:
        enc = head.split('encoding="', 1)[1].split('"', 1)[0]
    try:
        text = data.decode(enc if sniff == "latin-1" else sniff)
        if not re.sub(r"<\?.*?\?>|\s", "", text, flags=re.S):
            return {"form": "none"}
        pis, root = srcdoc.tree(text)
        form, root, us = srcdoc.units(text)
    except (srcdoc.Bad, UnicodeDecodeError) as x:
        return {"form": "bad", "why": str(x), "doc": data.decode("latin-1")[:2000]}
    r = unit_abs(root)
    pi = [] if not pis else list(pis[0].partition(" ")[::2])
    macros = [[k.attr("token"), k.attr("type")] for k in root.kids if isinstance(k, srcdoc.El) and k.local == "macro-list"]
    if form == "empty":
        form = "archive"
    if form == "archive" and len(pis) > 1 or any(isinstance(k, str) and k.strip() for k in (root.kids if form == "archive" else [])):
        return {"form": "bad", "why": "more than units"}
    return {"form": form, "decl": decl, "enc": enc, "pi": pi, "rev": r["rev"], "url": r["url"], "version": r["version"], "opts": r["opts"], "tabs": r["tabs"],
            "pos": POS in root.scope.values(), "ns": user(root.scope), "macros": macros if form == "archive" else [], "attrs": r["attrs"],
            "units": [unit_abs(u) for u in us]}


CTX = '<unit xmlns="%s" xmlns:s="%s" xmlns:cpp="http://www.srcML.org/srcML/cpp" xmlns:c="http://www.srcML.org/srcML/cpp" xmlns:pos="%s" xmlns:p="%s" xmlns:omp="http://www.srcML.org/srcML/openmp" xmlns:x="urn:x&amp;&lt;&quot;&gt;" xmlns:y="urn:y">%%s</unit>' % (SRC, SRC, POS, POS)


def view(x, whole):
    """an XML form of a unit as a value"""
    if x is None:
        return "-"
    try:
        _, r = srcdoc.tree(x if whole else CTX % x)
        u = r
        if not whole:
            if len(r.kids) != 1 or not isinstance(r.kids[0], srcdoc.El):
                return "bad: not one element in %s" % x[:300]
            u = r.kids[0]
        if not srcdoc.is_unit(u):
            return "bad: not a unit"
    except srcdoc.Bad as e:
        return "bad: %s in %s" % (e, x[:400])
    a = unit_abs(u)
    return {k: a[k] for k in ("language", "filename", "version", "timestamp", "hash", "attrs", "rev", "url", "tabs", "opts", "senc", "content")}


def inner(x):
    try:
        return digest(srcdoc.tree(CTX % x)[1].kids)
    except srcdoc.Bad as e:
        return "bad: %s in %s" % (e, x[:400])


def getters(L, u):
    return {"language": t(L.srcml_unit_get_language(u)), "filename": t(L.srcml_unit_get_filename(u)), "version": t(L.srcml_unit_get_version(u)),
            "timestamp": t(L.srcml_unit_get_timestamp(u)), "hash": t(L.srcml_unit_get_hash(u)), "rev": t(L.srcml_unit_get_revision(u))}


def visible(L, a):
    n = L.srcml_archive_get_namespace_size(a)
    opts = L.srcml_archive_get_options(a)
    tgt = L.srcml_archive_get_processing_instruction_target(a)
    return {"url": t(L.srcml_archive_get_url(a)), "version": t(L.srcml_archive_get_version(a)), "tabs": str(L.srcml_archive_get_tabstop(a)),
            "opts": sorted(k for k, v in OPT.items() if opts & v), "solitary": bool(L.srcml_archive_is_solitary_unit(a)),
            "pi": [] if tgt is None else [t(tgt), t(L.srcml_archive_get_processing_instruction_data(a))],
            "ns": sorted([t(L.srcml_archive_get_namespace_prefix(a, i)), t(L.srcml_archive_get_namespace_uri(a, i))] for i in range(n)
                         if t(L.srcml_archive_get_namespace_uri(a, i)) not in STD),
            "rev": t(L.srcml_archive_get_revision(a)), "enc": t(L.srcml_archive_get_xml_encoding(a))}


def writer(L):
    return L.srcml_archive_create()


def run(L, sc, progress):
    w = writer(L)
    every = [w]
    form = sc["cfg"].get("docs", {})
    data = {k: v.encode(form[k].get("enc", "UTF-8")) for k, v in sc.get("xml", {}).items()}
    rd = {}
    out = [None]
    us, owner = {}, {}
    count = L.srcml_archive_create()
    L.srcml_append_transform_xpath(count, b"count(//src:name)")
    every.append(count)
    ev = []
    keep = []
    try:
        for o in sc["ops"]:
            k, e = o["op"], dict(o)
            if e.pop("if", False) and o["k"] not in us:
                continue
            if k == "set":
                f, v = o["f"], o["v"]
                if f in ("url", "version"):
                    r = st(getattr(L, "srcml_archive_set_" + f)(w, b(v)))
                elif f == "tabs":
                    r = st(L.srcml_archive_set_tabstop(w, int(v)))
                elif f in BOOL:
                    r = st((L.srcml_archive_enable_option if v else L.srcml_archive_disable_option)(w, BOOL[f]))
                elif f == "decl":
                    r = st((L.srcml_archive_disable_option if v else L.srcml_archive_enable_option)(w, 1 << 1))
                elif f == "opt":
                    r = st(L.srcml_archive_enable_option(w, OPT[v]))
                elif f in ("hash", "solitary"):
                    f = "hash" if f == "hash" else "solitary_unit"
                    r = st(getattr(L, "srcml_archive_%s_%s" % ("enable" if v else "disable", f))(w))
                elif f == "enc":
                    r = st(L.srcml_archive_set_xml_encoding(w, b(v)))
                elif f == "pi":
                    r = st(L.srcml_archive_set_processing_instruction(w, b(v[0]), b(v[1])))
                elif f == "ns":
                    r = st(L.srcml_archive_register_namespace(w, b(v[0]), b(v[1])))
            elif k == "fresh":
                w = writer(L)
                every.append(w)
                r = "OK"
            elif k == "clone":
                w = L.srcml_archive_clone(rd[o["h"]])
                every.append(w)
                r = "OK"
            elif k == "wopen":
                s, out[0] = wmem(L, w)
                r = st(s)
            elif k == "parse":
                u = L.srcml_unit_create(w)
                src = SOURCES.get(o["src"], (None, o["src"]))[1]
                raw = src.encode(o["enc"])
                L.srcml_unit_set_language(u, b(o["lang"]))
                for n, f in (("file", "filename"), ("ver", "version"), ("ts", "timestamp")):
                    if o[n] != "-":
                        getattr(L, "srcml_unit_set_" + f)(u, b(o[n]))
                L.srcml_unit_set_src_encoding(u, b(o["enc"]))
                r = st(L.srcml_unit_parse_memory(u, raw, len(raw)))
                us[o["k"]], owner[o["k"]] = u, "w"
                tree = srcdoc.tree(CTX % t(L.srcml_unit_get_srcml_inner(u)))[1]
                e.update(sha=hashlib.sha1(raw).hexdigest(), text=src, content=digest(tree.kids), names=names(tree))
            elif k == "write":
                r = st(L.srcml_archive_write_unit(w, us[o["k"]]))
            elif k == "wclose":
                L.srcml_archive_close(w)
                data[o["d"]] = out[0].get() or b""
                out[0].free(L)
                r = doc_abs(data[o["d"]])
            elif k == "ropen":
                h = o["h"]
                if h in rd:
                    L.srcml_archive_close(rd[h])
                rd[h] = L.srcml_archive_create()
                every.append(rd[h])
                d = data[o["d"]]
                keep.append(d)
                by = e.pop("by", 0)
                if by:
                    cb = chunk_reader(d, [by])
                    keep.append(cb)
                    s = L.srcml_archive_read_open_io(rd[h], V(1), cast(cb), None)
                else:
                    s = L.srcml_archive_read_open_memory(rd[h], d, len(d))
                r = visible(L, rd[h])
                if s:
                    r = st(s)
                if doc_abs(d)["form"] == "none":     # no document
                    break
            elif k == "reopen":     # the same archive, for another document
                d = data[o["d"]]
                keep.append(d)
                if doc_abs(d)["form"] == "none":
                    break
                L.srcml_archive_close(rd[o["h"]])
                s = L.srcml_archive_read_open_memory(rd[o["h"]], d, len(d))
                r = {k: v for k, v in visible(L, rd[o["h"]]).items() if k in ("enc", "solitary")}
                if s:
                    r = st(s)
            elif k in ("read", "skip"):
                a = rd[o["h"]]
                if k == "skip":
                    r = {1: "skipped", 0: "end"}.get(L.srcml_archive_skip_unit(a), "?")
                else:
                    u = L.srcml_archive_read_unit(a)
                    if u:
                        us[o["k"]], owner[o["k"]] = u, a
                        r = getters(L, u)
                    else:
                        r = "end"
            elif k == "free":
                L.srcml_unit_free(us.pop(o["k"]))
                r = "OK"
            elif k == "ask":
                u, what = us[o["k"]], o["what"]
                if what == "attrs":
                    r = getters(L, u)
                elif what == "full":
                    r = view(t(L.srcml_unit_get_srcml(u)), True)
                elif what == "outer":
                    r = view(t(L.srcml_unit_get_srcml_outer(u)), False)
                elif what == "inner":
                    r = inner(t(L.srcml_unit_get_srcml_inner(u)))
                elif what == "names":
                    res = V()
                    s = L.srcml_unit_apply_transforms(count, u, ctypes.byref(res))
                    r = "%g" % L.srcml_transform_get_number(res) if s == 0 else st(s)
                    L.srcml_transform_free(res)
                else:
                    L.srcml_unit_set_src_encoding(u, b"UTF-8") if owner[o["k"]] != "w" else None
                    s, d = unparse_mem(L, u)
                    r = d.decode("utf-8", "replace") if s == 0 else st(s)
            elif k == "rclose":
                L.srcml_archive_close(rd[o["h"]])
                r = "OK"
            ev.append(dict(e, r=r if isinstance(r, dict) else {"is": r}))
            progress(ev[-1])
    finally:
        for u in us.values():
            L.srcml_unit_free(u)
        for a in every:
            L.srcml_archive_free(a)
        if out[0]:
            out[0].free(L)
    return ev


# ---------------------------------------------------------------- given documents
def esc(v, q='"'):
    return v.replace("&", "&amp;").replace("<", "&lt;").replace(q, "&quot;" if q == '"' else "&apos;").replace("\n", "&#10;").replace("\t", "&#9;").replace("\r", "&#13;")


FRAG = ["", "a", "<expr_stmt><expr><name>a</name></expr>;</expr_stmt>\n", "<comment type=\"block\">/* &lt;&amp;]]&gt; */</comment>", "<escape char=\"0xc\"/>", "\n\n",
        "<c:directive>x</c:directive>", "<name><name>a</name><operator>::</operator><name>b</name></name> ", "<![CDATA[<a>&]]>", "é😀", "&#13;&#9;&quot;'&apos;&gt;", "<block type=\"pseudo\"/>",
        "<unit>u</unit>", "<name x:a=\"1\"/>", "<literal type='string'>\"a>b\"</literal>", "<x:e y='>'>t</x:e>", "a" * 3000, "<name>%s</name>" % ("b " * 2500)]
VALS = ["", "a", "a<b>&\"c'", " xmlns=\"x\" ", "a url=\"b\" ", "é", "x\ny\tz", "/>", "]]>", "language", "a" * 600, "-x"]


def given(rng, many=True, bare=0):
    """a document not written by the library, as text"""
    q = rng.choice("\"\"'")
    px = rng.choice(["", "", "", "s:"])
    form = rng.choice(["archive", "archive", "solitary"])
    ns = ["xmlns%s=%s%s%s" % (":s" if px else "", q, SRC, q)]
    cppdecl = "xmlns:c=%shttp://www.srcML.org/srcML/cpp%s" % (q, q)
    xdecl = "xmlns:x=%surn:x&amp;&lt;&quot;>%s" % (q, q)
    where = {"c": rng.choice(["root", "unit"]), "x": rng.choice(["root", "unit"])}
    root = ns + [d for n, d in (("c", cppdecl), ("x", xdecl)) if where[n] == "root" or form == "solitary"]
    inner_ns = [d for n, d in (("c", cppdecl), ("x", xdecl)) if where[n] == "unit"]
    if rng.random() < .3:
        inner_ns += ns

    def tag(decls, at):
        l = decls + ["%s=%s%s%s" % (n, q, esc(v, q), q) for n, v in at]
        k = rng.random()
        if k < .3:
            rng.shuffle(l)
        return "<%sunit%s%s" % (px, "".join(rng.choice([" ", " ", "\n  "]) + x for x in l), rng.choice(["", "", " "]))

    def attrs(lang, nolang=False):
        at = [("revision", rng.choice(["1.0.0", "0.9.5"]))] if rng.random() < .8 else []
        if lang and not (nolang and rng.random() < bare):
            at.append(("language", rng.choice(["C", "C++", "Java", "C#"])))
        for n in ("filename", "version", "timestamp", "hash"):
            if lang and rng.random() < .4 or (n == "version" and rng.random() < .4):
                at.append((n, rng.choice(VALS)))
        if not lang or form == "solitary":
            if rng.random() < .4:
                at.append(("url", rng.choice(VALS)))
            if rng.random() < .3:
                at.append(("options", ",".join(rng.sample(list(CARRIED), rng.choice([1, 1, 2, 2, 3, 3])))))
        for n in ("a", "x:b", "src-encoding", "item"):
            if rng.random() < .15 and (n != "x:b" or lang or where["x"] == "root"):
                at.append((n, rng.choice(VALS)))
        return at

    def body():
        s = "".join(rng.choice(FRAG) for _ in range(rng.choice([0, 1, 3, 6])))
        return s

    def named(s):
        import re
        return re.sub(r"<(/?)([a-z_]+[ />])", lambda m: "<%s%s%s" % (m[1], px, m[2]), s.replace("<unit>u</unit>", "")) if px else s.replace("<unit>u</unit>", "")
    out = ""
    if rng.random() < .9:
        out += '<?xml version="1.0" encoding="UTF-8"%s?>\n' % rng.choice(["", ' standalone="yes"'])
    if rng.random() < .15:
        out += "<!-- c -->"
    if rng.random() < .3:
        out += "<?%s %s?>\n" % (rng.choice(["a", "xml-stylesheet"]), rng.choice(["b", "type='x' <&>"]))
    if form == "solitary":
        bd = named(body())
        return out + (tag(root, attrs(True)) + "/>" if bd == "" and rng.random() < .5 else tag(root, attrs(True)) + ">" + bd + "</%sunit>" % px) + rng.choice(["", "\n"])
    out += tag(root, attrs(False)) + ">"
    gap = rng.choice(["", "\n\n", "\n", " "])
    n = rng.choice([0, 1, 2, 3, 5] if many else [1, 2])
    if n and rng.random() < .2:
        out += "<%smacro-list token=%sM%s type=%ssrc:macro%s/>" % (px, q, q, q, q)
    for _ in range(n):
        bd = named(body())
        out += gap + (tag(inner_ns, attrs(True)) + "/>" if bd == "" and rng.random() < .5 else tag(inner_ns, attrs(True, bd != "")) + ">" + bd + "</%sunit>" % px)
    return out + gap + "</%sunit>" % px + rng.choice(["", "\n", "<!-- end -->\n"])


def random_parse(rng, k):
    lang = rng.choice(["C", "C++", "Java", "C#"])
    lang, src = srcgen.text(rng, lang)
    enc = "UTF-8"
    try:
        src.encode("latin-1")
        enc = rng.choice(["UTF-8", "ISO-8859-1"])
    except UnicodeEncodeError:
        pass
    src = src.replace("\r", "")
    v = lambda p=.5: rng.choice(VALS) if rng.random() < p else "-"
    return {"op": "parse", "k": k, "lang": lang, "file": v(), "ver": v(.3), "ts": v(.3), "enc": enc, "src": src}
