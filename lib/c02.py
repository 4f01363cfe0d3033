"""C02 and C19: markup of documents as a token machine.  spec: Markup.tla"""
META = {"technique": "every produced document is run token by token through the specification's markup machine (trace validation)",
        "note": "The machine is checked against a grammar on all token sequences up to a bound. Documents checked are those of several thousand generated sources, with random options, forms and namespaces; a second XML parser (expat) must accept each too."}
import re, shutil
import xml.parsers.expat
import vt, srcgen, xmlmini
from api import *

POSNS = "http://www.srcML.org/srcML/position"
CPPNS = "http://www.srcML.org/srcML/cpp"
RUN = re.compile(r"\n|\t|[ \f\r\v]+|\\\n|(?:(?!\\\n)[^\n\t \f\r\v])+")


def runs(s):
    return [["c", 1] if m[0] == "\\\n" else ["n" if m[0] == "\n" else "t" if m[0] == "\t" else "s" if m[0][0] in " \f\r\v" else "o", len(m[0].encode())] for m in RUN.finditer(s)]


def split(q):
    p, _, n = q.rpartition(":")
    return p, n


def norm(s):
    return s.replace("\r\n", "\n").replace("\r", "\n")


def tokens(doc, srcs, archive):
    """the tokens of the document; srcs: the source of each unit in order, cut at the places where the document is cut"""
    out, depth, src, cur, tabs = [], 0, None, 0, None
    units = iter(srcs)
    scope = [{}]
    try:
        esc = 0
        for tk in xmlmini.tokens(doc):
            k = tk[0]
            if esc and k in ("start", "text"):
                raise xmlmini.Bad("content in escape")
            if k == "start":
                p, n = split(tk[1])
                d = [["" if a == "xmlns" else a[6:], v] for a, v in tk[2] if a == "xmlns" or a.startswith("xmlns:")]
                a = [list(split(x)) + [v] for x, v in tk[2] if not (x == "xmlns" or x.startswith("xmlns:"))]
                sc = dict(scope[-1])
                sc.update(d)
                at = {(sc.get(x[0]), x[1]): x[2] for x in a if x[0]}
                if n == "escape":
                    v = [x[2] for x in a if x[1] == "char"]
                    c = chr(int(v[0], 0)) if len(v) == 1 else "?"
                    out.append({"k": "x", "p": p, "x": c, "y": src[cur:cur + 1] if src is not None else "", "u": [["o", 1]]})
                    cur += 1
                    if not tk[3]:
                        esc = 1
                    continue
                pos = lambda w: [int(i) for i in at[POSNS, w].split(":")] if (POSNS, w) in at else []
                out.append({"k": "s", "p": p, "n": n, "a": a, "d": d, "ps": pos("start"), "pe": pos("end"), "cpp": sc.get(p) == CPPNS})
                if n == "unit":
                    if (POSNS, "tabs") in at:
                        tabs = at[POSNS, "tabs"]
                    if not archive or depth == 1:
                        if src is not None and cur < len(src):
                            raise xmlmini.Bad("source left over at the end of a unit: %r" % src[cur:cur + 40])
                        src, cur = next(units, ""), 0
                if tk[3]:
                    out.append({"k": "e", "p": p, "n": n})
                else:
                    depth += 1
                    scope.append(sc)
            elif k == "end":
                p, n = split(tk[1])
                if esc:
                    esc = 0
                    if n != "escape":
                        raise xmlmini.Bad("end tag does not match escape")
                    continue
                depth -= 1
                if scope[1:]:
                    scope.pop()
                out.append({"k": "e", "p": p, "n": n})
            elif k == "text":
                if (archive and depth < 2 or depth == 0) and not tk[1].strip(" \t\n"):
                    out.append({"k": "w"})
                    continue
                y = (src or "")[cur:cur + len(tk[1])]
                out.append({"k": "t", "x": tk[1], "y": y, "u": runs(tk[1])})
                cur += len(tk[1])
            elif k in ("decl", "pi"):
                out.append({"k": k})
            else:
                raise xmlmini.Bad("XML comment")
        out.append({"k": "z", "left": (src or "")[cur:] + "".join(units)})
    except (xmlmini.Bad, ValueError, KeyError, IndexError) as x:
        out.append({"k": "bad", "m": "%s: %s" % (type(x).__name__, str(x)[:200])})
    return out, tabs


def settings(L, a, sc):
    L.srcml_archive_set_src_encoding(a, b"UTF-8")
    if sc.get("xenc"):
        L.srcml_archive_set_xml_encoding(a, b(sc["xenc"]))
    L.srcml_archive_set_options(a, sc["opts"])
    L.srcml_archive_set_tabstop(a, sc.get("tabs", 8))
    if sc.get("solitary"):
        L.srcml_archive_enable_solitary_unit(a)
    if not sc.get("hash", True):
        L.srcml_archive_disable_hash(a)
    for p, u in sc.get("ns", []):
        L.srcml_archive_register_namespace(a, b(p), b(u))
    for k, v in sc.get("attr", {}).items():
        {"url": L.srcml_archive_set_url, "version": L.srcml_archive_set_version}[k](a, b(v))
    if sc.get("pi"):
        L.srcml_archive_set_processing_instruction(a, b(sc["pi"][0]), b(sc["pi"][1]))


def document(L, sc, opts=None):
    sc = dict(sc, opts=sc["opts"] if opts is None else opts)
    a = L.srcml_archive_create()
    settings(L, a, sc)
    s, out = wmem(L, a)
    views = []
    for i, txt in enumerate(sc["srcs"]):
        u = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u, b(sc["lang"]))
        for k, v in sc.get("uattr", {}).items():
            {"filename": L.srcml_unit_set_filename, "version": L.srcml_unit_set_version, "timestamp": L.srcml_unit_set_timestamp}[k](u, b(v))
        d = txt.encode()
        L.srcml_unit_parse_memory(u, d, len(d))
        if sc.get("views"):
            views.append(t(L.srcml_unit_get_srcml(u)))
        L.srcml_archive_write_unit(a, u)
        L.srcml_unit_free(u)
    L.srcml_archive_close(a)
    x = out.get() or b""
    out.free(L)
    L.srcml_archive_free(a)
    return x.decode(sc.get("xenc") or "UTF-8", "surrogateescape"), x, views


def expat(x):
    p = xml.parsers.expat.ParserCreate(namespace_separator="\x01")
    try:
        p.Parse(x, True)
        return True
    except xml.parsers.expat.ExpatError as e:
        return str(e)


def docevent(doc, srcs, sc, pos, archive=None):
    toks, tabs = tokens(doc, srcs, not sc.get("solitary") if archive is None else archive)
    return {"op": "doc", "tabs": sc.get("tabs", 8), "pos": pos, "lang": sc["lang"], "toks": toks, "r": "OK"}, tabs


POSATT = re.compile(r' pos:(?:start|end|tabs)="[^"]*"| xmlns:pos="[^"]*"')


def run(L, sc, progress):
    ev = []
    srcs = [norm(s) for s in sc["srcs"]]
    check_pos = sc.get("checkpos", "no")
    doc, raw, views = document(L, sc)
    e, tabs = docevent(doc, srcs, sc, check_pos)
    ev.append(e)
    ev.append({"op": "accepted", "r": expat(raw)})
    for v, s in zip(views, srcs):
        e, _ = docevent(v, [s], sc, check_pos, False)
        ev.append(e)
        ev.append({"op": "accepted", "r": expat(v.encode())})
    if check_pos != "no" and sc.get("hash", True):
        ev.append({"op": "tabs", "pos": "yes", "tabs": sc.get("tabs", 8), "r": tabs or "-"})
        doc0, _, _ = document(L, sc, sc["opts"] & ~OPT_POSITION)
        ev.append({"op": "same", "other": POSATT.sub("", doc), "r": doc0})
    return ev


TRICKY = ["<&>\"'", "a\tb", "\u00e9\u4e2d", "]]>", "a b", "", "x'y\"z", "&amp;", "\U0001f600", "a\nb"]
NS = [["s", "http://www.srcML.org/srcML/src"], ["c", "http://www.srcML.org/srcML/cpp"], ["p", "http://www.srcML.org/srcML/position"], ["o", "http://www.srcML.org/srcML/openmp"], ["e", "http://www.srcML.org/srcML/error"], ["x", "urn:x"], ["y", "urn:<\"&>"]]


def scenario(rng, i, hostile=.25, size=1, split=True):
    sol = rng.random() < .4
    n = 1 if sol else rng.choice([0, 1, 1, 2, 3])
    lang = rng.choice(srcgen.LANGS[:4] if rng.random() < .9 else srcgen.LANGS)
    srcs = [srcgen.text(rng, lang=lang, size=size, hostile=hostile, split=split)[1] for _ in range(n)]
    sc = {"id": "rnd%d" % i, "lang": lang, "srcs": srcs, "opts": rng.randrange(64) * 2, "solitary": sol, "hash": rng.random() < .7, "tabs": rng.choice([1, 2, 3, 4, 8, 8, 16])}
    if rng.random() < .3:
        sc["ns"] = rng.sample(NS, rng.choice([1, 2, 3]))
    if rng.random() < .3:
        sc["attr"] = {"url": rng.choice(TRICKY), "version": rng.choice(TRICKY)}
        sc["uattr"] = {"filename": rng.choice(TRICKY), "version": rng.choice(TRICKY), "timestamp": rng.choice(TRICKY)}
    if rng.random() < .1:
        sc["pi"] = ["target", "data \"x\" <&>"]
    if rng.random() < .1:
        sc["xenc"] = "UTF-8"
    if n and rng.random() < .25:
        sc["views"] = True
    return sc


def common(ctx, scen):
    vt.execute(ctx, "c02", "MarkupTrace", scen)


def check(ctx):
    vt.build_lib()
    ctx.mc("MarkupMC", "MarkupMC" if ctx.quick else "MarkupMC2", timeout=3000)
    rng = ctx.rng
    scen = [scenario(rng, i, rng.choice([0, .25, .6])) for i in range(ctx.pick(2200, 40000))]
    # every fragment alone, and pairs of them
    k = 0
    for lang in srcgen.LANGS:
        for f in srcgen.FRAG["*"] + srcgen.FRAG[lang]:
            scen.append({"id": "frag%d" % k, "lang": lang, "srcs": [f], "opts": rng.randrange(64) * 2, "solitary": k % 2 == 0, "views": True})
            k += 1
    for lang in srcgen.LANGS[:4]:
        for o in range(64):
            scen.append({"id": "opt%d" % k, "lang": lang, "srcs": ["#if A\nint a\x01 = \"<\";\n#else\nb && c;\n#endif\n#pragma omp parallel for\nfor (;;) { // x\n}\n"] * (1 + o % 2), "opts": o * 2, "solitary": o % 2 == 0, "views": o % 3 == 0})
            k += 1
    for i in range(ctx.pick(60, 400)):
        lang = rng.choice(srcgen.LANGS[:4])
        scen.append({"id": "deep%d" % i, "lang": lang, "srcs": [srcgen.nested(rng, lang, rng.choice([5, 20, 60, 120]))], "opts": rng.randrange(64) * 2, "solitary": True})
    common(ctx, scen)
    ctx.cov["rule"] = "each document with all of its tokens is one trace event; fragments in every language, all options, random spliced sources, one solitary or 0-3 archived units, random prefixes and attributes; distinct = distinct documents"
