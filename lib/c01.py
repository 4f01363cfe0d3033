"""C01: source -> srcML -> source is the identity.  spec: SourceRoundTrip.tla"""
META = {"technique": "machine's texts and generated sources replayed into the library, recorded texts validated against the specification",
        "note": "The per-character machine is checked exhaustively to length 4; the library's markup and every extraction are judged by the specification for all machine texts of length 3 and for several thousand generated sources per run. Inputs outside those explored are not covered."}
import json, os, re, shutil
import vt, srcgen, xmlmini
from api import *

BRK = {"\r\n": "CRLF", "\r": "CR", "\n": "LF"}


def lines(s):
    p = re.split("(\r\n|\r|\n)", s)
    return [[p[i], BRK[p[i + 1]] if i + 1 < len(p) else "EOF"] for i in range(0, len(p), 2)]


def run(L, sc, progress):
    txt = sc["src"]
    enc = sc.get("enc", "UTF-8")
    data = txt.encode(enc)
    ev = []
    d = tmpdir()
    try:
        a = L.srcml_archive_create()
        L.srcml_archive_set_src_encoding(a, b(enc))
        L.srcml_archive_set_options(a, sc["opts"])
        L.srcml_archive_set_tabstop(a, sc.get("tabs", 8))
        if sc.get("solitary"):
            L.srcml_archive_enable_solitary_unit(a)
        if not sc.get("hash", True):
            L.srcml_archive_disable_hash(a)
        for p, u in sc.get("ns", []):
            L.srcml_archive_register_namespace(a, b(p), b(u))


        so, out = wmem(L, a)
        u = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u, b(sc["lang"]))
        how = sc.get("how", "memory")
        if how == "memory":
            s = L.srcml_unit_parse_memory(u, data, len(data))
        else:
            path = os.path.join(d, "s")
            with open(path, "wb") as f:
                f.write(data)
            s = L.srcml_unit_parse_filename(u, b(path))
        ev.append({"op": "parse", "lang": sc["lang"], "opts": sc["opts"], "src": lines(txt), "r": st(s)})

        def view(kind, f):
            try:
                r = lines(f())
            except Exception as x:
                r = [["%s: %s" % (type(x).__name__, str(x)[:200]), "FAILED"]]
            ev.append({"op": "view", "kind": kind, "r": r})
        view("markup", lambda: xmlmini.chardata(L.srcml_unit_get_srcml(u).decode()))
        L.srcml_archive_write_unit(a, u)
        L.srcml_unit_free(u)
        L.srcml_archive_close(a)
        L.srcml_archive_free(a)
        x = out.get()
        out.free(L)
        a = L.srcml_archive_create()
        if enc != "UTF-16":
            L.srcml_archive_set_src_encoding(a, b(enc))
        L.srcml_archive_read_open_memory(a, x, len(x))
        u = L.srcml_archive_read_unit(a)
        if enc == "UTF-16":
            enc = "UTF-8"
        L.srcml_unit_set_src_encoding(u, b(enc))

        def unp():
            s, r = unparse_mem(L, u)
            if s:
                raise ValueError("unparse: " + st(s))
            return r.decode(enc)
        view("unparse", unp)
        view("unparse again", unp)
        view("read markup", lambda: xmlmini.chardata(L.srcml_unit_get_srcml(u).decode()))
        L.srcml_unit_free(u)
        L.srcml_archive_close(a)
        L.srcml_archive_free(a)
        if sc.get("show"):
            ev.append({"op": "doc", "r": x.decode()})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


CLS = {"a": "a", "SP": " ", "CR": "\r", "LF": "\n", "CTRL": "\x07", "DEL": "\x7f", "QUOT": '"', "SLASH": "/", "STAR": "*", "BSL": "\\",
       "HASH": "#", "HIGH": "\u00e9", "SEMI": ";", "NUL": "\0", "FF": "\f"}


def scenarios(ctx, n):
    rng = ctx.rng
    scen = []
    for i in range(n):
        lang, s = srcgen.text(rng, size=rng.choice([1, 1, 1, 3]))
        scen.append({"id": "rnd%d" % i, "lang": lang, "src": s, "opts": rng.randrange(64) * 2})
    return scen


def check(ctx):
    vt.build_lib()
    ctx.mc("SourceRoundTripMC", "SourceRoundTripMC2")
    r = ctx.mc("SourceRoundTripMC")
    texts = [json.loads(p[5:]) for p in r.prints if p.startswith("TEXT ")]
    rng = ctx.rng
    scen = []
    for i, tx in enumerate(texts):
        s = "".join(CLS.get(c, c) for c in tx)
        lang = srcgen.LANGS[i % 4]
        # alone, and inside code
        scen.append({"id": "mc%d" % i, "lang": lang, "src": s if i % 2 else "int f() {\n" + s + "}\n", "opts": rng.randrange(64) * 2})
    scen += scenarios(ctx, ctx.pick(2500, 40000))
    k = 0
    for lang in srcgen.LANGS[:4]:
        for c in [chr(c) for c in range(128)] + ["\u0080", "\u00ff", "\u0100", "\ud7ff", "\ufffd", "\U00010000", "\U0010ffff", "\u2028", "\ufeff"]:
            scen.append({"id": "chr%d" % k, "lang": lang, "opts": rng.randrange(64) * 2,
                         "src": "x%sy\n\"%s\" '%s' /*%s*/ //%s\n#define %s\n%s" % ((c,) * 7)})
            k += 1
    # long texts crossing the 1024 byte input pieces, in several encodings
    for i in range(ctx.pick(120, 2000)):
        unit = rng.choice(["\u00e9", "\r\n", "\r", "\n", "\U0001f600", "\u4e2d", "<", "&", "\x07", "a", "/*\u00e9*/", "\"\u4e2d\"", "\t"])
        pad = rng.choice([1024, 2048, 4096, 8192]) - rng.randrange(0, 12)
        enc = rng.choice(["UTF-8", "UTF-8", "UTF-16", "ISO-8859-1"])
        if enc == "UTF-16":
            pad //= 2
        s = rng.choice(["//", "\"", "/*", "", " "]) + "x" * max(0, pad - 20) + rng.choice([" ", "\n", "x", "*/"]) * rng.randrange(21) + unit * rng.randrange(1, 20) + "\nint a;\n"
        if enc == "ISO-8859-1":
            s = "".join(c if ord(c) < 256 else "\u00ff" for c in s)
        scen.append({"id": "long%d" % i, "lang": rng.choice(srcgen.LANGS[:4]), "src": s, "opts": rng.randrange(64) * 2, "enc": enc, "how": rng.choice(["memory", "file"])})
    for i in range(ctx.pick(40, 300)):
        lang = rng.choice(srcgen.LANGS[:4])
        scen.append({"id": "deep%d" % i, "lang": lang, "src": srcgen.nested(rng, lang, rng.choice([5, 20, 60, 120])), "opts": rng.randrange(64) * 2})
    for s in scen:
        if rng.random() < .3:
            s.update(tabs=rng.choice([1, 2, 4, 8]), solitary=rng.random() < .5, hash=rng.random() < .5)
            if rng.random() < .5:
                s["ns"] = rng.choice([[["src", "http://www.srcML.org/srcML/src"]], [["c", "http://www.srcML.org/srcML/cpp"]], [["p", "http://www.srcML.org/srcML/position"]], [["x", "urn:x"]]])
    vt.execute(ctx, "c01", "SourceRoundTripTrace", scen, signature=lambda m: str(m.trace["id"]))
    ctx.cov["rule"] = ("every text of the bounded machine, every ASCII character in every lexical context, parser cases and hand-made fragments "
                       "spliced, truncated and mutated, long and deeply nested texts; random options; distinct = distinct recorded traces")
