"""C12: input method, pieces and source encoding.  spec: Decode.tla"""
META = {"technique": "every case (encoding, bytes, pieces) of the decoding machine and generated sources parsed by every input method; text and markup validated against the specification",
        "note": "The machine is exhaustive over texts of 2-3 characters in 14 encoding situations with up to 2-4 cuts. Longer sources cross the library's 1024 byte buffer at every offset near it. ISO-8859-1, UTF-8, UTF-16 and UTF-32 only."}
import json, shutil
import vt, srcgen, xmlmini
from api import *


def run(L, sc, progress):
    ev = []
    d = tmpdir()
    try:
        for c in sc["cases"]:
            data = bytes(c["bytes"])
            for how, chunks in c["ways"]:
                a = L.srcml_archive_create()
                if sc.get("opts") is not None:
                    L.srcml_archive_set_options(a, sc["opts"])
                if c["enc"] != "-" and c.get("where") == "archive":
                    L.srcml_archive_set_src_encoding(a, b(c["enc"]))
                u = L.srcml_unit_create(a)
                L.srcml_unit_set_language(u, b(c["lang"]))
                if c["enc"] != "-" and c.get("where") != "archive":
                    L.srcml_unit_set_src_encoding(u, b(c["enc"]))
                s, stream = parse_by(L, u, data, "io" if how == "ioleft" else how, d, chunks, close=how != "ioleft")
                r = {"st": st(s), "text": [], "stream": "any", "enc": "any"}
                m = "-"
                if s == 0:
                    m = t(L.srcml_unit_get_srcml(u))
                    try:
                        r["text"] = [ord(x) for x in xmlmini.chardata(m)]
                    except xmlmini.Bad as x:
                        r["text"] = [-1]
                    r["stream"] = stream
                    if data:
                        r["enc"] = t(L.srcml_unit_get_src_encoding(u))
                ev.append({"op": "parse", "enc": c["enc"], "bytes": c["bytes"], "how": how, "chunks": chunks, "r": r})
                if s == 0:
                    ev.append({"op": "markup", "r": m + " " + t(L.srcml_unit_get_hash(u)) + " " + st(s) + " " + str(L.srcml_unit_get_loc(u))})
                L.srcml_unit_free(u)
                L.srcml_archive_free(a)
            ev.append({"op": "next", "r": "OK"})
    finally:
        shutil.rmtree(d, ignore_errors=True)
    return ev


HOW = ["memory", "file", "FILE", "fd", "io", "ioleft", "pipe", "pipeFILE"]
KINDS = [("UTF-8", "utf-8"), ("UTF-8", "utf-8-sig"), ("-", "utf-8-sig"), ("-", "latin-1"), ("ISO-8859-1", "latin-1"), ("-", "utf-16"), ("UTF-16", "utf-16"), ("UTF-16LE", "utf-16-le"),
         ("UTF-16BE", "utf-16-be"), ("-", "utf-32"), ("UTF-32", "utf-32"), ("ISO-8859-1", "ascii-bom8")]


def encode(s, codec):
    if codec == "latin-1":
        return s.encode("latin-1", "replace")
    if codec == "ascii-bom8":
        return b"\xef\xbb\xbf" + s.encode("latin-1", "replace")
    return s.encode(codec)


def avoid(data, enc):
    """a text in ISO-8859-1 that happens to begin like a mark is another case"""
    return enc in ("-", "ISO-8859-1") and data[:2] in (b"\xff\xfe", b"\xfe\xff")


def check(ctx):
    vt.build_lib()
    r = ctx.mc("DecodeMC")
    if not ctx.quick:
        ctx.mc("DecodeMC", "DecodeMC2", timeout=3000, workers=4)
    cases = {}
    for p in r.prints:
        if p.startswith("CASE "):
            enc, by, cuts = json.loads(p[5:])
            cases.setdefault((enc, bytes(by)), []).append(cuts)
    rng = ctx.rng
    scen, group = [], []
    keys = sorted(cases)
    langs = srcgen.LANGS[:4]
    for i, (enc, by) in enumerate(keys):
        ways = [["memory", [9999]]] + [["io", c] for c in cases[enc, by]]
        ways += [[h, rng.choice(cases[enc, by])] for h in rng.sample(HOW[1:], 2)]
        group.append({"enc": enc, "bytes": list(by), "lang": langs[i % 4], "ways": ways, "where": rng.choice(["archive", "unit"])})
        if len(group) == 12 or i + 1 == len(keys):
            scen.append({"id": "mc%d" % i, "cases": group, "opts": rng.randrange(64) * 2 if i % 3 else None})
            group = []
    # generated sources, short and crossing the buffer
    for i in range(ctx.pick(260, 5000)):
        lang = rng.choice(langs)
        enc, codec = rng.choice(KINDS)
        if rng.random() < .5:
            s = srcgen.text(rng, lang)[1][:600]
        else:
            unit = rng.choice(["\u00e9", "\r\n", "\r", "\n", "\U0001f600", "\u4e2d", "<", "&", "\x07", "a", "/*\u00e9*/", "\"\u4e2d\"", "\t"])
            w = {"utf-16": 2, "utf-16-le": 2, "utf-16-be": 2, "utf-32": 4}.get(codec, 1)
            pad = max(0, (rng.choice([256, 1024, 1024, 2048]) - rng.randrange(0, 24)) // w)
            s = rng.choice(["//", "\"", "/*", "", " "]) + "x" * pad + unit * rng.randrange(1, 20) + "\nint a;\n"
        s = s.replace("\0", "")
        data = encode(s, codec)
        if avoid(data, enc):
            continue
        if rng.random() < .1 and enc not in ("-", "ISO-8859-1"):
            data = data[:rng.randrange(len(data) + 1)]       # may end inside of a character
            if codec in ("utf-16", "utf-32") and len(data) < 4 or codec == "utf-8-sig" and len(data) < 3 and data:
                continue
        sizes = lambda: [rng.choice([1, 2, 3, 4, 5, 7, 100, 255, 1023, 1024, 1025, 4096]) for _ in range(rng.randrange(1, 6))]
        ways = [["memory", [1]]] + [["io", sizes()] for _ in range(3)] + [[h, sizes() if h[0] != "p" else [rng.choice([7, 100, 255, 1023, 1024, 1025, 4096])]] for h in rng.sample(HOW[1:], 3)]
        if len(data) < 1500:
            ways.append(["io", [1]])
        scen.append({"id": "src%d" % i, "opts": rng.randrange(64) * 2, "cases": [{"enc": enc, "bytes": list(data), "lang": lang, "ways": ways, "where": rng.choice(["archive", "unit"])}]})
    for i in range(ctx.pick(24, 24)):      # every offset of a character at the end of the buffer
        for codec, enc, ch in [("utf-8", "UTF-8", "\u4e2d"), ("utf-8", "UTF-8", "\r\n"), ("utf-16", "-", "\U0001f600"), ("utf-8-sig", "-", "\u00e9"), ("utf-16", "-", "\r\n")]:
            w = 2 if codec == "utf-16" else 1
            s = "x" * (1024 // w - i // w - (1 if i % 2 and w == 2 else 0)) + ch * 12 + ";"
            ways = [["memory", [1]], ["io", [1024]], ["io", [1023, 1]], [rng.choice(["file", "FILE", "fd"]), [1]]]
            scen.append({"id": "edge%d%s" % (i, codec + hex(ord(ch[0]))), "cases": [{"enc": enc, "bytes": list(encode(s, codec)), "lang": "C", "ways": ways}]})
    vt.execute(ctx, "c12", "DecodeTrace", scen)
    ctx.cov["rule"] = "each case is one text in one encoding parsed by several methods and pieces; all %d cases of the machine, generated sources and every offset at the buffer's end; distinct = distinct traces" % len(keys)
