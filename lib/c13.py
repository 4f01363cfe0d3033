"""C13: source extraction.  spec: Extract.tla (on Decode.tla)"""
META = {"technique": "every transition of the settings machine and random histories of extractions replayed into the library; every byte delivered to every kind of destination validated against the specification",
        "note": "Exhaustive over line ends, encodings and destinations for one text; random texts otherwise (characters representable in the encoding; see the known finding for others). Large texts are compared by digest with Python's codecs as reference."}
import hashlib, shutil
import vt, srcgen
from api import *

EOL = {"AUTO": EOL_AUTO, "LF": EOL_LF, "CR": EOL_CR, "CRLF": EOL_CRLF}
libc.fputc.argtypes = [ctypes.c_int, ctypes.c_void_p]


def unparse_by(L, u, how, d, calls=None):
    """returns (status, bytes, what is left of the destination)"""
    if how == "memory":
        s, x = unparse_mem(L, u)
        return s, x if x is not None else b"", "-"
    path = os.path.join(d, "out")
    with open(path, "wb") as f:      # an older, longer file
        f.write(b"old " * 50)
    if how == "file":
        s = L.srcml_unit_unparse_filename(u, b(path))
        return s, open(path, "rb").read(), "-"
    if how == "FILE":
        f = libc.fopen(b(path), b"wb")
        s = L.srcml_unit_unparse_FILE(u, f)
        ok = libc.fputc(33, f) == 33
        ok = libc.fclose(f) == 0 and ok
        x = open(path, "rb").read()
        return s, x[:-1], "still open" if ok and x[-1:] == b"!" else "lost"
    if how == "fd":
        fd = os.open(path, os.O_WRONLY | os.O_TRUNC)
        s = L.srcml_unit_unparse_fd(u, fd)
        try:
            ok = os.write(fd, b"!") == 1
            os.close(fd)
        except OSError:
            ok = False
        x = open(path, "rb").read()
        return s, x[:-1], "still open" if ok and x[-1:] == b"!" else "lost"
    got, closed = [], [0]

    def wr(ctx, buf, n):
        got.append(ctypes.string_at(buf, n))
        return n

    def cl(ctx):
        closed[0] += 1
        return 0
    w, c = WRITECB(wr), CLOSECB(cl)
    s = L.srcml_unit_unparse_io(u, V(1), cast(w), cast(c) if how == "io" else None)
    return s, b"".join(got), "closed %d" % closed[0]


def run(L, sc, progress):
    ev = []
    d = tmpdir()
    a = L.srcml_archive_create()
    u = None
    try:
        text = "".join(map(chr, sc["text"]))
        data = text.encode()
        w = L.srcml_archive_create()
        L.srcml_archive_set_src_encoding(w, b"UTF-8")
        if sc.get("solitary"):
            L.srcml_archive_enable_solitary_unit(w)
        so, out = wmem(L, w)
        for k in range(sc.get("before", 0) + 1):
            v = L.srcml_unit_create(w)
            L.srcml_unit_set_language(v, b(sc["lang"]))
            dk = data if k == sc.get("before", 0) else b"other\n"
            L.srcml_unit_parse_memory(v, dk, len(dk))
            L.srcml_archive_write_unit(w, v)
            L.srcml_unit_free(v)
        L.srcml_archive_close(w)
        L.srcml_archive_free(w)
        x = out.get()
        out.free(L)
        # the settings in force at the beginning
        if sc.get("aenc", "-") != "-":
            L.srcml_archive_set_src_encoding(a, b(sc["aenc"]))
        s = L.srcml_archive_read_open_memory(a, x, len(x))
        for k in range(sc.get("before", 0)):
            L.srcml_unit_free(L.srcml_archive_read_unit(a))
        u = L.srcml_archive_read_unit(a)
        ev.append({"op": "unit", "text": sc["text"] if not sc.get("big") else [], "enc": "-", "aenc": sc.get("aenc", "-"), "r": st(s) if u else "no unit"})
        cur = {"eol": "AUTO", "enc": "-", "aenc": sc.get("aenc", "-")}
        for e in sc["ops"]:
            e = dict(e)
            k = e["op"]
            if k == "eol":
                e["r"] = st(L.srcml_unit_set_eol(u, EOL[e["v"]]))
            elif k == "enc":
                e["r"] = st(L.srcml_unit_set_src_encoding(u, b(e["v"])))
            elif k == "aenc":
                e["r"] = st(L.srcml_archive_set_src_encoding(a, b(e["v"])))
            elif k == "look":
                for f in (L.srcml_unit_get_srcml, L.srcml_unit_get_srcml_outer, L.srcml_unit_get_srcml_inner, L.srcml_unit_get_language):
                    f(u)
                e["r"] = "OK"
            elif k == "unparse":
                s, y, after = unparse_by(L, u, e["how"], d)
                if sc.get("big"):
                    tx = text.replace("\r\n", "\n").replace("\r", "\n")
                    tx = tx.replace("\n", {"CR": "\r", "CRLF": "\r\n"}.get(cur["eol"], "\n"))
                    enc = cur["enc"] if cur["enc"] != "-" else cur["aenc"] if cur["aenc"] != "-" else "ISO-8859-1"
                    e.update(op="big", want=hashlib.sha1(tx.encode(enc)).hexdigest(), r={"st": st(s), "sha": hashlib.sha1(y).hexdigest(), "after": after})
                else:
                    e["r"] = {"st": st(s), "bytes": list(y), "after": after}
            if k in cur:
                cur[k] = e["v"]
            ev.append(e)
    finally:
        if u:
            L.srcml_unit_free(u)
        L.srcml_archive_close(a)
        L.srcml_archive_free(a)
        shutil.rmtree(d, ignore_errors=True)
    return ev


HOWS = ["memory", "file", "FILE", "fd", "io", "ioleft"]


def fit(s, encs):
    if "ISO-8859-1" in encs:
        return "".join(c if ord(c) < 256 else "?" for c in s)
    return s


def check(ctx):
    vt.build_lib()
    r = ctx.mc("ExtractMC")
    paths, n = vt.cover(vt.edges(r), maxlen=50)
    rng = ctx.rng
    T1 = [97, 13, 10, 10, 233, 13, 60]
    scen = [{"id": "edge%d" % i, "lang": srcgen.LANGS[i % 4], "text": T1, "ops": p, "solitary": i % 2 == 0} for i, p in enumerate(paths)]
    for i in range(ctx.pick(1500, 20000)):
        lang = rng.choice(srcgen.LANGS[:4])
        wide = rng.random() < .6
        encs = ["UTF-8", "UTF-16LE", "UTF-16BE", "UTF-16"] if wide else ["ISO-8859-1", "UTF-8"]
        s = srcgen.text(rng, lang)[1][:rng.choice([20, 150, 400])].replace("\0", "")
        if rng.random() < .3:
            s = "".join(rng.choice(["\n", "\r", "\r\n", "a", "\u00e9", "\u4e2d", "\U0001f600", "&", "<", "\t", "\x07", "\u0085", "\u2028", "\v", "\f"]) for _ in range(rng.randrange(12)))
        s = fit(s, encs)
        ops = []
        aenc = rng.choice(encs)
        for _ in range(rng.choice([2, 4, 8])):
            k = rng.random()
            ops.append({"op": "eol", "v": rng.choice(list(EOL))} if k < .25 else {"op": "enc", "v": rng.choice(encs)} if k < .4 else
                       {"op": "aenc", "v": rng.choice(encs)} if k < .45 else {"op": "look"} if k < .55 else {"op": "unparse", "how": rng.choice(HOWS)})
        ops.append({"op": "unparse", "how": rng.choice(HOWS)})
        sol = rng.random() < .3
        scen.append({"id": "rnd%d" % i, "lang": lang, "text": [ord(c) for c in s], "aenc": aenc, "ops": ops, "solitary": sol, "before": 0 if sol else rng.randrange(3)})
    for i in range(ctx.pick(40, 400)):
        unit = rng.choice(["\u00e9", "\r\n", "\U0001f600", "\u4e2d", "\n", "&<", "a\n"])
        pad = rng.choice([1000, 3990, 4090, 7990, 15990, 16380, 31990, 65530]) + rng.randrange(10)
        s = "//" + "x" * pad + unit * rng.choice([1, 20, 3000]) + "\nint a;\n"
        scen.append({"id": "big%d" % i, "lang": "C", "big": True, "text": [ord(c) for c in s], "aenc": "UTF-8",
                     "ops": [{"op": "eol", "v": rng.choice(list(EOL))}] + [{"op": "unparse", "how": h} for h in HOWS] + [{"op": "enc", "v": rng.choice(["UTF-16LE", "UTF-8"])}, {"op": "unparse", "how": rng.choice(HOWS)}, {"op": "unparse", "how": "memory"}]})
    scen.append({"id": "unrepresentable", "lang": "C", "text": [97, 0x4e2d, 59], "aenc": "ISO-8859-1", "ops": [{"op": "unparse", "how": "memory"}]})
    vt.execute(ctx, "c13", "ExtractTrace", scen)
    ctx.cov["rule"] = "all %d transitions of settings x destinations as %d tests; seeded random texts, encodings, line ends, destinations; large texts crossing the buffers" % (n, len(paths))
