"""C11: hash and line count.  spec: Digest.tla"""
META = {"technique": "every transition of the bounded history machine and random histories of parses by every input method replayed into the library; hash and count validated after every step",
        "note": "The reference digest is computed by Python's hashlib over the bytes given; line counts by the specification. Histories are exhaustive in the model to depth 5 (9 thorough) and random beyond; sources are generated."}
import hashlib, shutil
import vt, srcgen
from api import *

FIX = {"h1": b"", "h2": b"abc\n", "h3": b"abc\nde"}


def lens(text):
    return [len(x) for x in text.replace("\r\n", "\n").replace("\r", "\n").split("\n")]


def run(L, sc, progress):
    ev = []
    d = tmpdir()
    a = L.srcml_archive_create()
    L.srcml_archive_set_options(a, L.srcml_archive_get_options(a) | sc.get("opts", 0))
    if sc.get("solitary"):
        L.srcml_archive_enable_solitary_unit(a)
    s, out = wmem(L, a)
    u = None

    def show():
        return {"hash": t(L.srcml_unit_get_hash(u)), "loc": L.srcml_unit_get_loc(u)}

    def fresh():
        v = L.srcml_unit_create(a)
        L.srcml_unit_set_language(v, b(sc.get("lang", "C")))
        return v
    try:
        u = fresh()
        for e in sc["ops"]:
            e = dict(e)
            k = e["op"]
            if k == "write" and sc.get("solitary") and any(x["op"] == "write" and x["r"] == "OK" for x in ev):
                continue
            if k == "hash":
                (L.srcml_archive_enable_hash if e["on"] else L.srcml_archive_disable_hash)(a)
                e["r"] = "OK"
            elif k == "unit":
                L.srcml_unit_free(u)
                u = fresh()
                e["r"] = show()
            elif k == "clone":
                v = L.srcml_unit_clone(u)
                L.srcml_unit_free(u)
                u = v
                e["r"] = show()
            elif k == "parse":
                data = FIX[e["sha"]] if "data" not in e else bytes(e.pop("data"))
                if e.get("lang"):
                    L.srcml_unit_set_language(u, b(e["lang"]))
                if e.get("enc", "-") != "-":
                    L.srcml_unit_set_src_encoding(u, b(e["enc"]))
                elif "enc" in e:
                    L.srcml_unit_set_src_encoding(u, None)
                st_, _ = parse_by(L, u, data, e.get("how", "memory"), d, e.get("chunks", [1024]))
                if "lines" not in e or e["sha"] in FIX:
                    e["lines"] = lens(data.decode())
                e["sha"] = hashlib.sha1(data).hexdigest()
                e["r"] = show()
                if st_:
                    e["r"] = {"hash": st(st_), "loc": -2}
            elif k == "fail":
                how = e.get("how", "language")
                if how == "language":
                    keep = L.srcml_unit_get_language(u)
                    L.srcml_unit_set_language(u, None)
                    L.srcml_unit_parse_memory(u, b"x\ny", 3)
                    L.srcml_unit_set_language(u, keep or b"C")
                elif how == "file":
                    L.srcml_unit_parse_filename(u, b(os.path.join(d, "none")))
                elif how == "read":
                    cb = chunk_reader(b"ab\ncd\n" * 300, [100], fail_at=e.get("at", 0))
                    L.srcml_unit_parse_io(u, V(1), cast(cb), None)
                e["r"] = show()
            elif k == "write":
                e["r"] = st(L.srcml_archive_write_unit(a, u))
            ev.append(e)
        L.srcml_archive_close(a)
        x = out.get()
        c = L.srcml_archive_create()
        got = []
        if x and L.srcml_archive_read_open_memory(c, x, len(x)) == 0:
            while True:
                v = L.srcml_archive_read_unit(c)
                if not v:
                    break
                got.append({"hash": t(L.srcml_unit_get_hash(v)), "loc": L.srcml_unit_get_loc(v)})
                L.srcml_unit_free(v)
            L.srcml_archive_close(c)
        L.srcml_archive_free(c)
        if any(e["op"] == "write" and e["r"] == "OK" for e in ev):      # (an archive without units: see C03)
            ev.append({"op": "read", "r": got})
    finally:
        L.srcml_unit_free(u)
        L.srcml_archive_free(a)
        out.free(L)
        shutil.rmtree(d, ignore_errors=True)
    return ev


ENC = [("UTF-8", "utf-8"), ("-", "utf-8-sig"), ("UTF-8", "utf-8-sig"), ("-", "utf-16"), ("ISO-8859-1", "latin-1"), ("UTF-16LE", "utf-16-le"), ("-", "utf-32")]
HOW = ["memory", "file", "FILE", "fd", "io", "pipe", "pipeFILE"]


def source(rng):
    k = rng.random()
    lang = rng.choice(srcgen.LANGS[:4])
    if k < .5:
        s = srcgen.text(rng, lang)[1]
    elif k < .8:
        nl = rng.choice(["\n", "\r\n", "\r"])
        s = "x" * rng.randrange(1100) + nl * rng.randrange(4) + rng.choice(["", "\x07", "\f", " ", "a", "\t", "\u00e9", "\0", "/*", "//"]) + nl * rng.randrange(3)
    else:
        s = "".join(rng.choice(["\n", "\r", "\r\n", "a", " ", "\x07", "\f", "\u00e9", "<", "&", "\u2028", "\u0085", "\v"]) for _ in range(rng.randrange(8)))
    enc, codec = rng.choice(ENC)
    if codec == "latin-1":
        s = "".join(c if ord(c) < 256 else "?" for c in s)
    return lang, enc, list(s.encode(codec)), lens(s)


def rand(rng):
    ops = []
    for _ in range(rng.choice([2, 4, 8])):
        k = rng.random()
        if k < .12:
            ops.append({"op": "hash", "on": rng.random() < .6})
        elif k < .3:
            ops.append({"op": rng.choice(["unit", "unit", "clone"])})
        elif k < .42:
            ops.append({"op": "fail", "how": rng.choice(["language", "file", "read"]), "at": rng.choice([0, 100, 1024, 1500])})
        elif k < .6:
            ops.append({"op": "write"})
        else:
            lang, enc, data, lines = source(rng)
            ops.append({"op": "parse", "sha": "-", "lang": lang, "enc": enc, "data": data, "lines": lines, "how": rng.choice(HOW),
                        "chunks": [rng.choice([1, 2, 3, 7, 1023, 1024, 1025, 4096]) for _ in range(3)]})
            if ops[-1]["how"][0] == "p":
                ops[-1]["chunks"] = [rng.choice([7, 1023, 1024, 1025, 4096])]
            if rng.random() < .5:
                ops.append({"op": "write"})
    return ops


def check(ctx):
    vt.build_lib()
    r = ctx.mc("DigestMC")
    if not ctx.quick:
        ctx.mc("DigestMC", "DigestMC2")
    paths, n = vt.cover(vt.edges(r), maxlen=40)
    rng = ctx.rng
    scen = [{"id": "edge%d" % i, "ops": p, "opts": rng.choice([0, 0, 4, 64, 68])} for i, p in enumerate(paths)]
    for i in range(ctx.pick(3000, 40000)):
        scen.append({"id": "rnd%d" % i, "ops": rand(rng), "opts": rng.randrange(1, 64) * 2, "lang": rng.choice(srcgen.LANGS[:4]), "solitary": rng.random() < .3})
    vt.execute(ctx, "c11", "DigestTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the bounded history machine as %d tests; seeded random histories of parses (7 input methods, 7 encodings, 4 languages), failures, clones, writes, and read-back" % (n, len(paths))
