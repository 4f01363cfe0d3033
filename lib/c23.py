"""C23: the conversion of one call equals the steps.  spec: OneCall.tla"""
META = {"technique": "every transition of the bounded machine of process-wide settings and conversions replayed into fresh processes; each conversion compared with the steps done with an archive of the settings the specification requires",
        "note": "Exhaustive over four groups of settings, with two or more values each; across the groups, sources and documents by sampling."}
import hashlib, json, os, shutil
import vt, srcgen, archive
from api import *
from c08 import World, NAMES, arg

SRCS = ["int f(int a) { return a\t<\n\t2 && 'é'; }\n#define A 1\n", "class A { int x; };\r\n// c\r\n"]
SRC = "http://www.srcML.org/srcML/src"
DIFF = "http://www.srcML.org/srcDiff"
DOCS = ['<unit xmlns="%s" revision="1.0.0" language="C" filename="n.c"><name>a</name> &lt;\né\t;\n</unit>' % SRC,
        '<unit xmlns="%s" xmlns:pos="http://www.srcML.org/srcML/position" url="U" pos:tabs="4"><unit language="Java" src-encoding="UTF-8" filename="a"><name>é</name>\n;\n</unit><unit language="C">2\n</unit></unit>' % SRC,
        '<unit xmlns="%s" xmlns:diff="%s" language="C"><diff:delete type="a">old</diff:delete><diff:insert>new</diff:insert><diff:common> c\n</diff:common><name/></unit>' % (SRC, DIFF)]


def state0(g):
    return {"g": g, "ext": []}


def direction(m, x):
    if x in ("c", "cpp", "java") or any(p[0] == x for p in m["ext"]):
        return "srcml"
    return "source" if x in ("xml", "XML", "srcml") or m["g"]["lang"] == "xml" else "none"


class Steps(World):
    """an archive and a unit given the settings by the same calls"""

    def __init__(self, L, a, u):
        self.L, self.o = L, {"a": a, "u": u}


def steps(L, m, d, inp, out, calls):
    """the conversion step by step, with an archive of the settings m"""
    g = m["g"]
    a = L.srcml_archive_create()
    x = L.srcml_unit_create(a)
    w = Steps(L, a, x)
    for e in calls:
        if e["op"] == "ext":
            L.srcml_archive_register_file_extension(a, b(e["x"]), b(e["lang"]))
        else:
            w.do(dict(e, h="u" if e["op"] == "eol" or e.get("f") in ("file", "time") else "a"))
    # the settings of the archive are those the specification requires
    u = w.snap("u")
    m["seen"] = dict(w.snap("a"), solitary=False, hash=True, file=u["file"], time=u["time"], eol=u["eol"])
    L.srcml_unit_free(x)
    try:
        if d == "srcml":
            s = L.srcml_archive_write_open_filename(a, b(out))
            L.srcml_archive_enable_solitary_unit(a)
            u = L.srcml_unit_create(a)
            L.srcml_unit_set_language(u, arg(g["lang"]))
            L.srcml_unit_set_filename(u, arg(g["file"]) if g["file"] != "-" else b(inp))
            L.srcml_unit_set_version(u, arg(g["version"]))
            L.srcml_unit_set_timestamp(u, arg(g["time"]))
            s = s or L.srcml_unit_parse_filename(u, b(inp)) or L.srcml_archive_write_unit(a, u)
            L.srcml_archive_close(a)
        else:
            s = L.srcml_archive_read_open_filename(a, b(inp))
            u = None if s else L.srcml_archive_read_unit(a)
            if not u:
                return ["no unit", "-"]
            L.srcml_unit_set_eol(u, g["eol"])
            s = L.srcml_unit_unparse_filename(u, b(out))
        L.srcml_unit_free(u)
        return [st(s), digest(out) if s == 0 else "-"]
    finally:
        L.srcml_archive_close(a)
        L.srcml_archive_free(a)


def digest(path):
    try:
        with open(path, "rb") as f:
            x = f.read()
        return hashlib.sha256(x).hexdigest()[:16] + " " + str(len(x)) + " " + x[:60].decode("latin-1")
    except OSError:
        return "no file"


def run(L, sc, progress):
    w = World(L)
    m = state0(w.snap("g"))
    d = tmpdir()
    ev, n, calls = [], 0, []
    for e in sc["ops"]:
        n += 1
        if e["op"] == "convert":
            x = e["ext"]
            inp = os.path.join(d, "i%d" % n) + ("" if x == "-" else "." + x)
            with_ = dict(json.loads(json.dumps(m)), dir=direction(m, x))
            if e["bad"] != "in":
                with open(inp, "wb") as f:
                    f.write(e.get("data", (DOCS if with_["dir"] == "source" else SRCS)[n % 2]).encode("utf-8", "surrogateescape"))
            step = ["-", "-"]
            if with_["dir"] != "none" and e["bad"] == "-":
                step = steps(L, m, with_["dir"], inp, os.path.join(d, "step%d" % n), calls)
                with_["g"] = m.pop("seen")
            out = os.path.join(d, "no/o" if e["bad"] == "out" else "o%d" % n)
            s = L.srcml(b(inp), b(out))
            ok = s == 0
            y = {"op": "convert", "ext": x, "bad": e["bad"], "with": with_, "step": step,
                 "r": {"st": "OK" if ok else "error", "out": digest(out) if ok else "-", "g": w.snap("g")}}
        elif e["op"] == "ext":
            s = L.srcml_register_file_extension(b(e["x"]), b(e["lang"]))
            calls.append(e)
            if s == 0:
                m["ext"] = [p for p in m["ext"] if p[0] != e["x"]] + [[e["x"], e["lang"]]]
            y = dict(e, r={"st": st(s), "g": w.snap("g")})
        elif e["op"] == "apart":
            a = L.srcml_archive_clone(w.o["a"])
            L.srcml_archive_set_language(a, b"Java")
            L.srcml_archive_set_url(a, b"apart")
            L.srcml_archive_register_file_extension(a, b"q", b"C#")
            u = L.srcml_unit_create(a)
            L.srcml_unit_set_filename(u, b"apart")
            L.srcml_unit_set_eol(u, 2)
            s = L.srcml_unit_parse_memory(u, b"a;\n", 3)
            L.srcml_unit_free(u)
            L.srcml_archive_free(a)
            y = dict(e, r={"st": st(s), "g": w.snap("g")})
        else:
            s = w.do(e)
            calls.append(e)
            if s == 0:
                m["g"] = w.snap("g")
            y = dict(e, r={"st": st(s), "g": w.snap("g")})
        ev.append(y)
        progress(y)
    w.close()
    shutil.rmtree(d, ignore_errors=True)
    return ev


URIS = [SRC, "urn:a", "http://www.srcML.org/srcML/cpp", "http://www.srcML.org/srcML/position"]


def history(rng, n):
    ops = []
    for _ in range(n):
        x = rng.random()
        g = {"h": "g"}
        if x < .25:
            f = rng.choice(["srcenc", "xmlenc", "lang", "url", "version", "file", "time"])
            v = {"srcenc": ["UTF-8", "ISO-8859-1", "UTF-16"], "xmlenc": ["UTF-8", "UTF-16", "ISO-8859-1"], "lang": ["C++", "Java", "xml", "Klingon", "C#"]}.get(f, ["v<&\"", "é", "w", ""])
            ops.append(dict(g, op="str", f=f, v=rng.choice(v + ["-"])))
        elif x < .33:
            ops.append(dict(g, op=rng.choice(["opts", "enable", "disable"]), bits=sorted(rng.sample(range(7), rng.choice([0, 1, 2, 4])))))
        elif x < .36:
            ops.append(dict(g, op="tabs", n=rng.choice([1, 3, 8])))
        elif x < .4:
            ops.append(dict(g, op="ns", p=rng.choice("pqs"), u=rng.choice(URIS)))
        elif x < .45:
            ops.append(dict(g, op="pi", t=rng.choice(["t", "-"]), d="d e"))
        elif x < .5:
            ops.append(dict(g, op="eol", n=rng.choice([0, 1, 2, 3, 4])))
        elif x < .53:
            ops.append(dict(g, op="rev", n=rng.choice([0, 1, 1, 3])))
        elif x < .58:
            ops.append({"op": "ext", "x": rng.choice(["q", "c", "java", "xml", "h2"]), "lang": rng.choice(["C", "C++", "Java", "C#", "Klingon"])})
        elif x < .62:
            ops.append({"op": "apart"})
        else:
            e = {"op": "convert", "ext": rng.choice(["c", "cpp", "java", "xml", "xml", "xml", "XML", "srcml", "q", "h2", "-"]), "bad": rng.choice(["-"] * 8 + ["in", "out"])}
            if rng.random() < .8:
                e["data"] = rng.choice(DOCS + [archive.given(rng)] * 3 + ["", "<a"]) if e["ext"].lower() in ("xml", "srcml") else srcgen.text(rng, rng.choice(["C", "C++", "Java", "C#"]))[1]
            ops.append(e)
    return ops


def check(ctx):
    vt.build_lib()
    scen, total = [], 0
    for c in "LOET":
        paths, n = vt.cover(vt.edges(ctx.mc("OneCallMC", "OneCallMC" + c, timeout=3000)), maxlen=ctx.pick(80, 80))
        total += n
        scen += [{"id": "%s%d" % (c, i), "cfg": {}, "ops": p, "fresh": True} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(300, 6000)):
        scen.append({"id": "rnd%d" % i, "cfg": {}, "ops": history(rng, rng.choice([10, 40])), "fresh": True})
    vt.execute(ctx, "c23", "OneCallTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the settings in four groups with conversions in both directions, missing files and unknown extensions; random histories" % total
