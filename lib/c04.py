"""C04: the units of an archive are delivered once each and in order, however reading, skipping, freeing and asking are interleaved."""
META = {"technique": "every transition of the bounded reading protocol (two readers, units held) replayed into the library, every answer validated against the specification",
        "note": "Documents beyond the model's three and longer histories are sampled."}
import vt, archive, c03

WHAT = ["attrs", "full", "outer", "inner", "names", "source"]


def xml_of(d, rng=None):
    """the model's documents"""
    def unit(i, lang):
        return '<unit revision="1.0.0" language="%s" filename="f%s" a="b%s"><expr_stmt><expr><name>c%s</name></expr>;</expr_stmt>\n%s</unit>' % (lang, i, i, i, "<name>n</name>" * (ord(i) % 5))
    if d == "d0":
        return '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="%s" revision="1.0.0"></unit>\n' % archive.SRC
    if d == "d1":
        return '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n' + unit("s", "C").replace("<unit", '<unit xmlns="%s"' % archive.SRC, 1) + "\n"
    return '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<unit xmlns="%s" revision="1.0.0">\n\n%s\n\n%s\n\n%s\n\n</unit>\n' % (
        archive.SRC, unit("1", "C"), unit("2", "C++"), unit("3", "Java"))


def reading(rng, n, docs, slots, readers="ab"):
    ops, full, opened = [], set(), set()
    for _ in range(n):
        k = rng.random()
        h = rng.choice(readers)
        free = [x for x in slots if x not in full]
        if h not in opened or k < .03:
            ops.append({"op": "ropen", "h": h, "d": rng.choice(docs), "by": rng.choice([0, 0, 1, 7, 300, 4096])})
            opened.add(h)
        elif k < .4 and free:
            x = rng.choice(free)
            full.add(x)
            ops.append({"op": "read", "h": h, "k": x})
        elif k < .5:
            ops.append({"op": "skip", "h": h})
        elif k < .85 and full:
            for _ in range(rng.choice([1, 1, 3])):
                ops.append({"op": "ask", "k": rng.choice(sorted(full)), "what": rng.choice(WHAT), "if": True})
        elif k < .97 and full:
            x = rng.choice(sorted(full))
            full.remove(x)
            ops.append({"op": "free", "k": x, "if": True})
        elif k > .98:
            ops.append({"op": "rclose", "h": h})
    return ops


def check(ctx):
    vt.build_lib()
    es = vt.edges(ctx.mc("ArchiveMC", "ArchiveMCR", timeout=3000))
    paths, total = vt.cover([[dict(a, docs=0, w=0), o, dict(b, docs=0, w=0)] for a, o, b in es], maxlen=50)
    xml = {d: xml_of(d) for d in ("d0", "d1", "d3")}
    docs = {d: archive.doc_abs(x.encode()) for d, x in xml.items()}
    scen = [{"id": "edge%d" % i, "cfg": {"docs": docs, "slots": ["k", "l"]}, "xml": xml, "ops": p} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(2500, 40000)):
        xml = {d: archive.given(rng) for d in ("d1", "d2")}
        docs = {d: archive.doc_abs(x.encode()) for d, x in xml.items()}
        scen.append({"id": "rnd%d" % i, "cfg": {"docs": docs, "slots": ["k", "l", "m"]}, "xml": xml,
                     "ops": reading(rng, rng.choice([10, 25, 60]), ["d1", "d2"], "klm")})
    vt.execute(ctx, "archive", "ArchiveTrace", scen)
    ctx.cov["rule"] = "all %d transitions of two readers over archives of 0, 1 and 3 units with two units held; random histories over random foreign documents" % total
