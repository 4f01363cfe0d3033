"""C14: solitary and archive form carry the same unit; the full, outer and inner forms agree, stand alone and are repeatable."""
META = {"technique": "the complete bounded life of a unit in both forms replayed into the library; every XML form compared as a value and validated against the specification",
        "note": "Unit contents and attribute values are sampled."}
import vt, archive, c03, c04


def conversion(rng, d):
    """the unit(s) of a document in both forms, and every form of it asked for"""
    sol = rng.random() < .5
    ops = [{"op": "ropen", "h": "a", "d": d}]
    ops.append({"op": rng.choice(["fresh", "clone"]), "h": "a"})
    ops.append({"op": "set", "f": "solitary", "v": sol})
    if rng.random() < .3:
        ops.append({"op": "set", "f": "ns", "v": ["y", "urn:y"]})
    ops.append({"op": "wopen"})
    for _ in range(rng.choice([1, 2])):
        ops.append({"op": "read", "h": "a", "k": "k"})
        for _ in range(rng.randrange(5)):
            ops.append({"op": "ask", "k": "k", "what": rng.choice(c04.WHAT), "if": True})
        ops.append({"op": "write", "k": "k", "if": True})
        for _ in range(rng.randrange(3)):
            ops.append({"op": "ask", "k": "k", "what": rng.choice(c04.WHAT), "if": True})
        ops.append({"op": "free", "k": "k", "if": True})
    ops += [{"op": "wclose", "d": "d2"}, {"op": "ropen", "h": "b", "d": "d2"}, {"op": "read", "h": "b", "k": "k"}]
    ops += [{"op": "ask", "k": "k", "what": x, "if": True} for x in rng.sample(c04.WHAT * 2, 6)]
    return ops


def check(ctx):
    vt.build_lib()
    es = vt.edges(ctx.mc("ArchiveMC", "ArchiveMCF", timeout=3000))
    paths, total = vt.cover(es, maxlen=60)
    scen = [{"id": "edge%d" % i, "cfg": c03.cfg(), "ops": p} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(1200, 20000)):
        x = archive.given(rng)
        scen.append({"id": "giv%d" % i, "cfg": c03.cfg({"d1": archive.doc_abs(x.encode())}), "xml": {"d1": x}, "ops": conversion(rng, "d1")})
    for i in range(ctx.pick(1200, 20000)):
        ops = [{"op": "set", "f": f, "v": v} for f, v in (("pos", True), ("solitary", True), ("store", True), ("url", rng.choice(archive.VALS)), ("opt", "CPP_TEXT_ELSE"),
                                                          ("ns", ["x", "urn:x&<\">"]), ("tabs", "4"), ("hash", False)) if rng.random() < .3]
        ops += [{"op": "wopen"}]
        for _ in range(rng.choice([1, 1, 2])):
            ops.append(archive.random_parse(rng, "k"))
            ops += [{"op": "ask", "k": "k", "what": rng.choice(["attrs", "full", "outer", "inner", "names"])} for _ in range(rng.randrange(6))]
            ops += [{"op": "write", "k": "k"}] + [{"op": "ask", "k": "k", "what": rng.choice(["attrs", "full", "outer", "inner"])} for _ in range(rng.randrange(3))] + [{"op": "free", "k": "k"}]
        ops += [{"op": "wclose", "d": "d1"}] + conversion(rng, "d1")
        scen.append({"id": "rnd%d" % i, "cfg": c03.cfg(), "ops": ops})
    vt.execute(ctx, "archive", "ArchiveTrace", scen)
    ctx.cov["rule"] = "all %d transitions of one unit asked for its forms, written in either form and read back; random units and foreign documents converted both ways" % total
