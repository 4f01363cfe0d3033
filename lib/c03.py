"""C03: a document written by an archive gives back its settings and its units, and is reproduced when written again."""
META = {"technique": "the complete bounded writer, reader and rewriter replayed into the library; documents compared as values by an independent XML reader, every result validated against the specification",
        "note": "Settings beyond the bounded set, values and unit contents are sampled; the content of a unit is compared through a digest of its canonical form."}
import vt, archive, random


ENCODINGS = ["UTF-8", "ISO-8859-1", "UTF-16", "UTF-16LE", "UTF-16BE", "windows-1252", "US-ASCII"]


def cfg(docs=None, slots=("k",), xml=None):
    d = {"d1": {"form": "none"}, "d2": {"form": "none"}}
    d.update(docs or {})
    return {"docs": d, "slots": list(slots)}


def random_ops(rng):
    ops = []
    fixed = {}

    def settings():
        for f in rng.sample(["url", "version", "tabs", "pos", "store", "hash", "solitary", "decl", "enc", "pi", "opt", "opt", "ns", "ns"], rng.choice([0, 1, 2, 4, 8])):
            v = {"url": lambda: rng.choice(archive.VALS), "version": lambda: rng.choice(archive.VALS), "tabs": lambda: str(rng.choice([1, 2, 4, 8, 100])),
                 "enc": lambda: rng.choice(ENCODINGS), "pi": lambda: [rng.choice(["a", "xml-x"]), rng.choice(["", "b c", "<&\">", "é"])],
                 "opt": lambda: rng.choice(list(archive.OPT)), "ns": lambda: rng.choice([["x", "urn:x&<\">"], ["y", "urn:y"]]),
                 "hash": lambda: False, "decl": lambda: False}.get(f, lambda: True)()
            if f == "decl" and any(o.get("f") == "enc" for o in ops) or f == "enc" and any(o.get("f") == "decl" for o in ops):
                continue
            if f in ("pi", "enc"):     # there are no references in a processing instruction
                fixed[f] = v
                try:
                    fixed.get("pi", ["", ""])[1].encode(fixed.get("enc", "UTF-8"))
                except UnicodeEncodeError:
                    continue
            ops.append({"op": "set", "f": f, "v": v})
    settings()
    sol = any(o["f"] == "solitary" for o in ops)
    ops.append({"op": "wopen"})
    for _ in range(rng.choice([1, 1, 2, 3, 5]) if not sol else rng.choice([1, 1, 1, 2])):
        ops.append(archive.random_parse(rng, "k"))
        if rng.random() < .3:
            ops.append({"op": "ask", "k": "k", "what": rng.choice(["full", "outer", "inner", "attrs"])})
        for _ in range(rng.choice([1, 1, 1, 2])):
            ops.append({"op": "write", "k": "k"})
        ops.append({"op": "free", "k": "k"})
    ops.append({"op": "wclose", "d": "d1"})
    return ops


def again(rng, a, b, h):
    """read document a and write it again as b"""
    ops = [{"op": "ropen", "h": h, "d": a}, {"op": rng.choice(["clone", "clone", "clone", "fresh"]), "h": h}, {"op": "wopen"}]
    for _ in range(rng.choice([1, 3, 6])):
        ops.append({"op": "read", "h": h, "k": "k"})
        ops += [{"op": "write", "k": "k", "if": True}, {"op": "free", "k": "k", "if": True}]
    ops.append({"op": "wclose", "d": b})
    return ops


def check(ctx):
    vt.build_lib()
    scen, total = [], 0
    for name in (["ArchiveMC", "ArchiveMC2"] if ctx.quick else ["ArchiveMC", "ArchiveMC2", "ArchiveMC3"]):
        es = vt.edges(ctx.mc("ArchiveMC", name, timeout=3000))
        paths, n = vt.cover(es, maxlen=60)
        total += n
        scen += [{"id": "%s-%d" % (name, i), "cfg": cfg(), "ops": p} for i, p in enumerate(paths)]
    rng = ctx.rng
    for i in range(ctx.pick(1200, 20000)):
        ops = random_ops(rng) + again(rng, "d1", "d2", "a")
        if rng.random() < .5:
            ops += again(rng, "d2", "d1", "b")
        ops.append({"op": "ropen", "h": "b", "d": "d2"})
        scen.append({"id": "rnd%d" % i, "cfg": cfg(), "ops": ops})
    # one archive that reads one document after the other
    for i in range(ctx.pick(300, 5000)):
        ops = random_ops(rng)
        ops += [{"op": "fresh"}] + [dict(o, d="d2") if o["op"] == "wclose" else o for o in random_ops(rng)]
        order = [rng.choice(["d1", "d2"]) for _ in range(rng.choice([2, 3, 4]))]
        for j, d in enumerate(order):
            ops.append({"op": "reopen" if j else "ropen", "h": "a", "d": d})
            for _ in range(rng.choice([0, 1, 3, 6])):
                ops += [{"op": "read", "h": "a", "k": "k"}, {"op": "ask", "k": "k", "what": rng.choice(["inner", "names", "source"]), "if": True}, {"op": "free", "k": "k", "if": True}]
        scen.append({"id": "reo%d" % i, "cfg": cfg(), "ops": ops})
    # every set of the options that a document carries, written, read and written again in both forms
    for m in range(2 ** len(archive.OPT)):
        for sol in (False, True):
            ops = [{"op": "set", "f": "opt", "v": o} for i, o in enumerate(archive.OPT) if m >> i & 1]
            ops += [{"op": "set", "f": "solitary", "v": True}] if sol else []
            ops += [{"op": "wopen"}, archive.random_parse(rng, "k"), {"op": "write", "k": "k"}, {"op": "free", "k": "k"}, {"op": "wclose", "d": "d1"}]
            scen.append({"id": "opt%d%s" % (m, "s" if sol else "a"), "cfg": cfg(), "ops": ops + again(rng, "d1", "d2", "a") + [{"op": "ropen", "h": "b", "d": "d2"}]})
    for i in range(ctx.pick(600, 10000)):
        x = archive.given(rng)
        d = archive.doc_abs(x.encode())
        scen.append({"id": "giv%d" % i, "cfg": cfg({"d1": d}), "xml": {"d1": x}, "ops": again(rng, "d1", "d2", "a") + [{"op": "ropen", "h": "b", "d": "d2"}]})
    # a unit without a language
    x = '<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0">\n\n<unit revision="1.0.0" filename="c.java"><name>z</name></unit>\n\n</unit>\n'
    scen.append({"id": "nolanguage", "cfg": cfg({"d1": archive.doc_abs(x.encode())}), "xml": {"d1": x},
                 "ops": [{"op": "ropen", "h": "a", "d": "d1"}, {"op": "clone", "h": "a"}, {"op": "wopen"}, {"op": "read", "h": "a", "k": "k"}, {"op": "write", "k": "k"}, {"op": "free", "k": "k"}, {"op": "wclose", "d": "d2"}]})
    vt.execute(ctx, "archive", "ArchiveTrace", scen)
    ctx.cov["rule"] = "all %d transitions of the bounded writer and rewriter; random archives written, read and written again; foreign documents" % total
