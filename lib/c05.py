"""C05: reading terminates and survives every schedule of its threads, every input and every point of closing.  spec: Reading.tla, SrcmlReader.tla"""
META = {"technique": "TLC proves the two-thread hand-over (SrcmlReader.tla: every call returns, results refine Reading.tla); all transitions of Reading.tla are replayed into the library under enumerated thread schedules, and documents cut at every byte, changed or foreign are read, with every result validated against Reading.tla",
        "note": "Schedules: all with at most two preemptions or spurious wake-ups up to a number of runs, then sampled. Inputs in UTF-8. Time that grows with the size of expanded entities is not judged."}
import json, os, re, shutil
import vt, sched, srcdoc

HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
NS = 'xmlns="%s"' % srcdoc.SRC


def uxml(name, body, ns=""):
    return '<unit %srevision="1.0.0" language="C" filename="%s">%s</unit>' % (ns and ns + " ", name, body)


BODY = {"a": "<name>a</name>\n", "b": "<expr_stmt><expr><name>b</name> <operator>&lt;</operator> 1</expr>;</expr_stmt><comment type=\"line\">//\u00e9</comment>\n"}


def known(name, xml):
    """what the driver prints for a unit of this text"""
    _, root = srcdoc.tree("<w %s>%s</w>" % (NS, xml))
    u = root.kids[0]
    return {"file": u.attr("filename"), "language": u.attr("language"), "canon": srcdoc.canon(u), "src": srcdoc.text(u), "name": name}


def name_of(r, table):
    if r is None:
        return "-"
    try:
        _, root = srcdoc.tree("<w %s>%s</w>" % (NS, r["outer"]))
        got = (r["file"], r["language"], srcdoc.canon(root.kids[0]), r["src"], 0)
    except Exception:   # noqa
        return "?"
    for k in table:
        if (k["file"], k["language"], k["canon"], k["src"], r["st"]) == got:
            return k["name"]
    return "?" + json.dumps(r)[:300]


class Doc:
    """text: str or bytes; us: names of its leading complete units"""

    def __init__(self, text, us, tail, table=()):
        self.data = text.encode() if isinstance(text, str) else text
        self.us, self.tail, self.table = us, tail, list(table)

    @property
    def abs(self):
        return {"us": self.us, "tail": self.tail}


def archive(bodies, sep="\n\n"):
    """(text, [(name, end offset in bytes, start)])"""
    t, ends = HEAD + "<unit %s revision=\"1.0.0\">" % NS + sep, []
    table = []
    for n, b in bodies:
        x = uxml(n, b)
        s = len(t.encode())
        t += x
        ends.append((n, len(t.encode()), s))
        table.append(known(n, x))
        t += sep
    return t + "</unit>\n", ends, table


def solitary(n, b):
    x = uxml(n, b, NS)
    return HEAD + x + "\n", [(n, len((HEAD + x).encode()), len(HEAD.encode()))], [known(n, uxml(n, b))]


def cut(doc, p):
    t, ends, table = doc
    data = t.encode()
    us = [n for n, e, s in ends if e <= p]
    close = data.rindex(b"</unit>") + 7
    return Doc(data[:p], us, "end" if p >= close else "part", table)


def changed(doc, rng):
    t, ends, table = doc
    data = bytearray(t.encode())
    p = rng.randrange(len(data))
    k = rng.choice(["byte", "byte", "insert", "delete", "cutout", "dup"])
    if k == "byte":
        data[p] = rng.choice([0, 1, 9, 32, 38, 60, 62, 34, 47, 93, 0x80, 0xc3, 0xff, rng.randrange(256)])
    elif k == "insert":
        data[p:p] = rng.choice([b"<", b"&", b"]]>", b"<unit>", b"</unit>", b"<!--", b"<![CDATA[", b"&#0;", b"&undefined;", b"<?p", b"<unit", b"\xff", b"<a b=1>", b"<x:y/>", b"\0", b"<name>", b"<!DOCTYPE a>"])
    elif k == "delete":
        del data[p]
    elif k == "cutout":
        del data[p:p + rng.choice([2, 5, 30, 200])]
    else:
        q = rng.randrange(len(data))
        data[p:p] = data[q:q + rng.choice([5, 40, 300])]
    return Doc(bytes(data), [n for n, e, s in ends if e <= p], "loose", table)


def foreign():
    full = archive([("a", BODY["a"]), ("b", BODY["b"])])[0]
    root = "<unit %s revision=\"1.0.0\">" % NS
    out = ["", "\n", " ", "int a;\n", "{\"a\": 1}", "<", "<a", "<a>", "<a/>", "<a><b/></a>", "<unit", "<unit>", "<unit/>", "<unit></unit>", root, root[:-1] + "/>", HEAD, HEAD[:20], HEAD + "<!-- c -->", "<?p i?>",
           "<!-- -->", "<!DOCTYPE a>", "<!DOCTYPE unit [<!ENTITY e \"x\">]>" + root + uxml("a", "&e;") + "</unit>", "<!DOCTYPE unit [<!ENTITY e \"x\">" + root,
           "<!DOCTYPE unit SYSTEM \"none.dtd\">" + root + uxml("a", "x") + "</unit>", HEAD.replace("UTF-8", "nonsense") + root + "</unit>", HEAD.replace("UTF-8", "UTF-16") + root + "</unit>",
           full + full, full + "x", "x" + full, "\n" + full, "<unit xmlns=\"other\"><unit xmlns=\"other\">a</unit></unit>", "<a>" + full.replace(HEAD, "") + "</a>", full.replace("<unit", "<u").replace("</unit", "</u"),
           root + uxml("a", uxml("b", "c")) + "</unit>", root + "text" + uxml("a", "x") + "</unit>", root + "<name>n</name>" + uxml("a", "x") + "</unit>",
           root + uxml("a", "<![CDATA[<unit>]]>") + "</unit>", root + uxml("a", "x") + "<name/>" + uxml("b", "y") + "</unit>", root + "<unit/><unit/></unit>", root + "<unit>a</unit><unit>b</unit></unit>",
           "<unit>" * 3000, root + "<unit>" * 500 + "</unit>" * 500 + "</unit>", root + uxml("a", "<name>" * 1500 + "</name>" * 1500) + "</unit>", "<a " + " ".join("a%d=''" % i for i in range(3000)) + "/>", "<" + "a" * 100000 + "/>",
           root + uxml("a", "x" * 300000) + "</unit>", root + uxml("a" * 20000, "x") + "</unit>", root + uxml("a", "<macro-list token=\"a\" type=\"b\"/>") + "</unit>", root + "<macro-list token=\"a\"/><macro-list/>" + uxml("a", "x") + "</unit>",
           "<unit %s language=\"\">" % NS, "<unit %s revision=\"1.0.0\" language=\"C\" language=\"C\">a</unit>" % NS, "<x:unit %s xmlns:x=\"%s\">a</x:unit>" % (NS, srcdoc.SRC), "<y:unit>a</y:unit>",
           root + "<unit xmlns:p=\"u\" p:a=\"1\" q:b=\"2\">a</unit></unit>", root + "<unit item=\"a\" hash=\"\" timestamp=\"\" url=\"\" version=\"\"/></unit>",
           "<unit %s pos:tabs=\"x\" options=\",,A,LINE,\"><unit/></unit>" % NS, "<unit %s options=\"\"/>" % NS, root + uxml("a", "<escape char=\"0x1\"/><escape/><escape char=\"\"/><escape char=\"zz\"/><escape char=\"0x99999999999\"/>") + "</unit>"]
    out += [b"\xff\xfe" + full.encode("utf-16-le")[:101], b"\xfe\xff\0<\0u", b"\xef\xbb\xbf" + full.encode(), b"\xef\xbb", b"\0" * 50, bytes(range(256)), b"\x1f\x8b\x08\0\0\0\0\0", b"\xff" * 5000, b"PK\3\4"]
    return [Doc(x, [], "loose") for x in out]


def body(rng, n):
    out = []
    for _ in range(n):
        out.append(rng.choice(["<name>n%d</name>" % rng.randrange(9), " ", "\n", "x &lt; y", "<expr><op:operator xmlns:op=\"u\">+</op:operator></expr>", "\u00e9\U0001d11e", "<literal type=\"string\">\"&amp;quot;\"</literal>",
                               "<block>{<block_content> </block_content>}</block>", "<name/>", "]]&gt;", "<comment type=\"block\">/* </comment>"]))
    return "".join(out) + rng.choice(["", "\n"])


def rdoc(rng, names="abcdefgh"):
    n = rng.choice([0, 1, 2, 2, 3, 5])
    bs = [(names[i], body(rng, rng.choice([0, 1, 5, 30, 300 if rng.random() < .3 else 3]))) for i in range(n)]
    return solitary(*bs[0]) if n == 1 and rng.random() < .5 else archive(bs, rng.choice(["\n\n", "", "\n", " <!-- between --> "]))


def history(rng, n, two=True):
    ops, st = [], ["closed", "closed"]
    for _ in range(n):
        a = rng.randrange(2) if two else 0
        x = rng.random()
        if st[a] == "closed":
            ops.append((rng.choice(["io", "io", "mem", "file"]), a))
            st[a] = "open"
        elif x < .5:
            ops.append(("read", a))
        elif x < .7:
            ops.append(("skip", a))
        elif x < .8:
            ops.append(("again", a))
        elif x < .88:
            ops.append(("free", a))
        elif x < .97:
            ops.append((rng.choice(["close", "close", "gone"]), a))
            st[a] = "closed"
        else:
            ops.append(("io", a))
    return ops


def check(ctx):
    B = vt.build_lib()
    exe = sched.build("reader", [os.path.join(sched.H, "reader_drv.cpp"), "-I" + vt.REPO + "/src/libsrcml", "-I" + B + "/src/libsrcml"], ["-L" + B + "/bin", "-lsrcml", "-Wl,-rpath," + B + "/bin"])
    # the hand-over of the two threads, and that its properties are not empty
    ctx.mc("SrcmlReader", ctx.pick("SrcmlReader", "SrcmlReader2"), workers=4, timeout=3000)
    if not vt.tlc("SrcmlReader", "SrcmlReaderUnlocked").violation:
        raise vt.Broken("SrcmlReader.tla accepts a hand-over without the mutex")
    rng = ctx.rng
    scen = {}

    def add(id, docs, ops, bound, runs, chunk):
        scen[id] = (docs, ops, bound, runs, chunk)

    # all transitions of the model
    mdocs = {"empty": Doc(archive([])[0], [], "end"), "one": None, "two": None, "part": None, "cut": None, "part1": None, "nothing": Doc(HEAD, [], "cut")}
    two, one, sol = archive([("a", BODY["a"]), ("b", BODY["b"])]), archive([("a", BODY["a"])]), solitary("a", BODY["a"])
    total = 0
    for cfg, runs, hows in (("ReadingMC", ctx.pick(120, 1500), ["io", "mem", "file"]), ("ReadingMC2", ctx.pick(60, 800), ["io"])):
        paths, n = vt.cover(vt.edges(ctx.mc("ReadingMC", cfg, timeout=3000)), maxlen=14)
        total += n
        for i, p in enumerate(paths):
            docs, ops = {}, []
            ok = [None, None]
            e2 = two[1][1]
            for o in p:
                a = o["a"]
                if o["op"] != "open":
                    ops.append((o["op"], a, None))
                    continue
                d = {"one": lambda: cut(rng.choice([one, sol]), 10 ** 6), "two": lambda: cut(two, 10 ** 6), "part": lambda: cut(two, rng.randrange(e2[2] + 70, e2[1])), "cut": lambda: cut(two, rng.randrange(two[1][0][1], e2[2])),
                     "part1": lambda: cut(rng.choice([one, sol, two]), 190), "empty": lambda: mdocs["empty"], "nothing": lambda: mdocs["nothing"]}[o["d"]]()
                d = Doc(d.data, d.us, "part" if d.tail == "cut" else d.tail, d.table)
                ops.append((rng.choice(hows), a, d))
            add("%s-%d" % (cfg, i), None, ops, 2, runs, rng.choice([37, 500, 5000]))
    # every input is read to its end, and twice more
    every = [two, sol, archive([("a", ""), ("b", BODY["a"])], "")]
    full = [("io", 0), ("read", 0), ("again", 0), ("read", 0), ("read", 0), ("skip", 0), ("close", 0)]
    n = 0
    for d in every:
        for p in range(len(d[0].encode()) + 1):
            n += 1
            how = ["io", "mem", "file"][p % 3]
            ops = [(how, 0)] + (full[1:] if p % 2 else [("skip", 0), ("read", 0), ("read", 0), ("read", 0), ("close", 0)])
            add("cut%d" % n, [cut(d, p)] * 2, ops, 1, ctx.pick(3, 60), rng.choice([1, 7, 100, 4000]))
    for i, d in enumerate(foreign()):
        for j, ops in enumerate(([("mem", 0), ("close", 0)], full, [("mem", 0), ("skip", 0), ("skip", 0), ("read", 0), ("skip", 0), ("gone", 0)])):
            add("foreign%d-%d" % (i, j), [d] * 2, ops, 1, ctx.pick(4, 60), 4000)
    for i in range(ctx.pick(1500, 30000)):
        d = changed(rdoc(rng), rng)
        add("changed%d" % i, [d, d], [(rng.choice(["io", "mem", "file"]), 0)] + [(rng.choice(["read", "read", "skip"]), 0) for _ in range(rng.choice([0, 1, 3, 8]))] + [("close", 0)], 1, ctx.pick(2, 10), rng.choice([1, 50, 4000]))
    for i in range(ctx.pick(250, 5000)):
        docs = [rdoc(rng), rdoc(rng)]
        docs = [cut(d, rng.choice([10 ** 9, rng.randrange(len(d[0]))])) for d in docs]
        add("rnd%d" % i, docs, history(rng, rng.choice([6, 15, 30])), 2, ctx.pick(40, 200), rng.choice([1, 20, 300, 4000]))

    D = os.path.join(vt.scratch(), "docs")
    shutil.rmtree(D, ignore_errors=True)
    os.makedirs(D)
    paths = {}

    def path(d):
        if d.data not in paths:
            paths[d.data] = os.path.join(D, "%d.xml" % len(paths))
            with open(paths[d.data], "wb") as f:
                f.write(d.data)
        return paths[d.data]

    jobs, use = [], {}
    for id, (docs, ops, bound, runs, chunk) in scen.items():
        if docs is None:        # the document of an archive changes from opening to opening
            ops2, k = [], [0, 0]
            tabs = {}
            line = []
            for o in ops:
                if o[2] is not None:
                    line.append("doc%d=%s" % (o[1], path(o[2])))
                line.append("%s%d" % (o[0], o[1]))
            first = [path(mdocs["empty"])] * 2
            use[id] = [(o[0], o[1], o[2]) for o in ops]
        else:
            first = [path(docs[0]), path(docs[1])]
            line = ["%s%d" % (o[0], o[1]) for o in ops]
            use[id] = [(o[0], o[1], docs[o[1]] if o[0] in ("io", "mem", "file") else None) for o in ops]
        jobs.append((id, "%d %d %d %d %s %s %s" % (bound, runs, rng.randrange(10 ** 6), chunk, first[0], first[1], " ".join(line))))
    lines = dict(jobs)

    def traces(jobs, out=None):
        res = sched.run(exe, jobs, D)
        ts = []
        for id, _ in jobs:
            outs, summ = res[id]
            ctx.runs = getattr(ctx, "runs", 0) + summ["runs"]
            ctx.full = getattr(ctx, "full", 0) + bool(summ["exhausted"])
            for k, o in enumerate(outs):
                ev, cur, table = [], [None, None], [[], []]
                for (name, a, d), e in zip(use[id], o["trace"]):
                    if name in ("io", "mem", "file"):
                        ev.append({"op": "open", "a": a, "doc": d.abs, "r": "OK" if e["r"] == 0 else "error"})
                        if e["r"] == 0:
                            table[a] = d.table
                    elif name in ("read", "again"):
                        ev.append({"op": name, "a": a, "r": name_of(e["r"], table[a])})
                    elif name == "skip":
                        ev.append({"op": name, "a": a, "r": e["r"]})
                    else:
                        ev.append({"op": name, "a": a, "r": 0})
                if o["end"] != "ok":
                    ev.append({"op": "CRASH" if o["end"] == "CRASH" else "HANG", "rc": o["end"]})
                ts.append({"id": "%s.%d" % (id, k), "cfg": {}, "ev": ev, "sched": o["sched"]})
        return ts

    def rerun(tr):
        ids = {t["id"].rsplit(".", 1)[0] for t in tr}
        return traces([(i, lines[i]) for i in ids])
    ts = traces(jobs)
    vt.log("[C05] %d documents and histories, %d runs, %d with all schedules of their bound" % (len(jobs), ctx.runs, ctx.full))
    ctx.scen = {t["id"]: {"line": lines[t["id"].rsplit(".", 1)[0]], "sched": t["sched"]} for t in ts}
    ctx.check_traces("ReadingTrace", ts, rerun=rerun)
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "%d transitions of the reading protocol under up to all schedules with two preemptions (%d runs in all, %d histories with every schedule of the bound); %d cuts, foreign and changed documents; %d states of the two-thread protocol" % (total, ctx.runs, ctx.full, len(jobs), 16027)
