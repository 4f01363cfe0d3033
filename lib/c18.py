"""C18: what a parse depends on.  spec: Parsing.tla, ParserState.tla"""
META = {"technique": "TLC checks where the parser keeps things (ParserState.tla: results depend on text and settings alone); all transitions of Parsing.tla and random histories are replayed in one process, and parses run at the same time with the processor changing hands at entries of the library's functions, every result validated against Parsing.tla with the results of fresh processes",
        "note": "The interleavings are sampled: a few switches at any of a run's function entries, or many. Texts are the project's own cases and mutations of them."}
import os, re
import vt, sched, srcgen

LANG = ["C", "C++", "C#", "Java"]
OPTS = ["0", "1", "2", "4", "7"]        # POSITION, CPP_TEXT_ELSE, CPP_MARKUP_IF0, ...
HOW = ["mem", "io", "file", "fd"]
OTHER = ["fail", "glob", "one", "odd", "xpath", "read", "src", "build"]
PRE = ["-", "s"]
ENC = ["UTF-8", "ISO-8859-1"]
SET = ("opt", "tab", "ns", "enc")
DEF = ("0", "8", "-", "UTF-8")


def key(x, lang, set):
    return "|".join((x, lang) + set)


def check(ctx):
    B = vt.build_lib("instr", " -finstrument-functions -finstrument-functions-exclude-file-list=/usr/include,/usr/lib", ("libsrcml_shared",))
    exe = sched.build("parse", [os.path.join(sched.H, "parse_drv.cpp")], ["-I" + vt.REPO + "/src/libsrcml", "-L" + B + "/bin", "-lsrcml", "-Wl,-rpath," + B + "/bin"])
    ctx.mc("ParserState", ctx.pick("ParserState", "ParserState3"), workers=4)
    for b in ("shared", "latched", "leftover", "unguarded", "writes"):
        if not vt.tlc("ParserState", "ParserState_" + b).violation:
            raise vt.Broken("ParserState.tla accepts " + b)
    rng = ctx.rng
    D = os.path.join(vt.scratch(), "p")
    os.makedirs(D, exist_ok=True)
    langs = {}
    n = ctx.pick(24, 80)
    for i in range(n):
        if i == 0:
            l, t = "C++", "#if 0\nint f(\n#else\n  class A { /** d */ int a = 1; // c\n\tvoid f() { if (a) b(c); } };\n#endif\n\f MACRO(x)\nint a, b[3] = {1, 2};\n"
        else:
            while True:
                l, t = srcgen.text(rng, LANG[i % 4], hostile=.15)
                if 20 < len(t) < 1500 and l in LANG and not re.search(r"[\[({]\s*[\[({]\s*[\[({]\s*[\[({]", t):
                    break
        with open(os.path.join(D, "t%d" % i), "w", newline="") as f:
            f.write(t)
        langs[str(i)] = [l] + [x for x in rng.sample(LANG, 2) if x != l][:1]
    xs = sorted(langs, key=int)
    scen = {}
    # every transition of the specification, with the first text
    es = vt.edges(ctx.mc("ParsingMC"))
    paths, n_es = vt.cover(es, maxlen=40, rng=rng)
    for i, seq in enumerate(paths):
        ws = []
        for op in seq:
            o = op["op"]
            if o == "parse":
                ws.append("parse:%s:0:C++:mem" % op["a"])
            elif o == "other":
                ws.append("other:" + rng.choice(OTHER))
            else:
                ws.append(":".join([o, op["a"]] + ([op["v"]] if "v" in op else [])))
        scen["mc%d" % i] = ("s", 1, ws)

    def parse(a, x=None, again=True):
        x = x or rng.choice(xs)
        return "parse:%s:%s:%s:%s%s" % (a, x, rng.choice(langs[x]), rng.choice(HOW), ":again" if again and rng.random() < .3 else "")

    def setting(a):
        k = rng.choice(["opt", "opt", "tab", "ns", "enc"])
        return "%s:%s:%s" % (k, a, rng.choice(OPTS if k == "opt" else ["8", "4"] if k == "tab" else ENC if k == "enc" else PRE))
    for i in range(ctx.pick(150, 3000)):
        ws = []
        for _ in range(rng.choice([8, 15, 30])):
            q = rng.random()
            a = rng.choice("01")
            ws.append(parse(a) if q < .6 else setting(a) if q < .8 else "other:" + rng.choice(OTHER) if q < .95 else "new:" + a)
        scen["h%d" % i] = ("s", 1, ws)
    # at the same time
    nconc = ctx.pick(64, 300)
    for i in range(nconc):
        ws = [setting("0") for _ in range(rng.choice([0, 1, 3]))] + [setting("1") for _ in range(2)]
        if i % 4 == 0:
            ws.append("opt:0:1")
        if rng.random() < .3:
            ws.append(parse(rng.choice("01"), again=False))
        left = rng.sample(xs, min(len(xs), 9))
        th = []
        for t in range(rng.choice([2, 2, 3, 4])):
            w = []
            for _ in range(rng.choice([1, 2, 3])):
                if not left:
                    break
                x = left.pop()
                w.append("parse:%s:%s:%s:%s" % (rng.choice("0001"), x, rng.choice(langs[x]), rng.choice(HOW)))
                if rng.random() < .2:
                    w.append("other:" + rng.choice([o for o in OTHER if o not in ("glob", "one")]))     # process-wide settings are not for several threads
            th += ["T"] + w
        scen["c%d" % i] = ("e", ctx.pick(60, 300), ws + th + ["J", "write:W%d" % i])
        if i % 2 == 0:
            scen["n%d" % i] = ("n", ctx.pick(10, 40), ws + th + ["J", "write:W%d" % i])
    seed = rng.randrange(10 ** 6)
    # results of fresh processes
    keys = set()
    words = {}
    for id, (mode, runs, ws) in scen.items():
        st = {a: DEF for a in "01"}
        for w in ws:
            f = w.split(":")
            if f[0] == "new":
                st[f[1]] = DEF
            elif f[0] in SET:
                k = SET.index(f[0])
                st[f[1]] = st[f[1]][:k] + (f[2],) + st[f[1]][k + 1:]
            elif f[0] == "parse":
                k = key(f[2], f[3], st[f[1]])
                keys.add(k)
                words.setdefault(k, []).append(id)
    def alone(k):
        x, lang, o, t, p, enc = k.split("|")
        return "s 0 1 1 %s opt:1:%s tab:1:%s ns:1:%s enc:1:%s parse:1:%s:%s:mem" % (D, o, t, p, enc, x, lang)
    res = sched.run(exe, [(k, alone(k)) for k in sorted(keys)], D, per=40)
    table, broken = {}, []
    for k in keys:
        o = res[k][0][0]
        if o["end"] != "ok":
            broken.append(k)
            continue
        table[k] = o["trace"][-1]["r"]
    if broken:
        raise vt.Broken("a single parse ends with " + res[broken[0]][0][0]["end"])
    # one after another
    seqs = [(id, "s 0 1 1 %s " % D + " ".join(w for w in ws if w != "T")) for id, (m, r, ws) in scen.items() if id[0] == "c"]
    one = {}
    for id, (m, r, ws) in scen.items():
        if id[0] == "c":
            pre = ws[:ws.index("T")]
            body = [w for w in ws[ws.index("T"):ws.index("J")] if w != "T"]
            one[id] = "s 0 1 1 %s %s T %s J %s" % (D, " ".join(w for w in pre if not w.startswith("parse")), " ".join(body), ws[-1])
    res = sched.run(exe, sorted(one.items()), D)
    for id in one:
        o = res[id][0][0]
        if o["end"] != "ok":
            raise vt.Broken("%s alone ends with %s" % (id, o["end"]))
        table["W" + id[1:]] = o["trace"][-1]["r"]
    vt.log("[C18] %d results of fresh processes" % len(table))
    jobs = [(id, "%s 1 %d %d %s %s" % (mode, runs, seed, D, " ".join(ws))) for id, (mode, runs, ws) in scen.items()]
    lines = dict(jobs)
    ctx.runs = 0

    def traces(jobs):
        res, ts = sched.run(exe, jobs, D, per=4), []
        for id, _ in jobs:
            outs, summ = res[id]
            ctx.runs += summ["runs"]
            for x, o in enumerate(outs):
                ev = o["trace"]
                if o["end"] != "ok":
                    ev.append({"op": "CRASH" if o["end"] == "CRASH" else "HANG", "rc": o["end"]})
                ts.append({"id": "%s.%d" % (id, x), "ev": ev, "sched": o["sched"][:20000]})
        return ts
    ts = traces(jobs)

    def used(tr):
        """only what the trace can ask for"""
        out = []
        for t in tr:
            st, ks = {a: DEF for a in "01"}, set()
            for e in t["ev"]:
                if e["op"] == "new":
                    st[e["a"]] = DEF
                elif e["op"] in SET:
                    k = SET.index(e["op"])
                    st[e["a"]] = st[e["a"]][:k] + (e["v"],) + st[e["a"]][k + 1:]
                elif e["op"] == "parse":
                    ks.add(key(e["x"], e["lang"], st[e["a"]]))
                elif e["op"] == "write":
                    ks.add(e["k"])
            out.append(dict(t, cfg={"table": {k: table[k] for k in ks} or {"-": "-"}}))
        return out
    vt.log("[C18] %d histories, %d runs" % (len(jobs), ctx.runs))
    ctx.scen = {t["id"]: {"line": lines[t["id"].rsplit(".", 1)[0]], "sched": t["sched"]} for t in ts}
    ctx.check_traces("ParsingTrace", used(ts), rerun=lambda tr: used(traces([(i, lines[i]) for i in {t["id"].rsplit(".", 1)[0] for t in tr}])))
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "all transitions of the settings of two archives; %d random histories; %d groups of up to 4 threads; %d runs" % (ctx.pick(150, 3000), nconc, ctx.runs)
