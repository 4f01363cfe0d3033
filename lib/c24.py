"""C24: the limit of open inputs.  spec: Limiter.tla, OpenFileLimiter.tla"""
META = {"technique": "TLC proves that the counter, mutex and condition of OpenFileLimiter.tla refine Limiter.tla and that every wait ends; threads that open and close places at the limit run under enumerated schedules, and the client converts more inputs than the limit while its open files are counted, each recorded trace validated against Limiter.tla",
        "note": "Schedules: all with at most three preemptions or spurious wake-ups up to a number of runs, then sampled. The pool of threads is a stand-in for CTPL."}
import itertools, os
import vt, sched

HEAD = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'


def check(ctx):
    exe = sched.build_client()
    for c in ["OpenFileLimiter", "OpenFileLimiter3"] + ctx.pick([], ["OpenFileLimiter2"]):
        ctx.mc("OpenFileLimiter", c, workers=4)
    for b in ("bound", "if", "silent", "full"):
        if not vt.tlc("OpenFileLimiter", "OpenFileLimiter_" + b).violation:
            raise vt.Broken("OpenFileLimiter.tla accepts " + b)
    rng = ctx.rng
    D = os.path.join(vt.scratch(), "l")
    os.makedirs(D, exist_ok=True)
    jobs = []
    # threads at the limit; main holds places from the beginning, gives some back, and looks when nothing else can happen
    words = ["oc", "ooc" + "c", "ococ", "oyc", "oycoyc", "oocococc"]
    n = 0
    for pre in (200, 199, 198):
        for main in ("qcq", "qcqcq", "ccq", "q", "qcqoqcq", "cqoq"):
            for ws in [("oc",), ("oc", "oc"), ("oyc", "oyc", "oyc"), ("oocc", "oc"), ("ococ", "oyc", "oc", "oc")]:
                # nobody may wait for a place that never comes
                most = max(w.count("o") for w in ws)
                give = main.count("c") - main.count("o")
                if pre - give + max(1, 0) + sum(max(0, depth(w) - 1) for w in ws) > 200 or (main.count("o") and not feasible(pre, main, ws)):
                    continue
                n += 1
                jobs.append(("w%d-%d-%s-%s" % (n, pre, main, "-".join(ws)), "s 3 %d %d %s limit %d %s %s" % (ctx.pick(60, 800), rng.randrange(10 ** 6), D, pre, main, " ".join(ws))))
    for i in range(ctx.pick(60, 800)):
        ws = [rng.choice(words) for _ in range(rng.choice([2, 3, 5, 8]))]
        pre = 200 - rng.choice([1, 2, 3])
        pre = min(pre, 199 - sum(depth(w) - 1 for w in ws))
        jobs.append(("r%d" % i, "s 3 %d %d %s limit %d %s %s" % (ctx.pick(60, 400), rng.randrange(10 ** 6), D, pre, rng.choice(["q", "yq", "yyqq"]), " ".join(ws))))
    # the client itself, with more inputs than places
    def docs(name, n, units=1):
        d = os.path.join(D, name, "in")
        os.makedirs(d)
        fs = []
        for i in range(n):
            f = os.path.join(d, "u%04d.xml" % i)
            body = "".join('<unit revision="1.0.0" language="C" filename="u%04d-%d.c">x%d;\n</unit>' % (i, j, i) for j in range(units))
            with open(f, "w") as fh:
                fh.write(HEAD + '<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0">' + body + "</unit>\n" if units != 1 else
                         HEAD + '<unit xmlns="http://www.srcML.org/srcML/src" revision="1.0.0" language="C" filename="u%04d.c">x%d;\n</unit>\n' % (i, i))
            fs.append("in/u%04d.xml" % i)
        return os.path.join(D, name), fs
    ways = [("xml", ["-X", "-o", "out/p.xml"]), ("dir", ["-X", "-o", "out/"]), ("list", ["-L"]), ("src", ["-S", "--to-dir", "out"])]
    for name, units, count in ctx.pick([("one", 1, 230), ("few", 3, 12)], [("one", 1, 230), ("few", 3, 12), ("more", 2, 450)]):
        for way, args in ways:
            d, fs = docs("%s-%s" % (name, way), count, units)
            for th in ctx.pick((2,), (1, 2, 5)):
                # the second order of threads lets requests pile up before anything is written
                for order in ("", "o"):
                    jobs.append(("client-%s-%s-%d%s" % (name, way, th, order), "sc" + order + " 1 %d %d %s client %s -j %d %s" % (ctx.pick(3, 12) if count > 100 else ctx.pick(20, 300), rng.randrange(10 ** 6), d, " ".join(args), th, " ".join(fs))))
    # inputs that cannot be read take no place with them
    d, fs = docs("bad", 6, 1)
    for i, (way, args) in enumerate(ways):
        for j, ins in enumerate((["in/none.xml"], fs[:2] + ["in/none.xml"] + fs[2:], ["in/none.xml", "in/none2.xml"] + fs)):
            jobs.append(("bad-%s-%d" % (way, j), "sc 1 %d %d %s client %s -j 2 %s" % (20, rng.randrange(10 ** 6), d, " ".join(args), " ".join(ins))))
    lines = dict(jobs)

    def traces(jobs):
        res, ts = sched.run(exe, jobs, D, per=2), []
        for id, _ in jobs:
            outs, summ = res[id]
            ctx.runs = getattr(ctx, "runs", 0) + summ["runs"]
            for x, o in enumerate(outs):
                ev, most = [], 0
                if not id.startswith(("client", "bad")):
                    for t in o["trace"]:
                        ev.append({k: v for k, v in t.items() if k != "more"} | {"r": t.get("more", "-")})
                else:
                    ended = False
                    for t in o["trace"]:
                        if t["op"] in ("open", "exit"):
                            # as many inputs as were open at once, opened one after another
                            k = t["most"] if "most" in t else t["open"]
                            ev.append({"op": "held", "n": 0, "max": 200, "r": "-"})
                            for i in range(k):
                                ev += [{"op": "want", "t": i, "r": "-"}, {"op": "got", "t": i, "r": "-"}]
                            ev.append({"op": "end", "n": k, "r": "-"})
                        elif t["op"] == "places":
                            ev.append({"op": "places", "r": t["more"]})
                if o["end"] != "ok":
                    ev.append({"op": "CRASH" if o["end"] == "CRASH" else "HANG", "rc": o["end"]})
                ts.append({"id": "%s.%d" % (id, x), "cfg": {"none": 0}, "ev": ev, "sched": o["sched"][:2000]})
        return ts
    ts = traces(jobs)
    vt.log("[C24] %d histories, %d runs" % (len(jobs), ctx.runs))
    ctx.scen = {t["id"]: {"line": lines[t["id"].rsplit(".", 1)[0]], "sched": t["sched"]} for t in ts}
    ctx.check_traces("LimiterTrace", ts, rerun=lambda tr: traces([(i, lines[i]) for i in {t["id"].rsplit(".", 1)[0] for t in tr}]))
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "%d programs of up to 8 threads at and near the limit, and the client with up to %d inputs in four uses; %d runs under schedules with at most three preemptions or spurious wake-ups" % (len(jobs), ctx.pick(230, 450), ctx.runs)


def depth(w):
    n = m = 0
    for c in w:
        n += (c == "o") - (c == "c")
        m = max(m, n)
    return m


def feasible(pre, main, ws):
    """the places main opens again come when the threads are done"""
    held = pre
    for c in main:
        held += (c == "o") - (c == "c")
        if held > 200:
            return False
    low = held
    return held + sum(max(0, depth(w) - 1) for w in ws) + 1 <= 200
