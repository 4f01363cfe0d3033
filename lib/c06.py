"""C06: the client's queues: every input once, in order, whatever order the threads finish in.  spec: ClientQueue.tla, WriteQueue.tla"""
META = {"technique": "TLC proves that the threads of WriteQueue.tla refine ClientQueue.tla and always stop; all short sequences of good and failing inputs are run through the real queues, parser and writer under enumerated thread schedules, and what was written is validated against ClientQueue.tla",
        "note": "The pool of threads is a stand-in for CTPL, which is not in this sandbox. Schedules: all with at most two preemptions or spurious wake-ups up to a number of runs, then sampled."}
import os, re
import vt, sched, srcdoc


def text(s):
    return s.encode("latin-1").decode("utf-8", "replace")


def log_events(log, names):
    """what was reported of which input"""
    out = []
    for line in log.split("\n"):
        m = re.findall(r"\bf\d+\b", line)
        if len(m) != 1:
            if line.strip():
                out.append({"op": "wrote", "r": {"n": line, "what": "?"}})
            continue
        what = "skip" if line.lstrip().startswith("- ") else "ok" if re.match(r" *\d+ C\b", line) else "fail"
        out.append({"op": "wrote", "r": {"n": m[0], "what": what}})
    return out


def events(items, o):
    can = any(t["op"] == "waited" for t in o["trace"])
    ev, seen, left = [], "", [x for x in items if can or x[0] != "w"]

    def schedule():
        while left and left[0][0] != "w":
            ev.append({"op": "schedule", "k": left[0][0], "n": left.pop(0)[1], "r": "-"})
    schedule()
    for t in o["trace"]:
        if t["op"] in ("log", "waited"):
            ev += log_events(text(t["text"])[len(seen):], items)
            seen = text(t["text"])
        if t["op"] == "waited":
            ev.append({"op": "waited", "r": "-"})
            left.pop(0)
            schedule()
        if t["op"] == "log":
            ev.append({"op": "stop", "r": t["count"]})
        elif t["op"] == "units":
            try:
                _, _, us = srcdoc.units(text(t["xml"]))
                good = [u.attr("filename") for u in us]
                bad = [n for u, n in zip(us, good) if srcdoc.text(u) != n + ";\n"]
                ev.append({"op": "units", "r": good + ["other text: %s" % b for b in bad]})
            except Exception as x:   # noqa
                ev.append({"op": "units", "r": ["unreadable: %s" % x]})
        elif t["op"] == "threads":
            ev.append({"op": "threads", "r": t["n"]})
    if o["end"] != "ok":
        ev.append({"op": "CRASH" if o["end"] == "CRASH" else "HANG", "rc": o["end"]})
    return ev


def check(ctx):
    exe = sched.build_client()
    exe_e = sched.build_client(entries=True)
    ctx.mc("WriteQueue", ctx.pick("WriteQueue", "WriteQueue2"), workers=4, timeout=3000)
    if not ctx.quick:
        ctx.mc("WriteQueue", "WriteQueue3", workers=8, timeout=3000)
    for b in ("stopsilent", "once", "unordered", "early", "nowait", "waitsilent"):
        if not vt.tlc("WriteQueue", "WriteQueue_" + b).violation:
            raise vt.Broken("WriteQueue.tla accepts " + b)
    rng = ctx.rng
    scen = {}
    seqs = set()
    for e in vt.edges(ctx.mc("ClientQueueMC", ctx.pick("ClientQueueMC", "ClientQueueMC2"))):
        seqs.add("".join(x["k"] for x in e[2]))
    seqs = sorted(seqs)
    for k in seqs:
        scen["in-" + k] = (k, rng.choice([1, 2, 2, 3]), ctx.pick(60, 400))
    for i in range(ctx.pick(40, 600)):
        k = "".join(rng.choice("ooooeulm") for _ in range(rng.choice([4, 6, 9, 14])))
        scen["rnd%d-%s" % (i, k)] = (k, rng.choice([1, 2, 3, 4, 7]), ctx.pick(60, 300))
    scen["none"] = ("", 2, 20)
    for k in [x[:i] + "w" + x[i:] for x in seqs for i in range(len(x) + 1) if len(x) > 1 or x in "oe"]:
        if rng.random() < ctx.pick(.25, 1):
            scen["wait-" + k] = (k, rng.choice([1, 2, 2, 3]), ctx.pick(60, 400))
    for i in range(ctx.pick(20, 300)):
        k = "".join(rng.choice("ooooeulmww") for _ in range(rng.choice([4, 6, 9, 14])))
        scen["rndw%d-%s" % (i, k)] = (k, rng.choice([1, 2, 3, 4, 7]), ctx.pick(60, 300))
    for k in ("oo", "eo", "ooo", "oeo", "owo", "oowo"):
        scen["deep-" + k] = (k, 2, ctx.pick(1200, 20000))
    for i in range(ctx.pick(60, 600)):      # threads that change at entries of functions
        k = "".join(rng.choice("ooooeulmw") for _ in range(rng.choice([2, 3, 4, 6])))
        scen["ent%d-%s" % (i, k)] = (k, rng.choice([1, 2, 2, 3, 4]), ctx.pick(60, 300))
    D = os.path.join(vt.scratch(), "q")
    jobs = []
    for i, (id, (k, n, runs)) in enumerate(scen.items()):
        d = os.path.join(D, str(i))
        os.makedirs(d, exist_ok=True)
        jobs.append((id, "%s 2 %d %d %s queue %d %s" % ("se" if id.startswith("ent") else "s", runs, rng.randrange(10 ** 6), d, n, " ".join("%s:f%d" % (c, j + 1) for j, c in enumerate(k)))))
    lines = dict(jobs)

    def traces(jobs):
        res, ts = sched.run(exe, [j for j in jobs if not j[0].startswith("ent")], D), []
        res.update(sched.run(exe_e, [j for j in jobs if j[0].startswith("ent")], D))
        for id, _ in jobs:
            outs, summ = res[id]
            ctx.runs = getattr(ctx, "runs", 0) + summ["runs"]
            items = [(c, "f%d" % (j + 1)) for j, c in enumerate(scen[id][0])]
            for x, o in enumerate(outs):
                ts.append({"id": "%s.%d" % (id, x), "cfg": {"none": 0}, "ev": events(items, o), "sched": o["sched"]})
        return ts
    ts = traces(jobs)
    vt.log("[C06] %d sequences, %d runs" % (len(jobs), ctx.runs))
    ctx.scen = {t["id"]: {"line": lines[t["id"].rsplit(".", 1)[0]], "sched": t["sched"]} for t in ts}
    ctx.check_traces("ClientQueueTrace", ts, rerun=lambda tr: traces([(i, lines[i]) for i in {t["id"].rsplit(".", 1)[0] for t in tr}]))
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "all sequences of up to %d inputs of five kinds, and longer ones, with 1 to 7 threads; %d runs under schedules with at most two preemptions or spurious wake-ups, and some with threads that change at entries of functions" % (ctx.pick(3, 4), ctx.runs)
