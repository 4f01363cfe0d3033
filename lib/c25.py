"""C25: queries and transformations with the client.  spec: Query.tla"""
META = {"technique": "every transition of the bounded model of Query.tla (documents, lists of transformations, everything that is shown) replayed into the client, and random histories over random documents; documents, lines and listings validated against Query.tla",
        "note": "XPath, XSLT and RelaxNG themselves are the libxml2/libxslt engines. The options are given as the client has them after its command line is read (CLI11 is not here); --pretty is not covered."}
import json, os, queue, random, re, shutil, threading, time
import vt, sched, srcdoc, srcgen, c15, c21

SRC = srcdoc.SRC
DECL = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'


def lat(s):
    """as the client's output is recorded"""
    return s.encode("utf-8").decode("latin-1")


def utf(s):
    try:
        return s.encode("latin-1").decode("utf-8")
    except ValueError:
        return s


# ---------------------------------------------------------------- documents

def content(d):
    out, stack = [], []
    for e in d:
        if e[0] == "s":
            out.append("<%s%s>" % (e[1], "".join(' %s="%s"' % (n, c15.esc(v)) for n, v in e[2])))
            stack.append(e[1])
        elif e[0] == "t":
            out.append(c15.esc(e[1]))
        else:
            out.append("</%s>" % stack.pop())
    return "".join(out)


def names(ns):
    return "".join(' xmlns%s="%s"' % (":" + p if p else "", c15.esc(u)) for p, u in ns)


def document(d):
    at = lambda k: [["revision", "1.0.0"]] + ([["url", d["url"]]] if d["url"] != "-" else []) + k
    if d["form"] == "solitary":
        u = d["us"][0]
        return (DECL + content([["s", "unit" + names(d["ns"]), at(u[0][2])]] + u[1:]).replace("</unit" + names(d["ns"]) + ">", "</unit>") + "\n").encode()
    x = DECL + "<unit%s%s>\n\n" % (names(d["ns"]), "".join(' %s="%s"' % (n, c15.esc(v)) for n, v in at([])))
    for u in d["us"]:
        x += content([["s", "unit", [["revision", "1.0.0"]] + u[0][2]]] + u[1:]) + "\n\n"
    return (x + "</unit>\n").encode()


def events(e, out, url):
    """url: keep it"""
    unit = srcdoc.is_unit(e)
    out.append(["s", c15.qn(e.uri, e.local, False), [[c15.qn(u, l, True), v] for _, u, l, v in e.attrs if not (unit and (l == "revision" or l == "url" and not url))]])
    for k in e.kids:
        if isinstance(k, str):
            out.append(["t", k])
        elif isinstance(k, srcdoc.El):
            events(k, out, True)
        else:
            out.append(["?"])
    out.append(["e"])
    return out


def words(e):
    """the transformations of the command line, and the files they need"""
    ws, files, m = [], {}, False
    X = {"sel": "//src:%s", "text": "//src:%s/text()", "at": "//src:%s/@%s", "count": "count(//src:%s)", "has": "boolean(//src:%s)", "str": "string(//src:%s)", "mark": "//src:%s", "wrap": "//src:%s"}
    for i, x in enumerate(e["ts"]):
        k = x["t"]
        if k in X:
            ws += ["--xpath", X[k] % ((x["n"], x["a"]) if k == "at" else x["n"])]
            if k == "mark" or k == "wrap" and x["v"] != "-":
                ws += ["--attribute", "m:mk=" + x["v"]]
                m = True
            if k == "wrap":
                ws += ["--element", "m:" + x["w"]]
                m = True
        else:
            f = "in/t%d.x" % i
            files[f] = c15.sheet(x).encode()
            ws += ["--relaxng" if k == "rng" else "--xslt", f]
            if k == "param" and x["v"] != "dflt":
                ws += ["--xslt-param", "p=" + x["v"]]
    return ws + (["--xmlns", "m=urn:m"] if m else []), files


class Place(c21.Place):
    def __init__(self, exe, n):
        super().__init__(exe, n, None)

    def inputs(self, s, e):
        ws = []
        if e.get("src"):
            for f, x in e["src"]:
                self.write("in/" + f, x.encode("utf-8"))
            return ["--src-encoding", "UTF-8"] + ["in/" + f for f, x in e["src"]]
        for i in e["in"]:
            if i:
                self.write("in/d%d.xml" % i, document(s["docs"][i - 1]))
            ws.append("in/d%d.xml" % i if i else "doc.xml")
        return ws

    def fact(self, x):
        self.text[x] = {"loc": x.count("\n") + (1 if x and x[-1] != "\n" else 0), "nl": x.endswith("\n")}

    def facts(self, d):
        """the texts in a document"""
        ts = [x[1] for x in d if x[0] == "t"]
        for x in ts + ["".join(ts)]:
            self.fact(x)
        for i, x in enumerate(d):
            if x[0] == "s":
                n, t = 0, []
                for y in d[i:]:
                    n += {"s": 1, "e": -1}.get(y[0], 0)
                    if y[0] == "t":
                        t.append(y[1])
                    if n == 0:
                        break
                self.fact("".join(t))

    def seen(self, b):
        """(what a document says, namespaces of its root); b: a latin-1 string"""
        if b is None:
            return {"form": "none"}, []
        if b == DECL:
            return {"form": "bare"}, []
        if not b.startswith("<?xml"):
            return {"form": "text", "text": utf(b)}, []
        try:
            form, root, us = srcdoc.units(b.encode("latin-1"))
            ns = [[p, u] for p, u in root.decl.items()]
            self.decl = {p: u for x in [root] + us for p, u in x.decl.items()}
            if form == "solitary":
                us = [root]
            r = {"form": "archive" if form == "empty" else form, "url": root.attr("url", "-"), "us": [events(u, [], form != "solitary") for u in us]}
            for u in r["us"]:
                self.facts(u)
            return r, ns
        except (srcdoc.Bad, ValueError) as x:
            return {"form": "bad", "why": str(x)[:200], "doc": utf(b)[:600]}, []

    def step(self, s, e, ns):
        """ns: the namespaces of the current document"""
        k = e["op"]
        self.clear()
        ins = self.inputs(s, e)
        n = ["-U", str(e["n"])] if e.get("n") else []
        to, lost, room = e.get("to", ""), e.get("lost"), None
        if lost == "room":      # room for some of it: either it is enough, or the output is lost
            lost, room = None, e["room"]
        full = ["--full"] if lost == "full" else ["--room=%d" % room] if room else []
        if lost == "nodir":
            to = "nowhere"
        if k == "make":
            ws = ["-o", "out/r.xml"]
            to = "file"
        elif k == "transform":
            ws, files = words(e)
            for f in files:
                self.write(f, files[f])
            ws += [] if ws else ["-X"]
            ws = ["-j", str(e.get("j", 1))] + n + ws + (["-o", "out/r.xml"] if to == "file" and lost != "full" else ["-o", "nodir/r.xml"] if to == "nowhere" else [])
        elif k == "fields":
            ws = n + ["--show-" + {"version": "src-version"}.get(f, f) for f in e["fs"]]
        else:
            ws = n + {"list": ["-L"], "info": ["-I" if e.get("long") else "-i"], "count": ["--show-unit-count"], "prefix": ["--show-prefix", e.get("uri", "")], "outer": ["--outer"], "inner": ["--inner"]}[k]
        ws += full + ins
        self.cmd = ws
        outs, runs = self.ask("%s %s client %s" % (e.get("mode", "n 0 1 1"), self.dir, " ".join("".join(c if re.match(r"[-A-Za-z0-9_./=+]", c) else "".join("%%%02X" % b for b in c.encode()) for c in w) for w in ws)))
        evs, raw = [], None
        e = {x: v for x, v in e.items() if x not in ("mode", "to", "src") + (("lost", "room") if room else ())}
        for o in outs:
            c = [t for t in o["trace"] if t["op"] == "client"]
            if o["end"] != "ok" or not c:
                evs.append(dict(e, op="HANG" if o["end"] not in ("CRASH", "ok") else "CRASH", rc=o["end"]))
                continue
            t = c[0]
            r = {"st": 1 if t["status"] else 0}
            nse = []
            if room and r["st"]:
                evs.append(dict(e, lost="room", r=r, **({"ns": []} if k == "transform" else {})))
                continue
            if lost:
                evs.append(dict(e, r=dict(r, **({"wrote": t["stdout"]} if t["stdout"] else {})), **({"ns": []} if k == "transform" else {})))
                continue
            x = t["files"].get("r.xml") if to == "file" else t["stdout"]
            if k == "make":
                r["st"] = 1 if t["stdout"] else r["st"]
                doc, nse = self.seen(x)
                if doc["form"] not in ("solitary", "archive"):
                    evs.append(dict(e, doc={"form": "none", "url": "-", "us": [], "ns": []}, r=dict(r, doc=doc)))
                    continue
                raw = (x, doc, nse)
                evs.append(dict(e, doc=dict(doc, ns=nse), r=r))
            elif k == "transform":
                if not r["st"]:
                    r["doc"], nse = self.seen(x)
                    if to == "file" and t["stdout"]:
                        r["stdout"] = t["stdout"]
                    if raw is not None and raw[0] != x:
                        r["depends"] = "what is written depends on the schedule"
                    if raw is None:
                        raw = (x, r["doc"], nse)
                evs.append(dict(e, r=r, ns=nse))
            else:
                evs.append(dict(e, r=r if r["st"] else getattr(self, "r_" + k)(r, utf(x), s, e, ns)))
        return evs, raw, runs

    # ------------------------------------------------------------ what is shown

    def r_list(self, r, x, s, e, ns):
        return dict(r, all=[self.list1(y) for y in re.split(r"(?<=\n)(?=XML encoding)", x)])

    def r_info(self, r, x, s, e, ns):
        return dict(r, all=[self.info1(y) for y in re.sub(r"(?m)^(?!xmlns)(.*\n)(?=xmlns)", "\\1\0", x).split("\0")])

    def list1(self, x):
        r, m = {}, re.fullmatch(r"XML encoding: (.*)\n((?:.*\n)*?)units: (\d+)\nLOC: (\d+)\n", x)
        if not m:
            return dict(r, bad=x)
        r.update(enc=m[1], rows=[], units=int(m[3]), loc=int(m[4]))
        for i, l in enumerate(m[2].splitlines()):
            y = re.fullmatch(r"(?=.{5})( *%d)(?=.{5}) *(\S*) (?=.{5})( *\d+) (\S*) (.*)" % (i + 1), l)
            r["rows"].append({"lang": y[2], "loc": int(y[3]), "hash": y[4], "name": y[5]} if y else {"bad": l})
        return r

    def info1(self, x):
        r = {}
        r.update(ns=[], lang="-", url="-", name="-", units="-", enc="-")
        order = []
        for l in x.splitlines():
            y = re.fullmatch(r'([a-z]+)(?::(.*?))?="(.*)"', l)
            if not y:
                return dict(r, bad=x)
            if y[1] == "xmlns":
                r["ns"].append([y[2] or "", y[3]])
            else:
                r[{"encoding": "enc", "language": "lang", "filename": "name"}.get(y[1], y[1])] = y[3]
            order.append(y[1])
        o = ["xmlns", "encoding", "language", "url", "filename", "units"]
        if [o.index(y) for y in order] != sorted(o.index(y) for y in order):
            r["bad"] = x
        return r

    def r_count(self, r, x, s, e, ns):
        return dict(r, all=x.splitlines(True))

    def r_prefix(self, r, x, s, e, ns):
        return dict(r, text=x)

    def r_fields(self, r, x, s, e, ns):
        return dict(r, lines=x.split("\n")[:-1]) if x.endswith("\n") or not x else dict(r, bad=x)

    def wrapped(self, x, ns):
        return srcdoc.tree("<w%s>%s</w>" % (names(ns), x))[1]

    def r_outer(self, r, x, s, e, ns):
        try:
            w = self.wrapped(x, ns)
        except srcdoc.Bad as b:
            return dict(r, bad=[str(b), x])
        if any(isinstance(k, str) and k != "\n" for k in w.kids) or len(w.kids) % 2:
            return dict(r, bad=x)
        return dict(r, us=[events(k, [], True) for k in w.kids[::2]])

    def r_inner(self, r, x, s, e, ns):
        try:
            w = events(self.wrapped(x, ns), [], True)[1:-1]
        except srcdoc.Bad as b:
            return dict(r, bad=[str(b), x])
        return dict(r, ev=w)

    def scenario(self, s):
        self.text = {}
        for d in s["docs"]:
            for u in d["us"]:
                self.facts(u)
        tr, more, runs = [], [], 0
        self.decl, inside = {}, []
        cur, f = None, os.path.join(self.dir, "doc.xml")
        if os.path.exists(f):
            os.unlink(f)
        for e in s["ops"]:
            if e["op"] != "make" and 0 in e["in"] and (cur is None or cur[1]["form"] not in ("solitary", "archive")):
                break
            ns = [] if e["op"] == "make" else cur[2] if e["in"][0] == 0 else s["docs"][e["in"][0] - 1]["ns"]
            evs, raw, n = self.step(s, e, inside if e["op"] == "inner" and 0 in e["in"] else ns)
            runs += n
            if not evs:
                break
            more += [tr + [x] for x in evs[1:]]
            tr = tr + evs[:1]
            if tr[-1]["op"] in ("CRASH", "HANG"):
                break
            if raw:
                cur = raw
                inside = [[p, u] for p, u in self.decl.items()]
                with open(f, "wb") as fh:
                    fh.write(raw[0].encode("latin-1") if raw[0] else b"")
        cfg = {"docs": s["docs"], "text": self.text or {"": {"loc": 0, "nl": False}}}
        return [{"cfg": cfg, "ev": x} for x in [tr] + more], runs


def record(exe, scen, ctx):
    q = queue.Queue()
    for i, s in enumerate(scen):
        q.put((i, s))
    out, errs = [None] * len(scen), []

    def loop():
        pl = None
        try:
            c21.record.n += 1
            pl = Place(exe, c21.record.n)
            mine = 0
            while not errs and mine < 3:        # (a change that makes everything hang must not use up the time)
                try:
                    i, s = q.get_nowait()
                except queue.Empty:
                    break
                out[i] = pl.scenario(s)
                mine += any(x["ev"] and x["ev"][-1]["op"] == "HANG" for x in out[i][0])
        except Exception:      # noqa
            import traceback
            errs.append(traceback.format_exc())
        finally:
            if pl:
                pl.close()
                shutil.rmtree(pl.dir, ignore_errors=True)
    ts = [threading.Thread(target=loop) for _ in range(vt.NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise vt.Broken(errs[0])
    traces = []
    for s, x in zip(scen, out):
        if x is None:
            continue
        ctx.runs += x[1]
        traces += [dict(t, id=s["id"] if not i else "%s~%d" % (s["id"], i)) for i, t in enumerate(x[0])]
    return traces


# ---------------------------------------------------------------- random documents and histories

def given(rng, i):
    us = []
    for j in range(rng.choice([0, 1, 1, 2, 3, 5])):
        u = c15.merge(c15.doc(rng, j))
        at = [a for a in u[0][2] if a[0] != "language" or rng.random() < .85]
        if rng.random() < .15:
            at = [a for a in at if a[0] != "filename"]
        for k, vs in (("version", ["v1", "a\"b<&", ""]), ("timestamp", ["Thu Jan  1 00:00:00 1970", "é"]), ("hash", ["ab", "da39a3ee5e6b4b0d3255bfef95601890afd80709"])):
            if rng.random() < .25:
                at.append([k, rng.choice(vs)])
        us.append([["s", "unit", at]] + u[1:])
    m = rng.random() < .3
    d = {"form": "archive", "url": rng.choice(["-", "-", "u", "a&b \"c\""]), "ns": [["", SRC]] + ([["m", "urn:m"]] if m else []), "us": us}
    # (a single unit of nothing but white space is an archive without units)
    if len(us) == 1 and rng.random() < .7 and any(x[0] == "s" or x[0] == "t" and x[1].strip() for x in us[0][1:]):
        d["form"] = "solitary"
    if m and us and rng.random() < .6:
        u = us[0]
        us[0] = u[:1] + [["s", "m:w", [["m:mk", "0"]]], ["e"]] + u[1:]
    return d


def chain(rng):
    ts = []
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        x = c15.trans(rng)
        if x["t"] == "param":
            x["v"] = rng.choice(["dflt", "q", "é", "<&>", "a b", "r'"])
        if x["t"] == "mark" and x["v"] == "<&\">":
            x["v"] = "<&>"
        if x["t"] == "wrap" and rng.random() < .3:
            x["v"] = rng.choice(["1", "é"])
        # what an attribute belongs to is the XPath before it
        if ts and x["t"] == "mark" and ts[-1].get("n") == x["n"] and ts[-1]["t"] in ("sel", "wrap"):
            continue
        ts.append(x)
    return ts


def source(rng, j):
    while True:
        l = rng.choice(["C", "C++", "Java", "C#"])
        t = srcgen.text(rng, l)[1]
        if 0 < len(t) < 160 and not re.search("[\r\f\0\x01-\x08\x0b-\x1f]", t) and not re.search(r"[\[({]\s*[\[({]\s*[\[({]\s*[\[({]", t):
            try:
                t.encode("utf-8")
                return ["s%d.%s" % (j, {"C": "c", "C++": "cpp", "Java": "java", "C#": "cs"}[l]), t]
            except ValueError:
                pass


def lose(rng, e, how):
    e["lost"] = rng.choice(how)
    if e["lost"] == "room":
        e["room"] = rng.choice([1, 3, 9, 20, 40, 80, 150, 250, 300, 400, 600, 1000])


def random_scenario(rng, i, quick):
    docs = [given(rng, j) for j in range(rng.choice([1, 2, 3]))]
    ops, cur = [], False
    for _ in range(rng.choice([3, 6, 10])):
        some = list(range(1, len(docs) + 1)) + ([0] * len(docs) if cur else [])
        k = rng.random()
        if k < .12:
            # the document of source files, and transformations of these files
            src = [source(rng, j) for j in range(rng.choice([1, 1, 2, 3]))]
            ops.append({"op": "make", "in": [0], "src": src})
            ops.append({"op": "transform", "in": [0], "src": src, "ts": chain(rng) or [c15.trans(rng)], "n": 0, "j": rng.choice([1, 2, 4]), "to": rng.choice(["", "file"])})
            ops[-1]["mode"] = "s 2 %d %d" % (12 if quick else 40, rng.randrange(10 ** 6)) if rng.random() < .2 and len(src) > 1 else "n 0 %d 1" % (4 if rng.random() < .4 else 1)
            cur = True
            continue
        if k < .5:
            ins = [rng.choice(some)] if rng.random() < .6 else [rng.choice(some) for _ in range(rng.choice([2, 2, 3, 4]))]
            e = {"op": "transform", "in": ins, "ts": chain(rng), "n": rng.choice([1, 1, 2, 3, 9]) if len(ins) == 1 and rng.random() < .25 else 0, "j": rng.choice([1, 2, 4, 8]), "to": rng.choice(["", "file"])}
            r = rng.random()
            e["mode"] = "s 2 %d %d" % (12 if quick else 40, rng.randrange(10 ** 6)) if r < .2 and len(ins) > 1 else "n 0 %d 1" % (4 if r < .4 else 1)
            if rng.random() < .1:
                lose(rng, e, ["full", "nodir", "room", "room"])
            if e.get("lost", "room") == "room":
                cur = True
            ops.append(e)
            continue
        e = {"op": rng.choice(["list", "info", "info", "count", "fields", "fields", "fields", "prefix", "outer", "inner"]), "in": [rng.choice(some)]}
        if e["op"] not in ("outer", "inner") and rng.random() < .3:
            e["in"] += [rng.choice(some) for _ in range(rng.choice([1, 1, 2]))]
        if e["op"] == "info":
            e["long"] = rng.random() < .5
        if e["op"] == "fields":
            ks = ["encoding", "url", "filename", "language", "version", "hash", "timestamp"]
            e["fs"] = rng.sample(ks, rng.choice([1, 1, 2, 2, 3, 5, 7]))
        if e["op"] == "prefix":
            e["uri"] = rng.choice([SRC, "urn:m", "urn:none", ""])
        if e["op"] in ("fields", "outer", "inner"):
            e["n"] = rng.choice([0, 0, 0, 1, 2, 4])
        if rng.random() < .1:
            lose(rng, e, ["full", "full", "room", "room"])
        ops.append(e)
    return {"id": "rnd%d" % i, "docs": docs, "ops": ops}


def entries_scenario(rng, i, quick):
    """several inputs, with threads that change at entries of functions"""
    s = random_scenario(rng, i, quick)
    s["id"] = "ent%d" % i
    for d in s["docs"]:
        if rng.random() < .6:
            d["ns"] = d["ns"] + [[rng.choice("pq"), "urn:x%d" % rng.randrange(3)]]
    ts = [e for e in s["ops"] if e["op"] == "transform" and "src" not in e and "lost" not in e][:2] or [{"op": "transform", "ts": chain(rng), "n": 0, "to": ""}]
    for e in ts:
        e.update({"in": [rng.randrange(len(s["docs"])) + 1 for _ in range(rng.choice([2, 2, 3, 4]))], "n": 0, "j": rng.choice([1, 2, 2, 4]), "mode": "se 2 %d %d" % (16 if quick else 60, rng.randrange(10 ** 6))})
    s["ops"] = ts
    return s


def check(ctx):
    exe = sched.build_client()
    exe_e = sched.build_client(entries=True)
    os.chmod(vt.scratch(), 0o755)
    ctx.runs = 0
    rng = ctx.rng
    es = vt.edges(ctx.mc("QueryMC", None if ctx.quick else "QueryMC2", timeout=1200))
    paths, n_es = vt.cover(es, maxlen=40, rng=rng)
    docs = mcdocs()
    plain = lambda o: dict(o, j=rng.choice([1, 2, 4]), to=rng.choice(["", "file"])) if o["op"] == "transform" else o
    scen = [{"id": "mc%d" % i, "docs": docs, "ops": [plain(o) for o in p]} for i, p in enumerate(paths)]
    for i in range(ctx.pick(1200, 12000)):
        scen.append(random_scenario(rng, i, ctx.quick))
    for i in range(ctx.pick(300, 3000)):
        scen.append(entries_scenario(rng, i, ctx.quick))

    def run(scen):
        e = [s for s in scen if s["id"].startswith("ent")]
        return record(exe, [s for s in scen if not s["id"].startswith("ent")], ctx) + record(exe_e, e, ctx) if e else record(exe, scen, ctx)
    t = time.time()
    traces = run(scen)
    vt.log("[C25] %d scenarios, %d runs (%.1fs)" % (len(scen), ctx.runs, time.time() - t))
    byid = {s["id"]: s for s in scen}
    ctx.check_traces("QueryTrace", traces, rerun=lambda tr: run([byid[i] for i in sorted({t["id"].split("~")[0] for t in tr})]))
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "all %d transitions of the bounded model (4 given documents, what is made of them, everything that is shown), and %d random histories, %d with threads that change at entries of functions; %d runs of the client" % (n_es, ctx.pick(1200, 12000), ctx.pick(300, 3000), ctx.runs)


def mcdocs():
    """the documents of QueryMC.tla"""
    unit = lambda at, k: [["s", "unit", [list(a) for a in at]]] + k + [["e"]]
    name = lambda x: [["s", "name", []], ["t", x], ["e"]]
    lf = lambda n, l: [["language", l], ["filename", n]]
    return [
        {"form": "solitary", "url": "u v", "ns": [["", SRC]], "us": [unit(lf("a.c", "C") + [["hash", "ab"], ["version", "v1"]], name("a") + [["t", " < "]] + name("b") + [["t", "\n"]])]},
        {"form": "archive", "url": "w", "ns": [["", SRC], ["m", "urn:m"]],
         "us": [unit(lf("b.java", "Java"), [["s", "expr", [["type", "t&"]]]] + name("c") + [["e"], ["t", "x"]]), unit([["filename", "n.c"], ["timestamp", "T"]], []), unit(lf("d.c", "C"), name("d"))]},
        {"form": "archive", "url": "-", "ns": [["", SRC]], "us": [unit(lf("e.c", "C++"), [["t", "no mark\n"]])]},
        {"form": "archive", "url": "z", "ns": [["", SRC]], "us": []}]
