"""C17: selection of a version of a srcDiff archive.  spec: Diff.tla"""
META = {"technique": "TLC proves the laws of the versions on all bounded contents (Diff.tla: innermost region decides, nothing of the other version, order and nesting kept, idempotent); every such content and every transition of the selection is replayed into the library in all forms, and the recorded answers are validated",
        "note": "Contents of up to 6 tokens (thorough: 8) exhaustively, larger ones sampled; two-valued attributes have one separator."}
import ctypes, os, re
import vt, srcdoc, xmlmini
from api import *

SRC, DIFF, OTHER = srcdoc.SRC, srcdoc.DIFF, "urn:other"
ATTS = ["language", "filename", "version", "timestamp", "hash", "item"]
REV = {"0": 0, "1": 1, "2": 2}


def toks(x, decls):
    """tokens of well-formed content"""
    out, scopes, open_ = [], [dict(decls)], []
    for k in xmlmini.tokens(x):
        if k[0] == "text":
            if not k[1]:
                continue
            if out and out[-1][0] == "t":
                out[-1] = ["t", out[-1][1] + k[1]]
            else:
                out.append(["t", k[1]])
        elif k[0] in ("comment", "pi"):
            out.append(["c", ("?" if k[0] == "pi" else "") + k[1]])
        elif k[0] == "end":
            q, tok = open_.pop()
            if q != k[1]:
                raise xmlmini.Bad("end tag %s for %s" % (k[1], q))
            scopes.pop()
            if tok:
                out.append(tok)
        elif k[0] == "start":
            sc = dict(scopes[-1])
            for n, v in k[2]:
                if n == "xmlns" or n.startswith("xmlns:"):
                    sc[n[6:]] = v
            p, _, l = k[1].rpartition(":")
            if p not in sc:
                raise xmlmini.Bad("prefix of %s is not declared" % k[1])
            at = [(n, v) for n, v in k[2] if not (n == "xmlns" or n.startswith("xmlns:"))]
            if sc[p] == DIFF:
                out.append(["d", l])
                end = ["/d"]
            elif sc[p] == SRC and l == "escape":
                out.append(["x", chr(int(dict(at)["char"], 0))])
                end = None
            else:
                out.append(["s", l if sc[p] == SRC else "o:" + l, at[0][1] if at else ""])
                end = ["e"]
            if k[3]:
                if end:
                    out.append(end)
            else:
                open_.append((k[1], end))
                scopes.append(sc)
    if open_:
        raise xmlmini.Bad("%s is not closed" % open_[-1][0])
    return out


def doc(x, decls={}):
    """attributes and content of a unit"""
    ts = list(xmlmini.tokens(x))
    u = next(k for k in ts if k[0] == "start")
    if u[1].split(":")[-1] != "unit":
        raise xmlmini.Bad("no unit but " + u[1])
    at = {n: [v] for n, v in u[2] if not (n == "xmlns" or n.startswith("xmlns:") or n in ("revision", "url"))}
    x = x.strip()
    if x.startswith("<?xml "):
        x = x[x.index("?>") + 2:].strip()
    r = toks(x, decls)
    if r[0][0] != "s" or r[0][1] != "unit" or r[-1] != ["e"]:
        raise xmlmini.Bad("not a unit")
    return {"at": {n: v[0] for n, v in at.items()}, "toks": r[1:-1]}


def guarded(f, kind="doc"):
    """what f returns, of the kind that the specification has it"""
    try:
        r = f()
    except (xmlmini.Bad, StopIteration, KeyError, IndexError, ValueError) as e:
        r = "not well-formed: " + repr(e)
    if isinstance(r, str):
        r = {"at": {"!": r}, "toks": []} if kind == "doc" else [["!", r]] if kind == "toks" else [[["!", r]]]
    return r


def run(L, s, progress):
    """performs the events of a scenario"""
    ev = []
    data = s["xml"].encode(s.get("enc", "utf-8"))
    d = s["decls"]
    a = L.srcml_archive_create()
    path = "d%d.xml" % os.getpid()
    held, extra = {}, []

    def emit(e, r):
        ev.append(dict(e, r=r))
        progress(ev[-1])

    def text(x):
        return x if x is None else x.decode("utf-8", "backslashreplace")

    def written(u, form):
        o = L.srcml_archive_create()
        if form == "solitary":
            L.srcml_archive_enable_solitary_unit(o)
        else:
            L.srcml_archive_disable_solitary_unit(o)
        if s.get("nohash"):
            L.srcml_archive_disable_hash(o)
        st_, out = wmem(L, o)
        r = L.srcml_archive_write_unit(o, u)
        L.srcml_archive_close(o)
        x = out.get()
        out.free(L)
        L.srcml_archive_free(o)
        if st_ or r:
            return None, "status %d %d" % (st_, r)
        return x, None

    for i, e in enumerate(s["ev"]):
        op = e["op"]
        u = held.get(e.get("h"))
        if op == "set":
            emit(e, st(L.srcml_archive_set_srcdiff_revision(a, REV[e["v"]])))
        elif op == "rev":
            v = L.srcml_archive_get_srcdiff_revision(a)
            emit(e, {0: "0", 1: "1"}.get(v, "none"))
        elif op == "open":
            if s.get("how") == "file":
                with open(path, "wb") as f:
                    f.write(data)
                r = L.srcml_archive_read_open_filename(a, b(path))
            else:
                r = L.srcml_archive_read_open_memory(a, data, len(data))
            emit(e, st(r))
        elif op == "read":
            if u:
                extra.append(u)
            held[e["h"]] = L.srcml_archive_read_unit(a)
            emit(e, "unit" if held[e["h"]] else "end")
        elif op == "skip":
            emit(e, L.srcml_archive_skip_unit(a))
        elif not u:
            break
        elif op == "full":
            emit(e, guarded(lambda: doc(text(L.srcml_unit_get_srcml(u)))))
        elif op == "outer":
            emit(e, guarded(lambda: doc(text(L.srcml_unit_get_srcml_outer(u)), d)))
        elif op == "inner":
            emit(e, guarded(lambda: toks(text(L.srcml_unit_get_srcml_inner(u)), d), "toks"))
        elif op == "src":
            L.srcml_unit_set_src_encoding(u, b"UTF-8")
            r, x = unparse_mem(L, u)
            emit(e, (x or b"").decode("utf-8", "backslashreplace") if r == 0 else st(r))
        elif op == "loc":
            emit(e, L.srcml_unit_get_loc(u))
        elif op == "get":
            emit(e, {n: t(getattr(L, "srcml_unit_get_" + n)(u)) for n in ATTS[:5]})
        elif op == "write":
            def f():
                x, bad = written(u, e["form"])
                if bad:
                    return bad
                _, root, us = srcdoc.units(x)
                x = text(x)
                if e["form"] == "archive":      # the unit in the scope of the root
                    sc = dict(root.scope)
                    starts = [m.start() for m in re.finditer(r"<(?:[\w.-]+:)?unit[\s/>]", x)]
                    return doc(x[starts[1]:x.rindex("</")], sc)
                return doc(x)
            emit(e, guarded(f))
        elif op == "again":
            def f():
                x, bad = written(u, e["form"])
                if bad:
                    return bad
                i2 = L.srcml_archive_create()
                r = L.srcml_archive_read_open_memory(i2, x, len(x))
                u2 = L.srcml_archive_read_unit(i2) if r == 0 else None
                y = text(L.srcml_unit_get_srcml(u2)) if u2 else None
                if u2:
                    L.srcml_unit_free(u2)
                L.srcml_archive_close(i2)
                L.srcml_archive_free(i2)
                return doc(y) if y is not None else "not read"
            emit(e, guarded(f))
        elif op == "find":
            L.srcml_clear_transforms(a)
            L.srcml_append_transform_xpath(a, b("//src:" + e["n"]))
            p = V()
            r = L.srcml_unit_apply_transforms(a, u, ctypes.byref(p))
            out = guarded(lambda: st(r) if r or not p.value else
                          [toks(text(L.srcml_unit_get_srcml_inner(L.srcml_transform_get_unit(p, k))), d) for k in range(max(0, L.srcml_transform_get_unit_size(p)))], "list")
            if p.value:
                L.srcml_transform_free(p)
            emit(e, out)
    for u in list(held.values()) + extra:
        if u:
            L.srcml_unit_free(u)
    L.srcml_archive_close(a)
    L.srcml_archive_free(a)
    return ev


def esc(x):
    return x.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;")


class Form:
    """how a document is written"""

    def __init__(self, rng, plain=False):
        self.rng = rng
        self.diff = "diff" if plain or rng.random() < .5 else rng.choice(["d", "diff2", "D.-x", "di", "x_y"])
        self.src = "" if plain or rng.random() < .85 else "src"
        if self.src and rng.random() < .3:
            self.diff = ""
        self.other = rng.choice(["o", "differ", "diffs", "dif"])
        self.plain = plain
        self.archive = rng.random() < .7
        self.place = "root"
        self.close_empty = rng.random() < .5

    def decl(self, p, uri):
        q = "'" if not self.plain and self.rng.random() < .2 else '"'
        return " xmlns%s=%s%s%s" % (":" + p if p else "", q, uri, q)

    def decls(self):
        return {self.src: SRC, self.diff: DIFF, self.other: OTHER}

    def name(self, p, n):
        return p + ":" + n if p else n

    def tag(self, n, at):
        sp = " " if not self.plain and self.rng.random() < .1 else ""
        return "<" + n + "".join(" %s=%s" % (k, self.quote(v)) for k, v in at) + sp

    def quote(self, v):
        v = v.replace("&", "&amp;").replace("<", "&lt;")
        if not self.plain and self.rng.random() < .3 and "'" not in v:
            return "'%s'" % v
        return '"%s"' % v.replace('"', "&quot;")

    def content(self, toks):
        rng, out, stack = self.rng, [], []
        i = 0
        while i < len(toks):
            k = toks[i]
            empty = i + 1 < len(toks) and toks[i + 1][0] in ("e", "/d")
            if k[0] in ("s", "d"):
                if k[0] == "d":
                    at = [] if self.plain or rng.random() < .7 else [("type", rng.choice(["whitespace", "replace", "a>b", "</x>"]))]
                    p, l = self.diff, k[1]
                    if not self.plain and rng.random() < .06:       # another prefix for the same namespace
                        p = rng.choice(["z", "zz"])
                        at.insert(rng.randrange(len(at) + 1), ("xmlns:" + p, DIFF))
                else:
                    at = [("type", k[2])] if k[2] else []
                    p, l = (self.other, k[1][2:]) if k[1].startswith("o:") else (self.src, k[1])
                    if not self.plain and k[1].startswith("o:") and rng.random() < .2 and self.diff:     # the prefix means something else here
                        p = self.diff
                        at.append(("xmlns:" + p, OTHER))
                        # content with differences needs its own prefix again
                        n, j = 0, i
                        while True:
                            n += (toks[j][0] in ("s", "d")) - (toks[j][0] in ("e", "/d"))
                            j += 1
                            if n == 0:
                                break
                        if any(x[0] == "d" for x in toks[i:j]):
                            at.pop()
                            p = self.other
                if empty and rng.random() < .5:
                    out.append(self.tag(self.name(p, l), at) + "/>")
                    i += 2
                    continue
                out.append(self.tag(self.name(p, l), at) + ">")
                stack.append(self.name(p, l))
            elif k[0] in ("e", "/d"):
                out.append("</%s%s>" % (stack.pop(), " " if not self.plain and rng.random() < .05 else ""))
            elif k[0] == "t":
                if not self.plain and rng.random() < .1 and "]]>" not in k[1]:
                    out.append("<![CDATA[%s]]>" % k[1])
                else:
                    out.append(esc(k[1]))
            elif k[0] == "n":
                out.append("\n")
            elif k[0] == "x":
                out.append("<%s char=\"0x%x\"/>" % (self.name(self.src, "escape"), ord(k[1])))
            elif k[0] == "c":
                out.append("<%s?>" % k[1] if k[1][0] == "?" else "<!--%s-->" % k[1])
            i += 1
        return "".join(out)

    def unit(self, u, root):
        at = [("revision", "1.0.0")] + [(n, "|".join(v)) for n, v in u["at"].items()]
        if not self.plain:
            self.rng.shuffle(at)
        ns = ""
        if root or self.place == "unit":
            ns = (self.decl(self.src, SRC) if root else "") + self.decl(self.diff, DIFF) + self.decl(self.other, OTHER)
        n = self.name(self.src, "unit")
        c = self.content(u["toks"])
        t_ = self.tag(n, at)
        t_ = t_[:len(n) + 1] + ns + t_[len(n) + 1:] if self.rng.random() < .5 else t_ + ns
        return t_ + ">" + c + "</%s>" % n

    def xml(self, units, enc="UTF-8"):
        head = '<?xml version="1.0" encoding="%s" standalone="yes"?>\n' % enc
        if len(units) == 1 and not self.archive:
            return head + self.unit(units[0], True) + "\n"
        if self.rng.random() < .15 and not self.plain and self.diff and self.diff != "":
            self.place = "unit"
        n = self.name(self.src, "unit")
        root = "<" + n + self.decl(self.src, SRC) + ("" if self.place == "unit" else self.decl(self.diff, DIFF) + self.decl(self.other, OTHER)) + ' revision="1.0.0">'
        return head + root + "\n\n" + "\n\n".join(self.unit(u, False) for u in units) + "\n\n</%s>\n" % n


NAMES = ["name", "expr", "block", "op", "o:delete", "o:insert", "o:common", "o:x", "delete", "insert", "unit_"]
TEXTS = ["a", "b ", " ", "\t", "x<y", "a && b", "diff:delete", "\u00e9", "\U0001d11e", "'", '"', ">", "]]", "|", "a|b", "<diff:insert>", "0"]


def attrs(rng, two=.4):
    pool = {"language": ["C", "C++", "Java", "C#"], "filename": ["a.c", "d/b.c", "", "a & b.c", "\u00e9.c"], "version": ["1", "v<2", "3 3", ""],
            "timestamp": ["now", "then"], "hash": ["0123456789abcdef0123456789abcdef01234567", "fedcba9876543210fedcba9876543210fedcba98"], "item": ["1", "two", "\"q\""]}
    at = {}
    for n in ATTS:
        if n == "language" or rng.random() < .5:
            v = [rng.choice(pool[n])]
            w = rng.choice(pool[n])
            if rng.random() < two and w != v[0]:
                v.append(w)
            if v == [""]:
                v = ["x"]
            at[n] = v
    return at


def rtoks(rng, n, depth):
    """random content"""
    out, stack = [], []
    while len(out) < n:
        x = rng.random()
        if x < .2 and len(stack) < depth:
            out.append(["d", rng.choice(["common", "delete", "insert"])])
            stack.append("/d")
        elif x < .4 and len(stack) < depth:
            out.append(["s", rng.choice(NAMES), rng.choice(["", "", "", "a>b", "string", "</diff:insert>", "<", "a|b"])])
            stack.append("e")
        elif x < .6 and stack:
            out.append([stack.pop()])
        elif x < .75:
            out.append(["t", rng.choice(TEXTS)])
        elif x < .85:
            out.append(["n"])
        elif x < .9:
            out.append(["x", chr(rng.choice([1, 8, 12, 27, 31]))])
        elif x < .94:
            out.append(["c", rng.choice([" c ", "<diff:delete>", "?p i", "?diff:insert x>y", "a>b", "'", "</diff:common>"])])
    while stack:
        out.append([stack.pop()])
    return out


LOOK = ["full", "outer", "inner", "src", "loc", "get", "write", "again"]


def look(rng, h="1", kinds=LOOK, name="name"):
    out = [{"op": k, "h": h} for k in kinds]
    for e in out:
        if e["op"] in ("write", "again"):
            e["form"] = rng.choice(["archive", "solitary"])
    return out + [{"op": "find", "h": h, "n": name}]


def check(ctx):
    vt.build_lib()
    rng = ctx.rng
    scen = []

    def add(id, units, ev, form=None, enc="UTF-8"):
        f = form or Form(rng)
        if any(e["op"] == "find" and e["n"].startswith("o:") for e in ev):
            raise vt.Broken("find")
        x = f.xml(units, enc)
        try:
            x.encode(enc)
        except UnicodeEncodeError:
            enc = "UTF-8"
            x = x.replace('encoding="ISO-8859-1"', 'encoding="UTF-8"')
        scen.append({"id": id, "xml": x, "enc": enc, "decls": f.decls(), "how": rng.choice(["memory", "file"]), "ev": ev})

    # every content of the bounded model, in all forms, without a selection and with each
    paths, total = vt.cover(vt.edges(ctx.mc("DiffMC", ctx.pick("DiffMC", "DiffMC2"), timeout=3000)), maxlen=40)
    for i, p in enumerate(paths):
        ts = [o["tok"] for o in p]
        stack = []
        for k in ts:
            if k[0] in ("s", "d"):
                stack.append("e" if k[0] == "s" else "/d")
            elif k[0] in ("e", "/d"):
                stack.pop()
        ts = ts + [[x] for x in stack[::-1]]
        name = next((k[1] for k in ts if k[0] == "s"), "zz")
        u = [{"at": attrs(rng), "toks": ts}]
        ev = [{"op": "open", "units": u}, {"op": "read", "h": "1"}] + look(rng, name=name)
        for r in rng.choice(["01", "10"]):
            ev += [{"op": "set", "v": r}] + look(rng, name=name)
        add("all%d" % i, u, ev, Form(rng, plain=rng.random() < .5))
    # every history of selecting and asking
    hp, n2 = vt.cover(vt.edges(ctx.mc("DiffHistMC", ctx.pick("DiffHistMC", "DiffHistMC2"), timeout=3000)), maxlen=25)
    for i, p in enumerate(hp):
        us = [{"at": attrs(rng, .8), "toks": rtoks(rng, rng.choice([4, 10, 25]), 4)} for _ in range(2)]
        ev = [dict(o) for o in p]
        for e in ev:
            if e["op"] == "open":
                e["units"] = us
            if e["op"] in ("write", "again"):
                e["form"] = rng.choice(["archive", "solitary"])
        add("hist%d" % i, us, ev)
    # larger documents
    for i in range(ctx.pick(1500, 40000)):
        us = [{"at": attrs(rng), "toks": rtoks(rng, rng.choice([0, 1, 5, 20, 60, 400 if rng.random() < .2 else 10]), rng.choice([2, 5, 12]))} for _ in range(rng.choice([1, 1, 2, 4]))]
        ev = [{"op": "set", "v": rng.choice("01")}] if rng.random() < .8 else []
        ev.append({"op": "open", "units": us})
        for _ in us:
            if rng.random() < .15:
                ev.append({"op": "set", "v": rng.choice("012")})
            h = rng.choice("12")
            if rng.random() < .1:
                ev.append({"op": "skip"})
                continue
            ev.append({"op": "read", "h": h})
            ks = LOOK[:]
            rng.shuffle(ks)
            ev += look(rng, h, ks[:rng.randrange(1, 9)], rng.choice(["name", "expr", "delete", "op"]))
            if rng.random() < .3:
                ev += [{"op": "rev"}, {"op": "set", "v": rng.choice("01")}] + look(rng, h, ks[:3])
        ev.append({"op": "read", "h": "1"})
        add("rnd%d" % i, us, ev, enc=rng.choice(["UTF-8", "UTF-8", "UTF-8", "ISO-8859-1", "UTF-16"]))
    vt.execute(ctx, "c17", "DiffTrace", scen)
    ctx.cov["rule"] = "all %d contents of the bounded model, all %d transitions of selecting and asking, larger documents sampled; every form of each unit" % (total, n2)
