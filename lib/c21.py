"""C21: the client from inputs to a document and back.  spec: Client.tla"""
META = {"technique": "every transition of the bounded model of Client.tla (inputs of every kind, options, everything done with the document) replayed into the client, and larger random trees of inputs, with different numbers of threads and some under enumerated schedules; documents, extracted trees and statuses validated against Client.tla",
        "note": "The parts of the command line itself (CLI11 is not here) and remote inputs are not covered. Contents are compared with what the library makes of the same text alone."}
import bz2, gzip, hashlib, io, json, lzma, os, queue, random, re, shutil, subprocess, tarfile, threading, time, zipfile
import vt, sched, srcdoc, srcgen, srcml

LANG = ["C", "C++", "C#", "Java"]
# options of markup: preprocessor, #if 0, no #else, tab stop of positions
MARKS = ["", "c", "i", "e", "ie", "ci", "t8", "t4", "ct3", "iet1", "cit4"]
OPTION = {"t": srcml.OPT_POSITION, "c": srcml.OPT_CPP, "i": srcml.OPT_CPP_MARKUP_IF0, "e": srcml.OPT_CPP_TEXT_ELSE}
NOBODY = 65534


# ---------------------------------------------------------------- worker: what the library makes of a text alone

def run(lib, s, progress):
    import ctypes
    out = {}
    for l in LANG:
      out[l] = {}
      for m in MARKS:
        a = lib.srcml_archive_create()
        for c in "cie":
            if c in m:
                lib.srcml_archive_enable_option(a, OPTION[c])
        if "t" in m:
            lib.srcml_archive_enable_option(a, OPTION["t"])
            lib.srcml_archive_set_tabstop(a, int(m[-1]))
        if s["src"]:
            lib.srcml_archive_set_src_encoding(a, s["src"].encode())
        lib.srcml_archive_enable_hash(a)
        lib.srcml_archive_enable_solitary_unit(a)
        u = lib.srcml_unit_create(a)
        lib.srcml_unit_set_language(u, l.encode())
        b = s["text"].encode("latin-1")
        buf, size = ctypes.c_char_p(), ctypes.c_size_t()
        lib.srcml_archive_write_open_memory(a, ctypes.byref(buf), ctypes.byref(size))
        lib.srcml_unit_parse_memory(u, b, len(b))
        lib.srcml_archive_write_unit(a, u)
        lib.srcml_archive_close(a)
        x = ctypes.string_at(buf, size.value)
        _, root, _ = srcdoc.units(x)
        out[l][m] = [body(root), root.attr("hash"), srcdoc.text(root)]
        lib.srcml_unit_free(u)
        lib.srcml_archive_free(a)
    return {"out": out}


def body(e):
    return hashlib.md5(srcdoc.canon([k for k in e.kids if not (isinstance(k, srcdoc.El) and k.local == "macro-list")]).encode("utf-8", "surrogatepass")).hexdigest()[:12]


# ---------------------------------------------------------------- contents

class Contents:
    """contents by id; what the library makes of each"""
    def __init__(self, texts):
        self.text = texts
        self.body, self.hash, self.id, self.plain = {}, {}, {}, {}
        self.utf = {}           # what it is when read as UTF-8
        jobs = [(k, "") for k in sorted(texts)]
        for k in sorted(texts):
            try:
                t = texts[k].encode("latin-1").decode()
            except ValueError:
                continue
            self.utf[k] = k
            if t != texts[k]:
                self.utf[k] = k + "u"
                jobs.append((k, "UTF-8"))
                self.id[t] = k + "u"
        for (k, src), r in zip(jobs, vt.Pool("c21").run([{"text": texts[k], "src": src} for k, src in jobs])):
            o = r.get("out")
            if not src:
                self.id[texts[k]] = k
                self.plain[k] = body_of_text(texts[k])
            k += "u" if src else ""
            self.body[k] = {l: {m: o[l][m][0] if o else "?" for m in MARKS} for l in LANG}
            self.hash[k] = o["C"][""][1] if o else "?"

    def of(self, b):
        """the id of a text"""
        return self.id.get(b, "?" + b[:200])

    def source(self, b, e):
        """the id of the bytes of a source (a latin-1 string) in the line ending and encoding asked for"""
        x = b
        if e.get("src", "-") != "-":
            try:
                x = b.encode("latin-1").decode(e["src"])
            except ValueError:
                return "not %s: %s" % (e["src"], b[:200])
        if e.get("eol", "-") in ("cr", "crlf"):
            n = {"cr": "\r", "crlf": "\r\n"}[e["eol"]]
            x = "\n".join(x.split(n)) if not re.search("[\r\n]", x.replace(n, "")) else "line breaks: " + x
        return self.of(x)


def body_of_text(t):
    return hashlib.md5(srcdoc.canon([t] if t else []).encode()).hexdigest()[:12]


def esc(t):
    return t.replace("&", "&amp;").replace("<", "&lt;").replace(">", "&gt;").replace('"', "&quot;").replace("\t", "&#9;")


def document(d, K):
    """the text of a srcML input"""
    head = '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n'
    ns = ' xmlns="http://www.srcML.org/srcML/src" revision="1.0.0"'
    us = []
    for i, u in enumerate(d["units"]):
        at = ' language="%s"' % esc(u["lang"]) + (' filename="%s"' % esc("/".join(u["name"]).encode("latin-1").decode("utf-8")) if u["name"] else "") + (' hash="%s"' % u["hash"] if u["hash"] != "none" else "")
        us.append("<unit%s%s>%s</unit>" % (ns if d["form"] == "solitary" else ' revision="1.0.0"', at, esc(K.text[u["data"]])))
    if d["form"] == "solitary":
        return (head + us[0] + "\n").encode()
    x = head + "<unit" + ns + ">\n\n" + "".join(u + "\n\n" for u in us)
    return (x + ("<unit revision=\"1.0.0\" language=\"C\" filename=\"cut.c\">int <na" if d.get("cut") else "</unit>\n")).encode()


# ---------------------------------------------------------------- inputs on disk

PACK = {"gz": lambda b: gzip.compress(b, mtime=0), "bz2": bz2.compress, "xz": lzma.compress, "lzma": lambda b: lzma.compress(b, lzma.FORMAT_ALONE), "tar": lambda b: b, "zip": lambda b: b}
UNPACK = {"gz": gzip.decompress, "bz2": bz2.decompress, "xz": lzma.decompress}


def pack(rel, b):
    """as each extension of the name says, in the order they are in it"""
    es = []
    while rel.rsplit(".", 1)[-1] in PACK and "." in rel:
        rel, x = rel.rsplit(".", 1)
        es.insert(0, x)
    for x in es:
        b = PACK[x](b)
    return b


def bared(c):
    while "." in c and c.rsplit(".", 1)[1] in ("gz", "bz2", "xz", "lzma"):
        c = c.rsplit(".", 1)[0]
    return c

NOISE = bytes(random.Random(1).choices(range(48, 58), k=200000))


def path(p):
    return "." if p == ["@"] else "/".join(p)


# bytes that can be written
ROOM = [1, 7, 20, 60, 200, 300, 400, 500, 700, 1000, 1600, 3000, 10000, 10300]


class Place:
    """a directory with inputs, and one process that runs the client in it"""
    def __init__(self, exe, n, K):
        self.exe, self.K = exe, K
        self.dir = os.path.join(vt.scratch(), "cl%s" % n)
        os.makedirs(self.dir)
        os.chmod(self.dir, 0o777)
        self.p = None
        self.n = 0

    def start(self):
        kw = {"user": NOBODY, "group": NOBODY, "extra_groups": []} if os.getuid() == 0 else {}
        self.p = subprocess.Popen([self.exe], cwd=self.dir, env=dict(os.environ, MALLOC_PERTURB_="165"), stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, **kw)

    def ask(self, line):
        """(outcomes, runs)"""
        if self.p is None:
            self.start()
        self.p.stdin.write(("x %s\n" % line).encode())
        self.p.stdin.flush()
        outs = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                raise vt.Broken("%s ended" % self.exe)
            d = json.loads(l.decode("utf-8", "replace"))
            if "runs" in d:
                return outs, d["runs"]
            if "id" not in d:
                outs.append(d)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()

    def write(self, rel, data):
        f = os.path.join(self.dir, rel).encode("latin-1")
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fh:
            fh.write(data)

    def bytes(self, k):
        return self.K.text[k].encode("latin-1")

    def tar(self, ents, bad):
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode="w", format=(tarfile.PAX_FORMAT if len(ents) % 2 else tarfile.GNU_FORMAT)) as t:
            seen = set()
            for e in ents:
                for i in range(1, len(e["p"])):
                    d = "/".join(e["p"][:i])
                    if d not in seen and d:
                        seen.add(d)
                        ti = tarfile.TarInfo(d + "/")
                        ti.type = tarfile.DIRTYPE
                        t.addfile(ti)
                data = self.bytes(e["d"])
                ti = tarfile.TarInfo(os.fsdecode("/".join(e["p"]).encode("latin-1")))
                ti.size = len(data)
                t.addfile(ti, io.BytesIO(data))
            if bad:
                # ends in the header of a last member, or in its data
                n = t.offset
                ti = tarfile.TarInfo("last.c")
                ti.size = 50000
                t.addfile(ti, io.BytesIO(NOISE[:50000]))
        return b.getvalue()[:n + bad] if bad else b.getvalue()

    def put(self, it, base=()):
        """the input on disk; its words on the command line"""
        k = it["k"]
        rel = "/".join(list(base) + it["p"]) if "p" in it else None
        if k == "file":
            if it["d"] != "-":
                self.write(rel, self.bytes(it["d"]))
        elif k == "gz":
            if it["d"] != "-":
                b = pack(rel, self.bytes(it["d"]) + (b"//" + NOISE if it.get("bad") else b""))
                self.write(rel, b[:len(b) * 2 // 3] if it.get("bad") else b)
        elif k == "dir":
            root = "in" if it["p"] == ["@"] else rel
            os.makedirs(os.path.join(self.dir, root), exist_ok=True)
            for e in it["ents"]:
                e2 = dict(e, p=(e["p"] if it["p"] == ["@"] else it["p"] + e["p"]))
                self.put(e2 if e["k"] != "tar" else dict(e2, ents=[]))
            return [path(it["p"]) + ("/" if it.get("slash") else "")]
        elif k == "tar":
            if it["d"] != "-":
                if rel.endswith(".zip"):
                    b = io.BytesIO()
                    with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
                        for e in it["ents"]:
                            z.writestr(zipfile.ZipInfo("/".join(e["p"])), self.bytes(e["d"]))
                    b = b.getvalue()
                else:
                    b = self.tar(it["ents"], it.get("bad"))
                self.write(rel, pack(rel, b))
        elif k == "text":
            t = "\\x00".join(self.K.text[d].replace("\\", "\\x5c").replace("\n", "\\n") for d in it["ds"])
            return ["-t", t]
        elif k == "stdin":
            self.write("stdin", self.bytes(it["ds"][0]))
            return ["-"]
        elif k in ("srcml", "doc"):
            if k == "doc":
                return ["doc.xml"]
            self.n += 1
            rel = "in/s%d.xml" % self.n
            if it["doc"]["form"] != "missing":
                b = document(it["doc"], self.K)
                if it.get("gz"):
                    rel += ".gz"
                    b = gzip.compress(b, mtime=0)
                self.write(rel, b)
            return [rel]
        elif k == "list":
            self.n += 1
            rel = "in/list%d.txt" % self.n
            if it["d"] != "-":
                ls = []
                for i, x in enumerate(it["lines"]):
                    if x["k"] == "blank":
                        ls.append(["", "  ", "\t", "\r"][i % 4])
                    elif x["k"] == "comment":
                        ls.append("# in/a.c")
                    else:
                        ls.append((" " if i % 3 == 1 else "") + self.put(x)[0] + ("  " if i % 3 == 2 else ""))
                b = "\n".join(ls) + ("\n" if ls and not it.get("open") else "")
                if it.get("gz"):
                    rel += ".gz"
                    b = gzip.compress(b.encode("latin-1"), mtime=0)
                else:
                    b = b.encode("latin-1")
                self.write(rel, b)
            return ["--files-from", rel]
        return [path(it["p"])]

    def clear(self):
        for x in ("in", "stdin"):
            f = os.path.join(self.dir, x)
            if os.path.isdir(f):
                shutil.rmtree(f)
            elif os.path.exists(f):
                os.unlink(f)
        os.makedirs(os.path.join(self.dir, "in"))
        os.chmod(os.path.join(self.dir, "in"), 0o755)
        self.write("stdin", b"")

    # ------------------------------------------------------------ what happened

    def name(self, s, raw=True):
        """components of a name, as bytes"""
        if not raw:
            s = s.encode("utf-8").decode("latin-1")
        p = s.split("/")
        d = self.dir.split("/")
        if p[:len(d)] == d:
            return ["@"] + p[len(d):]
        if p[:len(d) - 1] == d[1:]:
            return ["@"] + p[len(d) - 1:]
        return p

    def doc(self, b):
        """what a document says; b is a latin-1 string"""
        if b is None:
            return {"form": "none"}
        if b == "":
            return {"form": "empty"}
        raw = b.encode("latin-1")
        if re.fullmatch(rb"(\xff\xfe)?<\?xml[^>]*\?>\s*", raw.replace(b"\0", b"")):
            return {"form": "bare"}
        try:
            text, dec = srcdoc.decoded(raw)
            form, root, us = srcdoc.units(text)
            return {"form": "archive" if form == "empty" else form, "url": root.attr("url", "-").rstrip("/"), "units": [self.unit(u) for u in us],
                    "set": {"enc": dec or "UTF-8", "decl": dec is not None, "ver": root.attr("version", "-") if form != "solitary" else "-", "opts": root.attr("options", "").split(",") if root.attr("options") else [],
                            "tabs": root.attr("pos:tabs", "-"), "ns": sorted([p, u] for p, u in root.decl.items() if not u.startswith("http://www.srcML.org/"))}}
        except (srcdoc.Bad, ValueError, LookupError) as x:
            return {"form": "bad", "why": str(x)[:200], "doc": b[:300]}

    def unit(self, u):
        t = srcdoc.text(u)
        try:
            t = t.encode("latin-1").decode("latin-1")
        except ValueError:
            pass
        k = self.K.of(t)
        h = u.attr("hash")
        n = u.attr("filename")
        return {"name": [] if n is None else self.name(n, False), "ver": u.attr("version", "-"), "lang": u.attr("language", "-"), "data": k, "body": body(u), "hash": "none" if h is None else "new" if h == self.K.hash.get(k) else h}

    def create(self, e, how):
        """the command line, and how an outcome is reported"""
        self.clear()
        o, ws = e["o"], []
        for it in e["ins"]:
            ws += self.put(it)
        if o["lang"] != "-":
            ws += ["-l", o["lang"]]
        for x, l in o["reg"]:
            ws += ["--register-ext", x + "=" + l]
        if o["name"]:
            ws += ["-f", path(o["name"])]
        if o["url"] != "-":
            ws += ["--url", o["url"]]
        m = o.get("more")
        if m:
            ws += (["-s", m["ver"]] if m["ver"] != "-" else []) + ([["--tabs", m["tabs"]], ["--position"]][m["tabs"] == "8" and how.random() < .5] if m["tabs"] != "-" else [])
            ws += (["--cpp"] if m["cpp"] else []) + (["--cpp-markup-if0"] if m["if0"] else []) + (["--cpp-nomarkup-else"] if m["els"] else [])
            ws += (["--xml-encoding", m["enc"]] if m["enc"] != "UTF-8" else []) + ([] if m["decl"] else ["--no-xml-declaration"]) + (["--src-encoding", m["src"]] if m["src"] != "-" else [])
            for p, u in m["ns"]:
                ws += ["--xmlns", p + "=" + u]
        ws += (["-r"] if o["r"] else []) + (["-v"] if o["verbose"] else []) + (["--hash"] if o["hash"] else [])
        if any(i["k"] in ("srcml", "doc", "list") for i in e["ins"]):
            ws.append("-X")
        # where the document goes makes no difference
        to = "dir" if o["dir"] else how.choice(["", "doc.xml", "doc.xml.gz"] if e.get("to") == "full" else ["doc.xml", "doc.xml.xz"]) if "to" in e else how.choice(["doc.xml"] * 5 + ([""] * 2 if not o["verbose"] else []) + ["doc.xml.gz", "doc.xml.bz2", "doc.xml.xz", "doc.xml.gz.bz2", "doc.xml.xz.gz"])
        ws += self.lost(e, to) if "to" in e else ["--to-dir", "out/x"] if to == "dir" else ["-o", "out/" + to] if to else []

        def raw(ev):
            if "to" in e:
                return None
            if not to:
                return ev["stdout"]
            x = ev["files"].get(to)
            if x is not None and to != "doc.xml":
                try:
                    x = x.encode("latin-1")
                    for ext in reversed(to[8:].split(".")):
                        x = UNPACK[ext](x)
                    x = x.decode("latin-1")
                except (OSError, EOFError, lzma.LZMAError, ValueError) as err:
                    x = "not compressed: %s" % err
            return x
        self.raw = raw

        def seen(ev):
            f = ev["files"]
            if "to" in e:
                return {"st": 1 if ev["status"] else 0, "doc": {"form": "lost"} if not f else {"form": "files", "files": sorted(f)}}
            if o["dir"]:
                fs = []
                for p in sorted(f):
                    d = self.doc(f[p])
                    if d["form"] != "solitary" or not p.startswith("x/"):
                        fs.append({"p": p, "x": d})
                    else:
                        u = d["units"][0]
                        fs.append({"p": self.name(p[2:]), "x": {k: u[k] for k in ("name", "ver", "lang", "data", "body")}})
                return {"st": 1 if ev["status"] else 0, "doc": {"form": "files", "files": fs}}
            return {"st": 1 if ev["status"] else 0, "doc": self.doc(raw(ev))}
        return ws, seen

    def lost(self, e, to):
        """a destination that cannot be made, or is full"""
        if to == "dir":
            return ["--to-dir", "stdin/x"]
        if e["to"] == "nodir":
            return ["-o", ["nodir/", "stdin/"][len(e.get("ins", [])) % 2] + to]
        if not to:
            return ["--full"]
        f = os.path.join(self.dir, "full." + to.split(".", 1)[1])
        if not os.path.lexists(f):
            os.symlink("/dev/full", f)
        return ["-o", "full." + to.split(".", 1)[1]]

    def extract(self, e, how):
        h, n = e["how"], e["n"]
        us = ["-U", str(n)] if n else []
        if e.get("eol", "-") != "-":
            us += ["--eol", e["eol"]]
        if e.get("src", "-") != "-":
            us += ["--src-encoding", e["src"]]
        if h == "dir":
            ws = ["-S", "--to-dir", "out/x" + ("/" if how.random() < .3 else "")]
        elif h == "here":
            ws = ["-S", "--to-dir", "."]
        elif h == "stdout":
            ws = ["-S"]
        elif h == "file":
            ws = ["-S", "-o", "out/f.c"]
        else:
            ws = ["-S", "-o", "out/f" + how.choice([".tar", ".tar.gz", ".tar.gz.bz2"])]
        src = "doc.xml"
        f = os.path.join(self.dir, src)
        for x in os.listdir(self.dir):
            if x.startswith("docs.xml."):
                os.unlink(os.path.join(self.dir, x))
        # how the document is packed makes no difference
        if how.random() < .3 and os.path.exists(f):
            with open(f, "rb") as fh:
                b = fh.read()
            x = how.choice(["gz", "bz2", "xz", "xz.gz", "gz.bz2", "tar", "tar.gz", "tar.bz2.xz", "stdin"])
            if x == "stdin":
                src = "-"
                self.write("stdin", b)
            else:
                if x.startswith("tar"):
                    tb = io.BytesIO()
                    with tarfile.open(fileobj=tb, mode="w") as tf:
                        ti = tarfile.TarInfo("doc.xml")
                        ti.size = len(b)
                        tf.addfile(ti, io.BytesIO(b))
                    b = tb.getvalue()
                src = "docs.xml." + x
                self.write(src, pack(src, b))
        if "to" in e:
            x = ws[-1].split("/")[-1] if "-o" in ws else "dir" if "--to-dir" in ws else ""
            ws = ["-S"] + self.lost(e, x or ("f.c" if e["to"] == "nodir" else ""))

        def seen(ev):
            f, out = ev["files"], []
            if "to" in e:
                return {"st": 1 if ev["status"] else 0, "out": sorted(f)}
            if h == "dir":
                out = [{"p": self.name(p[2:] if p.startswith("x/") else "!" + p), "x": self.K.source(f[p], e)} for p in sorted(f)]
            elif h == "here":
                out = [{"p": self.name(p), "x": self.K.source(f[p], e)} for p in sorted(f)]
            elif h == "stdout":
                out = ev["out"]
            elif h == "file":
                out = [self.K.source(f[p], e) for p in sorted(f)]
            else:
                for p in sorted(f):
                    try:
                        x = f[p].encode("latin-1")
                        for ext in reversed(p.split(".")[2:]):
                            x = UNPACK[ext](x)
                        with tarfile.open(fileobj=io.BytesIO(x), mode="r:") as t:
                            for m in t.getmembers():
                                out.append({"p": self.name(os.fsencode(m.name).decode("latin-1")), "x": self.K.source(t.extractfile(m).read().decode("latin-1"), e)})
                    except (OSError, EOFError, ValueError, tarfile.TarError) as x:
                        out = "not an archive: %s" % x
            return {"st": 1 if ev["status"] else 0, "out": out}

        def before(ev):
            if h == "stdout" and "to" not in e:
                # no source has a NUL of its own
                x = ev["stdout"].split("\0") if ev["stdout"] or (self.count and not ev["status"]) else []
                ev = dict(ev, out=[self.K.source(p, e) for p in x])
            return seen(ev)
        return us + ws + [src], before

    def state(self):
        """all that is read"""
        r = {}
        for d, ds, fs in os.walk(os.fsencode(self.dir)):
            if d == os.fsencode(self.dir):
                ds[:] = [x for x in ds if x != b"out"]
            for f in fs:
                x = os.lstat(os.path.join(d, f))
                r[os.path.join(d, f)] = (x.st_ino, x.st_size, x.st_mtime_ns, x.st_mode)
            r[d] = len(ds)
        return r

    def step(self, e, mode):
        """all outcomes of an operation; [[event...]...]"""
        rng = random.Random(json.dumps(e, sort_keys=True))
        given = e
        if e.get("to") == "room":       # room for some of it: either it is enough, or the output is lost
            e = {k: v for k, v in e.items() if k not in ("to", "room")}
        ws, seen = (self.create if e["op"] == "create" else self.extract)(e, rng)
        if "j" in e:
            ws = ["-j", str(e["j"])] + ws
        if "room" in given:
            ws = ["--room=%d" % given["room"]] + ws
        before = self.state()
        outs, runs = self.ask("%s %s client %s" % (mode, self.dir, " ".join("".join(c if re.match(r"[-A-Za-z0-9_./=+]", c) else "%%%02X" % ord(c) for c in w) for w in ws)))
        kept = self.state() == before
        res = []
        for o in outs:
            evs = []
            for t in o["trace"]:
                if t["op"] == "client" and "room" in given and t["status"]:
                    evs.append(dict(given, r=dict({"st": 1}, kept=kept, **({"doc": {"form": "lost"}} if e["op"] == "create" else {"out": []}))))
                elif t["op"] == "client":
                    evs.append(dict(e, r=dict(seen(t), kept=kept)))
                    raw = self.raw(t) if e["op"] == "create" else None
            if o["end"] != "ok":
                evs = [dict(e, op="CRASH" if o["end"] == "CRASH" else "HANG", rc=o["end"])]
            elif not evs:
                evs = [dict(e, op="CRASH", rc="nothing reported")]
            elif e["op"] == "create" and not e["o"]["dir"] and "to" not in evs[-1]:
                evs[-1]["_raw"] = raw
            res.append(evs)
        self.cmd = " ".join(ws)
        return res, runs

    def scenario(self, s):
        """traces of a scenario: the one that goes on with the first outcome, and one for every other outcome"""
        tr, more, runs = [], [], 0
        self.count = 0
        if os.path.exists(os.path.join(self.dir, "doc.xml")):
            os.unlink(os.path.join(self.dir, "doc.xml"))
        for e in s["ops"]:
            mode = e.get("mode", "n 0 1 1")
            res, n = self.step({k: v for k, v in e.items() if k != "mode"}, mode)
            runs += n
            if not res:         # too many runs before did not end
                break
            clean = [[{k: v for k, v in x.items() if k != "_raw"} for x in evs] for evs in res]
            for c in clean[1:]:
                more.append(tr + c)
            tr = tr + clean[0]
            if tr[-1]["op"] in ("CRASH", "HANG"):
                break
            if "_raw" in res[0][-1]:
                raw = res[0][-1]["_raw"]
                f = os.path.join(self.dir, "doc.xml")
                if os.path.exists(f):
                    os.unlink(f)
                d = tr[-1]["r"]["doc"]
                self.count = len(d.get("units", []))
                if raw is not None:
                    with open(f, "wb") as fh:
                        fh.write(raw.encode("latin-1"))
        return [tr] + more, runs


def tables(s, K):
    """the facts about names that the specification needs"""
    comps, joins, data = set(), set(), set()

    def see(p):
        comps.update(p)

    def item(it):
        if "p" in it:
            see(it["p"])
        for e in it.get("ents", []):
            see(e["p"])
            joins.add("/".join(it["p"] + e["p"]))
            data.add(e["d"])
        if it.get("d", "-") not in ("-", ""):
            data.add(it["d"])
        data.update(it.get("ds", []))
        for x in it.get("lines", []):
            item(x)
        for u in it.get("doc", {}).get("units", []):
            see(u["name"])
    for e in s["ops"]:
        for it in e.get("ins", []):
            item(it)
        if e["op"] == "create":
            see(e["o"]["name"])
    data.discard("-")
    data.discard("")
    file = {}
    for c in list(comps):
        bare = bared(c)
        for x in (c, bare):
            file[x] = {"ext": x.rsplit(".", 1)[1] if "." in x else "", "bare": bare, "hid": x.startswith(".")}
    for x in file.values():
        pass
    rank = {p: i for i, p in enumerate(sorted(joins, key=lambda p: p.encode("latin-1")))}
    return {"file": file, "rank": rank or {"-": 0}, "body": {k: K.body[k] for d in sorted(data) for k in (d, K.utf.get(d, d))} or {"-": {}}, "utf": {d: K.utf.get(d, "?") for d in sorted(data)} or {"-": "-"}, "nil": [k for k in sorted(data) if not K.text[k]]}


def record(exe, K, scen, ctx):
    q = queue.Queue()
    for i, s in enumerate(scen):
        q.put((i, s))
    out, errs = [None] * len(scen), []

    def loop():
        pl = None
        try:
            record.n += 1
            pl = Place(exe, record.n, K)
            mine = 0
            while not errs and mine < 3:        # (a change that makes everything hang must not use up the time)
                try:
                    i, s = q.get_nowait()
                except queue.Empty:
                    break
                out[i] = pl.scenario(s)
                mine += any(ev and ev[-1]["op"] == "HANG" for ev in out[i][0])
        except Exception as x:      # noqa
            import traceback
            errs.append(traceback.format_exc())
        finally:
            if pl:
                pl.close()
                shutil.rmtree(pl.dir, ignore_errors=True)
    ts = [threading.Thread(target=loop) for _ in range(vt.NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise vt.Broken(errs[0])
    traces = []
    for s, x in zip(scen, out):
        if x is None:
            continue
        ts, runs = x
        ctx.runs += runs
        cfg = tables(s, K)
        for i, ev in enumerate(ts):
            traces.append({"id": s["id"] if not i else "%s~%d" % (s["id"], i), "cfg": cfg, "ev": ev})
    return traces


record.n = 0


FILES = ["a.c", "b.cpp", "c.java", "d.cs", "e.h", "f.hpp", "G.C", "H.H", "i.cc", "j.c++", "x y.c", "a&b.c", "q<'.java", "t\tu.c", "\u00e9.c".encode().decode("latin-1"), "-o.c", "n%41.c", "z.zzz", "y.txt", "noext", ".hid.c", "w.c~", "v.", "v.tar.c", "u.xml", "a-b.c", "a.b.c", "A.c",
         "#.c", "data", "data.c", "k.aj", "l.ii", "m.tcc", "o.CPP", "q?r.c", "c:d.c", "e=f.java", "p%q.c", "*.c", "[x].c", "b\\s.c", "s~.c", "two..c", "text:t.c"]
DIRS = ["d", "d-e", "d.c", "D", ".git", "s p", "x&y", "\u4e2d".encode().decode("latin-1"), "dd", "d e.java"]
ODD = ["a//b.c", "/abs/x.c", "../up.c", "p/../../up.java", "p/../q.c", "./p/./q.cpp", "p/q/..//r.c", "//x.c", "p/..", "out/a.c"]


CLASH = ["a.c", "a.c/b.c", "a.c/b.c/d.c", "a.c.xml/e.c", "a.c/./b.c", "f.c"]


class Gen:
    def __init__(self, rng, K, plain, any):
        self.r, self.K, self.plain, self.any, self.all = rng, K, plain, any, any
        self.disk = {}          # what is where

    def d(self):
        return self.r.choice(self.any)

    def rel(self, deep=2):
        return [self.r.choice(DIRS) for _ in range(self.r.choice([0, 0, 1, 1, deep]))] + [self.r.choice(FILES)]

    def at(self, p, d):
        """what is at a place on disk"""
        return self.disk.setdefault("/".join(x for x in p if x != "."), d)

    def file(self, known=.8):
        r = self.r
        while True:
            p = ["in"] + self.rel(1)
            if r.random() > known or p[-1].rsplit(".", 1)[-1] in ("c", "cpp", "java", "h", "cs", "C", "cc"):
                break
        # archives and srcML have ways of their own
        if p[-1] in ("u.xml", "v.tar.c") or (p[-1].startswith("-")):
            p[-1] = "a.c"
        if r.random() < .3:
            p = ["."] + p
        gone = r.random() < .08
        return {"k": "file", "p": p[:-1] + ["gone.c"] if gone else p, "d": "-" if gone else self.at(p, self.d())}

    def gz(self):
        p = ["in"] + self.rel(1)[:-1] + [self.r.choice(["g.c", "g.java", "g.zzz", "g.c++", "g x.h"]) + self.r.choice([".gz", ".gz", ".bz2", ".xz", ".lzma", ".gz.bz2", ".bz2.gz", ".gz.gz"])]
        return self.disk.setdefault("/".join(p) + "!", {"k": "gz", "p": p, "d": self.at(p, self.d())} | ({"bad": 1} if "zzz" not in p[-1] and self.r.random() < .1 else {}))

    def ents(self, base, n):
        es = {}
        for _ in range(n):
            p = self.rel(3)
            if p[-1] == "v.tar.c":
                p[-1] = "v.c"
            k = "file"
            if self.r.random() < .1:
                p[-1] = self.r.choice(["g.c.gz", "h.zzz.gz", "g.cpp.bz2", "j.java.xz", "g.c.xz.gz", "h.zzz.gz.bz2"])
                k = "gz"
            elif self.r.random() < .06:
                p[-1] = self.r.choice(["t.tar", "t.tar.gz", "t.zip"])
                k = "tar"
            if "/".join(base + p) in self.disk and base:
                continue
            d = self.at(base + p, self.d()) if base else self.d()
            es["/".join(p)] = {"k": k, "p": p, "d": d} | ({"bad": 1} if k == "gz" and "zzz" not in p[-1] and self.r.random() < .1 else {})
        es = list(es.values())
        self.r.shuffle(es)
        return es

    def dir(self):
        base = ["in", "tree%d" % self.r.randrange(10 ** 6)]
        if self.r.random() < .2:
            base = ["."] + base
        if self.r.random() < .1:
            base[-1] = "." + base[-1]
        es = self.ents(base, self.r.choice([0, 1, 3, 8, 15]))
        return {"k": "dir", "p": base, "ents": es} | ({"slash": 1} if self.r.random() < .3 else {})

    def tar(self):
        p = ["in", "t%d" % self.r.randrange(10 ** 6) + self.r.choice([".tar", ".tar.gz", ".zip", ".tar.xz"])]
        es = [e for e in self.ents([], self.r.choice([1, 3, 6])) if e["k"] == "file"]
        if p[-1].endswith(".zip"):
            es = [e for e in es if all(ord(c) < 127 and c != "\\" for c in "/".join(e["p"]))]
        return {"k": "tar", "p": p, "d": "", "ents": es} | ({"bad": self.r.choice([100, 300, 512, 2000, 20000])} if self.r.random() < .15 and not p[-1].endswith(".zip") else {}) if es else self.gz()

    def unit(self, odd):
        r = self.r
        n = r.random()
        name = [] if n < .1 else r.choice(ODD).split("/") if n < .1 + odd else self.rel(2)
        return {"name": name, "lang": r.choice(LANG), "data": r.choice(self.plain), "hash": r.choice(["none", "none", "feed"])}

    def srcml(self, odd=.3):
        r = self.r
        if r.random() < .05:
            return {"k": "srcml", "doc": {"form": "missing"}}
        n = r.choice([1, 1, 2, 4])
        clash = r.random() < .15
        d = {"form": "solitary" if n == 1 and r.random() < .6 else "archive", "units": [dict(self.unit(odd), **({"name": r.choice(CLASH).split("/")} if clash else {})) for _ in range(n)]}
        if d["form"] == "archive" and r.random() < .15:
            d["cut"] = 1
        return {"k": "srcml", "doc": d} | ({"gz": 1} if r.random() < .15 else {})

    def one(self, kinds):
        return getattr(self, self.r.choice(kinds))()

    def list(self):
        r = self.r
        ls = []
        for _ in range(r.choice([0, 1, 3, 6])):
            x = r.random()
            if x < .15:
                ls.append({"k": r.choice(["blank", "comment"]), "d": "", "p": []})
            else:
                i = self.one(["file", "file", "file", "gz", "dir", "tar", "srcml"])
                # a line has no blanks at its ends, and is a comment if it begins like one
                ls.append(i)
        return {"k": "list", "d": "-" if r.random() < .05 else "", "lines": ls} | ({"gz": 1} if r.random() < .2 and ls else {}) | ({"open": 1} if r.random() < .3 else {})

    def op(self):
        r = self.r
        self.disk = {}
        # sources whose bytes are UTF-8
        utf = r.random() < .1
        self.any = sorted(set(self.K.utf) & set(self.all)) if utf else self.all
        o = {"lang": r.choice(["-", "-", "-"] + LANG), "reg": [], "name": [], "url": "-", "r": r.random() < .2, "hash": r.random() < .2, "verbose": r.random() < .1, "dir": r.random() < .25}
        if r.random() < .25:
            o["reg"] = [[r.choice(["zzz", "c", "txt", "gz", "c++"]), r.choice(LANG)] for _ in range(r.choice([1, 2, 3]))]
        k = r.random()
        kinds = ["file", "file", "file", "file", "gz", "dir", "dir", "tar", "srcml", "list"] + (["text"] if o["lang"] != "-" else [])
        n = 1 if k < .3 else r.choice([2, 3, 5, 8])
        ins = [self.one(kinds) for _ in range(n)]
        if o["lang"] != "-" and r.random() < .15:
            ins.append({"k": "stdin", "ds": [self.d()]})
        if len(ins) == 1:
            if ins[0]["k"] in ("file", "text", "stdin") and not o["r"] and r.random() < .4:
                o["name"] = self.rel(1)
                if o["name"][-1] in (".hid.c", "v.tar.c"):
                    o["name"][-1] = "a.c"
                if ins[0]["k"] != "file" and o["lang"] == "-":
                    o["lang"] = "C"
            if ins[0]["k"] != "dir" and r.random() < .2:
                o["url"] = r.choice(["u", "x/y z", "a&b"])
        flat = [x for i in ins for x in [i] + i.get("lines", [])]
        if any(".." in u["name"] or (u["name"] and u["name"][-1] == "") for i in flat for u in i.get("doc", {}).get("units", [])):
            o["dir"] = False
        if all(i["k"] in ("file", "gz", "dir", "tar", "stdin") for i in flat if i["k"] not in ("list", "blank", "comment")) and not o["dir"] and r.random() < .4:
            m = r.choice(MARKS + [""] * 10)
            o["more"] = {"ver": r.choice(["-", "1", "v<2> & \"x\""]), "tabs": m[-1] if "t" in m else "-", "cpp": "c" in m, "if0": "i" in m, "els": "e" in m, "enc": r.choice(["UTF-8"] * 6 + ["ISO-8859-1", "UTF-16", "US-ASCII"]),
                         "decl": True, "src": "UTF-8" if utf else "-", "ns": sorted(r.sample([["u", "urn:u"], ["v", "http://v/w&x"], ["w", "w"]], r.choice([0, 0, 1, 2])))}
            if o["more"]["enc"] == "UTF-8" and r.random() < .3:
                o["more"]["decl"] = False
        elif utf:
            return self.op()
        if o["dir"] and o["verbose"]:
            o["verbose"] = False
        if o["verbose"] and (o["name"] or o["lang"] != "-"):
            o["verbose"] = False
        return {"op": "create", "o": o, "ins": ins, "j": r.choice([1, 2, 3, 4, 8])} | ({"to": "nodir" if o["dir"] else r.choice(["nodir", "full"])} if r.random() < .08 and not o["verbose"] else {"to": "room", "room": r.choice(ROOM)} if r.random() < .1 and not o["verbose"] else {})

    def text(self):
        ds = [self.r.choice(self.plain) for _ in range(self.r.choice([1, 1, 2, 3]))]
        return {"k": "text", "ds": ds}

    def extract(self, utf=False):
        r = self.r
        h = r.choice(["dir", "dir", "stdout", "file", "tar"])
        return {"op": "extract", "how": h, "n": r.choice([0, 0, 1, 2, 5]) if h in ("stdout", "file") else 0, "j": r.choice([1, 4]), "eol": r.choice(["-", "-", "lf", "cr", "crlf"]), "src": "UTF-8" if utf or r.random() < .2 else "-"} | ({"to": "nodir" if h == "dir" else r.choice(["nodir", "full"])} if r.random() < .1 else {"to": "room", "room": r.choice(ROOM)} if r.random() < .1 else {})


def prepare(op, K):
    """what the model leaves to the harness"""
    op = json.loads(json.dumps(op))
    for it in op.get("ins", []):
        for x in [it] + it.get("lines", []):
            for u in x.get("doc", {}).get("units", []):
                u["body"] = K.plain[u["data"]]
                u.setdefault("ver", "-")
    return op


# ---------------------------------------------------------------- source code given as text

def quote(words):
    return " ".join("".join(c if re.match(r"[-A-Za-z0-9_./=+]", c) else "%%%02X" % ord(c) for c in w) for w in words)


def given(exe, scen, ctx):
    """what the client makes of texts with escapes"""
    parts, out, errs = [scen[i::vt.NCPU] for i in range(vt.NCPU)], [], []

    def loop(mine):
        try:
            record.n += 1
            pl = Place(exe, record.n, None)
            for s in mine:
                pl.clear()
                t = "".join(map(chr, s["t"]))
                how = random.Random(t)
                ws = ["-t", t] + ["-l", how.choice(LANG)] + how.choice([[], ["-j", "4"]])
                outs, runs = pl.ask("n 0 1 1 %s client %s" % (pl.dir, quote(ws)))
                ctx.runs += runs
                e = {"op": "text", "t": s["t"]}
                x = next((x for o in outs for x in o["trace"] if x["op"] == "client"), None)
                if x is None or outs[0]["end"] != "ok":
                    e = {"op": "CRASH", "rc": outs[0]["end"] if outs else "nothing reported"}
                else:
                    try:
                        form, root, us = srcdoc.units(x["stdout"].encode("latin-1"))
                        e["r"] = {"st": x["status"], "form": form, "units": [[ord(c) for c in srcdoc.text(u)] for u in us]}
                    except (srcdoc.Bad, ValueError, LookupError) as bad:
                        e["r"] = {"st": x["status"], "form": "bad: %s" % bad, "units": []}
                out.append({"id": s["id"], "cfg": {}, "ev": [e]})
            pl.close()
            shutil.rmtree(pl.dir, ignore_errors=True)
        except Exception:       # noqa
            import traceback
            errs.append(traceback.format_exc())
    ts = [threading.Thread(target=loop, args=(m,)) for m in parts]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise vt.Broken(errs[0])
    return out


def escapes(ctx, exe):
    r = ctx.mc("EscapesMC", ctx.pick("EscapesMC", "EscapesMC2"))
    rng = ctx.rng
    all = sorted(tuple(json.loads(p[5:])) for p in r.prints if p.startswith("CASE "))
    some = [t for t in all if 92 in t and (len(t) < 4 or rng.random() < ctx.pick(.15, .4))]
    for _ in range(ctx.pick(500, 6000)):
        t = ""
        for _ in range(rng.choice([2, 5, 12, 40, 300])):
            k = rng.random()
            t += "\\" + rng.choice("nntfaberv\\xq'\"0") if k < .2 else "\\x%s" % "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([0, 1, 2, 2, 3]))) if k < .3 \
                else "\\" + rng.choice("0123") + "".join(rng.choice("01234567") for _ in range(rng.choice([0, 1, 2, 3]))) if k < .4 \
                else rng.choice(["int a;", "{", "}", "://", "text://", " ", "f(x)", "//", "8", "A", "-", "a.c", "<", "&", "'", '"', "=", "\n", "\t", "\xc3\xa9", "\xe9"])
        some.append(tuple(map(ord, t + ("\\" if rng.random() < .05 else ""))))
    odd = re.compile(r"\\0?[4-7][0-7][0-7]")       # more than a byte
    scen = [{"id": "text%d" % i, "t": list(t)} for i, t in enumerate(some) if not odd.search("".join(map(chr, t))) and t]
    byid = {s["id"]: s for s in scen}
    ctx.check_traces("EscapesTrace", given(exe, scen, ctx), rerun=lambda tr: given(exe, [byid[t["id"]] for t in tr], ctx))
    return len(scen)


def check(ctx):
    exe = sched.build_client()
    exe_e = sched.build_client(entries=True)
    os.chmod(vt.scratch(), 0o755)
    ctx.runs = 0
    rng = ctx.rng
    texts = {"k1": "int a;\n", "k2": "class b { };\n", "k3": "f(x);\n// k3", "k4": "/* k4 <&> \xe9 */ int d[] = { 1 };\n", "k5": "", "k6": "int f(int a) {\n\treturn a < 6 && \"k6\";\n}\n", "k7": "if (k7) { } else g();",
             "k8": "\n\n  k8 = 1;", "k9": "while (k9) ;\n",
             "k10": "// \u4e2d \U0001f600 k10\nint \u00e9;\n".encode().decode("latin-1"), "k11": "#if 0\n\tk11;\n#else\nint\tb;\n#endif\n", "k12": "#if k12\nint a;\n#else\n\t{ int c; }\n#endif\n"}
    K = Contents(texts)
    es = vt.edges(ctx.mc("ClientMC", timeout=1200))
    paths, n_es = vt.cover(es, maxlen=40, rng=rng)
    scen = [{"id": "mc%d" % i, "ops": [dict(prepare(o, K), j=rng.choice([1, 2, 4])) for o in p]} for i, p in enumerate(paths)]
    # larger inputs; the threads run freely several times, or under explored schedules with files as points
    while len(texts) < ctx.pick(60, 300):
        t = srcgen.text(rng, hostile=.15)[1].replace("\r", "")
        if len(t) < 1500 and all(ord(c) < 256 and c != "\0" for c in t) and t[:2] not in ("\xfe\xff", "\xff\xfe") and not t.startswith("\xef\xbb\xbf") and t not in texts.values() and not re.search(r"[\[({]\s*[\[({]\s*[\[({]\s*[\[({]", t):
            texts["k%d" % (len(texts) + 1)] = t
    K = Contents(texts)
    plain = sorted(k for k in texts if texts[k] and all(c in "\t\n" or 32 <= ord(c) < 127 for c in texts[k]))
    g = Gen(rng, K, plain, sorted(texts))
    for i in range(ctx.pick(400, 6000)):
        ops, utf = [], False
        for _ in range(2):
            c = g.op()
            c["mode"] = "sf 2 %d %d" % (ctx.pick(12, 60), rng.randrange(10 ** 6)) if rng.random() < .25 else "n 0 %d 1" % ctx.pick(3, 6)
            ops.append(prepare(c, K))
            if not c["o"]["dir"] and c.get("to", "room") == "room":
                utf = c["o"].get("more", {}).get("src") == "UTF-8" or "to" in c and utf
            for _ in range(rng.choice([1, 2, 3])):
                ops.append(g.extract(utf))
        scen.append({"id": "rnd%d" % i, "ops": ops})
    # with threads that change at entries of functions
    for i in range(ctx.pick(160, 2000)):
        while True:
            c = g.op()
            if len(c["ins"]) > 1 or rng.random() < .2:
                break
        c["mode"] = "se 2 %d %d" % (ctx.pick(16, 60), rng.randrange(10 ** 6))
        scen.append({"id": "ent%d" % i, "ops": [prepare(c, K)]})

    def run(scen):
        e = [s for s in scen if s["id"].startswith("ent")]
        return record(exe, K, [s for s in scen if not s["id"].startswith("ent")], ctx) + (record(exe_e, K, e, ctx) if e else [])
    t = time.time()
    traces = run(scen)
    vt.log("[C21] %d scenarios, %d runs (%.1fs)" % (len(scen), ctx.runs, time.time() - t))
    byid = {s["id"]: s for s in scen}
    ctx.scen = byid
    ctx.check_traces("ClientTrace", traces, rerun=lambda tr: run([byid[i] for i in sorted({t["id"].split("~")[0] for t in tr})]))
    n_text = escapes(ctx, exe)
    ctx.cov["evaluations"] += ctx.runs
    ctx.cov["rule"] = "all %d transitions of the client with up to two inputs, and %d histories with up to 9 inputs and trees of up to 15 files, %d conversions with threads that change at entries of functions; %d runs" % (n_es, ctx.pick(400, 6000), ctx.pick(160, 2000), ctx.runs)
