"""C10: namespace registry and declarations.  spec: Namespaces.tla"""
META = {"technique": "every transition of the bounded registry machine replayed into the library; lookups, written declarations and read-back validated against the specification",
        "note": "Histories beyond the bound are sampled. Documents are written only in states where the prefixes of the standard namespaces are distinct."}
import vt, xmlmini
from api import *

SRC, CPP, ERR, POS, OMP = ["http://www.srcML.org/srcML/" + x for x in ("src", "cpp", "error", "position", "openmp")]
STD = {SRC: "", CPP: "cpp", ERR: "err", POS: "pos", OMP: "omp"}
USER = ["urn:a", "urn:b", "http://x.y/z?a=b&c=\"d\"<>", "http://www.srcML.org/srcDiff2", "http://www.srcML.org/srcML/srcerr"]
PRE = ["", "p", "q", "cpp", "pos", "omp", "err", "s", "xlink", "c", "p1", "p2", "pp", "cpq", "P"]
DOCS = [("a;\n", []), ("#if A\nx;\n#endif\n", [CPP]), ("#pragma omp parallel\na;\n", [CPP, OMP]), ("", []), ("int f() { return 1; }\n", []), ("#define A\n", [CPP])]
LOCAL = {"unit": SRC, "expr_stmt": SRC, "expr": SRC, "if": CPP, "endif": CPP, "pragma": CPP, "define": CPP, "macro": CPP, "function": SRC, "block": SRC, "return": SRC, "tabs": POS, "start": POS, "end": POS, "parallel": OMP}


def arg(x):
    return None if x == "-" else b(x)


def look(L, a, ev):
    n = L.srcml_archive_get_namespace_size(a)
    e = {"op": "look", "at": [0, 1, 2, 3, 4, 5, 9, n - 1, n, n + 1, 1000000], "uris": list(STD) + USER + ["", "nope"], "ps": PRE + ["nope"]}
    e["r"] = {"size": n, "at": [[t(L.srcml_archive_get_namespace_prefix(a, i)), t(L.srcml_archive_get_namespace_uri(a, i))] for i in e["at"]],
              "p4u": [t(L.srcml_archive_get_prefix_from_uri(a, b(u))) for u in e["uris"]],
              "u4p": [t(L.srcml_archive_get_uri_from_prefix(a, b(p))) for p in e["ps"]]}
    ev.append(e)


def document(L, a, e, when):
    """the declarations of every unit tag and the prefixes of marks of which the namespace is known"""
    if e["solitary"]:
        L.srcml_archive_enable_solitary_unit(a)
    else:
        L.srcml_archive_disable_solitary_unit(a)
    s, out = wmem(L, a)
    sts = [s]
    for d in e["docs"]:
        u = L.srcml_unit_create(a)
        L.srcml_unit_set_language(u, b"C++")
        src = DOCS[d][0].encode()
        sts.append(L.srcml_unit_parse_memory(u, src, len(src)))
        sts.append(L.srcml_archive_write_unit(a, u))
        L.srcml_unit_free(u)
    L.srcml_archive_close(a)
    x = out.get()
    out.free(L)
    decl, marks = [], set()
    depth = 0
    for tk in xmlmini.tokens(x.decode()):
        if tk[0] != "start":
            continue
        p, _, n = tk[1].rpartition(":")
        ats = tk[2]
        if n == "unit":
            decl.append([[k[6:], v] for k, v in ats if k.startswith("xmlns:") or k == "xmlns"])
        elif any(k.startswith("xmlns") for k, _ in ats):
            decl.append([["declared on", tk[1]]])
        # names that occur in one namespace only
        if n in LOCAL:
            marks.add((p, LOCAL[n]))
        for k, _ in ats:
            ap, _, an = k.rpartition(":")
            if an in ("tabs", "start", "end"):
                marks.add((ap, POS))
            elif ap not in ("xmlns", "") :
                marks.add((ap, "attribute " + an))
        if n == "directive" and p != "" and dict(ats).get("x"):
            pass
    # the OpenMP directive is the one inside a pragma
    stack = []
    for tk in xmlmini.tokens(x.decode()):
        if tk[0] == "start" and not tk[3]:
            p, _, n = tk[1].rpartition(":")
            if n == "name" and stack and stack[-1][1] == "directive":
                marks.add((p, OMP))
                marks.add((stack[-1][0], OMP))
            stack.append((p, n))
        elif tk[0] == "end":
            stack.pop()
    return {"st": [st(s) for s in sts if s], "decl": decl, "marks": [list(m) for m in sorted(marks)]}, x


def run(L, sc, progress):
    ev = []
    a = L.srcml_archive_create()
    doc = None
    try:
        look(L, a, ev)
        for e in sc["ops"]:
            e = dict(e)
            if e["op"] == "reg":
                e["r"] = st(L.srcml_archive_register_namespace(a, arg(e["p"]), arg(e["u"])))
                ev.append(e)
                look(L, a, ev)
            elif e["op"] == "pos":
                e["r"] = st(L.srcml_archive_enable_option(a, OPT_POSITION))
                ev.append(e)
            elif e["op"] == "write":
                g, doc = document(L, a, e, None)
                ev.append({"op": "write", "solitary": e["solitary"], "used": [DOCS[d][1] for d in e["docs"]], "got": g, "r": "OK"})
                look(L, a, ev)
                c = L.srcml_archive_create()
                if L.srcml_archive_read_open_memory(c, doc, len(doc)) == 0:
                    u = L.srcml_archive_read_unit(c)
                    n = L.srcml_archive_get_namespace_size(c)
                    ev.append({"op": "read", "root": g["decl"][0],
                               "r": [[t(L.srcml_archive_get_namespace_prefix(c, i)), t(L.srcml_archive_get_namespace_uri(c, i))] for i in range(n)]})
                    L.srcml_unit_free(u)
                    L.srcml_archive_close(c)
                L.srcml_archive_free(c)
            elif e["op"] == "clone":
                c = L.srcml_archive_clone(a)
                L.srcml_archive_free(a)
                a = c
                look(L, a, ev)
    finally:
        L.srcml_archive_free(a)
    return ev


def rand(rng, docs):
    """random history; with docs the prefixes of standard namespaces stay distinct"""
    pre = dict(STD)
    used = set()
    ops = []
    for _ in range(rng.choice([1, 2, 4, 8, 15])):
        k = rng.random()
        if k < .08:
            ops.append(dict(op="reg", p=rng.choice(["-", "p"]), u="-" if rng.random() < .5 else "urn:a"))
            if "-" not in (ops[-1]["p"], ops[-1]["u"]):
                ops.pop()
        elif k < .2:
            ops.append(rng.choice([dict(op="pos"), dict(op="clone")]))
        elif k < .75 or not docs:
            u = rng.choice(list(STD) + USER + ([""] if not docs else []))
            p = rng.choice(PRE)
            if docs and (u in STD and p in [v for w, v in pre.items() if w != u and w in STD] or p == "" and u == POS or u in STD and u in used and p == STD[u] != pre[u]):
                continue
            pre[u] = p
            ops.append(dict(op="reg", p=p, u=u))
        else:
            sol = rng.random() < .4
            ops.append(dict(op="write", solitary=sol, docs=[rng.randrange(len(DOCS)) for _ in range(1 if sol else rng.choice([1, 2, 3]))]))
    if docs:
        sol = rng.random() < .4
        ops.append(dict(op="write", solitary=sol, docs=[rng.randrange(len(DOCS)) for _ in range(1 if sol else rng.choice([1, 2, 3]))]))
    return ops


def check(ctx):
    vt.build_lib()
    r = ctx.mc("NamespacesMC")
    if not ctx.quick:
        ctx.mc("NamespacesMC", "NamespacesMC2")
    paths, n = vt.cover(vt.edges(r), maxlen=60)
    scen = [{"id": "edge%d" % i, "ops": p} for i, p in enumerate(paths)]
    rng = ctx.rng
    # every pair of a standard or user namespace and a new prefix, every document in both forms
    k = 0
    for u in list(STD) + USER[:3]:
        for p in ["", "p", "zz"]:
            if p == "" and u != SRC and u != "urn:a":
                continue
            pre = [dict(op="reg", p="s", u=SRC)] if p == "" and u != SRC else []
            for d in range(len(DOCS)):
                for pos in (False, True):
                    scen.append({"id": "pair%d" % k, "ops": pre + [dict(op="reg", p=p, u=u)] + ([dict(op="pos")] if pos else []) + [
                        dict(op="write", solitary=True, docs=[d]), dict(op="write", solitary=False, docs=[d, 0])]})
                    k += 1
    # every renaming: a namespace registered with one prefix and then with another, read back from documents in both forms
    for u in [CPP, OMP, POS] + USER[:3]:
        for p in PRE:
            for q in PRE:
                if q == "s" or u == POS and "" in (p, q):
                    continue
                pre = [dict(op="reg", p="s", u=SRC)]
                pre += [dict(op="reg", p="o%d" % i, u=w) for i, w in enumerate([CPP, ERR, POS, OMP]) if w != u]
                scen.append({"id": "twice%d" % k, "ops": pre + [dict(op="reg", p=p, u=u), dict(op="reg", p=q, u=u), dict(op="write", solitary=k % 2 == 0, docs=[2])]})
                k += 1
    for i in range(ctx.pick(2500, 30000)):
        scen.append({"id": "rnd%d" % i, "ops": rand(rng, rng.random() < .7)})
    # a prefix of several namespaces
    scen.append({"id": "dupprefix", "ops": [dict(op="reg", p="p", u="urn:a"), dict(op="reg", p="p", u="urn:b"), dict(op="write", solitary=True, docs=[0])]})
    vt.execute(ctx, "c10", "NamespacesTrace", scen)
    ctx.cov["rule"] = ("all %d transitions of the bounded registry as %d tests, every namespace x prefix x document, seeded random histories; after "
                       "every registration all lookups, after every document its declarations, prefixes and the reader's list" % (n, len(paths)))
