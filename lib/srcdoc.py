"""srcML documents as trees (namespaces resolved), independent of libxml2."""
import re
import xmlmini
from xmlmini import Bad

SRC = "http://www.srcML.org/srcML/src"
DIFF = "http://www.srcML.org/srcDiff"
XMLNS = "http://www.w3.org/XML/1998/namespace"


class El:
    __slots__ = ("qname", "uri", "local", "attrs", "decl", "scope", "kids", "parent")

    def attr(self, name, default=None):
        for q, u, l, v in self.attrs:
            if q == name:
                return v
        return default


def tree(doc):
    """(list of processing instructions, root)"""
    root, cur, pis = None, None, []
    for k in xmlmini.tokens(doc):
        if k[0] in ("decl",):
            continue
        if k[0] == "pi":
            if cur is None:
                pis.append(k[1])
            else:
                cur.kids.append(("pi", k[1]))
            continue
        if k[0] == "comment":
            continue
        if k[0] == "text":
            if cur is None:
                if k[1].strip():
                    raise Bad("text outside of the root")
                continue
            if cur.kids and isinstance(cur.kids[-1], str):
                cur.kids[-1] += k[1]
            else:
                cur.kids.append(k[1])
            continue
        if k[0] == "end":
            if cur is None or cur.qname != k[1]:
                raise Bad("end tag %s does not match" % k[1])
            cur = cur.parent
            continue
        e = El()
        e.qname, e.parent, e.kids = k[1], cur, []
        e.decl = {}
        for n, v in k[2]:
            if n == "xmlns" or n.startswith("xmlns:"):
                p = n[6:]
                if p in e.decl:
                    raise Bad("namespace prefix declared twice on an element: '%s'" % p)
                e.decl[p] = v
        e.scope = dict(cur.scope if cur is not None else {"xml": XMLNS}, **e.decl)

        def res(q, default):
            p, _, l = q.rpartition(":")
            if p:
                if p not in e.scope:
                    raise Bad("prefix %s is not declared" % p)
                return e.scope[p], l
            return (e.scope.get("", "") if default else ""), l
        e.uri, e.local = res(k[1], True)
        e.attrs = []
        for n, v in k[2]:
            if n == "xmlns" or n.startswith("xmlns:"):
                continue
            u, l = res(n, False)
            if any(x[1] == u and x[2] == l for x in e.attrs):
                raise Bad("attribute %s twice" % n)
            e.attrs.append((n, u, l, v))
        if cur is None:
            if root is not None:
                raise Bad("second root")
            root = e
        else:
            cur.kids.append(e)
        if not k[3]:
            cur = e
    if cur is not None:
        raise Bad("%s is not closed" % cur.qname)
    if root is None:
        raise Bad("no root element")
    return pis, root


def text(e):
    out = []

    def go(e):
        if e.uri == SRC and e.local == "escape":
            out.append(chr(int(e.attr("char"), 0)))
        for k in e.kids:
            if isinstance(k, str):
                out.append(k)
            elif isinstance(k, El):
                go(k)
    go(e)
    return "".join(out)


def canon(x, skip=lambda e: False):
    """canonical form of a node or list of nodes, prefixes resolved"""
    if isinstance(x, str):
        return x.replace("&", "&amp;").replace("<", "&lt;")
    if isinstance(x, list):
        return "".join(canon(k, skip) for k in x)
    if isinstance(x, tuple):
        return "<?" + x[1] + "?>"
    at = "".join(' {%s}%s="%s"' % (u, l, v.replace("&", "&amp;").replace('"', "&quot;").replace("<", "&lt;")) for _, u, l, v in sorted(x.attrs, key=lambda a: (a[1], a[2])))
    return "<{%s}%s%s>%s</>" % (x.uri, x.local, at, "".join(canon(k, skip) for k in x.kids))


def is_unit(e):
    return isinstance(e, El) and e.local == "unit" and e.uri == SRC


def decoded(raw):
    """(text of a document, the encoding it declares or None)"""
    sniff = {b"\xff\xfe": "utf-16", b"\xfe\xff": "utf-16", b"<\0": "utf-16-le", b"\0<": "utf-16-be"}.get(raw[:2])
    m = re.match(r'<\?xml version="1.0"(?: encoding="([^"]*)")?[^>]*\?>', raw.decode(sniff or "latin-1", "replace")[:200])
    enc = m and (m[1] or "UTF-8")
    return raw.decode(sniff or enc or "utf-8"), enc


def units(doc):
    """(form, root, list of unit elements) of a srcML document; form is archive, solitary or empty"""
    if isinstance(doc, bytes):
        doc = doc.decode("utf-8")
    pis, root = tree(doc)
    if not is_unit(root):
        raise Bad("root is not a unit")
    us = [k for k in root.kids if is_unit(k)]
    if us:
        return "archive", root, us
    if root.attr("language") is not None or root.attr("filename") is not None or any(isinstance(k, El) and k.local != "macro-list" or (isinstance(k, str) and k.strip()) for k in root.kids):
        return "solitary", root, [root]
    return "empty", root, []
