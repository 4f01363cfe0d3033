"""A strict little XML tokenizer: tags, attributes and character data as written (no libxml2)."""
import re

NAME = r"[^\s<>/=\"'&]+"
TAG = re.compile(r"<(/?)(%s)((?:\s+%s\s*=\s*(?:\"[^\"<]*\"|'[^'<]*'))*)\s*(/?)>" % (NAME, NAME))
ATT = re.compile(r"\s+(%s)\s*=\s*(?:\"([^\"<]*)\"|'([^'<]*)')" % NAME)
REF = re.compile(r"&(?:(lt|gt|amp|quot|apos)|#(\d+)|#x([0-9a-fA-F]+));")
ENT = {"lt": "<", "gt": ">", "amp": "&", "quot": '"', "apos": "'"}


class Bad(Exception):
    pass


def legal(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xD7FF or 0xE000 <= o <= 0xFFFD or o >= 0x10000


def unref(s):
    if "&" in REF.sub("", s):
        raise Bad("bare & in %r" % s[:60])

    def f(m):
        c = ENT[m[1]] if m[1] else chr(int(m[2]) if m[2] else int(m[3], 16))
        if not legal(c):
            raise Bad("illegal character reference")
        return c
    return REF.sub(f, s)


def tokens(doc):
    """yields ("start", name, [[attr, value]..], empty) ("end", name) ("text", s) ("pi", s) ("comment", s) ("decl", s)"""
    i, n = 0, len(doc)
    for c in doc:
        if not legal(c):
            raise Bad("illegal character U+%04X" % ord(c))
    while i < n:
        j = doc.find("<", i)
        if j < 0:
            j = n
        if j > i:
            s = doc[i:j]
            if "]]>" in s:
                raise Bad("]]> in character data")
            yield ("text", unref(s.replace("\r\n", "\n").replace("\r", "\n")))
        if j == n:
            return
        if doc.startswith("<?", j):
            k = doc.find("?>", j)
            if k < 0:
                raise Bad("unterminated processing instruction")
            yield ("decl" if doc.startswith("<?xml ", j) and j == 0 else "pi", doc[j + 2:k])
            i = k + 2
            continue
        if doc.startswith("<!--", j):
            k = doc.find("-->", j)
            if k < 0:
                raise Bad("unterminated comment")
            yield ("comment", doc[j + 4:k])
            i = k + 3
            continue
        if doc.startswith("<![CDATA[", j):
            k = doc.find("]]>", j)
            if k < 0:
                raise Bad("unterminated CDATA section")
            yield ("text", doc[j + 9:k].replace("\r\n", "\n").replace("\r", "\n"))
            i = k + 3
            continue
        m = TAG.match(doc, j)
        if not m:
            raise Bad("bad tag at %r" % doc[j:j + 60])
        if m[1]:
            if m[3] or m[4]:
                raise Bad("bad end tag")
            yield ("end", m[2])
        else:
            ats = [[a[1], unref(a[2] if a[2] is not None else a[3])] for a in ATT.finditer(m[3])]
            yield ("start", m[2], ats, bool(m[4]))
        i = m.end()


def chardata(doc, skipns=()):
    """character data with escape elements decoded"""
    out = []
    for t in tokens(doc):
        if t[0] == "text":
            out.append(t[1])
        elif t[0] == "start" and t[1].split(":")[-1] == "escape":
            out.append(chr(int(dict(t[2])["char"], 0)))
    return "".join(out)
