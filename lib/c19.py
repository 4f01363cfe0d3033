"""C19: position attributes.  spec: Markup.tla (machine of C02)"""
META = {"technique": "every document with positions is run token by token through the specification's markup and position machine (trace validation); the same source without positions must give the same markup",
        "note": "Starts and ends are exact for every element except block_content and type (order only), blocks and ifs of malformed text (end) and a few kinds in malformed text (start not late); in well-formed generated programs only block_content and type are excepted. The machine is checked against a grammar on all token sequences up to a bound."}
import vt, srcgen, c02
from api import OPT_POSITION
run = c02.run


def clean(s):
    return "".join(c for c in s if c >= " " and c != "\x7f" or c in "\n\t\r")


def check(ctx):
    vt.build_lib()
    ctx.mc("MarkupMC", "MarkupMC" if ctx.quick else "MarkupMC2", timeout=3000)
    rng = ctx.rng
    scen = []
    for i in range(ctx.pick(1300, 25000)):
        sc = c02.scenario(rng, i, rng.choice([0, 0, .3]), split=False)
        for k in ("ns", "attr", "uattr", "pi", "xenc"):
            sc.pop(k, None)
        scen.append(sc)
    k = 0
    for lang in srcgen.LANGS:
        for f in srcgen.FRAG["*"] + srcgen.FRAG[lang]:
            scen.append({"id": "frag%d" % k, "lang": lang, "srcs": ["\t x;\n\ty; " + f + "\tz;\n\t"], "opts": rng.randrange(64) * 2, "solitary": True, "tabs": rng.choice([1, 2, 4, 8])})
            k += 1
    for lang, f in srcgen.corpus():
        if len(f) < 400 and k % ctx.pick(8, 1) == 0:
            scen.append({"id": "corp%d" % k, "lang": lang, "srcs": [f], "opts": rng.randrange(64) * 2, "solitary": True, "tabs": rng.choice([1, 2, 4, 8])})
        k += 1
    for i in range(ctx.pick(600, 8000)):     # well-formed programs with any blanks between tokens: every extent is exact
        lang = rng.choice(srcgen.LANGS[:4])
        scen.append({"id": "prog%d" % i, "lang": lang, "srcs": [srcgen.Program(rng, lang).text()], "opts": rng.choice([0, 8, 16, 32]), "solitary": rng.random() < .5, "tabs": rng.choice([1, 2, 3, 4, 5, 8, 16]), "checkpos": "strict"})
    for s in scen:
        s["opts"] |= OPT_POSITION
        s["srcs"] = [clean(x) for x in s["srcs"]]
        s.setdefault("checkpos", "yes")
    vt.execute(ctx, "c19", "MarkupTrace", scen)
    ctx.cov["rule"] = "each document with positions is one event, compared in every element with the place of its text in the source; and its markup with that of a run without positions"
