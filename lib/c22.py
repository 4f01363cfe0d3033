"""C22: reports of failure are accurate, and failures damage nothing.  spec: Streams.tla"""
META = {"technique": "every transition of the bounded model of sources and destinations that fail replayed into the library; statuses and the finished archives validated against the specification",
        "note": "Faults: cannot be opened, fails at first use, fails later, wrong kind of descriptor, unknown language."}
import vt, streams

RIN = {"memory": ["good", "cut", "garbage", "one"], "file": ["good", "cut", "garbage", "one", "missing", "dir", "empty"], "FILE": ["good", "cut", "garbage", "one", "dir", "empty", "fail1"],
       "io": ["good", "cut", "garbage", "one", "fail0", "fail1", "empty"]}
PIN = {"memory": [], "file": ["missing", "dir"], "FILE": ["dir", "wronly", "fail1"], "fd": ["dir", "wronly", "badfd", "fail1"], "io": ["fail0", "fail1"]}
OUT = {"memory": ["good"], "file": ["good", "missing", "dir", "full", "tight"], "FILE": ["good", "full", "rdonly", "tight"], "fd": ["good", "full", "badfd", "rdonly", "tight"], "io": ["good", "slow", "fail0", "fail1"]}

# bytes that can be written
ROOM = [1, 3, 60, 170, 200, 230, 260, 290, 330, 400, 500, 1000, 4000, 4200, 8192, 130000, 170000, 200000]


def dest(rng, good):
    h = rng.choice(sorted(OUT))
    return h, "good" if rng.random() < good else rng.choice(OUT[h])


def history(rng, n, ends):
    ops, k = [], False
    for _ in range(n):
        x = rng.random()
        if x < .22:
            h = rng.choice(sorted(PIN))
            ops.append({"op": "parse", "how": h, "inp": rng.choice(PIN[h] + ["s1", "s1", "s0", "big"])})
        elif x < .26:
            ops.append({"op": "unit", "lang": rng.choice(["C", "C", "C", "-", "Klingon", "no such encoding"])})
        elif x < .36:
            h, d = dest(rng, .6)
            ops.append({"op": "wopen", "how": h, "dest": d, "room": rng.choice(ROOM)})
        elif x < .56:
            ops.append({"op": "write", "x": rng.choice("uuk")} if x < .51 else {"op": "raw", "x": rng.choice(["t1", "t2", "big", "s1"])})
        elif x < .62:
            ops.append({"op": rng.choice(["wclose", "wclose", "wfree"])})
            if ops[-1]["op"] == "wclose":
                pass
        elif x < .7:
            h = rng.choice(sorted(RIN))
            ops.append({"op": "ropen", "how": h, "inp": rng.choice(RIN[h])})
        elif x < .82:
            ops.append({"op": "read"})
            if rng.random() < .4:
                h, d = dest(rng, .5)
                ops.append({"op": "unparse", "how": h, "dest": d, "room": rng.choice(ROOM), "enc": rng.choice(["UTF-8"] * 5 + ["no such encoding"]), "if": True})
        elif x < .85:
            ops.append({"op": "skip"})
        elif x < .94:
            h, d = dest(rng, .5)
            ops.append({"op": "unparse", "how": h, "dest": d, "room": rng.choice(ROOM), "enc": rng.choice(["UTF-8"] * 5 + ["no such encoding"]), "if": True})
        elif x < .98:
            ops.append({"op": rng.choice(["rclose", "rclose", "rfree"])})
        elif x < .99 or not ends:
            ops.append({"op": "convert", "inp": rng.choice(["c", "xml", "c", "xml", "none", "missing.c", "missing.xml", "dir.c", "dir.xml", "empty.xml"]), "dest": rng.choice(["good", "good", "missing", "dir", "full", "tight"]), "room": rng.choice(ROOM)})
        else:
            ops.append({"op": "end"})
    return ops


def exhaustive(ctx, names, tail=()):
    scen, total = [], 0
    for name in names:
        paths, n = vt.cover(vt.edges(ctx.mc("StreamsMC", name, timeout=3000)), maxlen=60)
        total += n
        scen += [{"id": "%s-%d" % (name, i), "cfg": {}, "ops": list(p) + list(tail)} for i, p in enumerate(paths)]
    return scen, total


def check(ctx):
    vt.build_lib()
    scen, total = exhaustive(ctx, ["StreamsMCW", "StreamsMCR", "StreamsMCB"])
    rng = ctx.rng
    for i in range(ctx.pick(1500, 30000)):
        scen.append({"id": "rnd%d" % i, "cfg": {}, "ops": history(rng, rng.choice([15, 40]), False) + [{"op": "wclose"}]})
    vt.execute(ctx, "streams", "StreamsTrace", scen)
    ctx.cov["rule"] = "all %d transitions of one archive written, one read and their units over usable and unusable streams; random histories" % total
