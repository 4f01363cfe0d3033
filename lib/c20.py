"""C20: descriptors, threads and streams are returned.  spec: Streams.tla"""
META = {"technique": "every transition of the bounded model of usable and unusable streams replayed into the library; the caller's streams, close callbacks, descriptors and threads after each history validated against the specification",
        "note": "Memory is not counted. Descriptors are compared by number and by what they refer to; threads through /proc/self/task."}
import vt, streams
from c22 import exhaustive, history


def check(ctx):
    vt.build_lib()
    scen, total = exhaustive(ctx, ["StreamsMCW", "StreamsMCR", "StreamsMCB"], [{"op": "end"}])
    rng = ctx.rng
    # reading from a descriptor of the caller (known finding)
    scen.append({"id": "ropenfd", "cfg": {"loose": True}, "ops": [{"op": "ropen", "how": "fd", "inp": "good"}, {"op": "read"}, {"op": "rclose"}, {"op": "end"}]})
    for i in range(ctx.pick(1500, 30000)):
        scen.append({"id": "rnd%d" % i, "cfg": {"loose": True}, "ops": history(rng, rng.choice([10, 30]), True) + [{"op": "end"}]})
    for x in scen:
        x["cfg"] = {"loose": True}
    vt.execute(ctx, "streams", "StreamsTrace", scen)
    ctx.cov["rule"] = "all %d transitions of one archive written, one read and their units over usable and unusable streams, each path ended by a count of what is left; random histories" % total
