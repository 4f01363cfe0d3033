"""Worker: executes scenarios of one property module against the real library."""
import importlib, json, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import srcml

mod = importlib.import_module(sys.argv[1])
out = os.dup(1)
dn = os.open(os.devnull, os.O_WRONLY)
os.dup2(dn, 1)          # the library may print
os.dup2(dn, 2)
lib = srcml.load() if getattr(mod, "NEEDS_LIB", True) else None


def progress(ev):
    os.write(out, b"~" + json.dumps(ev).encode() + b"\n")


for line in sys.stdin:
    s = json.loads(line)
    try:
        r = mod.run(lib, s, progress)
        r = r if isinstance(r, dict) else {"ev": r}
    except (MemoryError, OSError) as x:
        if isinstance(x, MemoryError) or x.errno in (12, 23, 24, 28):   # out of memory, descriptors or disk: no verdict
            r = {"broken": traceback.format_exc()[-2000:]}
        else:
            r = {"ev": [{"op": "CRASH", "rc": traceback.format_exc()[-2000:]}]}
    except Exception as x:   # what the library returned cannot even be looked at; no specification allows this event
        r = {"ev": [{"op": "CRASH", "rc": traceback.format_exc()[-2000:]}]}
    os.write(out, json.dumps(r).encode() + b"\n")
