"""Programs run under explored schedules (harness/sched.cpp)."""
import fcntl, hashlib, json, os, queue, shutil, subprocess, threading
from concurrent.futures import ThreadPoolExecutor
import vt

H = os.path.join(vt.VERIF, "harness")


def build(name, sources, flags=()):
    out = os.path.join(vt.BUILD, "h", name)
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    vt._run(["g++", "-std=c++17", "-O1", "-g1", "-w", "-fno-threadsafe-statics", "-rdynamic", "-I" + H, os.path.join(H, "sched.cpp")] + list(sources) + ["-o", tmp] + list(flags) + ["-ldl", "-lpthread"], name)
    os.replace(tmp, out)
    return out


ENTRIES = "-finstrument-functions -finstrument-functions-exclude-file-list=bits/stl_tree,bits/regex"


def build_client(entries=False):
    """the command-line client of the working tree, with harness/client instead of the libraries that are not here;
    entries: threads can change at every entry of a function (mode e)"""
    B = vt.build_lib("instr2", " " + ENTRIES, ("libsrcml_shared",)) if entries else vt.build_lib()
    src, out = os.path.join(vt.REPO, "src/client"), os.path.join(vt.BUILD, "h", "client_e" if entries else "client")
    objs = out + ".objs"
    with open(os.path.join(vt.BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        h = hashlib.sha256(vt.tree_digest().encode())
        for f in ("sched.cpp", "sched.hpp", "client/client_drv.cpp", "client/ctpl_stl.h"):
            h.update(open(os.path.join(H, f), "rb").read())
        if os.path.exists(out) and os.path.exists(out + ".sha256") and open(out + ".sha256").read() == h.hexdigest():
            return out
        shutil.rmtree(objs, ignore_errors=True)
        os.makedirs(objs)
        inc = ["-include", "algorithm", "-I" + H + "/client", "-I" + H, "-I" + src, "-I" + vt.REPO + "/src/libsrcml", "-I" + B + "/src/libsrcml", "-I/usr/include/libxml2"]
        # boost::optional of this sandbox is newer than the client; its former implementation is still there
        own = ["-O1", "-g1", "-w", "-DBOOST_OPTIONAL_CONFIG_USE_OLD_IMPLEMENTATION_OF_OPTIONAL"] + inc
        flags = own + (ENTRIES.split() if entries else [])
        jobs = []
        for f in sorted(os.listdir(src)):
            if f.endswith(".cpp") and f != "srcml_cli.cpp":
                jobs.append(["g++", "-std=c++11"] + flags + (["-Dmain=client_main"] if f == "srcml.cpp" else []) + ["-c", os.path.join(src, f), "-o", os.path.join(objs, f[:-4] + ".o")])
        for f in ("client/client_drv.cpp", "sched.cpp"):
            jobs.append(["g++", "-std=c++17", "-fno-threadsafe-statics"] + own + ["-c", os.path.join(H, f), "-o", os.path.join(objs, "drv_" + os.path.basename(f)[:-4] + ".o")])
        with ThreadPoolExecutor(vt.NCPU) as ex:
            list(ex.map(lambda c: vt._run(c, "client"), jobs))
        vt._run(["g++", "-rdynamic", "-Wl,--wrap=exit"] + [j[-1] for j in jobs] + ["-o", out, "-L" + B + "/bin", "-lsrcml", "-Wl,-rpath," + B + "/bin", "-larchive", "-lcurl", "-lcrypto", "-ldl", "-lpthread"], "client")
        shutil.rmtree(objs, ignore_errors=True)
        with open(out + ".sha256", "w") as f:
            f.write(h.hexdigest())
    return out


def run(exe, jobs, cwd, per=12, timeout=600):
    """jobs: [(id, line)]; returns {id: (outcomes, summary)}"""
    q = queue.Queue()
    for i in range(0, len(jobs), per):
        q.put(jobs[i:i + per])
    res, errs, hung = {}, [], []
    env = dict(os.environ, MALLOC_PERTURB_="165")

    def loop():
        while not errs and len(hung) < 16:      # (a change that makes everything hang must not use up the time)
            try:
                part = q.get_nowait()
            except queue.Empty:
                return
            try:
                p = subprocess.run([exe], input="".join("%s %s\n" % j for j in part).encode(), cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=timeout)
                cur, outs = None, []
                for line in p.stdout.split(b"\n"):
                    if not line:
                        continue
                    d = json.loads(line.decode("utf-8", "replace"))
                    if "id" in d:
                        cur, outs = d["id"], []
                    elif "runs" in d:
                        res[cur] = (outs, d)
                    else:
                        outs.append(d)
                        if d["end"] == "HANG":
                            hung.append(cur)
                if p.returncode:
                    raise vt.Broken("%s ended with %d" % (exe, p.returncode))
            except Exception as x:   # noqa
                errs.append(repr(x))
    ts = [threading.Thread(target=loop) for _ in range(vt.NCPU)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    if errs:
        raise vt.Broken(errs[0])
    missing = [j[0] for j in jobs if j[0] not in res]
    if hung:
        res.update({i: ([], {"runs": 0, "exhausted": False, "points": 0, "outcomes": 0}) for i in missing})
    elif missing:
        raise vt.Broken("no result of %s" % missing[:3])
    return res
