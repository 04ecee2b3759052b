#!/usr/bin/env python3
"""Runner of the model checker: builds the harness against /repo's working tree,
runs the explorations that decide a property, confirms and reports violations,
writes the evidence.

  vf.py check PROP [quick|thorough]    decide one property
  vf.py build                          build every configuration (setup)
  vf.py replay FILE                    run a replay file again
  vf.py job CONFIG PROPS JOB...        run one job by hand
  vf.py manifest                       rewrite MANIFEST.json from the tables
"""
import concurrent.futures as cf
import fcntl
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
REPO = os.environ.get("VF_REPO", "/repo")
MC = os.path.join(ROOT, "mc")
BUILD = os.path.join(ROOT, "build")
NPROC = max(2, min(8, os.cpu_count() or 2))

HARNESS = sorted(f for f in os.listdir(MC) if f.endswith(".cc"))
CXXFLAGS = "-std=c++17 -O2 -fno-tree-loop-distribute-patterns -fno-strict-aliasing -pthread".split()

# name: (bits, compiler and flags of the library, link flags)
CONFIGS = {
    # the reference build for exhaustive functional exploration: maximum speed, no assertions
    "fast": (64, "gcc -O2 -DNDEBUG", ""),
    # every memory access of the library goes through the monitor (permissions, counts, scheduling points)
    "mon": (64, "gcc -O1 -fsanitize=thread -DVF_MON", ""),
    # the same, each access of the sources one by one
    "mon0": (64, "gcc -O0 -fsanitize=thread -DVF_MON", ""),
    # red zones on the stack, on globals, inside the arena; fixed arrays bounds
    "asan": (64, "gcc -O1 -g -fsanitize=address,bounds -fno-sanitize-recover=bounds", "-fsanitize=address,undefined"),
    "asan32": (32, "gcc -m32 -O1 -g -fsanitize=address,bounds -fno-sanitize-recover=bounds", "-fsanitize=address,undefined"),
    # build configurations
    "o0": (64, "gcc -O0", ""),
    "o3": (64, "clang -O3 -DNDEBUG", ""),
    "cxx": (64, "g++ -x c++ -O2", ""),
    "gen": (64, "gcc -O2 -DVF_GENERIC", ""),
    "m32": (32, "gcc -m32 -O2", ""),
    "m32gen": (32, "gcc -m32 -O2 -DNDEBUG -DVF_GENERIC", ""),
    "m32cxx": (32, "g++ -x c++ -m32 -O3 -DNDEBUG", ""),
    "o3g": (64, "gcc -O3 -DNDEBUG", ""),
    "c99": (64, "gcc -std=c99 -Os", ""),
    "cxx98": (64, "clang++ -x c++ -std=c++98 -O1", ""),
    "uchar": (64, "clang -O2 -funsigned-char -fwrapv -DNDEBUG", ""),
    "cl32": (32, "clang -m32 -O2", ""),
    # the code for the Microsoft compiler, with stand-ins of its intrinsics
    "msc": (64, "gcc -O2 -DVF_MSVC", ""),
    "msc32": (32, "gcc -m32 -O2 -DVF_MSVC", ""),
}

# the parameters of the headers that the documentation lets the user change: the library is built from a copy
# of the working tree where they have other values (where a define is not found it keeps its own value)
DEFINES = {
    "t8w2": (64, "gcc -O2", {"TOMMY_TRIE_TREE_MAX": "2", "TOMMY_TRIE_INPLACE_TREE_MAX": "2"}),
    "t4w8": (64, "gcc -O2", {"TOMMY_TRIE_TREE_MAX": "4", "TOMMY_TRIE_INPLACE_TREE_MAX": "8"}),
    "t16w16": (64, "gcc -O2 -DNDEBUG", {"TOMMY_TRIE_TREE_MAX": "16", "TOMMY_TRIE_INPLACE_TREE_MAX": "16"}),
    "t32w8": (64, "gcc -O2", {"TOMMY_TRIE_TREE_MAX": "32", "TOMMY_TRIE_INPLACE_TREE_MAX": "8"}),
    "t32m32": (32, "gcc -m32 -O2", {"TOMMY_TRIE_TREE_MAX": "32", "TOMMY_TRIE_INPLACE_TREE_MAX": "2"}),
    "t8m32": (32, "gcc -m32 -O2", {"TOMMY_TRIE_TREE_MAX": "8", "TOMMY_TRIE_INPLACE_TREE_MAX": "8"}),
    "k64": (64, "gcc -O2", {"TOMMY_TRIE_BIT": "64", "TOMMY_TRIE_INPLACE_BIT": "64"}),
    "k64w16": (64, "gcc -O2", {"TOMMY_TRIE_BIT": "64", "TOMMY_TRIE_INPLACE_BIT": "64", "TOMMY_TRIE_TREE_MAX": "16", "TOMMY_TRIE_INPLACE_TREE_MAX": "8"}),
    "k48w32": (64, "gcc -O2 -DNDEBUG", {"TOMMY_TRIE_BIT": "48", "TOMMY_TRIE_INPLACE_BIT": "48", "TOMMY_TRIE_TREE_MAX": "32", "TOMMY_TRIE_INPLACE_TREE_MAX": "2"}),
    "k33": (64, "gcc -O2", {"TOMMY_TRIE_BIT": "33", "TOMMY_TRIE_INPLACE_BIT": "33"}),
    "monk64": (64, "gcc -O1 -fsanitize=thread -DVF_MON", {"TOMMY_TRIE_BIT": "64", "TOMMY_TRIE_INPLACE_BIT": "64", "TOMMY_TRIE_TREE_MAX": "16", "TOMMY_TRIE_INPLACE_TREE_MAX": "8"}),
    "mont32": (64, "gcc -O1 -fsanitize=thread -DVF_MON", {"TOMMY_TRIE_TREE_MAX": "32", "TOMMY_TRIE_INPLACE_TREE_MAX": "2"}),
}
for _k, (_b, _c, _d) in DEFINES.items():
    CONFIGS[_k] = (_b, _c, "")


def sources(config, cd):
    """the directory of the sources of a build"""
    src = os.path.join(REPO, "tommyds")
    if config not in DEFINES:
        return src
    d = os.path.join(BUILD, f"src-{config}-{cd}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    for f in os.listdir(src):
        if f.endswith((".c", ".h")):
            with open(os.path.join(src, f)) as fp:
                t = fp.read()
            for k, v in DEFINES[config][2].items():
                t = re.sub(r"^([ \t]*#[ \t]*define[ \t]+" + k + r")[ \t]+.*$", lambda m: m.group(1) + " " + v, t, flags=re.M)
            with open(os.path.join(d, f), "w") as fp:
                fp.write(t)
    return d


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tree_files():
    r = []
    for d in (os.path.join(REPO, "tommyds"), MC):
        for f in sorted(os.listdir(d)):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                r.append(p)
    return r


def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.basename(p).encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


# the builds that the compiler refused in this run: what it said
REFUSED = {}


def build(configs):
    """Returns {config: binary}. Everything is rebuilt from the sources whenever they differ."""
    os.makedirs(BUILD, exist_ok=True)
    mcfiles = [os.path.join(MC, f) for f in sorted(os.listdir(MC))]
    repofiles = [os.path.join(REPO, "tommyds", f) for f in sorted(os.listdir(os.path.join(REPO, "tommyds")))
                 if f.endswith((".c", ".h"))]
    hdig = digest(mcfiles, " ".join(CXXFLAGS))
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = {}
        todo = []
        cdig = {}
        bits = set()
        for c in configs:
            b, cc, ld = CONFIGS[c]
            cd = digest(repofiles + mcfiles, cc + ld + " ".join(CXXFLAGS) + json.dumps(DEFINES.get(c)))
            cdig[c] = cd
            exe = os.path.join(BUILD, f"mc-{c}-{cd}")
            out[c] = exe
            if not os.path.exists(exe):
                todo.append((c, exe))
                bits.add(b)
        if not todo:
            return out
        jobs = []
        objs = {32: [], 64: []}
        for b in bits:
            for f in HARNESS:
                o = os.path.join(BUILD, f"{f[:-3]}-{b}-{hdig}.o")
                objs[b].append(o)
                if not os.path.exists(o):
                    jobs.append((["g++", *CXXFLAGS, f"-m{b}", "-c", os.path.join(MC, f), "-o", o + ".tmp"], o))
        shims = {}
        srcs = []
        for c, exe in todo:
            b, cc, ld = CONFIGS[c]
            o = exe + ".o"
            shims[c] = o
            src = sources(c, cdig[c])
            srcs.append(src)
            jobs.append(([*cc.split(), "-Wno-unused-function", "-I", src, "-idirafter", MC, "-c",
                          os.path.join(MC, "shim.c"), "-o", o + ".tmp"], o))

        def one(j):
            cmd, o = j
            r = sh(cmd)
            c = next((c for c in shims if shims[c] == o), None)
            if r.returncode and c not in (None, "fast", "mon"):
                REFUSED[c] = " ".join(cmd) + "\n" + r.stdout
                return
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout)
            if o in shims.values() and "fsanitize=address" not in " ".join(cmd):
                # the static data of the library in sections of its own: part of the explored state
                r = sh(["objcopy", "--rename-section", ".data=vfdata,alloc,load,data,contents",
                        "--rename-section", ".bss=vfbss", o + ".tmp"])
                if r.returncode:
                    raise BuildError(r.stdout)
            os.rename(o + ".tmp", o)

        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(one, jobs))

        def link(t):
            c, exe = t
            b, cc, ld = CONFIGS[c]
            cmd = ["g++", f"-m{b}", "-pthread", *ld.split(), *objs[b], shims[c], "-o", exe + ".tmp"]
            r = sh(cmd)
            if r.returncode:
                raise BuildError(" ".join(cmd) + "\n" + r.stdout)
            os.rename(exe + ".tmp", exe)
            os.remove(shims[c])

        with cf.ThreadPoolExecutor(NPROC) as ex:
            list(ex.map(link, [t for t in todo if t[0] not in REFUSED]))
        for c in REFUSED:
            out.pop(c, None)
        for d in srcs:
            if d.startswith(BUILD):
                shutil.rmtree(d, ignore_errors=True)
        # forget what older trees left
        now = time.time()
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if f != ".lock" and os.path.isfile(p) and now - os.path.getmtime(p) > 6 * 3600:
                os.remove(p)
        return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:exitcode=11:allocator_may_return_null=1:detect_stack_use_after_return=0",
           UBSAN_OPTIONS="halt_on_error=1:exitcode=11")


class Runner:
    def __init__(self, exes):
        self.exes = exes
        self.procs = set()
        self.lock = threading.Lock()
        self.stop = False
        self.n = 0

    def run(self, config, prop, job, budget=0, replay=None, hang=30, tmp=None):
        with self.lock:
            if self.stop:
                return None
            self.n += 1
            out = os.path.join(tmp, f"r{os.getpid()}-{self.n}.json")
        cmd = [self.exes[config], "--prop", prop, "--job", job, "--out", out, "--hang", str(hang)]
        if budget:
            cmd += ["--budget", str(budget)]
        if replay is not None:
            cmd += ["--replay", ",".join(str(x) for x in replay)]
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, start_new_session=True)
        with self.lock:
            self.procs.add(p)
        try:
            txt, _ = p.communicate()
        finally:
            with self.lock:
                self.procs.discard(p)
        res = None
        if os.path.exists(out):
            try:
                with open(out) as f:
                    res = json.load(f)
            except ValueError:
                res = None
            os.remove(out)
        return {"rc": p.returncode, "res": res, "out": txt.decode(errors="replace")[-6000:], "config": config, "job": job}

    def kill(self):
        with self.lock:
            self.stop = True
            for p in self.procs:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass


def known_findings():
    """lines 'known: property=ID job=CONFIG|JOB trace=1,2,3 what'"""
    r = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS")
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("known: "):
                w = line[7:].strip()
                f = {}
                for k in ("property", "trace"):
                    if k + "=" in w:
                        f[k] = w.split(k + "=", 1)[1].split(" ")[0]
                f["job"] = w.split("job='", 1)[1].split("'")[0] if "job='" in w else ""
                f["what"] = w
                r.append(f)
    return r


def is_fail(r):
    """a failed check, a crash, a hang; not the processes that the system ended for want of memory"""
    return r is not None and (r["rc"] in (10, 11, 12) or (r["rc"] is not None and r["rc"] < 0 and r["rc"] != -signal.SIGKILL))


def check(prop, tier):
    import plan
    t0 = time.time()
    jobs = plan.jobs(prop, tier)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    configs = sorted({c for c, _, _ in jobs})
    try:
        exes = build(configs)
    except BuildError as e:
        print("build failed:", e)
        return 2
    if REFUSED:
        print("builds refused by the compiler:", *sorted(REFUSED))
        must = sorted(c for c in REFUSED if c in ("cxx", "m32"))
        if prop == "C31" and must:
            # not a matter of dialects: the library is to work as C++ and on 32 bit
            return refused(prop, must[0])
        jobs = [j for j in jobs if j[0] not in REFUSED]
        if not jobs:
            print(REFUSED[configs[0]])
            return 2
    t_build = time.time() - t0
    tmp = os.path.join(BUILD, f"tmp-{prop}-{os.getpid()}")
    os.makedirs(tmp, exist_ok=True)
    rn = Runner(exes)
    results = []
    bad = None
    error = None
    known = []
    alike = {}
    # C29: all that goes wrong with some content of the nodes, and not with another
    # C33: all that goes wrong with other parameters of the tries
    watch = {"C29": "C29,C01,C04,C05,C06,C09,C11,C12,C14", "C33": "C33,C11,C12,C13,C14,C18,C19,C20"}.get(prop, prop)

    def by_content(r):
        """C29: whether what goes wrong depends on the content of the nodes; otherwise it is of other properties"""
        f = (r["res"] or {}).get("fail") or {}
        if f.get("kind") == "fail" and f["mask"] >> 29 & 1:
            return True
        z = " ".join(w for w in r["job"].split() if not w.startswith("garbage="))
        if (r["config"], z) not in alike:
            rn2 = Runner(exes)
            with cf.ThreadPoolExecutor(4) as ex2:
                rs = list(ex2.map(lambda g: rn2.run(r["config"], watch, f"{z} garbage={g}", 0, None, 30, tmp), (0, 2, 3, 0xA5)))
            alike[r["config"], z] = all(is_fail(x) for x in rs)
            if alike[r["config"], z]:
                print(f"fails with any content: {r['config']} {r['job']}: {f.get('msg', r['rc'])}")
        return not alike[r["config"], z]

    def differs(r):
        """C31: a difference from the models counts if some other build does not have it; C32: some other arrangement of the memory"""
        k = group(prop, r["config"], r["job"])
        if k not in alike:
            rn2 = Runner(exes)
            other = [(c, j) for c, j, _ in jobs if (c, j) != (r["config"], r["job"]) and group(prop, c, j) == k]
            with cf.ThreadPoolExecutor(3) as ex2:
                rs = list(ex2.map(lambda x: rn2.run(x[0], prop, x[1], 0, None, 30, tmp), other))
            alike[k] = all(is_fail(x) for x in rs)
            if alike[k]:
                print(f"fails alike in every {'build' if prop == 'C31' else 'arrangement'}: {r['job']}: {((r['res'] or {}).get('fail') or {}).get('msg', r['rc'])}")
        if alike[k] and by_history(r, k):
            return True
        return not alike[k]

    def by_history(r, k):
        """whether the history that fails here passes in another build or arrangement, although all of them fail somewhere"""
        t = ((r["res"] or {}).get("fail") or {}).get("trace")
        if not t:
            return False
        rn2 = Runner(exes)
        if not is_fail(rn2.run(r["config"], prop, r["job"], 0, t, 30, tmp)):
            return False
        for c, j, _ in jobs:
            if (c, j) != (r["config"], r["job"]) and group(prop, c, j) == k:
                x = rn2.run(c, prop, j, 0, t, 30, tmp)
                if x["rc"] == 0 and x["res"]:
                    print(f"the history of {r['config']} | {r['job']} passes in {c} | {j}")
                    return True
        return False

    try:
        with cf.ThreadPoolExecutor(NPROC) as ex:
            futs = {ex.submit(rn.run, c, watch, j, b, None, 30, tmp): (c, j, b) for c, j, b in jobs}
            for f in cf.as_completed(futs):
                r = f.result()
                if r is None:
                    continue
                if bad:
                    continue
                if is_fail(r):
                    k = [x for x in known_findings() if x.get("property") == prop and x["job"] == r["config"] + "|" + r["job"] and r["res"] and
                         x.get("trace") == ",".join(map(str, r["res"].get("fail", {}).get("trace", [])))]
                    if k:
                        known.append(k[0]["what"])
                        continue
                    if prop in ("C31", "C32", "C38") and not differs(r):
                        continue
                    if prop == "C29" and not by_content(r):
                        r = Runner(exes).run(r["config"], prop, r["job"], 240, None, 30, tmp)
                        if not is_fail(r) and r["rc"] == 0 and r["res"]:
                            results.append(r)
                        continue
                    bad = r
                    rn.kill()
                elif r["rc"] != 0 or not r["res"]:
                    error = error or r
                else:
                    results.append(r)
        if bad:
            return confirm(prop, tier, bad, Runner(exes), tmp, t0, results, watch)
        if prop in ("C31", "C32", "C38") and not error:
            d = unalike(prop, results)
            if d:
                return confirm_unalike(prop, tier, d, Runner(exes), tmp, t0, results)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if error:
        print(f"job failed to run: {error['config']} {error['job']} rc={error['rc']}\n{error['out']}")
        return 2
    evidence(prop, tier, seed, results, t0, t_build, 0)
    for w in known:
        print(f"KNOWN-FINDING: property={prop} {w}")
    return 0


def signature(r):
    """what a build did in a job: the size of the exploration, and the digest of what was observed"""
    s = r["res"]
    return (s["states"], s["transitions"], s["cases"], s["depth"]), s["obs"]


VARIANT = ("place=", "pack=", "rev=", "noff=", "skew=", "fill=", "stale=", "sfill=", "life=")


def group(prop, config, job):
    """what has to behave the same: the same job of every build (C31), or the same job of a build with every arrangement of the memory (C32)"""
    if prop == "C31":
        return job
    return config, " ".join(w for w in job.split() if not w.startswith(VARIANT))


def unalike(prop, results):
    """two builds of the same word size (any, for the functions), or two arrangements of the memory, where the same exploration observed other things"""
    seen = {}
    for r in sorted(results, key=lambda r: (r["config"], r["job"])):
        if not r["res"]["exhaustive"]:
            continue
        # the alignment of the blocks of the allocator depends on that of the addresses it gets
        if prop in ("C32", "C38") and r["job"].startswith("alloc."):
            continue
        shape, obs = signature(r)
        bits = 0 if r["job"].startswith("func.") and "64" not in r["job"] else CONFIGS[r["config"]][0]
        o = seen.setdefault((bits, group(prop, r["config"], r["job"]), shape), r)
        if signature(o)[1] != obs:
            return o, r
    return None


def confirm_unalike(prop, tier, d, rn, tmp, t0, results):
    a, b = (rn.run(x["config"], prop, x["job"], 0, None, 60, tmp) for x in d)
    if not a["res"] or not b["res"] or "obs" not in a["res"] or "obs" not in b["res"] or not unalike(prop, [a, b]):
        print(f"not reproducible: {d[0]['config']} {d[0]['job']} and {d[1]['config']} {d[1]['job']} differ")
        return 2
    msg = (f"{a['config']} | {a['job']} and {b['config']} | {b['job']} observe different orders, sizes or values in the same exploration "
           f"({signature(a)} and {signature(b)})")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    name = f"{prop}-{hashlib.sha256((a['config'] + b['config'] + a['job'] + b['job']).encode()).hexdigest()[:10]}.json"
    path = os.path.join(ROOT, "replays", name)
    with open(path, "w") as f:
        json.dump({"property": prop, "config": a["config"], "config2": b["config"], "job": a["job"], "job2": b["job"], "trace": None, "message": msg,
                   "again": f"python3 {os.path.join(ROOT, 'vf.py')} replay <this file>"}, f, indent=1)
    evidence(prop, tier, int(os.environ.get("VERIF_SEED", "1")), results, t0, 0, 1)
    print(msg)
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def refused(prop, c):
    path = os.path.join(ROOT, "replays", f"{prop}-build-{c}.json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        json.dump({"property": prop, "config": c, "job": None, "trace": None, "message": f"the library does not compile in the build {c}", "output": REFUSED[c][-6000:]}, f, indent=1)
    print(REFUSED[c][-2000:])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def confirm(prop, tier, bad, rn, tmp, t0, results, watch):
    c, j = bad["config"], bad["job"]
    fail = (bad["res"] or {}).get("fail")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    trace = fail["trace"] if fail else None
    how = None
    if fail is not None:
        r = rn.run(c, watch, j, 0, trace, 60, tmp)
        if is_fail(r):
            how = "trace"
    if how is None:
        r = rn.run(c, watch, j, 0, None, 60, tmp)
        if is_fail(r):
            how = "job"
            fail = (r["res"] or {}).get("fail") or fail
    if how is None:
        print(f"not reproducible: {c} {j}: {bad['out']} {fail}")
        return 2
    msg = fail["msg"] if fail else f"the process died with code {bad['rc']}"
    text = fail["text"] if fail else ""
    d = {"property": prop, "watch": watch, "config": c, "job": j, "trace": trace if how == "trace" else None, "message": msg, "history": text,
         "output": bad["out"], "again": f"python3 {os.path.join(ROOT, 'vf.py')} replay <this file>"}
    name = f"{prop}-{hashlib.sha256((c + j + str(trace)).encode()).hexdigest()[:10]}.json"
    path = os.path.join(ROOT, "replays", name)
    with open(path, "w") as f:
        json.dump(d, f, indent=1)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if results:
        evidence(prop, tier, seed, results, t0, 0, 1)
    print(f"{c} | {j}: {msg}")
    print(f"history: {text}")
    if bad["out"].strip():
        print(bad["out"][-1500:])
    print(f"VIOLATION property={prop} replay={path}")
    return 1


def evidence(prop, tier, seed, results, t0, t_build, violations):
    import plan
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "exhaustive": True, "explorations": []}
    for r in sorted(results, key=lambda r: (r["config"], r["job"])):
        s = r["res"]
        cov["states"] += s["states"]
        cov["transitions"] += s["transitions"]
        # every explored edge or case is an execution of the real code, compared with the reference model
        cov["traces_validated_against_impl"] += s["num"].get("edges", 0) + s["cases"]
        cov["exhaustive"] = cov["exhaustive"] and s["exhaustive"]
        e = {"build": r["config"], "exploration": r["job"], "states": s["states"], "calls": s["transitions"], "cases": s["cases"],
             "depth": s["depth"], "complete": s["exhaustive"], "wall_s": s["wall"], "measured": s["num"]}
        if s["foreign"]:
            e["branches_cut_by_other_properties"] = s["foreign"]
            e["other_properties_messages"] = s["foreign_msgs"]
        if s["notes"]:
            e["notes"] = s["notes"]
        cov["explorations"].append(e)
        for x in s["samples"][:3]:
            if len(cov["samples"]) < 24:
                cov["samples"].append(f"{r['config']}: {r['job']}: {x}")
    d = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
         "assumptions": plan.assumptions(prop), "wall_s": round(time.time() - t0, 3), "violations": violations}
    d["coverage"]["build_s"] = round(t_build, 3)
    if REFUSED:
        d["coverage"]["builds_refused_by_the_compiler"] = sorted(REFUSED)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    p = os.path.join(ROOT, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(d, f, indent=1)
    os.rename(p + ".tmp", p)


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        return check(a[1], tier)
    if a[:1] == ["build"]:
        try:
            build(a[1:] or list(CONFIGS))
        except BuildError as e:
            print("build failed:", e)
            return 2
        return 0
    if a[:1] == ["job"]:
        exes = build([a[1]])
        os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
        t0 = time.time()
        r = Runner(exes).run(a[1], a[2], " ".join(a[3:]), float(os.environ.get("BUDGET", "0")), tmp=os.path.join(BUILD, "tmp"))
        print(json.dumps(r["res"], indent=1)[:5000] if r["res"] else "", r["out"], "rc", r["rc"], f"{time.time() - t0:.2f}s")
        return r["rc"]
    if a[:1] == ["replay"]:
        with open(a[1]) as f:
            d = json.load(f)
        exes = build([d["config"]])
        if d["job"] is None:
            print(REFUSED.get(d["config"], "compiles"))
            return 1 if REFUSED else 0
        os.makedirs(os.path.join(BUILD, "tmp"), exist_ok=True)
        if "config2" in d:
            exes.update(build([d["config2"]]))
            rs = [Runner(exes).run(d[c], d["property"], d[j], tmp=os.path.join(BUILD, "tmp")) for c, j in (("config", "job"), ("config2", "job2"))]
            for r in rs:
                print(r["config"], r["job"], signature(r) if r["res"] and "obs" in r["res"] else r)
            return 1 if all(r["res"] and "obs" in r["res"] for r in rs) and unalike(d["property"], rs) else 0
        r = Runner(exes).run(d["config"], d.get("watch", d["property"]), d["job"], 0, d["trace"], tmp=os.path.join(BUILD, "tmp"))
        print(json.dumps(r["res"], indent=1)[:5000] if r["res"] else "", r["out"], "rc", r["rc"])
        return 1 if is_fail(r) else 0
    if a[:1] == ["manifest"]:
        import plan
        plan.write_manifest(ROOT)
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
