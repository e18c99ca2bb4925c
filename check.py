#!/usr/bin/env python3
"""Driver of the checks.

  check.py <ID> [--tier quick|thorough]   decide one property
  check.py <ID> --replay FILE             re-execute a reported violation
  check.py --build                        build every harness of the quick commands (setup_cmd)

Each property is decided by one or more harness executables.  A harness is
compiled against the headers in /repo's working tree, explores its bounded space
exhaustively, and writes what it covered as JSON.  Binaries are cached under
/verif/build, keyed by a hash of the sources, the headers of the working tree,
the flags and the compiler.
"""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(VERIF, "src")
BUILD = os.path.join(VERIF, "build")
EVID = os.path.join(VERIF, "evidence")

sys.path.insert(0, VERIF)
from components import COMPONENTS, PROPERTIES  # noqa: E402


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "include"), SRC):
        for d, dirs, files in sorted(os.walk(root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, root).encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    def __init__(self, cmd, out):
        super().__init__("%s\n%s" % (" ".join(cmd), out))
        self.cmd, self.out = cmd, out


COMPILERS = threading.Semaphore(os.cpu_count() or 4)


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def build(name, th, tier="quick"):
    """Build one component; returns the directory and the executable's path."""
    c = COMPONENTS[name]
    steps = c["build"](name, tier) if callable(c.get("build")) else None
    if steps is None:
        cxx = c.get("cxx", "g++")
        steps = [dict(out=name, src=[c["src"]], cxx=cxx,
                      flags=c.get("flags", ["-O2"]))]
    key = hashlib.sha256((th + json.dumps(steps, sort_keys=True)).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, name + "-" + key)
    exe = os.path.join(d, name)
    if os.path.exists(os.path.join(d, "ok")):
        return d, exe
    os.makedirs(d, exist_ok=True)
    # generated sources
    for s in steps:
        for g, text in s.get("generate", {}).items():
            with open(os.path.join(d, g), "w") as f:
                f.write(text)

    def compile_one(s):
        srcs = [p.replace("{build}", d) for p in s["src"]]
        srcs = [p if os.path.isabs(p) else
                (os.path.join(d, p) if p in s.get("generated", []) else os.path.join(SRC, p))
                for p in srcs]
        cmd = [s["cxx"], "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"),
               "-I" + SRC, "-I" + d] + s["flags"] + srcs + \
              ["-o", os.path.join(d, s["out"])] + s.get("libs", [])
        with COMPILERS:
            r = run(cmd)
        if r.returncode:
            raise BuildError(cmd, r.stdout[-6000:])

    stages = sorted({s.get("stage", 0) for s in steps})
    for st in stages:
        todo = [s for s in steps if s.get("stage", 0) == st]
        with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
            list(ex.map(compile_one, todo))
    open(os.path.join(d, "ok"), "w").close()
    return d, exe


def rejected(e):
    """Does the tree reject a program of the enumeration, as opposed to there
    being a problem with the tree or the environment as a whole?"""
    if " error: " not in e.out or "virtual memory exhausted" in e.out or "No space left" in e.out:
        return False
    exe = os.path.join(BUILD, "elementary.%d" % os.getpid())
    r = run(["g++", "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"),
             os.path.join(SRC, "elementary.cpp"), "-o", exe])
    ok = r.returncode == 0 and run([exe]).returncode == 0
    if os.path.exists(exe):
        os.unlink(exe)
    return ok


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        return [k for k in json.load(f) if k["property"] == pid and k["status"] == "known"]


def main():
    args = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    th = tree_hash()
    if args and args[0] == "--build":
        # one after the other: each may itself be parallel and heavy
        # what only the thorough commands use, they build themselves
        names = sorted({c for p in PROPERTIES.values() for c, _ in p["uses"]
                        if not COMPONENTS[c].get("thorough_only")})
        with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
            futs = {n: ex.submit(build, n, th) for n in names}
        bad = 0
        for n, f in futs.items():
            try:
                f.result()
                print("built", n)
            except BuildError as e:
                print("FAILED", n, e)
                bad = 1
        return bad
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    if "--replay" in args:
        return replay(pid, args[args.index("--replay") + 1], th)
    return decide(pid, tier, th)


def env_for(extra, pid):
    e = dict(os.environ)
    e["VERIF_PROP"] = pid
    e["LC_ALL"] = "C.UTF-8"
    e.update(extra)
    return e


def replay(pid, path, th):
    with open(path, errors="replace") as f:
        r = json.load(f)
    if "compile" in r:
        try:
            build(r["component"], th, r.get("tier", "quick"))
        except BuildError as e:
            print(e)
            return 1 if rejected(e) else 2
        return 0
    d, exe = build(r["component"], th, r.get("tier", "quick"))
    p = subprocess.run([exe, "--case", r["case"], "--tier", r.get("tier", "quick")],
                       env=env_for(r.get("env", {}), pid), cwd=d)
    return p.returncode if p.returncode >= 0 else 1


def decide(pid, tier, th):
    prop = PROPERTIES[pid]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(states=0, transitions=0, traces_validated_against_impl=0,
                            samples=[], exhaustive=True,
                            bounds=prop["bounds"], components=[]),
              assumptions=prop.get("assumptions", []), violations=0)
    cov = ev["coverage"]
    evpath = os.path.join(EVID, pid + ".json")
    uses = [u for u in prop["uses"]
            if tier == "thorough" or not COMPONENTS[u[0]].get("thorough_only")]
    # build everything first, in parallel
    violation = None
    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as ex:
        futs = {n: ex.submit(build, n, th, tier) for n in {u[0] for u in uses}}
    built = {}
    for n, f in futs.items():
        try:
            built[n] = f.result()
        except BuildError as e:
            print(e)
            if not (prop.get("compile_verdict") and rejected(e)):
                print("check error: a harness does not build against this tree")
                return 2
            violation = dict(
                property=pid, component=n, tier=tier, compile=" ".join(e.cmd),
                message="the tree rejects a program of the enumeration: " +
                [x for x in e.out.splitlines() if " error: " in x][0])
    for n, extra in uses:
        if violation:
            break
        d, exe = built[n]
        out = os.path.join(BUILD, "%s.%s.%d.json" % (pid, n, os.getpid()))
        r = subprocess.run([exe, "--tier", tier, "--out", out], cwd=d,
                           env=env_for(extra, pid), stdout=subprocess.PIPE, text=True, errors="replace")
        print(r.stdout, end="")
        if -r.returncode in (4, 6, 7, 8, 11):
            # neither exploring nor reporting can crash: this was the
            # registration of the classes, methods and overriders
            violation = dict(property=pid, component=n, tier=tier, case="",
                             message="the registrations crash the program (signal %d)" % -r.returncode)
            print("VIOLATED", n + ":", violation["message"])
            break
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print("check error: harness %s ended with status %d" % (n, r.returncode))
            return 2
        with open(out, errors="replace") as f:
            s = json.load(f)
        os.unlink(out)
        cov["states"] += s["states"]
        cov["transitions"] += s["transitions"]
        cov["traces_validated_against_impl"] += s["traces"]
        for x in s["samples"][:2]:
            cov["samples"].append(dict(component=n, **x))
        cov["components"].append(
            dict(name=n, env=extra, **{k: v for k, v in s.items()
                                       if k not in ("samples", "violation", "harness")}))
        if r.returncode == 1:
            v = s.get("violation")
            if not v:
                print("check error: harness %s gave no violation" % n)
                return 2
            violation = dict(property=pid, component=n, env=extra, tier=tier, **v)
            break
    ev["wall_s"] = round(time.time() - t0, 3)
    for k in known_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    if violation:
        ev["violations"] = 1
        cov["exhaustive"] = False
        rp = os.path.join(EVID, pid + ".replay.json")
        with open(rp, "w") as f:
            json.dump(violation, f, indent=1)
        ev["coverage"]["violation"] = violation
    with open(evpath, "w") as f:
        json.dump(ev, f, indent=1)
    if violation:
        print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(rp, VERIF)))
        return 1
    return 0


if __name__ == "__main__":
    sys.stdout.reconfigure(errors="replace")
    sys.exit(main())
