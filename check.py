#!/usr/bin/env python3
"""Deterministic simulation check of one property.

  check.py C01                quick or thorough by VERIF_TIER, seed by VERIF_SEED
  check.py replay FILE        rebuild from /repo and replay a recorded violation
  check.py build              build every world (setup)

Builds the world of the property from /repo's working tree, searches seeded runs in parallel, re-checks determinism
on a sample, and on a violation minimises it, writes the replay file and replays that in a fresh process.
"""
import concurrent.futures
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
BUILD = os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
EVID = os.path.join(HERE, "evidence")
CXX = "clang++-18" if shutil.which("clang++-18") else "clang++"
FLAGS = ["-std=c++20", "-stdlib=libc++", "-O0", "-g0", "-fsanitize=address", "-ftrivial-auto-var-init=pattern",
         "-Wno-unused-value", "-I" + REPO, "-I" + SIM]
ENV = {k: v for k, v in os.environ.items() if k not in ("ASAN_OPTIONS", "UBSAN_OPTIONS")}

from worlds import WORLDS  # noqa: E402


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def headers_key():
    parts = []
    for d in (REPO, SIM):
        for f in sorted(os.listdir(d)):
            if f.endswith((".h", ".hpp", ".inc")):
                parts.append(f)
                parts.append(open(os.path.join(d, f), "rb").read())
    return sha(CXX, *FLAGS, *parts)


def run_cmd(cmd):
    p = subprocess.run(cmd, capture_output=True, text=True, env=ENV)
    if p.returncode:
        raise SystemExit("BUILD FAILED: %s\n%s" % (" ".join(cmd), p.stderr[-4000:]))


def produce(target, make):
    if os.path.exists(target):
        os.utime(target)
        return target
    tmp = target + ".tmp%d" % os.getpid()
    make(tmp)
    os.replace(tmp, target)
    return target


def prune(limit=3 << 30):
    files = []
    for f in os.listdir(BUILD):
        p = os.path.join(BUILD, f)
        try:
            s = os.stat(p)
            files.append((s.st_mtime, s.st_size, p))
        except OSError:
            pass
    total = sum(f[1] for f in files)
    for m, size, p in sorted(files):
        if total < limit or time.time() - m < 3600:
            break
        os.unlink(p)
        total -= size


def only(cfgs):
    """VERIF_CFGS restricts the configurations (for campaigns over many changes)"""
    few = [int(x) for x in os.environ.get("VERIF_CFGS", "").split(",") if x]
    return [k for k in cfgs if k in few] or cfgs


def build(worlds):
    """worlds: list of (property, variant index) -> paths of binaries"""
    os.makedirs(BUILD, exist_ok=True)
    prune()
    hk = headers_key()
    pchs, objs, bins = {}, {}, {}

    def obj(src, defs=(), pch=True, flags=()):
        path = os.path.join(SIM, src)
        key = sha(hk, src, open(path, "rb").read(), *defs, pch, *flags)
        target = os.path.join(BUILD, src.split(".")[0] + "-" + key + ".o")
        objs[target] = (path, tuple(defs), pch, tuple(flags))
        return target

    for prop, vi in worlds:
        w = WORLDS[prop]
        v = w["variants"][vi]
        defs = tuple(v.get("defs", ()))
        o = []
        generic = bool(v.get("cfgs"))
        if generic:
            for k in only(v["cfgs"]):
                for g in (0, 1):
                    o.append(obj("cfg_tu.cpp", defs + ("-DCFG=%d" % k, "-DGRP=%d" % g)))
            use = "".join("C(%d)" % k for k in only(v["cfgs"]))
            o.append(obj("cfgs.cpp", defs + ("-DUSE_CFGS=" + use,)))
            for g in range(4):
                o.append(obj("items.cpp", ("-DGRP=%d" % g,)))
        o.append(obj("table.cpp", () if generic else ("-DNO_ITEMS",)))
        for f in v["src"]:
            o.append(obj(f, defs, True, tuple(v.get("flags", ()))))
        o.append(obj("alloc.cpp", (), False))
        o.append(obj("main.cpp", (), False))
        bins[(prop, vi)] = (os.path.join(BUILD, "%s-%d-%s" % (prop, vi, sha(*o))), o)

    todo = {t: v for t, v in objs.items() if not os.path.exists(t) and
            any(not os.path.exists(b) and t in o for b, o in bins.values())}
    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        pch_target = os.path.join(BUILD, "pch-%s.pch" % hk)

        def make_pch(tmp):
            run_cmd([CXX, *FLAGS, "-x", "c++-header", os.path.join(SIM, "pch.h"), "-Xclang", "-fno-pch-timestamp",
                     "-fpch-instantiate-templates", "-o", tmp])

        pf = None
        if any(v[2] for v in todo.values()):
            pf = ex.submit(produce, pch_target, make_pch)

        def compile_one(target):
            path, defs, pch, flags = todo[target]
            extra = ["-include-pch", pch_target] if pch and not any(d.startswith(("-DZPP", "-O")) for d in (*defs, *flags)) else \
                (["-include", os.path.join(SIM, "pch.h")] if pch else [])
            produce(target, lambda tmp: run_cmd([CXX, *FLAGS, *flags, *extra, *defs, "-c", path, "-o", tmp]))

        early = [ex.submit(compile_one, t) for t in todo if not todo[t][2]]
        if pf:
            pf.result()
        # the biggest translation units first
        rest = sorted((t for t in todo if todo[t][2]), key=lambda t: ("cfg_tu" not in t, "items" not in t, t))
        rest.sort(key=lambda t: 0 if any(d in ("-DCFG=0", "-DCFG=6") for d in todo[t][1]) else 1)
        futs = early + [ex.submit(compile_one, t) for t in rest]
        for f in futs:
            f.result()

        def link(b):
            path, o = b
            produce(path, lambda tmp: run_cmd([CXX, *FLAGS, *o, "-lpthread", "-o", tmp]))
        list(ex.map(link, bins.values()))
    return {k: b for k, (b, _) in bins.items()}


def call(cmd, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, env=ENV, **kw)


def search(binary, seed, runs, workers, limit, sample, tag):
    out = os.path.join(OUT, "stats-%s-%d.json" % (tag, os.getpid()))
    p = call([binary, "search", "--seed", str(seed), "--runs", str(runs), "--workers", str(workers), "--time", str(limit),
              "--sample", str(sample), "--out", out])
    if p.returncode or not os.path.exists(out):
        raise SystemExit("SEARCH FAILED (%d): %s" % (p.returncode, p.stderr[-2000:]))
    r = json.load(open(out))
    os.unlink(out)
    return r


def report(prop, vi, binary, seed, v):
    """Reproduce, minimise, record and replay a violation. Returns the replay path or None."""
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, "%s-%d.replay" % (prop, vi))
    for cls in (v["cls"], None):
        if cls is None:
            p = call([binary, "one", "--seed", str(seed), "--run", str(v["run"])])
            m = re.search(r"violated 1 class (\S+):", p.stdout)
            if not m:
                break
            cls = m.group(1)
        p = call([binary, "min", "--seed", str(seed), "--run", str(v["run"]), "--cls", cls, "--out", path, "--time", "40"])
        print(p.stdout.strip())
        if p.returncode == 0:
            r = call([binary, "replay", path])
            if r.returncode == 1 and "REPRODUCED" in r.stdout:
                with open(path, "a") as f:
                    f.write("\nvariant %d\nreplay with: python3 check.py replay %s\n" % (vi, os.path.relpath(path, HERE)))
                for line in open(path):
                    if line.startswith("  VIOLATION") or line.startswith("message"):
                        print(line.strip())
                return path
            print("the replay file did not reproduce:", r.stdout[-500:])
    return None


def add(total, part):
    for k, n in part.items():
        total[k] = total.get(k, 0) + n


def check(prop):
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    w = WORLDS[prop]
    t0 = time.time()
    n_var = len(w["variants"])
    bins = build([(prop, i) for i in range(n_var)])
    t_build = time.time() - t0
    os.makedirs(OUT, exist_ok=True)
    workers = os.cpu_count() or 4
    tot = {"runs": 0, "events": 0, "sim_ms": 0, "choices": 0, "states": 0, "nontrivial": 0}
    faults, probes, samples = {}, {}, []
    wall = 0.0
    info = {}
    determinism = []
    rc = 0
    n_vio = 0
    for vi in range(n_var):
        binary = bins[(prop, vi)]
        v = w["variants"][vi]
        runs = v["runs"] * (1 if tier == "quick" else 1000)
        limit = float(os.environ.get("VERIF_SECONDS") or (25.0 if tier == "quick" else 780.0))
        limit *= v.get("share", 1.0) / sum(x.get("share", 1.0) for x in w["variants"])
        k = 200
        r = search(binary, seed, runs, workers, limit, k, "%s-%d" % (prop, vi))
        info = r
        for key in tot:
            tot[key] += r[key]
        wall += r["search_wall_s"]
        add(faults, r["faults"])
        add(probes, r["probes"])
        for run in (0, 1):
            p = call([binary, "one", "--seed", str(seed), "--run", str(run), "--trace"])
            lines = p.stdout.splitlines()
            samples.append({"variant": v.get("name", str(vi)), "run": run, "trace": lines[:60]})
        if r["broken"]:
            print("a worker was ended from outside")
            rc = 2
            continue
        if r["violation"]:
            n_vio += 1
            print("run %(run)d: %(cls)s: %(msg)s" % r["violation"])
            path = report(prop, vi, binary, seed, r["violation"])
            if path:
                print("VIOLATION property=%s replay=%s" % (prop, os.path.relpath(path, HERE)))
                rc = 1
                break
            print("the violation could not be reproduced in a fresh process: no verdict")
            rc = 2
            break
        # determinism: the same runs in other processes and another distribution
        d = search(binary, seed, min(k, runs), 3, 300, k, "%s-%d-d" % (prop, vi))
        same = d["sample_hash"] == r["sample_hash"] and not d["violation"]
        determinism.append({"variant": vi, "runs": min(k, runs), "identical_event_logs": same})
        if not same:
            print("the same seeds gave different event logs: the simulation is not deterministic")
            rc = 2
            break
    os.makedirs(EVID, exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"],
            "distinct_nontrivial": tot["nontrivial"],
            "rule": info["rule"],
            "samples": samples,
            "simulated_runs": tot["runs"],
            "runs_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "seeds_per_hour": int(tot["runs"] / max(wall, 1e-3) * 3600),
            "choices_made": tot["choices"],
            "events_logged": tot["events"],
            "simulated_time_ms": tot["sim_ms"],
            "faults_injected": faults,
            "situations_reached": probes,
            "distinct_states": tot["states"],
            "state_measure": info["measure"],
            "components_real": info["real"],
            "components_stubbed": info["stub"],
            "determinism_check": determinism,
            "search_wall_s": round(wall, 2), "build_wall_s": round(t_build, 2),
            "variants": [v.get("name", str(i)) for i, v in enumerate(w["variants"])],
        },
        "assumptions": w.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": n_vio,
    }
    tmp = os.path.join(EVID, prop + ".json.tmp")
    json.dump(ev, open(tmp, "w"), indent=1)
    os.replace(tmp, os.path.join(EVID, prop + ".json"))
    print("%s %s seed %d: %d runs, %d distinct non-trivial, %d states, build %.1f s, total %.1f s -> %s" %
          (prop, tier, seed, tot["runs"], tot["nontrivial"], tot["states"], t_build, time.time() - t0,
           {0: "held", 1: "VIOLATED"}.get(rc, "no verdict")))
    return rc


def replay(path):
    text = open(path).read()
    prop = re.search(r"^property (\S+)", text, re.M).group(1)
    m = re.search(r"^variant (\d+)", text, re.M)
    vi = int(m.group(1)) if m else 0
    binary = build([(prop, vi)])[(prop, vi)]
    p = subprocess.run([binary, "replay", path], env=ENV)
    return p.returncode


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "replay":
        return replay(sys.argv[2])
    if sys.argv[1] == "build":
        ids = sys.argv[2:] or list(WORLDS)
        t0 = time.time()
        build([(p, i) for p in ids for i in range(len(WORLDS[p]["variants"]))])
        print("built %d worlds in %.1f s" % (len(ids), time.time() - t0))
        return 0
    return check(sys.argv[1])


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit as e:
        if isinstance(e.code, str):
            print(e.code)
            sys.exit(2)
        raise
