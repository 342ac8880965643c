#!/usr/bin/env python3
"""run.py <PROPERTY> [quick|thorough] : build /repo's working tree with the harness, explore, report.

Exit 0: held on everything explored.  Exit 1: violation (line VIOLATION property=.. replay=..).
Exit 2: the check could not be built or run."""
import sys, os, subprocess, json, time, shutil, glob, re

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("R3D_REPO", "/repo")
H = os.path.join(HERE, "harness")
sys.path.insert(0, H)
from checks import CHECKS  # noqa

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def config_header(dst, maxverts=512, shift=""):
    src = open(os.path.join(REPO, "config/r3d-config.h.in")).read()
    src = src.replace("@R3D_MAX_VERTS@", str(maxverts)).replace("@SHIFT_POLY@", shift)
    if shift is None:
        pass
    open(dst, "w").write(src)

def die(msg):
    print(msg); sys.exit(2)

def par(cmds):
    procs = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)) for c in cmds]
    for c, p in procs:
        out, _ = p.communicate()
        if p.returncode:
            die("BUILD-ERROR: %s\n%s" % (" ".join(c), out[-4000:]))

CFLAGS_BASE = ["-fno-omit-frame-pointer", "-w"]
SAN = ["-fsanitize=address"]

def build_lib(bd, tag, cflags, maxverts=512, shift="", srcdir=None, cc="gcc", noshift=False):
    """compile all library sources of the working tree; returns (objects, include flags)"""
    inc = os.path.join(bd, "inc-" + tag); os.makedirs(inc, exist_ok=True)
    cfg = os.path.join(inc, "r3d-config.h")
    config_header(cfg, maxverts, shift)
    if noshift:
        t = re.sub(r"(?m)^\s*#\s*define\s+SHIFT_POLY.*$", "", open(cfg).read()); open(cfg, "w").write(t)
    srcdir = srcdir or os.path.join(REPO, "src")
    cmds, objs = [], []
    for s in sorted(glob.glob(os.path.join(srcdir, "*.c"))):
        o = os.path.join(bd, "%s-%s.o" % (tag, os.path.basename(s)[:-2])); objs.append(o)
        cmds.append([cc, "-c", s, "-o", o, "-I" + inc, "-I" + srcdir] + CFLAGS_BASE + cflags)
    par(cmds)
    return objs, ["-I" + inc, "-I" + srcdir]

def load_known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", l)
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3).strip()))
    return out

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS: die("usage: run.py PROPERTY [quick|thorough]")
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    bd = os.path.join(HERE, "build", prop); shutil.rmtree(bd, ignore_errors=True); os.makedirs(bd)
    rep = os.path.join(HERE, "replays"); os.makedirs(rep, exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    env = dict(os.environ); env.pop("LD_PRELOAD", None)
    ctx = dict(bd=bd, tier=tier, repo=REPO, H=H, build_lib=build_lib, par=par, die=die, CFLAGS=CFLAGS_BASE)
    runs = CHECKS[prop]["build"](ctx)       # list of (label, argv)
    results, viols = [], []
    for label, argv in runs:
        out = os.path.join(bd, "result-%s.json" % label)
        for attempt in range(2):
            if os.path.exists(out): os.remove(out)
            r = subprocess.run(argv + ["--tier", tier, "--out", out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
            if os.path.exists(out) and r.returncode in (0, 1):
                d = json.load(open(out))
                if d["complete"] or d["violations"]: break
        else:
            die("RUN-ERROR: %s: exit %s\n%s" % (label, r.returncode, r.stdout[-3000:]))
        d["label"] = label; d["argv"] = argv; results.append(d)
        for v in d["violations"]: viols.append((label, argv, v))
        if viols: break
    known = load_known(prop); news = []; seen_known = set()
    for label, argv, v in viols:
        k = "%s:%d" % (label, v["case"])
        hit = [x for x in known if x[0] == k]
        if hit: seen_known.add(hit[0])
        else: news.append((label, argv, v, k))
    for k, w in sorted(seen_known): print("KNOWN-FINDING: property=%s %s" % (prop, w))
    cov = dict(states=sum(d["states"] for d in results), transitions=sum(d["transitions"] for d in results),
               traces_validated_against_impl=sum(d["compared"] for d in results),
               exhaustive=all(d["complete"] for d in results),
               cases=sum(d["cases_done"] for d in results), skipped=sum(d["skipped"] for d in results),
               bounds=[d["label"] + ": " + d["bounds"] for d in results],
               samples=[s for d in results for s in d["samples"]][:12] or ["(none)"],
               method=CHECKS[prop]["technique"])
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=CHECKS[prop].get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(news))
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    for i, (label, argv, v, k) in enumerate(news):
        path = os.path.join(rep, "%s-%d.txt" % (prop, i))
        with open(path, "w") as f:
            f.write("property: %s\ncase: %s\nreproduced in a fresh process: %s\n\nwhat failed: %s\n\nroot of the exploration: %s\n\nreplay (after building with: python3 run.py %s %s):\n  %s --tier %s --replay %d\n"
                    % (prop, k, v["reproduced"], v["msg"], v["describe"], prop, tier, " ".join(argv), tier, v["case"]))
        print("  ", v["msg"][:600])
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %d states, %d transitions, %d model comparisons, %.1fs: %s" % (prop, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], time.time() - t0, "VIOLATED" if news else "held"))
    sys.exit(1 if news else 0)

if __name__ == "__main__": main()
