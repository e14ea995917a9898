"""Decide one property: regenerate and discharge every obligation from /repo's current source."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
GOROOTBIN = "/opt/veriftools/go1.27.3/bin"


def goenv(tmp):
    e = dict(os.environ)
    e["PATH"] = GOROOTBIN + ":/usr/local/bin:/usr/bin:/bin"
    e.update(HOME=e.get("HOME", "/root"), LANG="C.UTF-8", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOENV="off", GOSUMDB="off",
             GONOSUMDB="*", GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod")
    cache = "/root/.cache/go-build"
    try:
        os.makedirs(cache, exist_ok=True)
        t = os.path.join(cache, ".w%d" % os.getpid())
        open(t, "w").close()
        os.unlink(t)
    except OSError:
        cache = os.path.join(tmp, "gocache")
    e["GOCACHE"] = cache
    e.pop("GOFLAGS", None)
    return e


def build_front(tmp, env):
    out = os.path.join(tmp, "front")
    e = dict(env, GOFLAGS="-mod=mod")
    fd = os.path.join(tmp, "frontsrc")
    shutil.copytree(os.path.join(VERIF, "front"), fd)
    r = subprocess.run(["go", "build", "-o", out, "."], cwd=fd, env=e, capture_output=True, text=True)
    if r.returncode:
        raise SystemExit("front end does not build:\n" + r.stderr)
    return out


EXTRA_ROOTS = ["github.com/golang/groupcache/lru", "encoding/binary", "math/bits", "slices", "maps", "cmp", "encoding/hex", "strings", "bytes", "strconv", "internal/stringslite"]


def modfiles(tmp):
    shutil.copy(os.path.join(REPO, "go.mod"), os.path.join(tmp, "g.mod"))
    shutil.copy(os.path.join(VERIF, "front", "gofer.sum"), os.path.join(tmp, "g.sum"))
    return "-mod=mod -modfile=" + os.path.join(tmp, "g.mod")


def dump(tmp, env, front):
    e = dict(env, GOFLAGS=modfiles(tmp))
    r = subprocess.run(["go", "list", "-e", "./..."], cwd=REPO, env=e, capture_output=True, text=True)
    pkgs = [p for p in r.stdout.split() if not p.endswith("/gofer/image")]
    if not pkgs:
        raise SystemExit("go list failed: " + r.stderr)
    out = os.path.join(tmp, "ssa.json")
    r = subprocess.run([front, REPO, out] + pkgs + EXTRA_ROOTS, cwd=REPO, env=e, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out):
        raise SystemExit("front end failed: " + r.stdout[-2000:] + r.stderr[-2000:])
    return out, pkgs


_prog = None
_specs = None


def work(a):
    f, i, scale = a
    from .verify import verify_item
    from .engine import Engine
    Engine.scale = scale
    spec = _specs[f]
    con = spec.items[i]
    R = verify_item(_prog, spec, con)
    return {"file": os.path.basename(f), "item": con.head, "kind": con.kind, "line": con.line, "error": R.error, "trace": getattr(R, "trace", None), "skipped": R.skipped, "assumed": getattr(R, "assumed", False),
            "fn": getattr(R, "fn", None), "calls": getattr(R, "calls", []), "stats": R.stats,
            "obls": [{"name": o.name, "line": o.line, "status": o.status, "backend": o.backend, "time": round(o.time, 3), "detail": o.detail, "kind": o.kind} for o in R.obls]}


def runner(q, a):
    try:
        q.put((a, work(a)))
    except BaseException as ex:  # report instead of dying silently
        q.put((a, {"file": os.path.basename(a[0]), "item": "?", "error": "crash: %r" % ex, "obls": [], "stats": {}, "skipped": False, "line": 0, "kind": "", "fn": None, "calls": []}))


def runall(tasks, limit, total=780, jobs=8):
    """each item in its own process"""
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    pend = list(tasks)
    live = {}
    out = {}
    t0 = time.time()
    import queue as Q
    while pend or live:
        while pend and len(live) < jobs:
            a = pend.pop(0)
            p = ctx.Process(target=runner, args=(q, a))
            p.start()
            live[a] = (p, time.time())
        try:
            a, r = q.get(timeout=1)
            out[a] = r
            p, _ = live.pop(a)
            p.join(5)
        except Q.Empty:
            pass
        now = time.time()
        for a, (p, t) in list(live.items()):
            dead = not p.is_alive() and q.empty()
            if now - t > limit or now - t0 > total or dead:
                if dead:
                    time.sleep(0.3)
                    if not q.empty():
                        continue
                p.kill()
                p.join(5)
                live.pop(a)
                out[a] = {"file": os.path.basename(a[0]), "item": "%s#%d" % (os.path.basename(a[0]), a[1]), "error": "verifier did not finish" if not dead else "verifier process died",
                          "obls": [], "stats": {}, "skipped": False, "line": 0, "kind": "", "fn": None, "calls": []}
        if now - t0 > total:
            for a in pend:
                out[a] = {"file": os.path.basename(a[0]), "item": "%s#%d" % (os.path.basename(a[0]), a[1]), "error": "verifier did not finish", "obls": [], "stats": {}, "skipped": False,
                          "line": 0, "kind": "", "fn": None, "calls": []}
            pend = []
    return [out[a] for a in tasks]


def known_findings():
    out = []
    p = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                d = dict(x.split("=", 1) for x in l.split("|")[0].split()[1:] if "=" in x)
                d["what"] = l.split("|", 1)[1].strip() if "|" in l else ""
                out.append(d)
    return out


def all_known(prop, rs):
    known = [k for k in known_findings() if k.get("property") == prop]
    for r in rs:
        if r["error"]:
            return False
        for o in r["obls"]:
            if o["status"] != "proved" and not any(x.get("item") == r["item"].replace(" ", "") and x.get("obligation") == o["name"].replace(" ", "_") for x in known):
                return False
    return True


def run_replay(prop, cfg, tmp, env, seed, tier):
    """concrete search against the real code with a reference oracle"""
    logs = []
    found = None
    for pkg, f in cfg.get("replay", []):
        src = os.path.join(VERIF, "replay", f)
        if not os.path.exists(src):
            continue
        tgt = os.path.join(REPO, pkg, "zz_verif_%s_test.go" % prop.lower())
        ov = os.path.join(tmp, "ov.json")
        # the package's own test files are left out so that the driver runs alone
        repl = {tgt: src}
        for t in os.listdir(os.path.join(REPO, pkg)):
            if t.endswith("_test.go"):
                repl[os.path.join(REPO, pkg, t)] = ""
        json.dump({"Replace": repl}, open(ov, "w"))
        scratch = tempfile.mkdtemp(prefix="replay", dir=tmp)
        e = dict(env, GOFLAGS=modfiles(tmp), VERIF_SEED=str(seed), VERIF_SCRATCH=scratch, TMPDIR=scratch)
        cmd = ["go", "test", "-overlay", ov, "-vet=off", "-count=1", "-timeout", "100s", "-run", "^TestVerifReplay"] + (["-race"] if cfg.get("race") else []) + ["./" + pkg]
        try:
            r = subprocess.run(cmd, cwd=REPO, env=e, capture_output=True, text=True, timeout=160)
            txt = r.stdout + r.stderr
        except subprocess.TimeoutExpired as ex:
            txt = "replay driver timed out"
            r = None
        logs.append("$ %s\n%s" % (" ".join(cmd), txt[-6000:]))
        shutil.rmtree(scratch, ignore_errors=True)
        if r is not None and r.returncode != 0:
            bad = [l for l in txt.split("\n") if "REPLAY-FAIL" in l]
            if bad:
                found = bad[0].strip()
                break
            if "WARNING: DATA RACE" in txt:
                found = "data race reported by the race detector"
                break
            if "panic:" in txt and "build failed" not in txt and "test timed out" not in txt:
                found = [l for l in txt.split("\n") if "panic:" in l][0].strip()
                break
            if "test timed out" in txt and cfg.get("hang_is_failure"):
                found = "operation does not return: " + [l for l in txt.split("\n") if "test timed out" in l][0].strip()
                break
            if "fatal error:" in txt and "build failed" not in txt:
                found = [l for l in txt.split("\n") if "fatal error:" in l][0].strip()
                break
    return found, "\n".join(logs)


def main():
    prop = sys.argv[1]
    tier = "thorough" if "--thorough" in sys.argv else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from .props import PROPS
    cfg = PROPS[prop]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="gvc-")
    rc = 1
    try:
        rc = decide(prop, cfg, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(prop, cfg, tier, seed, tmp, t0):
    global _prog, _specs
    env = goenv(tmp)
    front = build_front(tmp, env)
    ssa, pkgs = dump(tmp, env, front)
    from .ssaload import Program
    from .spec import SpecFile
    from . import spec as S
    _prog = Program(ssa)
    bl = os.path.join(VERIF, "contracts", "baseline.json")
    if os.path.exists(bl):
        S.E_BASE.update(json.load(open(bl)))
    _specs = {}
    tasks = []
    for f in cfg["specs"]:
        p = os.path.join(VERIF, "contracts", f)
        _specs[p] = SpecFile(p)
        for i, it in enumerate(_specs[p].items):
            if "thorough-only" in it.opts and tier != "thorough":
                continue
            tasks.append((p, i, 3 if tier == "thorough" else 1))
    res = runall(tasks, 620, 640)
    bad = [k for k, r in enumerate(res) if not r["skipped"] and (r["error"] or any(o["status"] != "proved" for o in r["obls"]))]
    confirm, rlog = "", ""
    replayed = False
    if bad:
        # look for a concrete failing input first; without one, give the provers more time before reporting
        confirm, rlog = run_replay(prop, cfg, tmp, env, seed, tier)
        replayed = True
        left = min(250, 780 - (time.time() - t0))
        if not confirm and left > 30 and not all_known(prop, [res[k] for k in bad]):
            again = runall([(tasks[k][0], tasks[k][1], 5) for k in bad], left, left - 10, jobs=4)
            for k, r in zip(bad, again):
                if sum(1 for o in r["obls"] if o["status"] != "proved") <= sum(1 for o in res[k]["obls"] if o["status"] != "proved") or res[k]["error"]:
                    if not (r["error"] and not res[k]["error"]):
                        res[k] = r
    failed, proved, skipped = [], [], []
    for r in res:
        if r["skipped"]:
            if not r.get("assumed"):
                skipped.append(r["item"])
            continue
        if r["error"]:
            failed.append((r["item"], "verification", r["error"], r["line"], ""))
        for o in r["obls"]:
            key = (r["item"], o["name"], o["status"], o["line"], o["detail"])
            if o["status"] == "proved":
                proved.append((r, o))
            else:
                failed.append(key)
    if not res or not (proved or failed):
        failed.append((prop, "no obligations were generated", "", 0, ""))
    known = [k for k in known_findings() if k.get("property") == prop]
    hits, real = [], []
    for f in failed:
        k = [x for x in known if x.get("item") == f[0].replace(" ", "") and x.get("obligation") == f[1].replace(" ", "_")]
        (hits if k else real).append((f, k))
    nviol = len(real)
    for x in known:
        if "obligation" not in x or any(k and k[0] is x for _, k in hits):
            print("KNOWN-FINDING: property=%s %s" % (prop, x["what"]))
    if not replayed and (real or tier == "thorough"):
        confirm, rlog = run_replay(prop, cfg, tmp, env, seed, tier)
    if confirm and not real:
        # the assumed library contracts are contradicted by an execution
        real.append(((prop, "assumed library contracts (replay of the real code)", "failed", 0, confirm), []))
        nviol = len(real)
    wall = time.time() - t0
    write_evidence(prop, cfg, tier, seed, res, proved, failed, nviol, wall, skipped, confirm, len(hits))
    if real:
        path = os.path.join(VERIF, "evidence", "replay-%s.txt" % prop)
        with open(path, "w") as f:
            f.write("property %s: obligations not discharged on the current source of %s\n" % (prop, REPO))
            for (it, nm, stt, ln, det), _ in real:
                f.write("- %s / %s [%s] source line %s %s\n" % (it, nm, stt, ln, det))
            f.write("\nconcrete replay on the real code: %s\n" % (confirm or "no failing input found"))
            f.write(rlog + "\n")
            for r in res:
                if r.get("trace"):
                    f.write("\n%s\n%s" % (r["item"], r["trace"]))
        for (it, nm, stt, ln, det), _ in real[:12]:
            print("failed obligation: %s / %s [%s] line %s" % (it, nm, stt, ln))
        if confirm:
            print("replayed on the real code: " + confirm[:400])
            print("VIOLATION property=%s replay=%s" % (prop, path))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path))
        return 1
    print("%s: %d obligations discharged in %.1fs" % (prop, len(proved), wall))
    return 0


def write_evidence(prop, cfg, tier, seed, res, proved, failed, nviol, wall, skipped, confirm, nknown):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    trusted, inl, contracted, back, loops = set(), set(), set(), {}, []
    qt = 0.0
    modes = set()
    for r in res:
        st = r.get("stats") or {}
        trusted.update(st.get("trusted", []))
        inl.update(st.get("inlined", []))
        if r.get("fn"):
            contracted.add(r["fn"])
        contracted.update(r.get("calls") or [])
        qt += st.get("qtime", 0)
        loops += [list(x) for x in st.get("loops", [])]
        if st:
            modes.add("%s: %s integers%s" % (r["item"], {"int": "mathematical (wrapped at each machine operation)", "bv": "bit-vector", "mixed": "bit-vector bytes, wrapped mathematical"}[st["mode"]],
                                             ", loops may be unrolled up to %d times only when that is proved to be every iteration" % st["unroll"] if st.get("unroll") else ""))
    for r, o in proved:
        back[o["backend"]] = back.get(o["backend"], 0) + 1
        qt += o["time"]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": cfg.get("level", "proof"),
          "coverage": {"obligations": len(proved) + len(failed), "discharged": len(proved),
                       "checker_cmd": "./run.sh %s" % prop,
                       "trusted_base": sorted(trusted) + ["gvc verification-condition generator (/verif/gvc) over go/ssa of the current source", "golang.org/x/tools/go/ssa", "z3 5.3.2, cvc5 1.1.2"],
                       "functions_under_contract": sorted(contracted), "helpers_verified_inline": sorted(inl - contracted),
                       "backends": back, "solver_time_s": round(qt, 1),
                       "items": [{"item": r["item"], "obligations": len(r["obls"]), "discharged": sum(1 for o in r["obls"] if o["status"] == "proved"), "paths": (r["stats"] or {}).get("paths")} for r in res],
                       "loop_invariants": loops, "arithmetic": sorted(modes), "absent_optional_targets": skipped,
                       "known_findings_reported": nknown},
          "assumptions": cfg.get("assumptions", []) + ["Assumed contract, its body carries no obligation here: " + r["item"] for r in res if r.get("assumed")] + COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 1), "violations": nviol}
    if cfg.get("level", "proof") != "proof":
        pass
    ev["coverage"].update(cfg.get("extra_coverage", {}))
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)


COMMON_ASSUMPTIONS = [
    "Each operation is verified from any state satisfying its representation invariant; other goroutines act only between critical sections (lock discipline is property C24).",
    "Slices and strings are at most 2^48 long; memory is never exhausted; termination is not proved.",
    "Library functions listed in trusted_base behave as the contracts in gvc/models*.py state.",
]

if __name__ == "__main__":
    main()
