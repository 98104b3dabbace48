#!/usr/bin/env python3
"""Runs the check of one property: ./run.py P01 [--tier quick|thorough] [--shards N] [--sub NAME]

Builds the harness against /repo's working tree, explores in parallel shards, writes
evidence/<id>.json. Exit 0: held on everything explored. Exit 1: a VIOLATION line was printed.
Exit 2: the check itself could not run or gave no answer.
"""
import argparse, json, os, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
RACE = {"P24"}            # built with the race detector
LIMITED = {"P19": 6 << 30}  # address space limit: these try inputs that may exhaust memory


def go_env():
    env = dict(os.environ)
    env.update(GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off", GOSUMDB="off", CGO_ENABLED=env.get("CGO_ENABLED", "1"))
    env.setdefault("HOME", "/root")
    env["PATH"] = "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + env.get("PATH", "")
    return env


def build(out, race, repo=None):
    """Compiles the harness (against another tree than /repo if told so)."""
    cmd = ["go", "build", "-o", out]
    env = go_env()
    modfile = None
    # go may rewrite go.mod and go.sum: work on copies.
    d = os.path.dirname(out)
    modfile = os.path.join(d, "go.mod")
    text = open(os.path.join(HERE, "harness", "go.mod")).read()
    if repo:
        text = text.replace("=> /repo", "=> " + repo)
    open(modfile, "w").write(text)
    shutil.copy(os.path.join(HERE, "harness", "go.sum"), os.path.join(d, "go.sum"))
    cmd += ["-modfile", modfile]
    if race:
        cmd.append("-race")
    cmd.append("./props")
    p = subprocess.run(cmd, cwd=os.path.join(HERE, "harness"), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print("build failed:\n" + p.stdout, file=sys.stderr)
        return False
    return True


def limiter(limit):
    def f():
        os.setsid()
        if limit:
            resource.setrlimit(resource.RLIMIT_AS, (limit, limit))
    return f


def launch(binary, env, limit, log):
    return subprocess.Popen([binary], env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=limiter(limit), cwd=env["VERIF_SCRATCH"])


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--sub", default="")
    ap.add_argument("--replay", default="", help="run the case in this file again")
    ap.add_argument("--repo", default="", help="for experiments: check this tree instead of /repo")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="nnverif-")
    try:
        if a.id == "BUILD":  # warms the build cache
            return 0 if all(build(os.path.join(work, "props.bin"), race) for race in (False, True)) else 2
        return replay(a, work) if a.replay else explore(a, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def replay(a, work):
    pid = json.load(open(a.replay))["property"]
    binary = os.path.join(work, "props.bin")
    if not build(binary, pid in RACE, a.repo):
        return 2
    env = go_env()
    env.update(VERIF_REPLAY=os.path.abspath(a.replay), VERIF_SCRATCH=work, GORACE="halt_on_error=1 exitcode=66")
    rc = launch(binary, env, LIMITED.get(pid, 0), None).wait()
    return rc if rc in (0, 2) else 1


def explore(a, seed, work, t0):
    race = a.id in RACE
    binary = os.path.join(work, "props.bin")
    if not build(binary, race, a.repo):
        return 2
    limit = LIMITED.get(a.id, 0)
    budget = 840 if a.tier == "quick" else 6 * 3600
    procs = []
    for i in range(a.shards):
        sd = os.path.join(work, "s%d" % i)
        os.mkdir(sd)
        env = go_env()
        env.update(VERIF_ID=a.id, VERIF_TIER=a.tier, VERIF_SEED=str(seed), VERIF_SHARD=str(i), VERIF_SHARDS=str(a.shards),
                   VERIF_OUT=os.path.join(work, "out%d" % i), VERIF_CUR=os.path.join(work, "cur%d" % i), VERIF_SCRATCH=sd, VERIF_SUB=a.sub,
                   GOMAXPROCS="4" if race else "2", GORACE="halt_on_error=1 exitcode=66")
        log = open(os.path.join(work, "log%d" % i), "w+")
        procs.append((launch(binary, env, limit, log), env, log))
    failure, problem = None, None
    pending = set(range(a.shards))
    while pending and not problem and not failure:
        time.sleep(0.05)
        if time.time() - t0 > budget:
            problem = "time ran out"
        for i in sorted(pending):
            p, env, log = procs[i]
            if p.poll() is None:
                continue
            pending.discard(i)
            log.flush()
            log.seek(0)
            text = log.read()
            if p.returncode == 0:
                rep = json.load(open(env["VERIF_OUT"]))
                if rep["failure"] and not failure:
                    failure = rep["failure"]
                elif rep["error"]:
                    problem = rep["error"]
                if os.environ.get("VERIF_TIMING"):
                    sys.stderr.write(text)
                continue
            # The process died. It may have been the case it was trying.
            cur = env["VERIF_CUR"]
            if os.path.exists(cur):
                f = json.load(open(cur))
                if race and p.returncode == 66:
                    f["error"] = "data race\n" + text[:6000]
                    failure = f
                    continue
                f["error"] = "%s (exit %d)\n%s" % (f["error"], p.returncode, text[-1500:])
                if confirm(binary, cur, limit, work, p.returncode, env):
                    failure = f
                    continue
            if race and p.returncode == 66:
                failure = {"property": a.id, "sub": "race", "error": text[:6000], "case": None}
                continue
            problem = "shard %d ended with %d:\n%s" % (i, p.returncode, text[-4000:])
    for p, _, log in procs:
        kill(p)
        log.close()
    if failure:
        problem = None
    stats = collect(a, work, procs)
    if problem:
        print("check %s gave no answer: %s" % (a.id, problem), file=sys.stderr)
        return 2
    if not failure and not stats["evaluations"]:
        print("check %s: nothing was explored" % a.id, file=sys.stderr)
        return 2
    evidence = {
        "property": a.id, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": stats, "wall_s": round(time.time() - t0, 2), "violations": 1 if failure else 0,
        "assumptions": ["the reference implementation harness/ref is right", "the generators described in the rule reach the inputs that matter"],
    }
    if not a.sub and not a.repo:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", a.id + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)
    if failure:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        path = os.path.join(HERE, "replays", "%s-%s.json" % (a.id, failure["sub"]))
        with open(path, "w") as f:
            json.dump(failure, f, indent=1)
        print("%s/%s: %s" % (a.id, failure["sub"], failure["error"][:1500]))
        print("case: %s" % json.dumps(failure["case"])[:1500])
        print("VIOLATION property=%s replay=%s" % (a.id, path))
        return 1
    for line in known(a.id):
        print("KNOWN-FINDING: property=%s %s" % (a.id, line))
    print("%s held: %d cases, %d distinct and non-trivial, %.1f s" % (a.id, stats["evaluations"], stats["distinct_nontrivial"], time.time() - t0))
    return 0


def confirm(binary, cur, limit, work, code, env):
    """Tries the case again on its own: does it end (or hang) the process again?"""
    sd = tempfile.mkdtemp(dir=work)
    e = dict(env, VERIF_REPLAY=cur, VERIF_SCRATCH=sd)
    e.pop("VERIF_CUR")
    p = subprocess.Popen([binary], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=limiter(limit), cwd=sd)
    try:
        out, _ = p.communicate(timeout=200)
    except subprocess.TimeoutExpired:
        kill(p)
        return False
    return p.returncode == 1 or p.returncode != 0 and ("fatal error" in out or "panic" in out)


def collect(a, work, procs):
    """Merges what the shards report into one coverage object."""
    subs, hashes = {}, {}
    for _, env, _ in procs:
        try:
            rep = json.load(open(env["VERIF_OUT"]))
        except (OSError, ValueError):
            continue
        for st in rep["stats"] or []:
            m = subs.setdefault(st["sub"], {"evaluations": 0, "set_aside": 0, "classes": {}, "samples": [], "rule": st["rule"]})
            m["evaluations"] += st["evaluations"]
            m["set_aside"] += st["set_aside"]
            for k, v in st["classes"].items():
                m["classes"][k] = m["classes"].get(k, 0) + v
            if len(m["samples"]) < 2:
                m["samples"] += [s[:700] for s in (st["samples"] or [])][:2 - len(m["samples"])]
            hashes.setdefault(st["sub"], set()).update(st["hashes"] or [])
    return {
        "evaluations": sum(m["evaluations"] for m in subs.values()),
        "distinct_nontrivial": sum(len(h) for h in hashes.values()),
        "rule": " | ".join("%s: %s" % (k, m["rule"]) for k, m in subs.items()) or "nothing explored",
        "samples": [{"check": k, "case": s} for k, m in subs.items() for s in m["samples"]],
        "checks": {k: {"evaluations": m["evaluations"], "distinct_nontrivial": len(hashes[k]), "comparisons_set_aside": m["set_aside"],
                       "classes": dict(sorted(m["classes"].items()))} for k, m in subs.items()},
        "shards": a.shards,
    }


def known(pid):
    """The findings listed for a property (fixed ones suppress nothing and are not printed)."""
    try:
        lines = open(os.path.join(HERE, "known-findings.txt")).read().splitlines()
    except OSError:
        return []
    pre = "finding: property=%s " % pid
    return [l[len(pre):] for l in lines if l.startswith(pre)]


if __name__ == "__main__":
    sys.exit(main())
