#!/usr/bin/env python3
"""Runs the check of one property: build /repo's current tree, run the workload under the
monitors, judge what they reported, write evidence.

  check.py ID [--tier quick|thorough] [--seed N]     exit 0 held / 1 violation / 2 no answer
  check.py ID --replay FILE                          run the case of a replay file again
"""
import argparse, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "vlib"))
import build as B
from props import PROPS

MAX_RESTARTS = 6
ASAN = "detect_leaks=1:leak_check_at_exit=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"


VALGRIND = ["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes", "--undef-value-errors=yes"]


_LEAKS = {}


def leaks_work(exe):
    """Whether the leak detector can run here (it needs to stop the process's threads)."""
    if exe not in _LEAKS:
        env = dict(os.environ, ASAN_OPTIONS=ASAN)
        try:
            _LEAKS[exe] = subprocess.run([exe, "--probe-leaks"], env=env, stdout=subprocess.DEVNULL,
                                         stderr=subprocess.DEVNULL, timeout=120).returncode == 0
        except subprocess.TimeoutExpired:
            _LEAKS[exe] = False
    return _LEAKS[exe]


def command(cfg, prop, tier, seed, unit, extra):
    cmd = [unit["exe"], "--prop", prop, "--tier", tier, "--seed", str(seed), "--shard", str(unit["shard"]),
           "--shards", str(unit["shards"])] + extra
    if "part" in cfg:       # the memory monitors take a part of the workloads of all harnesses
        cmd += ["--part", str(cfg["part"][tier])]
    if cfg.get("valgrind"):
        cmd = VALGRIND + cmd + ["--stretch", "60"]
    elif "part" in cfg and leaks_work(unit["exe"]):
        cmd += ["--leaks", "1"]
    return cmd


def units(cfg, exes, shards):
    """What is run, each by a process of its own: a harness and its share of the cases."""
    if isinstance(cfg["harness"], str):
        return [{"id": i, "harness": cfg["harness"], "exe": exes[cfg["harness"]], "shard": i, "shards": shards}
                for i in range(shards)]
    out = []
    for h in cfg["harness"]:
        n = cfg.get("split", {}).get(h, 4)
        for i in range(n):
            out.append({"id": len(out), "harness": h, "exe": exes[h], "shard": i, "shards": n})
    return out


def run_shard_start(cfg, prop, tier, seed, unit, start, workdir):
    shard = unit["id"]
    out = os.path.join(workdir, "s%d.jsonl" % shard)
    err = open(os.path.join(workdir, "s%d.err" % shard), "wb")
    scratch = os.path.join(workdir, "cwd%d" % shard)
    os.makedirs(scratch, exist_ok=True)
    cmd = command(cfg, prop, tier, seed, unit, ["--start", str(start), "--out", out])
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = ASAN
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    env["TMPDIR"] = scratch
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, cwd=scratch, env=env)
    return p, out, err.name


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def known_match(known, prop, v):
    for f in known["findings"]:
        if f["property"] != prop or f["key"] != v["key"]:
            continue
        if "input_regex" in f and not re.search(f["input_regex"], v.get("input", "")):
            continue
        if "detail_regex" in f and not re.search(f["detail_regex"], v.get("detail", "")):
            continue
        return f
    return None


def unlisted(workdir, a, count):
    known = load_known()
    for i in range(count):
        out = os.path.join(workdir, "s%d.jsonl" % i)
        if not os.path.exists(out):
            continue
        for l in open(out, errors="replace"):
            if '"violation"' in l[:40]:
                try:
                    if not known_match(known, a.prop, json.loads(l)):
                        return True
                except ValueError:
                    pass
    return False


def frames(err):
    """The part of a report which says where: its innermost frames, shortened."""
    ls = [re.sub(r"(boost::multiprecision::)?number<.{0,120}?expression_template_option\)\d>", "mp", l) for l in err.splitlines()]
    at = [i for i, l in enumerate(ls) if re.match(r"\s*#0 |==\d+==    at ", l)]
    return "\n".join(l[:400] for l in ls[max(0, at[0] - 4):at[0] + 8]) if at else err[-2500:]


def where(u):
    return {"shard": u["shard"], "shards": u["shards"], "harness": u["harness"]}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--setup", action="store_true", help="see that the tools the checks need are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay")
    ap.add_argument("--shards", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    a = ap.parse_args()
    t0 = time.time()
    if a.setup:     # nothing is prepared: every check builds what it needs from /repo's current tree
        subprocess.check_call([B.CXX, "--version"])
        print("%d library sources, %d checks" % (len(B.lib_sources()), len(PROPS)))
        return 0
    cfg = PROPS[a.prop]
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    try:
        hs = [cfg["harness"]] if isinstance(cfg["harness"], str) else cfg["harness"]
        exes = B.build(hs, cfg.get("flavour", "fast"))
    except (B.BuildError, subprocess.TimeoutExpired) as e:
        print("ERROR: the tree (or the harness against it) does not build:\n%s" % e)
        return 2
    if a.replay:
        r = json.load(open(a.replay))
        w = tempfile.mkdtemp(prefix="vreplay.")
        try:
            h = r.get("harness", hs[0])
            unit = {"exe": exes[h], "shard": r["shard"], "shards": r["shards"]}
            return subprocess.run(command(cfg, a.prop, r["tier"], r["seed"], unit, ["--stop", str(r["case"])]), cwd=w).returncode
        finally:
            shutil.rmtree(w, ignore_errors=True)

    workdir = tempfile.mkdtemp(prefix="vcheck-%s." % a.prop)
    violations, cov, errors, cut = [], [], [], 0
    try:
        seeds = [a.seed] if tier == "quick" else [a.seed + i * 1000 for i in range(cfg.get("thorough_seeds", 2))]
        deadline = t0 + (740 if tier == "quick" else 6 * 3600)
        for seed in seeds:
            running = {}
            us = units(cfg, exes, a.shards)
            waiting = list(us)
            restarts = {u["id"]: 0 for u in us}
            curtailed, looked = False, 0
            while running or waiting:
                while waiting and len(running) < a.shards and time.time() < deadline:
                    u = waiting.pop(0)
                    running[u["id"]] = run_shard_start(cfg, a.prop, tier, seed, u, 0, workdir)
                if waiting and time.time() >= deadline:
                    if not curtailed:
                        errors.append("wall-clock budget of the whole run exceeded")
                    waiting = []
                time.sleep(0.05)
                if tier == "quick" and not curtailed and time.time() - looked > 2:
                    # once something is found, the rest need not be waited for
                    looked = time.time()
                    if violations or unlisted(workdir, a, len(us)):
                        curtailed = True
                        deadline = min(deadline, time.time() + 120)
                for i in list(running):
                    p, out, errf = running[i]
                    rc = p.poll()
                    if rc is None:
                        if time.time() > deadline:
                            p.kill()
                            p.wait()
                            if not curtailed:
                                errors.append("wall-clock budget of the whole run exceeded")
                            del running[i]
                        continue
                    del running[i]
                    if rc == 0:
                        continue
                    err_text = open(errf, "rb").read().decode(errors="replace")
                    if rc == 2:
                        errors.append("harness error: " + err_text[-2000:])
                        continue
                    try:
                        j = open(out + ".journal", "rb").read().split(b"\0")[0].decode(errors="replace")
                        case, _, text = j.partition("\t")
                        case = int(case)
                    except Exception:
                        errors.append("shard %d died (%d) before its first case: %s" % (i, rc, err_text[-1500:]))
                        continue
                    if rc == -signal.SIGKILL:
                        errors.append("shard %d was killed in case %d (memory?)" % (i, case))
                        continue
                    restarts[i] += 1
                    if rc == 97 and "part" in cfg:      # slowed down by the monitor: nothing to judge
                        cut += 1
                        if restarts[i] <= MAX_RESTARTS:
                            running[i] = run_shard_start(cfg, a.prop, tier, seed, us[i], case + 1, workdir)
                        continue
                    kind = "no-termination" if rc == 97 else "sanitizer" if rc == 99 else "crash"
                    m = re.search(r"(SUMMARY: .*|==\d+== (?:Conditional jump|Use of uninit|Syscall param|Invalid (?:read|write|free)).*|runtime error: .*|Assertion .* failed|terminate called.*)", err_text)
                    violations.append({"key": kind, "case": case, "input": text, "seed": seed, **where(us[i]),
                                       "detail": "%s (exit %d) %s\n%s" % (kind, rc, m.group(1) if m else "", frames(err_text))})
                    if restarts[i] <= MAX_RESTARTS:
                        running[i] = run_shard_start(cfg, a.prop, tier, seed, us[i], case + 1, workdir)
            for i in range(len(us)):
                out = os.path.join(workdir, "s%d.jsonl" % i)
                if not os.path.exists(out):
                    continue
                last = None
                for l in open(out, errors="replace"):
                    try:
                        d = json.loads(l)
                    except ValueError:
                        continue
                    if d["type"] == "violation":
                        d.update(where(us[i]))
                        d["seed"] = seed
                        violations.append(d)
                    elif d["type"] == "cov":
                        if d["final"]:
                            cov.append(d)
                            last = None
                        else:
                            last = d
                if last:
                    cov.append(last)
                os.unlink(out)
    finally:
        shutil.rmtree(workdir, ignore_errors=True)

    counters, sigs, samples, ev, cases = {}, set(), [], 0, 0
    for c in cov:
        for k, v in c["counters"].items():
            counters[k] = counters.get(k, 0) + v
        sigs.update(c["sigs"])
        samples += c["samples"]
        ev += c["evaluations"]
        cases += c["cases"]
    if cut:
        counters["cases cut off for time"] = cut
    known = load_known()
    shown, new = {}, []
    for v in violations:
        f = known_match(known, a.prop, v)
        if f:
            shown.setdefault(f["id"], [f, 0])[1] += 1
        else:
            new.append(v)
    for f, n in shown.values():
        print("KNOWN-FINDING: property=%s %s (seen %d times)" % (a.prop, f["what"], n))
    missing = [r for r in cfg.get("require", []) if counters.get(r, 0) == 0]
    seen_keys, lines = set(), []
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    for v in new:
        if v["key"] in seen_keys:
            continue
        seen_keys.add(v["key"])
        rp = os.path.join(VERIF, "replays", "%s-%s.json" % (a.prop, re.sub(r"[^\w.-]+", "_", v["key"])[:60]))
        json.dump(dict(v, property=a.prop, tier=tier,
                       replay_cmd="python3 %s/check.py %s --replay %s" % (VERIF, a.prop, rp)), open(rp, "w"), indent=1)
        lines.append("VIOLATION property=%s replay=%s" % (a.prop, rp))
        print("%s\n  monitor: %s\n  case %s (seed %s): %s\n  %s" % (lines[-1], v["key"], v["case"], v["seed"],
              v.get("input", "")[:1500], v.get("detail", "")[:2000].replace("\n", "\n  ")))
    dist = max(len(sigs), 0)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    evd = {
        "property": a.prop, "tier": tier, "seed": a.seed, "level": cfg["level"],
        "coverage": {"evaluations": ev, "distinct_nontrivial": dist, "rule": cfg["rule"],
                     "samples": samples[:8], "cases": cases,
                     "observed": dict(sorted(counters.items()))},
        "wall_s": round(time.time() - t0, 2),
        "assumptions": cfg.get("assumptions", []),
        "violations": len(new), "known_findings_seen": sorted(shown),
    }
    json.dump(evd, open(os.path.join(VERIF, "evidence", a.prop + ".json"), "w"), indent=1)
    print("%s: %d cases, %d oracle evaluations, %d distinct non-trivial; %s" % (
        a.prop, cases, ev, dist, ", ".join("%s=%d" % kv for kv in sorted(counters.items()))[:1800]))
    if new:
        return 1
    if errors:
        print("ERROR: " + "\n".join(errors[:5]))
        return 2
    if missing or ev == 0 or dist == 0:
        print("ERROR: the run observed none of: %s (evaluations %d)" % (missing, ev))
        return 2
    print("%s: held on everything observed, %.1f s" % (a.prop, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main())
