#!/usr/bin/env python3
"""Runs one property check:  check.py C07 [--tier quick|thorough] [--replay FILE]"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import vbuild, checks  # noqa: E402


def run_env(spec):
    e = dict(os.environ)
    e.update({
        "OMP_THREAD_LIMIT": "3", "OMP_WAIT_POLICY": "passive", "OMP_DYNAMIC": "false",
        "ASAN_OPTIONS": "detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=1:"
                        "max_allocation_size_mb=4096:abort_on_error=0:exitcode=77:symbolize=0:handle_abort=0:"
                        "detect_odr_violation=0:use_sigaltstack=0",
        "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:symbolize=0:report_signal_unsafe=0:"
                        "suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
        "GLOG_logtostderr": "1",
        "LC_ALL": "C", "TZ": "UTC",
    })
    e.update(spec["env"])
    return e


def known_findings(pid):
    out = {}
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == pid:
                out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--replay")
    ap.add_argument("--only", default="")
    ap.add_argument("--scale", default="1")
    ap.add_argument("--jobs", default="0")
    a = ap.parse_args()
    pid = a.property
    seed = int(re.sub(r"\D", "", a.seed) or "1")
    spec = checks.C[pid]
    programs = checks.programs(pid)
    t0 = time.time()
    built = vbuild.build(programs)
    for n, r in built.items():
        if isinstance(r, vbuild.BuildError):
            print("ERROR building check %s\n%s" % (n, r), file=sys.stderr)
            return 2
    build_s = time.time() - t0
    root = os.path.join(vbuild.BUILD, "scratch")
    os.makedirs(root, exist_ok=True)
    scratch = tempfile.mkdtemp(prefix=pid + "_", dir=root)
    try:
        if a.replay:
            pr = [q for q in programs if os.path.basename(a.replay).startswith(q["name"] + "_")][-1]
            p = subprocess.run([built[pr["name"]], "--replay", os.path.abspath(a.replay), "--scratch", scratch],
                               env=dict(run_env(pr), TSAN_OPTIONS=run_env(pr)["TSAN_OPTIONS"].replace("symbolize=0", "symbolize=1"),
                                        ASAN_OPTIONS=run_env(pr)["ASAN_OPTIONS"].replace("symbolize=0", "symbolize=1")))
            return p.returncode
        rep_dir = os.path.join(VERIF, "replays")
        os.makedirs(rep_dir, exist_ok=True)
        cap = spec["thorough_cap"] if a.tier == "thorough" else spec["quick_cap"]
        # leave room for building inside the 900 s limit of a check
        cap = max(30, min(cap, 790 - build_s)) / len(programs)
        res = None
        for pr in programs:
            replay = os.path.join(rep_dir, "%s_%s_seed%d.txt" % (pr["name"], a.tier, seed))
            if os.path.exists(replay):
                os.unlink(replay)
            out = os.path.join(scratch, "result.json")
            if os.path.exists(out):
                os.unlink(out)
            cmd = [built[pr["name"]], "--tier", a.tier, "--seed", str(seed), "--out", out, "--replay-out", replay,
                   "--scratch", scratch, "--max-s", str(cap), "--scale", a.scale, "--jobs", a.jobs]
            if a.only:
                cmd += ["--only", a.only]
            p = subprocess.run(cmd, env=run_env(pr))
            if p.returncode not in (0, 1) or not os.path.exists(out):
                print("ERROR: the check program ended with %d" % p.returncode, file=sys.stderr)
                return 3
            r = json.load(open(out))
            if res is None:
                res = r
            else:
                for k in ("evaluations", "distinct_nontrivial", "discarded"):
                    res[k] += r[k]
                res["rule"] += "; with the thread sanitizer: " + r["rule"]
                res["samples"] = res["samples"][:8] + r["samples"][:4]
                res["subs"].update(r["subs"])
                res["assumptions"] += r["assumptions"]
                if r["notes"]:
                    res["notes"] = (res["notes"] or []) + r["notes"]
                for k in ("violated", "sub", "message"):
                    res[k] = r.get(k)
            if res["violated"]:
                break
        ev = {
            "property": pid, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": seed,
            "level": "exploration",
            "coverage": {"evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
                         "rule": res["rule"], "samples": res["samples"][:12], "discarded": res["discarded"],
                         "subs": res["subs"]},
            "wall_s": round(time.time() - t0, 2),
            "assumptions": res["assumptions"], "violations": 1 if res["violated"] else 0,
        }
        if res["notes"]:
            ev["coverage"]["notes"] = res["notes"]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        tmp = os.path.join(VERIF, "evidence", pid + ".json.tmp")
        json.dump(ev, open(tmp, "w"), indent=1)
        os.rename(tmp, os.path.join(VERIF, "evidence", pid + ".json"))
        known = known_findings(pid)
        seen = set()
        for s in res["subs"].values():
            seen |= set(s["known"])
        unlisted = [k for k in seen if k not in known]
        for k in sorted(seen & set(known)):
            print("KNOWN-FINDING: property=%s %s" % (pid, known[k]))
        if res["violated"]:
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            print("  %s: %s" % (res["sub"], res["message"][:1500]))
            return 1
        if unlisted:
            with open(replay, "w") as f:
                f.write("unlisted finding ids: %s\n" % unlisted)
            print("VIOLATION property=%s replay=%s" % (pid, replay))
            return 1
        print("OK property=%s cases=%d distinct_nontrivial=%d wall=%.1fs" % (
            pid, res["evaluations"], res["distinct_nontrivial"], time.time() - t0))
        return 0
    finally:
        if scratch.startswith(root + "/" + pid + "_"):
            shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
