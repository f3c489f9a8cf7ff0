#!/usr/bin/env python3
"""run.py <property> [quick|thorough]        decide one property on /repo's working tree
   run.py <property> --replay FILE           re-run a recorded failing case

Every run compiles the harness against /repo/include as it is now, generates cases from VERIF_SEED, judges them
against the oracle, writes evidence/<property>.json and, on failure, a shrunk replay file plus a VIOLATION line.
Exit: 0 held on everything explored, 1 violation, 2 error of the check itself."""
import concurrent.futures, json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if __name__ == "__main__":
    sys.modules["run"] = sys.modules["__main__"]
REPO = os.environ.get("VERIF_REPO", "/repo")
H = os.path.join(HERE, "harness")
CXX = "clang++-18"
BASE = ["-std=c++20", "-O1", "-g1", "-w", "-D_GLIBCXX_ASSERTIONS", "-I" + os.path.join(REPO, "include"), "-I" + H]
SAN = ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize-recover=all"]
EVID = os.path.join(HERE, "evidence")


class HarnessError(Exception):
    pass


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b"").decode(errors="replace") + "\n[timeout]"


def compile_many(jobs, workers=8, timeout=600):
    """jobs: [(argv, label)] -> [(rc, output, label)]"""
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        futs = [(ex.submit(sh, argv, timeout), label) for argv, label in jobs]
        return [(*f.result(), label) for f, label in futs]


def toolchain_sane(tmp):
    src = os.path.join(tmp, "sane.cpp")
    with open(src, "w") as f:
        f.write("#include <vector>\n#include <map>\nint main(){std::vector<int> v{1};return v[0]-1;}\n")
    rc, out = sh([CXX, *BASE, *SAN, src, "-o", os.path.join(tmp, "sane")], 120)
    if rc != 0:
        return False
    rc, _ = sh([os.path.join(tmp, "sane")], 30)
    return rc == 0


def replay_dir():
    d = os.path.join(EVID, "replays")
    os.makedirs(d, exist_ok=True)
    return d


def write_evidence(pid, tier, seed, level, coverage, wall, violations, assumptions):
    os.makedirs(EVID, exist_ok=True)
    doc = {
        "property": pid, "tier": tier, "seed": seed, "level": level, "coverage": coverage,
        "assumptions": assumptions, "wall_s": round(wall, 2), "violations": violations,
    }
    p = os.path.join(EVID, pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(doc, f, indent=1)
    os.replace(p + ".tmp", p)


def violation(pid, text, name=None):
    path = os.path.join(replay_dir(), name or (pid + ".txt"))
    with open(path, "w") as f:
        f.write(text)
    print(f"VIOLATION property={pid} replay={path}")
    return path


def tsan_works(tmp):
    """The thread sanitizer's runtime needs address space laid out as it expects: without it the check uses read-only pages only"""
    src = os.path.join(tmp, "tsan.cpp")
    with open(src, "w") as f:
        f.write("#include <thread>\nint main() { int x = 0; std::thread t([&] { x = 1; }); t.join(); return x - 1; }\n")
    rc, _ = sh([CXX, "-std=c++20", "-fsanitize=thread", "-pthread", src, "-o", src + ".bin"], 120)
    return rc == 0 and sh([src + ".bin"], 60)[0] == 0


def build_cpp(check, tmp):
    """Compile the TUs of a check. Returns (binary, None) or (None, compile log)."""
    san = [] if check.get("nosan") else SAN
    if check.get("tsan"):
        san = ["-fsanitize=thread"] if tsan_works(tmp) else []
    flags = [*BASE, *san, *check.get("flags", [])]
    jobs, objs = [], []
    tus = [("engine.cpp", [])] + [("tests/" + s, d) for s, d in check["tus"]]
    for i, (src, defs) in enumerate(tus):
        o = os.path.join(tmp, f"o{i}.o")
        objs.append(o)
        jobs.append(([CXX, *flags, *defs, "-c", os.path.join(H, src), "-o", o], f"{src} {' '.join(defs)}"))
    # longest first is unknown: keep the order, engine first
    res = compile_many(jobs)
    bad = [(rc, out, lab) for rc, out, lab in res if rc != 0]
    if bad:
        if any(lab.startswith("engine.cpp") for _, _, lab in bad) or not toolchain_sane(tmp):
            raise HarnessError("toolchain does not work:\n" + bad[0][1][-3000:])
        log = "\n".join(f"--- {lab} (exit {rc})\n{out[:6000]}" for rc, out, lab in bad)
        return None, log
    binp = os.path.join(tmp, "bin")
    rc, out = sh([CXX, *flags, *objs, "-o", binp], 300)
    if rc != 0:
        if not toolchain_sane(tmp):
            raise HarnessError("link failed:\n" + out[-3000:])
        return None, "--- link\n" + out[:6000]
    return binp, None


def run_cpp(pid, check, tier, seed, t0):
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        binp, log = build_cpp(check, tmp)
        if binp is None:
            # The harness uses only the public API, with calls the property promises: code on which they do not
            # compile does not have the property.
            path = violation(pid, "the calls the property promises do not compile against this tree\n\n" + log, f"{pid}-compile.txt")
            print(log[:3000])
            write_evidence(pid, tier, seed, check["level"],
                           {"evaluations": 0, "distinct_nontrivial": 0, "rule": check["rule"], "samples": [log[:500]],
                            "explanation": "harness does not compile against the tree"}, time.time() - t0, 1, check["assumptions"])
            return 1
        out = os.path.join(tmp, "result.json")
        rep = os.path.join(replay_dir(), f"{pid}.txt")
        if os.path.exists(rep):
            os.remove(rep)
        secs = check["quick_s"] if tier == "quick" else check["thorough_s"]
        cmd = [binp, "--seed", str(seed), "--time", str(secs), "--cases", str(10**12), "--out", out, "--replay-out", rep,
               "--tmp", tmp, "--shrink", "40" if tier == "quick" else "90"]
        env = dict(os.environ)
        env["VERIF_TIER"] = tier
        env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=1"
        rc, txt = sh(cmd, secs + 400, env)
        if rc not in (0, 1) or not os.path.exists(out):
            raise HarnessError(f"test binary ended with {rc}\n{txt[-3000:]}")
        r = json.load(open(out))
        cov = {
            "evaluations": r["evaluations"], "distinct_nontrivial": r["distinct_nontrivial"], "rule": check["rule"],
            "samples": r["samples"], "operations": r["operations"], "labels": r["labels"], "per_test": r["per_test"],
            "generator_seconds": r["seconds"],
        }
        write_evidence(pid, tier, seed, check["level"], cov, time.time() - t0, 1 if rc else 0, check["assumptions"])
        if rc == 1:
            print(txt[-4000:])
            print(f"VIOLATION property={pid} replay={rep}")
            return 1
        abandoned = sum(v for k, v in r["labels"].items() if k.startswith("abandoned"))
        if abandoned:
            print(f"note: {abandoned} cases were abandoned because the history itself deviates from the model (another property)")
        elif r["evaluations"] < check.get("min_cases", 1000) or r["distinct_nontrivial"] < check.get("min_cases", 1000) // 10:
            raise HarnessError(f"only {r['evaluations']} cases ({r['distinct_nontrivial']} non-trivial) were generated")
        print(f"{pid} {tier}: {r['evaluations']} cases, {r['distinct_nontrivial']} distinct non-trivial, "
              f"{r['operations']} operations, no violation ({time.time()-t0:.0f} s)")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def replay_cpp(pid, check, path):
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        binp, log = build_cpp(check, tmp)
        if binp is None:
            print(log)
            return 1
        return subprocess.call([binp, "--replay", os.path.abspath(path), "--tmp", tmp])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    import checks
    if len(sys.argv) < 2 or sys.argv[1] not in checks.CHECKS:
        print(__doc__)
        return 2
    pid = sys.argv[1]
    check = checks.CHECKS[pid]
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        if "run" in check:
            return check["run"](pid, check, "replay", 0, time.time(), sys.argv[3])
        return replay_cpp(pid, check, sys.argv[3])
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    try:
        if "run" in check:
            return check["run"](pid, check, tier, seed, t0)
        return run_cpp(pid, check, tier, seed, t0)
    except HarnessError as e:
        print(f"ERROR in the check of {pid}: {e}", file=sys.stderr)
        return 2


if __name__ == "__main__":
    sys.exit(main())
