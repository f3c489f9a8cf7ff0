"""Checks whose generated inputs are programs: random definitions are rendered to C++, compiled against /repo and run.

A generator module provides
  make(rng, size)      -> item (JSON-able): one independent unit of a program
  render(items)        -> C++ source with an `int main()`; prints "FAIL <index> <text>" and returns 1 on a violation,
                          "COUNT <evaluations>" on the way
  shrink(item)         -> smaller variants of an item
  nontrivial(item)     -> bool
  describe(item)       -> short text
  make_program(rng, n) (optional) -> list of items for one program
  FLAGS (optional)     -> compiler flags
A failing program is reduced first to one item, then item-wise through shrink(), and recorded as JSON."""
import concurrent.futures, hashlib, json, os, random, re, shutil, tempfile, time

import run as R


def _one(mod, items, tmp, name, timeout=300):
    """Compile and run one program. Returns (ok, text, counts)"""
    src = os.path.join(tmp, name + ".cpp")
    binp = os.path.join(tmp, name)
    with open(src, "w") as f:
        f.write(mod.render(items))
    flags = mod.flags(items) if hasattr(mod, "flags") else getattr(mod, "FLAGS", R.SAN)
    rc, out = R.sh([R.CXX, *R.BASE, *flags, src, "-o", binp], timeout)
    if rc == 124:
        return None, "compiler timeout", 0
    if rc != 0:
        return False, "does not compile:\n" + out[:6000], 0
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0"
    rc, out = R.sh(["/bin/sh", "-c", 'ulimit -s unlimited 2>/dev/null; exec "$0"', binp], 120, env)
    n = sum(int(x) for x in re.findall(r"^COUNT (\d+)", out, re.M))
    for p in (src, binp):
        try:
            os.remove(p)
        except OSError:
            pass
    if rc == 0:
        return True, out, n
    return False, f"exit status {rc}\n" + "\n".join(l[:300] for l in out.splitlines()[:60]), n


def _key(item):
    return hashlib.sha1(json.dumps(item, sort_keys=True).encode()).hexdigest()


def reduce_failure(mod, items, text, tmp, deadline):
    """Smallest failing list of items found before the deadline."""
    counter = [0]

    def fails(cand_list):
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            futs = []
            for c in cand_list:
                counter[0] += 1
                futs.append(ex.submit(_one, mod, c, tmp, f"s{counter[0]}"))
            return [f.result() for f in futs]

    best, btext = items, text
    if len(items) > 1:
        for it, r in zip(items, fails([[i] for i in items])):
            if r[0] is False:
                best, btext = [it], r[1]
                break
    if len(best) == 1:
        progress = True
        while progress and time.time() < deadline:
            progress = False
            cands = list(mod.shrink(best[0]))
            for k in range(0, len(cands), 8):
                if time.time() > deadline:
                    break
                chunk = cands[k:k + 8]
                for c, r in zip(chunk, fails([[c] for c in chunk])):
                    if r[0] is False:
                        best, btext, progress = [c], r[1], True
                        break
                if progress:
                    break
    return best, btext


def run(mod, pid, check, tier, seed, t0, replay=None):
    tmp = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    try:
        if replay:
            doc = json.load(open(replay))
            ok, text, _ = _one(mod, doc["items"], tmp, "replay")
            print(mod.render(doc["items"]))
            print(text)
            return 0 if ok else 1
        cfg = check["quick"] if tier == "quick" else check["thorough"]
        programs, per = cfg["programs"], cfg["items"]
        programs += len(mod.fixed()) if hasattr(mod, "fixed") else 0
        budget = cfg.get("seconds", 10**9)
        rng = random.Random(f"{pid}:{seed}")
        done, evals, keys, samples, labels = 0, 0, set(), [], {}
        failure = None
        t_start = time.time()
        first = mod.fixed() if hasattr(mod, "fixed") else []
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            pending = {}
            made = 0

            def submit():
                nonlocal made
                items = (first[made] if made < len(first) else mod.make_program(rng, per) if hasattr(mod, "make_program")
                         else [mod.make(rng, k / max(1, per - 1)) for k in range(per)])
                pending[ex.submit(_one, mod, items, tmp, f"p{made}")] = items
                made += 1

            while made < programs and len(pending) < 12:
                submit()
            while pending:
                fin, _ = concurrent.futures.wait(pending, return_when=concurrent.futures.FIRST_COMPLETED)
                for f in fin:
                    items = pending.pop(f)
                    ok, text, n = f.result()
                    if ok is None:
                        raise R.HarnessError(text)
                    if not ok and failure is None:
                        failure = (items, text)
                    if ok:
                        done += 1
                        evals += n
                        for it in items:
                            if mod.nontrivial(it):
                                keys.add(_key(it))
                            for l in getattr(mod, "labels", lambda i: [])(it):
                                labels[l] = labels.get(l, 0) + 1
                            if len(samples) < 5 and mod.nontrivial(it):
                                samples.append(mod.describe(it))
                if failure:
                    for f in list(pending):
                        f.cancel()
                    concurrent.futures.wait(pending)
                    pending = {}
                    break
                while made < programs and len(pending) < 12 and (time.time() - t_start < budget or made < len(first) and time.time() - t_start < max(budget, 300)):
                    submit()
        if failure is not None and not R.toolchain_sane(tmp):
            raise R.HarnessError("toolchain does not work:\n" + failure[1])
        cov = {"evaluations": evals, "distinct_nontrivial": len(keys), "rule": check["rule"], "samples": samples or ["none"],
               "programs": done, "labels": labels}
        if failure is not None:
            items, text = reduce_failure(mod, *failure, tmp, time.time() + (60 if tier == "quick" else 240))
            rep = os.path.join(R.replay_dir(), f"{pid}.json")
            with open(rep, "w") as f:
                json.dump({"property": pid, "items": items, "failure": text, "program": mod.render(items)}, f, indent=1)
            print("\n".join(mod.describe(i) for i in items)[:2000])
            print(text[:3000])
            R.write_evidence(pid, tier, seed, check["level"], cov, time.time() - t0, 1, check["assumptions"])
            print(f"VIOLATION property={pid} replay={rep}")
            return 1
        if done == 0 or evals < check.get("min_cases", 200) or not keys:
            raise R.HarnessError(f"only {evals} evaluations in {done} programs")
        R.write_evidence(pid, tier, seed, check["level"], cov, time.time() - t0, 0, check["assumptions"])
        print(f"{pid} {tier}: {done} generated programs, {evals} evaluations, {len(keys)} distinct non-trivial definitions, no violation ({time.time()-t0:.0f} s)")
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
