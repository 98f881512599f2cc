"""./check PROP TIER: fans a property out over processes, writes evidence, reports."""
import argparse, collections, hashlib, json, os, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/veriftools/pyvenv/bin/python"


def env_for(scratch):
    return {
        "PATH": os.environ.get("PATH", "/usr/bin:/bin"),
        "HOME": scratch,
        "TMPDIR": scratch,
        "LC_ALL": "C.UTF-8",
        "PYTHONHASHSEED": "0",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONPYCACHEPREFIX": os.path.join(scratch, "pyc"),
        "HYPOTHESIS_STORAGE_DIRECTORY": os.path.join(scratch, "hyp"),
    }


def drop_args(scratch):
    """Run workers as nobody when that works here."""
    if os.getuid() != 0:
        return {}
    kw = dict(user=65534, group=65534, extra_groups=[])
    try:
        os.chown(scratch, 65534, 65534)
        r = subprocess.run(
            [PY, "-c", "import sys;sys.path[:0]=[%r,'/repo'];import htmltools,hypothesis,vfw.core" % HERE],
            env=env_for(scratch), cwd=scratch, capture_output=True, timeout=120, **kw)
        if r.returncode == 0:
            return kw
    except Exception:
        pass
    os.chown(scratch, 0, 0)
    return {}


def known_findings(prop):
    try:
        d = json.load(open(os.path.join(HERE, "known_findings.json")))
    except OSError:
        return []
    return [f for f in d.get("findings", []) if f["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--shards", type=int, default=8)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--max-s", type=float, default=None)
    ap.add_argument("--replay")
    a = ap.parse_args()
    try:
        seed = a.seed if a.seed is not None else int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    max_s = a.max_s or (420 if a.tier == "quick" else 3 * 3600)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="vf-", dir="/tmp")
    os.chmod(scratch, 0o755)
    procs = []
    try:
        kw = drop_args(scratch)
        n = 1 if a.replay else a.shards
        extra = []
        if a.replay:
            rp = os.path.join(scratch, "replay.json")
            shutil.copy(a.replay, rp)
            os.chmod(rp, 0o644)
            extra = ["--replay", rp]
        for i in range(n):
            err = open(os.path.join(scratch, f"{i}.err"), "wb")
            p = subprocess.Popen(
                [PY, "-X", "utf8", os.path.join(HERE, "vfw", "worker.py"), "--prop", a.prop, "--tier", a.tier, "--seed", str(seed),
                 "--shard", str(i), "--nshards", str(n), "--out", scratch, "--max-s", str(max_s), "--scale", str(a.scale), *extra],
                env=env_for(scratch), cwd=scratch, stdin=subprocess.DEVNULL, stdout=err, stderr=err, start_new_session=True, **kw)
            procs.append(p)
        results, bad = {}, []
        hard_end = t0 + max_s + 120
        pending = dict(enumerate(procs))
        viol = None
        while pending:
            time.sleep(0.05)
            for i, p in list(pending.items()):
                if p.poll() is None:
                    continue
                del pending[i]
                f = os.path.join(scratch, f"{i}.json")
                if p.returncode == 0 and os.path.exists(f):
                    results[i] = json.load(open(f, encoding="utf-8"))
                    if results[i].get("violation") and viol is None:
                        viol = dict(results[i]["violation"], shard=i)
                else:
                    bad.append((i, p.returncode))
            if viol is not None and pending:
                # the other shards' findings are not needed
                break
            if time.time() > hard_end:
                bad += [(i, "timeout") for i in pending]
                break
        for i, p in pending.items():
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        sys.path.insert(0, HERE)
        if viol is not None and not a.replay:
            try:
                confirm(a, scratch, viol, kw)
            except Exception as e:
                sys.stderr.write(f"confirm: {e!r}\n")
        return report(a, seed, t0, scratch, results, bad, viol, n, bool(kw))
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
        shutil.rmtree(scratch, ignore_errors=True)


def confirm(a, scratch, viol, kw):
    """Looks for the least that makes the failure happen in a fresh process: the case alone, the case
    after its primer (core.prime), or after some of the cases that ran before it."""
    end = time.time() + 100
    count = [0]

    def fails(check, case, prime, before=()):
        left = end - time.time()
        if left <= 0:
            return False
        count[0] += 1
        out = os.path.join(scratch, f"confirm{count[0]}")
        os.mkdir(out)
        os.chmod(out, 0o755)
        if kw:
            os.chown(out, 65534, 65534)
        rp = os.path.join(out, "replay.json")
        json.dump({"check": check, "case": case, "prime": prime, "before": list(before)}, open(rp, "w"))
        os.chmod(rp, 0o644)
        p = subprocess.Popen([PY, "-X", "utf8", os.path.join(HERE, "vfw", "worker.py"), "--prop", a.prop, "--tier", a.tier, "--seed", "1", "--out", out, "--replay", rp],
                             env=env_for(out), cwd=out, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True, **kw)
        try:
            p.wait(left)
            d = json.load(open(os.path.join(out, "0.json"), encoding="utf-8"))
            return d.get("violation") or False
        except (subprocess.TimeoutExpired, OSError):
            return False
        finally:
            if p.poll() is None:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
            shutil.rmtree(out, ignore_errors=True)

    def accept(v, prime, before):
        viol.update(check=v["check"], case=v["case"], exc=v["exc"], prime=prime, before=before)

    mode = viol.get("prime", 0)
    for m in dict.fromkeys((0, mode)):
        v = fails(viol["check"], viol["case"], m)
        if v:
            return accept(v, m, [])
    h = os.path.join(scratch, f"{viol['shard']}.hist")
    if not os.path.exists(h):
        return
    hist = json.load(open(h, encoding="utf-8"))
    last, hist = hist[-1], hist[:-1]
    run = lambda before: fails(last["check"], last["case"], mode, before)
    n, best = 0, None
    while best is None:
        cur = hist[len(hist) - n :]
        v = run(cur)
        if v:
            best = cur, v
        elif n >= len(hist) or time.time() > end:
            viol["note"] = "not reproduced in a fresh process"
            return
        n = min(len(hist), max(1, n * 8))
    cur, v = best
    accept(v, mode, cur)
    k = 2
    while len(cur) > 1 and time.time() < end:  # delta debugging over the history
        step = -(-len(cur) // k)
        for i in range(0, len(cur), step):
            for part in (cur[i : i + step], cur[:i] + cur[i + step :]):
                v = len(part) < len(cur) and run(part)
                if v:
                    cur, k = part, 2
                    accept(v, mode, cur)
                    break
            else:
                continue
            break
        else:
            if step == 1:
                break
            k = min(len(cur), k * 2)


def report(a, seed, t0, scratch, results, bad, viol, n, dropped):
    if a.replay:
        if bad:
            sys.stderr.write(open(os.path.join(scratch, "0.err"), errors="replace").read()[-4000:])
            return 2
        if viol:
            print(viol["exc"])
            print(f"VIOLATION property={a.prop} replay={os.path.abspath(a.replay)}")
            return 1
        print(f"{a.prop}: replay passes")
        return 0
    if bad and viol is None:
        for i, rc in bad:
            try:
                tail = open(os.path.join(scratch, f"{i}.err"), errors="replace").read()[-3000:]
            except OSError:
                tail = ""
            sys.stderr.write(f"shard {i}: exit {rc}\n{tail}\n")
        print(f"ERROR property={a.prop}: the check itself failed (no verdict)")
        return 2
    evals, labels, per_check, hashes, samples, capped = 0, collections.Counter(), collections.Counter(), set(), {}, set()
    for i in sorted(results):
        r = results[i]
        evals += r["evals"]
        labels.update(r["labels"])
        per_check.update(r["per_check"])
        capped.update(r["capped"])
        for s in r["samples"]:
            if len(json.dumps(s)) < 3000:
                samples.setdefault(s["check"], s)
        b = open(os.path.join(scratch, f"{i}.hashes"), "rb").read()
        hashes.update(b[k : k + 8] for k in range(0, len(b), 8))
    meta = json.load(open(os.path.join(HERE, "data", "rules.json")))[a.prop]
    ev = {
        "property": a.prop, "tier": a.tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": len(hashes),
            "rule": meta["rule"],
            "samples": list(samples.values())[:6],
            "evaluations_per_check": dict(sorted(per_check.items())),
            "classes": dict(sorted(labels.items(), key=lambda kv: -kv[1])[:60]),
            "shards": n,
            "stopped_early_by_time_cap": sorted(capped),
            "unprivileged": dropped,
        },
        "assumptions": meta.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": 1 if viol else 0,
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    if not ev["coverage"]["samples"]:
        ev["coverage"]["samples"] = [viol["case"]] if viol else []
    with open(os.path.join(HERE, "evidence", a.prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if viol:
        c = json.dumps({"property": a.prop, "check": viol["check"], "case": viol["case"], **{k: viol[k] for k in ("prime", "before", "note") if viol.get(k)}}, indent=1)
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", f"{a.prop}-{hashlib.sha256(c.encode()).hexdigest()[:10]}.json")
        with open(rp, "w") as f:
            f.write(c)
        print(f"{a.prop} check {viol['check']}:")
        print(viol["exc"])
        print(f"VIOLATION property={a.prop} replay={rp}")
        return 1
    for f in known_findings(a.prop):
        print(f"KNOWN-FINDING: property={a.prop} {f['what']}")
    print(f"{a.prop}: {evals} evaluations, {len(hashes)} distinct non-trivial cases, {ev['wall_s']} s" + (f" (time cap: {sorted(capped)})" if capped else ""))
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:  # trouble with the machinery is never a verdict
        import traceback

        traceback.print_exc()
        rc = 2
    sys.exit(rc)
