"""One shard of one property, in its own (unprivileged) process."""
import argparse, json, os, sys, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--prop", required=True)
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--shard", type=int, default=0)
    ap.add_argument("--nshards", type=int, default=1)
    ap.add_argument("--out", required=True)
    ap.add_argument("--max-s", type=float, default=600)
    ap.add_argument("--scale", type=float, default=1.0)
    ap.add_argument("--replay")
    a = ap.parse_args()
    sys.path.insert(0, HERE)
    sys.path.insert(0, "/repo")
    sys.setrecursionlimit(5000)
    import htmltools

    if os.path.dirname(os.path.abspath(htmltools.__file__)) != "/repo/htmltools":
        raise SystemExit("htmltools was not imported from /repo")
    from vfw import core, guard

    scratch = os.path.join(a.out, f"s{a.shard}")
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    os.environ["TMPDIR"] = scratch
    os.environ["VERIF_TIER_RUN"] = a.tier
    guard.install(a.out)
    out = {}
    if a.replay:
        d = json.load(open(a.replay, encoding="utf-8"))
        mod = core.load(a.prop)
        ck = {c.name: c for c in mod.CHECKS}[d["check"]]
        ctx = core.Ctx(scratch)
        byname = {c.name: c for c in mod.CHECKS}
        ctx.prime = d.get("prime", 0)
        for b in d.get("before", []):
            core.run_case(byname[b["check"]], b["case"], ctx)
        e = core.run_case(ck, d["case"], ctx)
        out = {"violation": None if e is None else {"check": ck.name, "case": d["case"], "exc": core.describe(e)}}
    else:
        t = time.time()
        res, ctx = core.run_shard(a.prop, a.tier, a.seed, a.shard, a.nshards, scratch, a.max_s, a.scale)
        out = dict(res)
        v = out.get("violation")
        if v is not None:
            v["prime"] = ctx.prime
            if v.get("at") is not None:
                log = ctx.log[: v["at"] + 1]
                with open(os.path.join(a.out, f"{a.shard}.hist"), "w", encoding="utf-8", errors="surrogatepass") as f:
                    json.dump([{"check": c, "case": json.loads(x)} for c, x in log], f)
        out.update(evals=ctx.evals, labels=dict(ctx.labels), per_check=dict(ctx.per_check), secs=time.time() - t)
        with open(os.path.join(a.out, f"{a.shard}.hashes"), "wb") as f:
            f.write(b"".join(sorted(ctx.nontriv)))
    p = os.path.join(a.out, f"{a.shard}.json")
    with open(p + ".tmp", "w", encoding="utf-8", errors="surrogatepass") as f:
        json.dump(out, f)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    main()
