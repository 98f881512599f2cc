"""Check definitions, per-case context, and the execution of one shard of one property."""
from __future__ import annotations

import collections
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from . import nest


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """The machinery itself is broken (never reported as a violation)."""


class _Abort(KeyboardInterrupt):
    """Leaves Hypothesis without it treating the exception as a test failure."""


def _repr(v):
    try:
        return repr(v)
    except Exception as e:  # e.g. a tag inside itself
        return f"<{type(v).__name__}: repr() raised {type(e).__name__}>"


def fail(msg, **kw):
    if kw:
        msg += "\n" + "\n".join(f"  {k} = {_repr(v)}"[:4000] for k, v in kw.items())
    raise Violation(msg)


def expect(cond, msg, **kw):
    if not cond:
        fail(msg, **kw)


def expect_eq(got, want, msg, **kw):
    if got != want:
        fail(msg, got=got, want=want, **kw)


def expect_raises(exc, fn, msg, **kw):
    try:
        r = fn()
    except exc:
        return
    except Exception as e:  # wrong kind of failure
        fail(msg + f": raised {type(e).__name__}: {e}", **kw)
    fail(msg + ": did not raise", result=r, **kw)


class Ctx:
    """Handed to every test: classification of the case and scratch space."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.labels = collections.Counter()
        self.evals = 0
        self.per_check = collections.Counter()
        self.nontriv = set()
        self._nt = False
        self._lab = None
        self._tmp = None
        self.prime = 0
        self.log = None

    def nontrivial(self, cond=True):
        if cond:
            self._nt = True

    def label(self, *names):
        self._lab.update(names)

    def tmp(self):
        """A directory that exists for this case only."""
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(dir=self.scratch)
        return self._tmp

    def count(self, n):
        """Extra evaluations made inside one case."""
        self.evals += n


class Check:
    """A property over generated cases.

    strategy: () -> Hypothesis strategy of JSON-able cases, or None
    cases:    (tier) -> iterable of JSON-able cases (bounded-exhaustive), or None
    test:     (case, ctx) -> None, raises on violation
    quick/thorough: number of Hypothesis examples PER SHARD.
    """

    def __init__(self, name, test, strategy=None, cases=None, quick=300, thorough=3000, max_shards=None):
        self.name, self.test, self.strategy, self.cases = name, test, strategy, cases
        self.quick, self.thorough = quick, thorough
        self.max_shards = max_shards


def canon(case):
    return json.dumps(case, sort_keys=True, ensure_ascii=True)


def reset_state():
    """Global state of the code under test, as in a fresh process."""
    import htmltools

    htmltools.html_dependency_render_mode = "invisible"
    sys.displayhook = sys.__displayhook__


def _strings(v, out):
    if isinstance(v, str):
        if 0 < len(v) <= 400 and v not in out:
            out.append(v)
    elif isinstance(v, (list, tuple)):
        for x in v:
            _strings(x, out)
    elif isinstance(v, dict):
        for x in v.values():
            _strings(x, out)


def prime(case, mode):
    """What a process may have done before with the strings of a case (mode 0: nothing).

    A result must not depend on it; remembered results (caches keyed by too little) would show."""
    if not mode:
        return
    from htmltools import HTML, HTMLDependency, HTMLDocument, Tag, TagList

    ss = []
    _strings(case, ss)
    acts = [
        lambda s: str(Tag("b", s)),
        lambda s: str(Tag("b", x=s)),
        lambda s: (str(Tag("b", HTML(s))), str(Tag("b", x=HTML(s)))),
        lambda s: (str(TagList(s, "k")), str(HTML(s) + s)),
    ]
    m = mode % 4
    acts = acts[m:] + acts[:m]
    for s in ss[:25]:
        for f in acts:
            try:
                f(s)
            except Exception:
                pass
    try:
        HTMLDocument(Tag("p", 1, 1.0, True, x=1), Tag("p", x=True), HTMLDependency("zz", "1", head=HTML("<x>"))).render()
    except Exception:
        pass
    if mode in (2, 4):
        nest.failures(zlib.crc32(canon(case).encode()))


def run_case(check, case, ctx, mode=None):
    """Runs one case. Returns None or an exception (= violation)."""
    reset_state()
    mode = ctx.prime if mode is None else mode
    if ctx.log is not None:
        ctx.log.append((check.name, canon(case)))
    if mode:
        try:
            prime(case, mode)
        finally:
            reset_state()
    nest.ON, nest.LEFT, nest.AT = mode >= 3, 12, zlib.crc32(canon(case).encode()) if mode >= 3 else 0
    ctx._nt = False
    ctx._lab = collections.Counter()
    ctx._tmp = None
    ctx.evals += 1
    ctx.per_check[check.name] += 1
    try:
        check.test(case, ctx)
    except HarnessError:
        raise
    except Exception as e:
        return e
    except RecursionError as e:  # pragma: no cover (subclass of Exception; kept for clarity)
        return e
    finally:
        nest.ON = False
        try:
            reset_state()
        except Exception:
            pass
        if ctx._tmp is not None:
            shutil.rmtree(ctx._tmp, ignore_errors=True)
    ctx.labels.update(ctx._lab)
    if ctx._nt:
        ctx.nontriv.add(hashlib.blake2b((check.name + canon(case)).encode("utf-8", "surrogatepass"), digest_size=8).digest())
    return None


def describe(e):
    tb = traceback.format_exception(type(e), e, e.__traceback__)
    return "".join(tb)[-6000:]


class ShardResult(dict):
    pass


class Deadline(_Abort):
    pass


def _settings(n):
    from hypothesis import HealthCheck, Phase, settings

    return settings(max_examples=n, database=None, deadline=None, suppress_health_check=list(HealthCheck),
                    phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False, print_blob=False)


class _Best:
    """Smallest failing case seen."""

    def __init__(self, check, ctx, shrink_s, end):
        self.check, self.ctx, self.shrink_s, self.end = check, ctx, shrink_s, end
        self.first = self.key = self.case = self.exc = self.at = None

    def run(self, case):
        """True when the case fails."""
        now = time.time()
        if (self.first is not None and now - self.first > self.shrink_s) or now > self.end:
            raise Deadline()
        e = run_case(self.check, case, self.ctx)
        if e is None:
            return False
        if self.first is None:
            self.first = now
            self.at = None if self.ctx.log is None else len(self.ctx.log) - 1
        c = canon(case)
        key = (len(c), c)
        if self.key is None or key < self.key:
            self.case, self.key, self.exc = json.loads(c), key, describe(e)
        return True

    def result(self):
        return None if self.case is None else {"check": self.check.name, "case": self.case, "exc": self.exc, "at": self.at}


def run_random(check, n, seed, ctx, shrink_s, end):
    """n independent uniform draws from the strategy; a failing one is shrunk by Hypothesis's engine.

    (given() spends a large part of its budget on repeats and mutants of earlier examples, which
    costs diversity on the large composite cases used here.)"""
    from hypothesis.control import BuildContext
    from hypothesis.errors import StopTest, UnsatisfiedAssumption
    from hypothesis.internal.conjecture.data import ConjectureData
    from hypothesis.internal.conjecture.engine import ConjectureRunner
    from hypothesis.internal.escalation import InterestingOrigin

    strat = check.strategy()
    best = _Best(check, ctx, shrink_s, end)

    def draw(data):
        with BuildContext(data, is_final=False, wrapped_test=None):
            return data.draw(strat)

    rnd = random.Random(seed)
    for _ in range(n):
        data = ConjectureData(random=random.Random(rnd.getrandbits(64)))
        try:
            case = draw(data)
        except (StopTest, UnsatisfiedAssumption):
            continue
        try:
            failed = best.run(case)
        except Deadline:
            return None, True
        if not failed:
            continue
        origin = InterestingOrigin.from_exception(Violation("x"))

        def tf(d):
            try:
                c = draw(d)
            except UnsatisfiedAssumption:
                d.mark_invalid()
            if best.run(c):
                d.mark_interesting(origin)

        try:
            import contextlib, io
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                runner = ConjectureRunner(tf, settings=_settings(10), random=random.Random(0))
                runner.cached_test_function(data.choices)
                (getattr(runner, "shrink_interesting_test_cases", None) or runner.shrink_interesting_examples)()
        except BaseException as e:  # the failure stands even if the shrinker does not cope
            if os.environ.get("VF_DEBUG"):
                traceback.print_exc()
            if isinstance(e, HarnessError):
                raise
        return best.result(), False
    return None, False


def run_hypothesis(check, n, seed, ctx, shrink_s, end):
    """n examples under given(), with Hypothesis's own generation heuristics."""
    import contextlib
    import io

    import hypothesis

    best = _Best(check, ctx, shrink_s, end)

    def body(case):
        if best.run(case):
            raise Violation("case fails") from None

    t = hypothesis.seed(seed)(_settings(n)(hypothesis.given(check.strategy())(body)))
    capped = False
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            t()
    except Violation:
        pass
    except Deadline:
        capped = best.case is None
    except HarnessError:
        raise
    except Exception as e:
        if best.case is None:
            raise HarnessError(f"{check.name}: {type(e).__name__}: {e}\n{describe(e)}")
        # flaky or multiple failures inside Hypothesis: we do have a failing case
    return best.result(), capped


def run_generated(check, n, seed, ctx, shrink_s, end):
    """Mostly independent draws, plus a share under given()."""
    import warnings

    warnings.simplefilter("ignore")
    k = max(1, n // 6)
    try:
        v, capped = run_random(check, n - k, seed, ctx, shrink_s, end)
    except (ImportError, AttributeError, TypeError) as e:  # another Hypothesis version
        sys.stderr.write(f"run_random: {e!r}; using given() only\n")
        k, v, capped = n, None, False
    if v is not None:
        return v, capped
    v, c2 = run_hypothesis(check, k, seed, ctx, shrink_s, end)
    return v, capped or c2


def load(prop):
    return importlib.import_module("props." + prop.lower())


def run_shard(prop, tier, seed, shard, nshards, scratch, max_s, scale=1.0):
    mod = load(prop)
    ctx = Ctx(scratch)
    ctx.prime = shard % 5 if getattr(mod, "PRIME", True) else 0
    ctx.log = []
    end = time.time() + max_s
    res = {"violation": None, "capped": [], "samples": []}
    shrink_s = getattr(mod, "SHRINK_S", 25)
    samples = {}

    # 1. saved regression cases (shard 0 only)
    if shard == 0:
        cp = os.path.join(os.path.dirname(__file__), "..", "corpus", prop + ".jsonl")
        if os.path.exists(cp):
            byname = {c.name: c for c in mod.CHECKS}
            for line in open(cp, encoding="utf-8"):
                if not line.strip():
                    continue
                d = json.loads(line)
                ck = byname.get(d["check"])
                if ck is None:
                    raise HarnessError("corpus names unknown check " + d["check"])
                e = run_case(ck, d["case"], ctx)
                if e is not None:
                    res["violation"] = {"check": ck.name, "case": d["case"], "exc": describe(e)}
                    return res, ctx
    for ck in mod.CHECKS:
        if ck.max_shards is not None and shard >= ck.max_shards:
            continue
        if ck.cases is not None:
            ns = nshards if ck.max_shards is None else min(nshards, ck.max_shards)
            kept = 0
            for i, case in enumerate(ck.cases(tier)):
                if i % ns != shard:
                    continue
                if time.time() > end:
                    res["capped"].append(ck.name)
                    break
                e = run_case(ck, case, ctx)
                if e is not None:
                    res["violation"] = {"check": ck.name, "case": case, "exc": describe(e), "at": len(ctx.log) - 1}
                    return res, ctx
                if ctx._nt and kept < 1 and i > 40:
                    kept += 1
                    samples[ck.name] = case
        if ck.strategy is not None:
            n = ck.quick if tier == "quick" else ck.thorough
            n = max(1, int(n * scale))
            h = hashlib.sha256(f"{seed}/{prop}/{ck.name}/{shard}".encode()).digest()
            orig = ck.test
            keep = {}

            def wrapped(case, c, _o=orig, _k=keep):
                _o(case, c)
                if c._nt:
                    k = c.per_check[ck.name]
                    if k % 97 == 0 or not _k:
                        _k["s"] = case

            ck.test = wrapped
            try:
                v, capped = run_generated(ck, n, int.from_bytes(h[:8], "big"), ctx, shrink_s, end)
            finally:
                ck.test = orig
            if keep:
                samples[ck.name] = json.loads(canon(keep["s"]))
            if capped:
                res["capped"].append(ck.name)
            if v is not None:
                res["violation"] = v
                return res, ctx
    res["samples"] = [{"check": k, "case": v} for k, v in samples.items()]
    return res, ctx
