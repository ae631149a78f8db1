"""
The generated-input search engine shared by all the checks.

A property is decided by a set of *laws*.  A law is a Hypothesis strategy that yields plain data, and a
function run(case, ctx) which builds objects of the code under test from that data, exercises them and
compares what they do with an oracle.  run() reports a failure by raising: either a Violation (the oracle
disagrees) or whatever the code under test raised where the property says it must work.

Each law is run in several shards; a shard is one forked process with its own seed, derived from
VERIF_SEED.  The first failing case of a law is shrunk by Hypothesis, saved as JSON, and becomes the
replay file.
"""
import collections
import hashlib
import importlib
import itertools
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback
import unittest
import zlib

from . import codec

CASE_CPU_LIMIT_S = 60.0      # CPU seconds for one case: far above any legitimate case (< 2 s)
SHRINK_LIMIT_S = 40.0
ADDRESS_SPACE = 8 << 30
QUICK_FACTOR = 3             # the quick tier runs this many times the cases given with a law


class Violation(Exception):
    """The oracle disagrees with the code under test."""


class CaseTimeout(BaseException):
    """One case used more than CASE_CPU_LIMIT_S seconds of CPU time."""


class HarnessError(Exception):
    """The harness itself is broken (not a statement about the code under test)."""


class CaseFailed(Exception):
    """What Hypothesis sees; it carries nothing, so that all failures look alike while shrinking."""


def require(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def short(v, n=300):
    r = repr(v)
    return r if len(r) <= n else r[:n] + "..."


def require_eq(got, want, what):
    if not (got == want):
        raise Violation("%s: got %s, expected %s" % (what, short(got), short(want)))


def must_raise(exc_types, fn, what):
    """fn() must raise one of exc_types.  Returns the exception."""
    try:
        r = fn()
    except exc_types as e:
        return e
    raise Violation("%s: expected %s, but the call returned %s" % (
        what, "/".join(t.__name__ for t in (exc_types if isinstance(exc_types, tuple) else (exc_types,))), short(r)))


class Ctx:
    """Lets a law say what a case was like."""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.excluded = None

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def exclude(self, why):
        self.excluded = why
        self.label("excluded:" + why)


class Law:
    def __init__(self, name, strategy, run, quick, doc, enumerate_cases=None, thorough_scale=4, max_shards=8,
                 explore=None, shrink=None):
        """
        :param strategy: function(tier) -> Hypothesis strategy of plain data
        :param run: function(case, ctx)
        :param quick: a third of the generated cases at the quick tier, over all shards
        :param enumerate_cases: optional function(tier) -> iterable of cases always run, in full
        :param explore: optional function(tier, seed, shard) -> iterable of cases, found in each shard by other means
        :param shrink: optional function(case, fails) -> case, for listed cases
        """
        self.name = name
        self.strategy = strategy
        self.run = run
        self.quick = quick * QUICK_FACTOR
        self.doc = doc
        self.enumerate_cases = enumerate_cases
        self.explore = explore
        self.shrink = shrink
        self.thorough_scale = thorough_scale
        self.max_shards = max_shards


def law(laws, quick, strategy, enumerate_cases=None, **kw):
    """Decorator: registers a law in a list."""
    def deco(fn):
        laws.append(Law(fn.__name__, strategy, fn, quick, (fn.__doc__ or "").strip(), enumerate_cases, **kw))
        return fn
    return deco


# ---------------------------------------------------------------------------------------------- one case

def _on_cpu_limit(signum, frame):
    raise CaseTimeout()


_null = open(os.devnull, "w")


def run_case(law_, case, ctx):
    """Runs one case.  Returns None, or a description of the failure."""
    signal.setitimer(signal.ITIMER_PROF, CASE_CPU_LIMIT_S)
    old = sys.stdout
    sys.stdout = _null
    try:
        law_.run(case, ctx)
        return None
    except CaseTimeout:
        return "the case did not finish within %d s of CPU time" % CASE_CPU_LIMIT_S
    except Violation as e:
        return str(e)
    except (KeyboardInterrupt, HarnessError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith("hypothesis"):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name)
                            for f in reversed(tb[-4:]))
        return "%s: %s [%s]" % (type(e).__name__, short(str(e)), where)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        sys.stdout = old


# --------------------------------------------------------------------------------------------- one shard

class ShardResult:
    def __init__(self):
        self.evaluations = 0
        self.enumerated = 0
        self.nontrivial = set()
        self.labels = collections.Counter()
        self.samples = []
        self.failure = None       # (case json, description)
        self.error = None
        self.law = None
        self.skipped = 0
        self.wall = 0.0


def _run_shard(args):
    module_name, law_name, tier, seed, count, deadline, shard, nshards, guided_s = args
    res = ShardResult()
    res.law = law_name
    start = time.time()
    try:
        _run_shard_inner(res, module_name, law_name, tier, seed, count, deadline, shard, nshards, guided_s)
    except BaseException:
        res.error = traceback.format_exc()
    res.wall = time.time() - start
    return res


def _run_shard_inner(res, module_name, law_name, tier, seed, count, deadline, shard, nshards, guided_s):
    import hypothesis
    from hypothesis import HealthCheck, Phase, Verbosity, settings, given
    from hypothesis.errors import Flaky

    resource.setrlimit(resource.RLIMIT_AS, (ADDRESS_SPACE, ADDRESS_SPACE))
    signal.signal(signal.SIGPROF, _on_cpu_limit)
    module = importlib.import_module(module_name)
    the_law = next(x for x in module.LAWS if x.name == law_name)
    state = {"first_failure": None, "best": None, "stop": False}

    def evaluate(case):
        if state["stop"] or time.time() > deadline:
            res.skipped += 1
            return
        if state["first_failure"] is not None and time.time() - state["first_failure"] > SHRINK_LIMIT_S:
            return
        ctx = Ctx()
        failure = run_case(the_law, case, ctx)
        if state["first_failure"] is None:
            res.evaluations += 1
            res.labels.update(ctx.labels)
            if ctx.is_nontrivial:
                digest = hashlib.sha1(codec.dumps(case).encode()).digest()[:10]
                if digest not in res.nontrivial:
                    res.nontrivial.add(digest)
                    n = len(res.nontrivial)
                    if n in (1, 4, 16, 64, 256) and len(res.samples) < 5:
                        res.samples.append(codec.sample(case))
        if failure is not None:
            text = codec.dumps(case)
            if state["first_failure"] is None:
                state["first_failure"] = time.time()
            if state["best"] is None or len(text) <= len(state["best"][0]):
                state["best"] = (text, failure)
            if "did not finish within" in failure:
                state["stop"] = True
            raise CaseFailed()

    listed = iter(())
    if guided_s:
        pass
    elif the_law.enumerate_cases is not None:
        listed = (case for i, case in enumerate(the_law.enumerate_cases(tier)) if i % nshards == shard)
    if the_law.explore is not None and not guided_s:
        listed = itertools.chain(listed, the_law.explore(tier, seed, shard))
    for case in listed:
        if the_law.explore is not None:
            from . import guided
            res.labels["executed by coverage-guided search"] += guided.executed
            guided.executed = 0
        try:
            evaluate(case)
            res.enumerated += 1
        except CaseFailed:
            if the_law.shrink is not None and not state["stop"]:
                def fails(c):
                    failure = run_case(the_law, c, Ctx())
                    if failure is not None and len(codec.dumps(c)) <= len(state["best"][0]):
                        state["best"] = (codec.dumps(c), failure)
                    return failure is not None
                the_law.shrink(case, fails)
            res.failure = state["best"]
            return

    phases, database = [Phase.generate, Phase.shrink], None
    if guided_s:
        # the failing case that the coverage-guided search found, if any, is in the database
        from . import guided
        database = guided.search_law(module_name, law_name, tier, guided_s, seed)
        res.labels["executed by coverage-guided search"] += guided.executed
        guided.executed = 0
        phases, count = [Phase.reuse, Phase.shrink], 0 if database is None else 1

    if count > 0:
        test = given(the_law.strategy(tier))(evaluate)
        test = settings(max_examples=count, database=database, deadline=None, derandomize=False,
                        phases=phases, verbosity=Verbosity.quiet,
                        report_multiple_bugs=False, print_blob=False,
                        suppress_health_check=list(HealthCheck))(test)
        if database is None:
            test = hypothesis.seed(seed)(test)      # (with a seed, the database is not used)
        try:
            test()
        except unittest.SkipTest:
            pass
        except (CaseFailed, Flaky):
            if state["best"] is None:
                raise
        except BaseException:
            if state["best"] is None:
                raise
    res.failure = state["best"]


def _worker(args, path):
    import pickle
    with open(os.devnull, "r+b") as null:
        os.dup2(null.fileno(), 1)
    res = _run_shard(args)
    with open(path + ".tmp", "wb") as f:
        pickle.dump(res, f)
    os.rename(path + ".tmp", path)


def run_jobs(jobs, workers, scratch):
    """Runs every job in its own forked process, at most `workers` at a time."""
    import pickle
    mp = multiprocessing.get_context("fork")
    pending = list(enumerate(jobs))
    running = {}
    results = []
    failed_laws = set()
    while pending or running:
        while pending and len(running) < workers:
            i, job = pending.pop(0)
            if job[1] in failed_laws:
                continue
            path = os.path.join(scratch, "job%d" % i)
            p = mp.Process(target=_worker, args=(job, path))
            p.start()
            running[i] = (p, path, job)
        done = [i for i, (p, _, _) in running.items() if not p.is_alive()]
        if not done:
            time.sleep(0.01)
            continue
        for i in done:
            p, path, job = running.pop(i)
            p.join()
            if os.path.exists(path):
                with open(path, "rb") as f:
                    res = pickle.load(f)
                os.unlink(path)
            else:
                res = ShardResult()
                res.law = job[1]
                res.error = "worker for %s ended with code %r" % (job[1], p.exitcode)
            if res.failure is not None:
                failed_laws.add(res.law)
            results.append(res)
    return results


def law_seed(seed, law_name, round_, shard):
    return (zlib.crc32(law_name.encode()) + seed * 1000003 + round_ * 7919 + shard * 104729) & 0x7FFFFFFFFFFF


def make_jobs(module_name, laws, tier, seed, round_, deadline, only=None, scale=1.0):
    jobs = []
    for lw in laws:
        if only and lw.name not in only:
            continue
        n = int(lw.quick * scale)
        if round_ > 0 and not n and not lw.explore:
            continue        # its cases are listed, and were run
        if tier == "thorough":
            n = int(n * lw.thorough_scale * min(round_ + 1, 4) / 4)      # small rounds first: every law has its share of the time
        shards = max(1, min(lw.max_shards, n // 25)) if n else (lw.max_shards if lw.enumerate_cases or lw.explore else 1)
        for s in range(shards):
            cnt = n // shards + (1 if s < n % shards else 0)
            jobs.append((module_name, lw.name, tier, law_seed(seed, lw.name, round_, s), cnt, deadline, s, shards, 0))
    return jobs


def make_guided_jobs(module_name, laws, tier, seed, seconds, deadline, workers, only=None):
    """Coverage-guided search with each law, for this time in all."""
    laws = [lw for lw in laws if lw.quick and (not only or lw.name in only)]
    jobs = []
    if laws:
        turns = -(-len(laws) // workers)
        copies = max(1, workers * turns // len(laws))
        for c in range(copies):
            for lw in laws:
                jobs.append((module_name, lw.name, tier, law_seed(seed, lw.name, 99, c), 0, deadline, c, copies, int(seconds / turns)))
    return jobs
