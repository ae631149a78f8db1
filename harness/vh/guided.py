"""
Coverage-guided search (atheris / libFuzzer) for laws over byte strings.

explore() runs libFuzzer in a child process, on the law itself, with the code under test instrumented, and gives the inputs that reached
new code, and the one that failed if there is one; the law is then run on each of them like on any other listed case.
"""
import os
import shutil
import subprocess
import sys
import tempfile

executed = 0      # executions by libFuzzer in this process so far
CHILD = "import sys; sys.path.append(%r); from vh import guided; guided.child(sys.argv[1], sys.argv[2], sys.argv[3:])"


def explore(module, law_name, seeds, runs, seed, max_len=1500, seconds=300):
    """Yields byte strings: the inputs of the final corpus, then the failing one."""
    d = tempfile.mkdtemp(prefix="guided-")
    try:
        corpus, first = os.path.join(d, "corpus"), os.path.join(d, "first")
        os.mkdir(corpus)
        os.mkdir(first)
        for i, s in enumerate(seeds):
            with open(os.path.join(first, "%04d" % i), "wb") as f:
                f.write(s)
        vt = os.environ.get("VERIF_VT") or "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
        cmd = [sys.executable, "-B", "-c", CHILD % vt, module, law_name, corpus, first, "-seed=%d" % (seed % 0x7FFFFFFF + 1), "-runs=%d" % runs,
               "-max_len=%d" % max_len, "-max_total_time=%d" % seconds, "-timeout=60", "-rss_limit_mb=6000", "-print_final_stats=1",
               "-artifact_prefix=" + os.path.join(d, "found-")]
        global executed
        try:
            with open(os.path.join(d, "log"), "wb") as log:
                subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log, timeout=seconds + 120, cwd=d)
            with open(os.path.join(d, "log"), errors="replace") as log:
                for line in log:
                    if line.startswith("stat::number_of_executed_units:"):
                        executed += int(line.split()[1])
        except (subprocess.TimeoutExpired, OSError):
            pass    # what was found until then is used
        for folder, names in ((corpus, sorted(os.listdir(corpus))), (d, sorted(x for x in os.listdir(d) if x.startswith("found-")))):
            for name in names:
                with open(os.path.join(folder, name), "rb") as f:
                    yield f.read()
    finally:
        shutil.rmtree(d, ignore_errors=True)


def child(module, law_name, argv):
    import importlib
    import atheris
    from vh import engine
    with atheris.instrument_imports(include=["ccnpy"], enable_loader_override=False):
        mod = importlib.import_module(module)
        mod.guided_imports()
    the_law = next(x for x in mod.LAWS if x.name == law_name)
    null = open(os.devnull, "w")

    def one(data):
        old = sys.stdout
        sys.stdout = null
        try:
            the_law.run({"bytes": data}, engine.Ctx())
        finally:
            sys.stdout = old
    atheris.Setup([sys.argv[0]] + argv, one)
    atheris.Fuzz()


def search_law(module, law_name, tier, seconds, seed):
    """
    Coverage-guided search with the generator of a law for this many seconds.  Gives a Hypothesis database with the case that failed, or
    None.
    """
    import random
    from hypothesis.database import InMemoryExampleDatabase
    global executed
    d = tempfile.mkdtemp(prefix="guided-")
    vt = os.environ.get("VERIF_VT") or "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    corpus = os.path.join(d, "corpus")
    os.mkdir(corpus)
    rnd = random.Random(seed)
    for i in range(40):
        # (a case is made from the bytes, from the start; those left over do not matter)
        with open(os.path.join(corpus, "%02d" % i), "wb") as f:
            f.write(bytes(rnd.choice((0, 1, rnd.randrange(256), rnd.randrange(256))) for _ in range(4096)))
    code = CHILD.replace("guided.child(sys.argv[1], sys.argv[2], sys.argv[3:])", "guided.law_child(*sys.argv[1:5], sys.argv[5:])") % vt
    cmd = [sys.executable, "-B", "-c", code, module, law_name, tier, os.path.join(d, "failed"), corpus, "-seed=%d" % (seed % 0x7FFFFFFF + 1),
           "-max_len=8192", "-len_control=0", "-max_total_time=%d" % seconds, "-timeout=120", "-rss_limit_mb=6000", "-print_final_stats=1",
           "-artifact_prefix=" + os.path.join(d, "found-")]
    try:
        with open(os.path.join(d, "log"), "wb") as log:
            subprocess.run(cmd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=log, timeout=seconds + 150, cwd=d)
        with open(os.path.join(d, "log"), errors="replace") as log:
            for line in log:
                if line.startswith("stat::number_of_executed_units:"):
                    executed += int(line.split()[1])
    except (subprocess.TimeoutExpired, OSError):
        pass
    if os.environ.get("VERIF_GUIDED_LOG"):
        shutil.copy(os.path.join(d, "log"), os.environ["VERIF_GUIDED_LOG"])
    try:
        with open(os.path.join(d, "failed"), "rb") as f:
            choices = f.read()
    except OSError:
        return None
    finally:
        shutil.rmtree(d, ignore_errors=True)

    class Found(InMemoryExampleDatabase):
        def fetch(self, key):
            # (what is found under the other keys is not shrunk further)
            return [choices] if key.endswith(b".secondary") else []
    return Found()


def law_child(module, law_name, tier, failed, argv):
    import importlib
    import pkgutil
    import signal
    import atheris
    from hypothesis import HealthCheck, given, settings
    from hypothesis.database import InMemoryExampleDatabase
    from vh import engine
    with atheris.instrument_imports(include=["ccnpy"], enable_loader_override=False):
        import ccnpy
        for m in pkgutil.walk_packages(ccnpy.__path__, "ccnpy."):
            if ".tests" not in m.name:
                try:
                    importlib.import_module(m.name)
                except Exception:
                    pass
        mod = importlib.import_module(module)
    the_law = next(x for x in mod.LAWS if x.name == law_name)
    signal.signal(signal.SIGPROF, engine._on_cpu_limit)

    def evaluate(case):
        failure = engine.run_case(the_law, case, engine.Ctx())
        if failure is not None:
            raise engine.CaseFailed()

    class Keep(InMemoryExampleDatabase):
        def save(self, key, value):
            with open(failed, "wb") as f:
                f.write(value)
    test = given(the_law.strategy(tier))(evaluate)
    test = settings(database=Keep(), deadline=None, suppress_health_check=list(HealthCheck))(test)
    atheris.Setup([sys.argv[0]] + argv, test.hypothesis.fuzz_one_input)
    atheris.Fuzz()


def shrink(data, fails, seconds=30):
    """The shortest failing byte string found by leaving out parts and zeroing bytes."""
    import time
    end = time.time() + seconds
    size = max(1, len(data) // 2)
    while size >= 1 and time.time() < end:
        i = 0
        while i < len(data) and time.time() < end:
            for new in (data[:i] + data[i + size:], data[:i] + bytes(len(data[i:i + size])) + data[i + size:]):
                if new != data and fails(new):
                    data = new
                    break
            else:
                i += size
                continue
            if new[i:i + size] == bytes(size):
                i += size
        size //= 2
    return data
