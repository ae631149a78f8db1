"""Entry point: python -m vh.main <property id> [--tier quick|thorough] [--replay FILE] [--law NAME] [--stats]"""
import argparse
import collections
import importlib
import json
import os
import shutil
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
HARNESS = os.path.dirname(HERE)
VERIF = os.environ.get("VERIF_HOME") or os.path.dirname(HARNESS)


def known_findings(prop):
    """Lines 'known: property=<id> law=<law> case=<sha1 of the case> <text>' of the committed file."""
    out = []
    try:
        with open(os.path.join(VERIF, "KNOWN_FINDINGS.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("known: property=%s " % prop):
                    out.append(line)
    except FileNotFoundError:
        pass
    return out


def replay(module, path):
    import signal
    from . import codec, engine
    with open(path) as f:
        doc = json.load(f)
    lw = next((x for x in module.LAWS if x.name == doc["law"]), None)
    if lw is None:
        print("no law %r" % doc["law"])
        return 2
    signal.signal(signal.SIGPROF, engine._on_cpu_limit)
    failure = engine.run_case(lw, codec.dec(doc["case"]), engine.Ctx())
    if failure is None:
        print("replay of %s: the case passes" % path)
        return 0
    print("replay of %s: law %s: %s" % (path, lw.name, failure))
    print("VIOLATION property=%s replay=%s" % (module.PROPERTY, path))
    return 1


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick", choices=["quick", "thorough"])
    ap.add_argument("--replay")
    ap.add_argument("--law", action="append")
    ap.add_argument("--scale", type=float, default=float(os.environ.get("VERIF_SCALE", "1")))
    ap.add_argument("--budget", type=float, default=None, help="wall seconds")
    ap.add_argument("--stats", action="store_true")
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    prop = args.property
    seed = int(os.environ.get("VERIF_SEED") or "1")
    start = time.time()

    from . import engine
    scratch = tempfile.mkdtemp(prefix="ccnpy-verif-")
    os.environ["VERIF_SCRATCH"] = scratch
    os.environ["MPLCONFIGDIR"] = scratch
    tempfile.tempdir = scratch
    try:
        module_name = "props.%s" % prop.lower()
        module = importlib.import_module(module_name)
        if args.replay:
            return replay(module, args.replay)

        budget = args.budget or (600.0 if args.tier == "thorough" else 420.0)
        deadline = start + budget
        workers = int(os.environ.get("VERIF_WORKERS") or min(8, os.cpu_count() or 1))
        results = []
        round_ = 0
        while True:
            jobs = engine.make_jobs(module_name, module.LAWS, args.tier, seed, round_, deadline, args.law, args.scale)
            if not jobs and round_ == 0:
                break
            # longest laws first gives a better packing
            results += engine.run_jobs(jobs, workers, scratch)
            round_ += 1
            if any(r.failure or r.error for r in results):
                break
            if args.tier == "quick":
                break
            if not jobs or time.time() - start > budget * 0.4:
                left = start + budget * 0.9 - time.time()
                if left > 20:
                    results += engine.run_jobs(engine.make_guided_jobs(module_name, module.LAWS, args.tier, seed, left, deadline, workers,
                                                                       args.law), workers, scratch)
                break
        return report(module, args, seed, results, start, round_)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def report(module, args, seed, results, start, rounds):
    prop = module.PROPERTY
    per_law = collections.OrderedDict((lw.name, {"doc": lw.doc, "evaluations": 0, "enumerated": 0, "wall_s": 0.0,
                                                 "nontrivial": set(), "labels": collections.Counter(), "samples": []})
                                      for lw in module.LAWS)
    errors = []
    failures = collections.OrderedDict()
    skipped = 0
    for r in results:
        d = per_law[r.law]
        d["evaluations"] += r.evaluations
        d["enumerated"] += r.enumerated
        d["nontrivial"] |= r.nontrivial
        d["labels"].update(r.labels)
        d["wall_s"] += r.wall
        if len(d["samples"]) < 3:
            d["samples"] += r.samples[:3 - len(d["samples"])]
        skipped += r.skipped
        if r.error:
            errors.append((r.law, r.error))
        if r.failure:
            old = failures.get(r.law)
            if old is None or len(r.failure[0]) < len(old[0]):
                failures[r.law] = r.failure

    violations = []
    for law_name, (case_text, description) in failures.items():
        rdir = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.json" % (prop, law_name))
        with open(path, "w") as f:
            json.dump({"property": prop, "law": law_name, "failure": description, "case": json.loads(case_text)},
                      f, indent=1)
        violations.append({"law": law_name, "failure": description, "replay": path})

    evaluations = sum(d["evaluations"] for d in per_law.values())
    nontrivial = sum(len(d["nontrivial"]) for d in per_law.values())
    if not args.no_evidence:
        samples = []
        for name, d in per_law.items():
            for s in d["samples"]:
                samples.append({"law": name, "case": s})
        evidence = {
            "property": prop, "tier": args.tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": nontrivial,
                "rule": module.RULE,
                "samples": samples,
                "rounds": rounds,
                "not_run_for_lack_of_time": skipped,
                "laws": {name: {"law": d["doc"], "evaluations": d["evaluations"], "enumerated": d["enumerated"],
                                "distinct_nontrivial": len(d["nontrivial"]),
                                "cpu_s": round(d["wall_s"], 1),
                                "labels": dict(sorted(d["labels"].items()))}
                         for name, d in per_law.items()},
            },
            "wall_s": round(time.time() - start, 2),
            "assumptions": getattr(module, "ASSUMPTIONS", []),
            "violations": len(violations),
        }
        edir = os.path.join(VERIF, "evidence")
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, prop + ".json"), "w") as f:
            json.dump(evidence, f, indent=1)

    for name, d in per_law.items():
        if args.law and name not in args.law:
            continue
        print("%s %-34s %6d cases %6d non-trivial %7.1f s" % (prop, name, d["evaluations"], len(d["nontrivial"]),
                                                             d["wall_s"]))
        if args.stats:
            for k, v in sorted(d["labels"].items()):
                print("      %-50s %6d  %5.1f%%" % (k, v, 100.0 * v / max(1, d["evaluations"])))
    print("%s seed=%d tier=%s evaluations=%d nontrivial=%d skipped=%d wall=%.1fs" % (
        prop, seed, args.tier, evaluations, nontrivial, skipped, time.time() - start))

    for line in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line.split(" ", 2)[2]))
    for v in violations:
        print("law %s: %s" % (v["law"], v["failure"]))
    if violations:
        for v in violations:
            print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
        return 1
    if errors:
        for name, e in errors:
            print("HARNESS ERROR in law %s:\n%s" % (name, e))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
