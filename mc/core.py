"""
The explorer: enumerates the cases of a check, explores each of them in worker processes against
the real code in /repo, and reports.

    python -m mc C05              explore (tier and seed from VERIF_TIER and VERIF_SEED)
    python -m mc --replay FILE    run the single recorded case of a violation again

A check is a module mc.checks.cNN with
    TECHNIQUE, LEVEL, ASSUMPTIONS     strings for the evidence
    cases(tier)                  the complete, ordered list of JSON-able cases of that tier
    run(case, ctx)               explores one case; calls ctx.fail(...) on a violation
"""

import hashlib
import importlib
import json
import multiprocessing
import multiprocessing.connection
import os
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GROCO_REPO", "/repo")
WORKERS = int(os.environ.get("MC_WORKERS", "8"))


class Violation(Exception):
    def __init__(self, key, message):
        super().__init__(message)
        self.key = key
        self.message = message


class Context:
    """What a case reports: counts, samples and violations."""

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self.counts = {}
        self.violations = []
        self.outcomes = set()
        self.sample = None

    def count(self, name, number=1):
        self.counts[name] = self.counts.get(name, 0) + int(number)

    def states(self, number=1):
        self.count("states", number)

    def transitions(self, number=1):
        self.count("transitions", number)

    def traces(self, number=1):
        self.count("traces", number)

    def outcome(self, value):
        self.outcomes.add(str(value))

    def fail(self, key, message):
        """
        Record a violation and abandon the case. The key is what identifies it in known_findings.
        """
        raise Violation(key, message)

    def require(self, condition, key, message):
        if not condition:
            self.fail(key, message() if callable(message) else message)


def prepare_worker_environment():
    os.environ["KERAS_BACKEND"] = "jax"
    os.environ["JAX_PLATFORMS"] = "cpu"
    os.environ["TF_CPP_MIN_LOG_LEVEL"] = "3"
    os.environ.setdefault("KERAS_HOME", os.path.join("/tmp", f"mc_keras_home_{os.getuid()}"))
    os.environ["XLA_FLAGS"] = (
        "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1 "
        "--xla_backend_optimization_level=0 --xla_llvm_disable_expensive_passes=true"
    )
    for name in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[name] = "1"


def load_groco():
    """Import groco from the sources in /repo, never from a cached or installed copy."""
    sys.dont_write_bytecode = True
    from importlib.machinery import SourceFileLoader

    if not getattr(SourceFileLoader, "_mc_patched", False):
        original = SourceFileLoader.get_code

        def get_code(self, fullname):
            path = self.get_filename(fullname)
            if os.path.abspath(path).startswith(REPO + os.sep):
                return self.source_to_code(self.get_data(path), path)
            return original(self, fullname)

        SourceFileLoader.get_code = get_code
        SourceFileLoader._mc_patched = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import warnings

    warnings.filterwarnings("ignore")
    import groco

    assert os.path.abspath(groco.__file__).startswith(REPO + os.sep), groco.__file__
    return groco


def get_check(check_id):
    return importlib.import_module(f"mc.checks.{check_id.lower()}")


def run_case(check_id, case, seed, tier):
    check = get_check(check_id)
    ctx = Context(seed, tier)
    violation = None
    try:
        check.run(case, ctx)
    except Violation as v:
        violation = {"key": v.key, "message": v.message}
    except MemoryError:
        raise
    except Exception as e:
        # what the property promises to work did not even complete
        violation = {
            "key": f"exception:{type(e).__name__}",
            "message": f"unexpected {type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}",
        }
    return {
        "case": case,
        "violation": violation,
        "counts": ctx.counts,
        "outcomes": sorted(ctx.outcomes)[:50],
        "sample": ctx.sample,
    }


# of each worker, beyond which it forgets what it compiled
MEMORY_LIMIT = 1.8 * 2**30


def memory():
    with open("/proc/self/statm") as file:
        return int(file.read().split()[1]) * os.sysconf("SC_PAGE_SIZE")


def release_memory():
    if memory() > MEMORY_LIMIT:
        import gc

        import jax

        jax.clear_caches()
        gc.collect()


def _worker(connection):
    try:
        load_groco()
    except Exception:
        traceback.print_exc()
    while True:
        task = connection.recv()
        if task is None:
            break
        connection.send(_work(task))


def _work(args):
    check_id, chunk, seed, tier = args
    results = []
    for index, case in chunk:
        start = time.time()
        result = run_case(check_id, case, seed, tier)
        result["index"] = index
        result["wall"] = time.time() - start
        results.append(result)
        release_memory()
        if result["violation"] is not None:
            break
    return results


class Workers:
    """Processes that work on chunks. What one of them was working on if it dies is done again."""

    def __init__(self, number):
        self.context = multiprocessing.get_context("spawn")
        self.number = number
        self.running = {}

    def start(self):
        here, there = self.context.Pipe()
        process = self.context.Process(target=_worker, args=(there,), daemon=True)
        process.start()
        there.close()
        return process, here

    def run(self, tasks):
        """Yield the results of all tasks, in the order in which they are finished."""
        waiting, attempts = list(enumerate(tasks))[::-1], [0] * len(tasks)
        self.running, idle = {}, [self.start() for _ in range(self.number)]
        try:
            while waiting or self.running:
                while waiting and idle:
                    process, connection = idle.pop()
                    number, task = waiting.pop()
                    attempts[number] += 1
                    self.running[connection] = (process, number)
                    try:
                        connection.send(task)
                    except (BrokenPipeError, ConnectionResetError):
                        pass  # seen below
                for connection in multiprocessing.connection.wait(list(self.running)):
                    process, number = self.running.pop(connection)
                    try:
                        results = connection.recv()
                    except (EOFError, ConnectionResetError):
                        process.join()
                        connection.close()
                        print(f"a worker ended with {process.exitcode}, its cases are run again")
                        if attempts[number] > 3:
                            raise RuntimeError(f"cannot run {tasks[number]}")
                        waiting.append((number, tasks[number]))
                        # there may not be enough memory for as many
                        if not idle and not self.running or attempts[number] == 1:
                            idle.append(self.start())
                        continue
                    idle.append((process, connection))
                    yield results
        finally:
            for process, connection in idle + [(p, c) for c, (p, _) in self.running.items()]:
                process.kill()
            for process, connection in idle + [(p, c) for c, (p, _) in self.running.items()]:
                process.join()
                connection.close()


def make_chunks(check, cases, workers):
    indexed = list(enumerate(cases))
    if hasattr(check, "affinity"):
        # cases of the same affinity share compiled code, keep them in the same worker
        groups = {}
        for index, case in indexed:
            groups.setdefault(check.affinity(case), []).append((index, case))
        groups = list(groups.values())
    else:
        groups = [indexed]
    size = max(1, min(getattr(check, "CHUNK", 10**9), len(indexed) // (workers * 6) or 1))
    chunks = [group[i : i + size] for group in groups for i in range(0, len(group), size)]
    cost = getattr(check, "cost", None)
    if cost:
        chunks.sort(key=lambda chunk: -sum(cost(case) for _, case in chunk))
    return chunks


def known_findings(check_id):
    """Lines `property=<id> key=<key> <what fails>`; `fixed:` lines suppress nothing."""
    findings = {}
    path = os.path.join(ROOT, "known_findings")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith("property="):
                continue
            prop, key, what = line.split(" ", 2)
            if prop == f"property={check_id}":
                findings[key[len("key=") :]] = what
    return findings


def replay_path(check_id, case):
    digest = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]
    directory = os.path.join(ROOT, "replays")
    os.makedirs(directory, exist_ok=True)
    return os.path.join(directory, f"{check_id}-{digest}.json")


def explore(check_id, tier, seed):
    check = get_check(check_id)
    start = time.time()
    cases = check.cases(tier)
    findings = known_findings(check_id)
    workers = min(WORKERS, max(1, len(cases)))
    chunks = make_chunks(check, cases, workers)

    total, outcomes, samples, violations, listed = {}, set(), [], [], {}
    finished, slowest = 0, []
    stopped_early = False
    jobs = Workers(workers).run([(check_id, chunk, seed, tier) for chunk in chunks])
    try:
        for results in jobs:
            for result in results:
                finished += 1
                for name, number in result["counts"].items():
                    total[name] = total.get(name, 0) + number
                outcomes.update(result["outcomes"])
                slowest.append((result["wall"], result["index"]))
                if result["sample"] is not None and len(samples) < 6:
                    samples.append(result["sample"])
                violation = result["violation"]
                if violation is None:
                    continue
                if violation["key"] in findings:
                    listed.setdefault(violation["key"], result)
                else:
                    violations.append(result)
                    stopped_early = True
            if stopped_early:
                break
    finally:
        jobs.close()

    for key in listed:
        print(f"KNOWN-FINDING: property={check_id} {findings[key]}")
    violations.sort(key=lambda result: result["index"])
    for result in violations[:1]:
        path = replay_path(check_id, result["case"])
        with open(path, "w") as file:
            json.dump(
                {
                    "property": check_id,
                    "tier": tier,
                    "seed": seed,
                    "case": result["case"],
                    "violation": result["violation"],
                    "replay_cmd": f"cd {ROOT} && /opt/venv/bin/python -B -m mc --replay {path}",
                },
                file,
                indent=1,
            )
        print(f"case: {json.dumps(result['case'])}")
        print(result["violation"]["message"])
        print(f"VIOLATION property={check_id} replay={path}")

    wall = time.time() - start
    if not samples:
        samples = [cases[0], cases[len(cases) // 2], cases[-1]]
    counts = dict(total)
    coverage = {
        "states": counts.pop("states", 0),
        "transitions": counts.pop("transitions", 0),
        "traces_validated_against_impl": counts.pop("traces", 0),
        "evaluations": finished,
        "exhaustive": not stopped_early and finished == len(cases),
        "rule": check.__doc__.strip(),
        "samples": samples[:6],
        "cases_enumerated": len(cases),
        "distinct_outcomes": len(outcomes),
        **counts,
    }
    evidence = {
        "property": check_id,
        "tier": tier,
        "seed": seed,
        "level": check.LEVEL,
        "coverage": coverage,
        "assumptions": list(check.ASSUMPTIONS),
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{check_id}.json"), "w") as file:
        json.dump(evidence, file, indent=1)
    print(
        f"{check_id} {tier} seed={seed}: {finished}/{len(cases)} cases, "
        f"{coverage['states']} states, {coverage['transitions']} transitions, "
        f"{coverage['traces_validated_against_impl']} traces, {counts}, "
        f"{len(outcomes)} outcomes, {wall:.1f}s"
    )
    if os.environ.get("MC_PROFILE"):
        for seconds, index in sorted(slowest, reverse=True)[:8]:
            print(f"  {seconds:.2f}s {json.dumps(cases[index])}")
    return 1 if violations else 0


def replay(path):
    prepare_worker_environment()
    record = json.load(open(path))
    load_groco()
    result = run_case(record["property"], record["case"], record["seed"], record["tier"])
    if result["violation"] is None:
        print("the case no longer violates the property")
        return 0
    print(result["violation"]["message"])
    print(f"VIOLATION property={record['property']} replay={path}")
    return 1


def self_test():
    """The reference model of the groups is itself consistent."""
    from mc import ref

    for name, elements in ref.DOCUMENTED.items():
        assert all(ref.multiply(a, b) in elements for a in elements for b in elements), name
        assert all(ref.invert(a) in elements for a in elements), name
    orders = {name: len(elements) for name, elements in ref.DOCUMENTED.items()}
    assert orders == dict(
        P1=1, P2=2, PMh=2, PMw=2, P2MM=4, P4=4, P4M=8, D4=8, D4h=16, O=24, Oh=48
    ), orders
    print("reference groups:", orders)
    return 0


def main():
    prepare_worker_environment()
    arguments = sys.argv[1:]
    if arguments and arguments[0] == "--replay":
        sys.exit(replay(arguments[1]))
    if arguments and arguments[0] == "--self-test":
        sys.exit(self_test())
    check_id = arguments[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(arguments) > 1:
        tier = arguments[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    sys.exit(explore(check_id, tier, seed))
