"""
For one layer of every kind: two threads that call the same layer at the same time (same inputs,
inputs of other sizes, or a call that raises), under every schedule with at most the stated number
of preemptions at the lines of GroCo and of the Keras layers it is built on. Every call must give
what it gives alone, and the weights, the list of weights and the configuration be the same
afterwards. A reader that looks at weights and filters between any two lines must only ever see the
stored ones. States are the schedules run to the end, transitions the scheduling points passed,
traces the reads in between.
"""

import itertools

import numpy as np

from mc import core, kinds, lib, schedule
from mc.checks import c12

TECHNIQUE = (
    "stateless model checking of the real layers under a controlled scheduler: all schedules of "
    "two threads up to a preemption bound, at the granularity of lines"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "preemptions inside of JAX and NumPy, and within lines, do not matter (thorough: bytecodes)",
    "other code of Keras is safe to call from several threads",
]

schedule.install_locks(core.REPO)

FILES = [
    core.REPO + "/groco/",
    "keras/src/layers/convolutional/",
    "keras/src/layers/pooling/",
]

PAIRS = [("call_a", "call_a"), ("call_a", "call_b"), ("call_b", "activation_fails")]


def cases(tier):
    deep = tier == "thorough"
    result = []
    for name in kinds.KINDS:
        if name == "padding2":
            continue
        for pair in PAIRS:
            pair = list(pair)
            if not kinds.is_conv(name):
                if pair[1] == "activation_fails":
                    pair[1] = "bad_size"
                if kinds.bad_size(name) is None and "bad_size" in pair:
                    continue
            one = dict(layer=name, pair=pair, bound=1, opcodes=False)
            result.append(dict(one, start=[], part=[0, 1], where="lines"))
            two = deep or (name in ("lifting2_bare", "max1") and pair == ["call_a", "call_b"])
            if two:
                for i, start in itertools.product(range(32 if deep else 8), (0, 1)):
                    result.append(
                        dict(one, bound=2, start=[start], part=[i, 32 if deep else 8],
                             where="lines" if deep else "calls")
                    )
            if deep:
                result.append(dict(one, start=[], part=[0, 1], opcodes=True, where="lines"))
        for operation in ("call_a", "call_b", "activation_fails"):
            if operation == "activation_fails" and not kinds.is_conv(name):
                continue
            result.append(dict(layer=name, read=operation, opcodes=True))
    return result


def affinity(case):
    return case["layer"] + str(case.get("bound"))


CHUNK = 4


def cost(case):
    return 1 if "read" in case else 10 ** case["bound"]


def observe(layer):
    """What other threads can see of the weights of a layer."""
    seen = {"weights": [lib.array(w) for w in layer.weights], "list": list(map(id, layer.weights))}
    seen["get_weights"] = layer.get_weights()
    for name in ("kernel", "bias"):
        value = getattr(layer, name, None)
        if value is not None:
            seen[name] = lib.array(value)
    seen["filters"] = getattr(layer, "filters", None)
    seen["trainable"] = len(layer.trainable_weights)
    return seen


def same(a, b):
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.shape == b.shape and np.array_equal(a, b)
    return a == b


def describe(a, b):
    return [k for k in a if not same(a[k], b.get(k))]


def equal_results(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-5, atol=1e-5)


def make_operation(history, operation):
    """
    A function that a thread runs. Failing activations have to be told by the thread: each call has
    inputs of its own, marked by a first entry that makes the activation raise.
    """
    a, b = history.sizes
    name = history.name
    sizes = {"call_a": (2, a), "call_b": (1, b), "bad_size": (2, kinds.bad_size(name))}
    inputs = kinds.inputs(name, *sizes.get(operation, (2, a)))

    def run():
        THREAD.fail = operation == "activation_fails"
        try:
            return lib.array(history.layer(inputs))
        except Exception as error:
            return type(error).__name__
        finally:
            THREAD.fail = False

    return run


import threading  # noqa: E402

THREAD = threading.local()


def activation(x):
    if getattr(THREAD, "fail", False):
        raise kinds.Failure("the activation fails in this thread")
    return x


class Shared(c12.History):
    def make(self):
        extra = {"activation": activation} if kinds.is_conv(self.name) else {}
        return kinds.make(self.name, **extra)


def run(case, ctx):
    history = Shared(case["layer"], "call_a", ctx)
    before = observe(history.layer)
    public = history.public_state()
    operations = case["pair"] if "pair" in case else [case["read"]]
    functions = [make_operation(history, operation) for operation in operations]
    alone = [f() for f in functions]
    for f in functions:  # compiled and cached everything by now
        f()
    if "read" in case:
        return run_reads(case, history, functions[0], alone[0], before, ctx)

    def execute(prefix, expected):
        return schedule.Scheduler(
            functions, FILES, case["opcodes"], functions_only=case["where"] == "calls"
        ).run(prefix, expected)

    def visit(done):
        ctx.states()
        ctx.transitions(len(done.points))
        for task, expected, operation in zip(done.tasks, alone, operations):
            if task.error is not None:
                raise task.error
            ctx.require(
                equal_results(task.result, expected),
                "result",
                lambda: f"{operation} gives "
                + (
                    f"{task.result} instead of {expected}"
                    if isinstance(task.result, str) or isinstance(expected, str)
                    else "another result than alone: " + lib.difference(task.result, expected)
                )
                + f" with {operations} under schedule "
                + describe_schedule(done),
            )
        after = observe(history.layer)
        ctx.require(
            same(before, after),
            "weights",
            lambda: f"after {operations}, {describe(before, after)} differ, under schedule "
            + describe_schedule(done),
        )
        now = history.public_state()
        ctx.require(
            public == now,
            "configuration",
            lambda: f"public attributes changed from {public} to {now} under schedule "
            + describe_schedule(done),
        )
        ctx.outcome(len(done.points))

    # the same schedule twice gives the same points: nothing else decides
    first, second = execute([], None), execute([], None)
    if first.points != second.points:
        raise RuntimeError("two runs of the same schedule differ")
    schedule.explore(execute, case["bound"], visit, case["start"], tuple(case["part"]))


def describe_schedule(done):
    """The places where the running thread changes."""
    changes, running = [], None
    for (point, _), choice in zip(done.points, done.choices):
        index, where = point[choice]
        if index != running:
            changes.append(f"thread {index} from {where[:2]}")
            running = index
    return "; ".join(changes)


def run_reads(case, history, function, alone, before, ctx):
    reads = []

    def between():
        seen = observe(history.layer)
        ctx.traces()
        ctx.require(
            same(before, seen),
            "read",
            lambda: f"{describe(before, seen)} read by another thread during {case['read']}, "
            f"after {scheduler.tasks[0].where}, are not the stored ones",
        )
        reads.append(scheduler.tasks[0].where)

    scheduler = schedule.Scheduler([function], FILES, case["opcodes"], between)
    scheduler.run()
    ctx.states()
    ctx.transitions(len(reads))
    ctx.require(equal_results(scheduler.tasks[0].result, alone), "result", "another result")
