"""
For one layer of every kind: all sequences of operations from the alphabet (calls with two batch
sizes and four grid sizes, calls that raise from the activation, for an impossible size, for wrong
channels, calls under jit, differentiation, symbolic calls, weight updates, reads of configuration
and weights), from each way of building the layer, up to the stated depth, and one history
containing all sequences of a greater length somewhere (de Bruijn). In addition a fault in every
single backend operation that a call makes. After every operation its result is compared with that of a
freshly constructed layer with the same weights, and the weights, the list of weights and the public
configuration with what they should be. States are the points of these histories, transitions the
operations, traces the complete histories.
"""

import itertools

import numpy as np

from mc import kinds, lib

TECHNIQUE = (
    "exhaustive enumeration of operation histories and of faults on the real layers, compared "
    "with fresh layers after every operation"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "one layer per kind, integer values; jit and eager results may differ by rounding",
    "faults are exceptions raised by the activation or by an operation of keras.ops that is called",
]

OPERATIONS = [
    "call_a", "call_b", "call_c", "call_d", "activation_fails", "bad_size", "wrong_channels", "jit",
    "symbolic", "set_weights", "read", "gradient", "wrong_rank", "wrong_order", "stateless",
    "others",
]
BUILDS = ["call_a", "call_b", "symbolic", "unknown_sizes"]
# what takes long, and adds least in long histories
SLOW = {"jit", "gradient", "symbolic", "others"}


def alphabet(name):
    operations = list(OPERATIONS)
    if not kinds.is_conv(name):
        operations.remove("activation_fails")
        operations.remove("set_weights")
        operations.remove("stateless")
    if name == "padding2" or kinds.KINDS[name]["kind"].startswith("Global"):
        operations.remove("wrong_order")
    elif kinds.input_order(name) is None:
        operations.remove("wrong_order")
    if kinds.bad_size(name) is None:
        operations.remove("bad_size")
    if kinds.KINDS[name]["dimensions"] == 1:
        operations.remove("call_c")
        operations.remove("call_d")
    if name == "padding2" or not kinds.is_conv(name):
        operations.remove("wrong_channels")
        operations.remove("wrong_rank")
    return operations


def de_bruijn(symbols, length):
    """A cyclic sequence that contains every word of this length exactly once."""
    k = len(symbols)
    a, sequence = [0] * k * length, []

    def extend(t, p):
        if t > length:
            if length % p == 0:
                sequence.extend(a[1 : p + 1])
        else:
            a[t] = a[t - p]
            extend(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                extend(t + 1, t)

    extend(1, 1)
    return [symbols[i] for i in sequence + sequence[: length - 1]]


def cases(tier):
    deep = tier == "thorough"
    result = []
    for name in kinds.KINDS:
        operations = alphabet(name)
        result.append(dict(kind="faults", layer=name))
        for build in BUILDS:
            depth = 2 if deep or build == "call_a" else 1
            for first in operations:
                result.append(
                    dict(kind="all", layer=name, build=build, first=first,
                         depth=depth + (deep and build == "call_a"))
                )
        fast = [o for o in operations if o not in SLOW]
        for symbols, length in [(operations, 3 if deep else 2), (fast, 4 if deep else 3)]:
            word = de_bruijn(symbols, length)
            pieces = 400
            for start in range(0, len(word), pieces):
                piece = word[max(0, start - length + 1) : start + pieces]
                result.append(dict(kind="word", layer=name, build="call_a", word=piece))
    return result


def affinity(case):
    return case["layer"]


def cost(case):
    return {"all": 60 ** (case.get("depth", 1) - 1), "word": 50, "faults": 20}[case["kind"]]


FRESH = {}


class History:
    """A layer, and what is expected of it."""

    def __init__(self, name, build, ctx):
        self.name, self.ctx = name, ctx
        self.sizes = kinds.good_sizes(name)
        self.version = 0
        self.layer = self.make()
        self.past = [f"build:{build}"]
        if build == "call_a":
            self.layer(kinds.inputs(name, 2, self.sizes[0]))
        elif build == "call_b":
            self.layer(kinds.inputs(name, 1, self.sizes[1]))
        elif build == "symbolic":
            self.symbolic(self.layer)
        else:
            unknown = (None,) * kinds.KINDS[name]["dimensions"]
            self.layer.build(kinds.input_shape(name, None, unknown))
        self.layer.set_weights(kinds.weight_values(self.layer, self.version))
        self.weights = list(self.layer.weights)
        self.groups = self.group_state()
        self.public = self.public_state()
        self.config = repr(self.layer.get_config()) if name != "padding2" else ""

    def make(self):
        extra = {"name": "the_layer"}
        if kinds.is_conv(self.name):
            extra["activation"] = kinds.activation
        return kinds.make(self.name, **extra)

    def oblong(self, first, last):
        """A grid with these sizes along its first and its last axis."""
        dimensions = kinds.KINDS[self.name]["dimensions"]
        return (first,) * (dimensions // 2) + (last,) * (dimensions - dimensions // 2)

    def symbolic(self, layer):
        import keras

        inputs = keras.Input(batch_shape=kinds.input_shape(self.name, None, self.sizes[0]))
        return np.array([-1 if n is None else n for n in layer(inputs).shape])

    def perform(self, operation, layer):
        """The observable result of an operation: an array, or the type of the exception."""
        import jax
        from keras import ops

        name, (a, b) = self.name, self.sizes
        try:
            if operation == "call_a":
                return lib.array(layer(kinds.inputs(name, 2, a)))
            if operation == "call_b":
                return lib.array(layer(kinds.inputs(name, 1, b)))
            # grids that agree in single sizes, in the number of points and in the batch size
            if operation == "call_c":
                return lib.array(layer(kinds.inputs(name, 2, self.oblong(a, b))))
            if operation == "call_d":
                return lib.array(layer(kinds.inputs(name, 2, self.oblong(b, a))))
            if operation == "activation_fails":
                kinds.SWITCH["fail"] = True
                return lib.array(layer(kinds.inputs(name, 2, a)))
            if operation == "bad_size":
                return lib.array(layer(kinds.inputs(name, 2, kinds.bad_size(name))))
            if operation == "wrong_channels":
                return lib.array(layer(kinds.inputs(name, 2, a, channels=4)))
            if operation == "wrong_rank":
                return lib.array(layer(kinds.inputs(name, 2, a)[0]))
            if operation == "wrong_order":
                inputs = kinds.inputs(name, 2, a)
                return lib.array(layer(np.concatenate([inputs] * 2, axis=self.group_axis())))
            if operation == "stateless":
                # with other weights, which are not those of the layer afterwards
                weights = kinds.weight_values(layer, 1 - self.version)
                return lib.array(layer.stateless_call(weights, [], kinds.inputs(name, 2, a))[0])
            if operation == "others":
                for other in self.others():
                    self.use_other(other)
                return np.array(0)
            if operation == "jit":
                return lib.array(jax.jit(lambda x: layer(x))(kinds.inputs(name, 2, b)))
            if operation == "gradient":
                return lib.array(
                    jax.grad(lambda x: ops.sum(layer(x) ** 2))(kinds.inputs(name, 2, a))
                )
            if operation == "symbolic":
                return self.symbolic(layer)
            if operation == "set_weights":
                layer.set_weights(kinds.weight_values(layer, self.version))
                return np.array(0)
            if operation == "read":
                layer.get_config()
                return np.array([layer.count_params(), len(layer.get_weights())])
        except Exception as error:
            return type(error).__name__
        finally:
            kinds.SWITCH["fail"] = False
        raise RuntimeError(operation)

    def group_axis(self):
        k = kinds.KINDS[self.name]
        return k["dimensions"] + 1 + (k["format"] == kinds.FIRST)

    def others(self):
        """Other kinds of layers that use the same groups, or are of the same class."""
        def uses(name):
            return {kinds.KINDS[name].get("group"), kinds.KINDS[name].get("sub")} - {None}

        return [
            other
            for other in kinds.KINDS
            if other != self.name
            and (
                uses(other) & uses(self.name)
                or kinds.class_name(other) == kinds.class_name(self.name)
            )
        ][:4]

    def use_other(self, other):
        layer = kinds.make(other)
        layer(kinds.inputs(other, 1, kinds.good_sizes(other)[1]))

    def group_state(self):
        """Everything that the groups, which all layers share, consist of."""
        k = kinds.KINDS[self.name]
        state = []
        for name in sorted({k.get("group"), k.get("sub")} - {None}):
            group = lib.groco_groups()[name]
            for key, value in sorted(vars(group).items()):
                if isinstance(value, (str, int, list, dict, tuple)):
                    state.append((name, key, repr(value)))
                elif hasattr(value, "shape"):
                    state.append((name, key, lib.array(value).tobytes()))
        return state

    def public_state(self):
        return {
            key: repr(value)
            for key, value in vars(self.layer).items()
            if not key.startswith("_") and isinstance(value, (int, float, str, bool, tuple))
        }

    def fresh(self, operation):
        """What a freshly constructed layer gives."""
        key = (self.name, operation, self.version)
        if key not in FRESH:
            layer = self.make()
            layer.build(kinds.input_shape(self.name, 2, self.sizes[0]))
            layer.set_weights(kinds.weight_values(layer, self.version))
            FRESH[key] = self.perform(operation, layer)
        return FRESH[key]

    def step(self, operation):
        if operation == "set_weights":
            self.version = 1 - self.version
        self.past.append(operation)
        result = self.perform(operation, self.layer)
        self.compare(operation, result)
        self.check_state()

    def compare(self, operation, result):
        expected = self.fresh(operation)
        self.ctx.transitions()
        if isinstance(expected, str) or isinstance(result, str):
            same = isinstance(expected, str) and isinstance(result, str) and expected == result
        else:
            same = expected.shape == result.shape and np.allclose(
                expected, result, rtol=1e-4, atol=1e-4
            )
        self.ctx.require(
            same,
            "result",
            lambda: f"{self.past}: the last operation gives "
            + (
                f"{result}, a fresh layer {expected}"
                if isinstance(expected, str) or isinstance(result, str)
                else "something else than with a fresh layer: " + lib.difference(result, expected)
            ),
        )
        self.ctx.outcome((operation, expected if isinstance(expected, str) else expected.shape))

    def check_state(self):
        ctx, layer = self.ctx, self.layer
        ctx.states()
        now = layer.weights
        ctx.require(
            len(now) == len(self.weights) and all(v is w for v, w in zip(now, self.weights)),
            "weights",
            f"{self.past}: the list of weights changed to {now}",
        )
        expected = kinds.weight_values(layer, self.version)
        for found, value in zip(layer.get_weights(), expected):
            ctx.require(
                np.array_equal(found, value),
                "weights",
                lambda: f"{self.past}: stored weights: " + lib.difference(found, value),
            )
        state = self.public_state()
        ctx.require(
            state == self.public,
            "configuration",
            f"{self.past}: public attributes changed from {self.public} to {state}",
        )
        ctx.require(
            self.group_state() == self.groups,
            "group",
            f"{self.past}: a group changed",
        )
        if self.config:
            config = repr(layer.get_config())
            ctx.require(
                config == self.config,
                "configuration",
                f"{self.past}: the configuration changed from {self.config} to {config}",
            )

    def finish(self):
        for operation in ("call_a", "call_b"):
            self.step(operation)
        self.ctx.traces()


def run(case, ctx):
    name = case["layer"]
    if case["kind"] == "faults":
        return run_faults(name, ctx)
    if case["kind"] == "word":
        history = History(name, case["build"], ctx)
        for operation in case["word"]:
            history.step(operation)
        return history.finish()
    operations = alphabet(name)
    for rest in itertools.product(operations, repeat=case["depth"] - 1):
        history = History(name, case["build"], ctx)
        for operation in (case["first"],) + rest:
            history.step(operation)
        history.finish()


class Fault(Exception):
    pass


class FaultInjector:
    """Makes the chosen one of the operations of keras.ops that are called raise an error."""

    def __init__(self, at=None):
        self.at, self.calls = at, 0

    def __enter__(self):
        from keras import ops

        self.ops = ops
        self.original = {
            name: value
            for name, value in vars(ops).items()
            if callable(value) and not name.startswith("_") and not isinstance(value, type)
        }
        for name, value in self.original.items():
            setattr(ops, name, self.wrap(value))
        return self

    def wrap(self, function):
        def wrapped(*args, **kwargs):
            self.calls += 1
            if self.calls - 1 == self.at:
                raise Fault("out of memory")
            return function(*args, **kwargs)

        return wrapped

    def __exit__(self, *_):
        for name, value in self.original.items():
            setattr(self.ops, name, value)


def run_faults(name, ctx):
    for operation in ("call_a", "call_b", "jit", "symbolic"):
        history = History(name, "call_a", ctx)
        with FaultInjector() as injector:
            history.perform(operation, history.layer)
        number = injector.calls
        ctx.count("fault_points", number)
        for at in range(number):
            history = History(name, "call_a", ctx)
            for _ in range(2):
                with FaultInjector(at) as injector:
                    result = history.perform(operation, history.layer)
                ctx.transitions()
                if not isinstance(result, str):
                    ctx.count("faults_not_reached")
                history.past.append(f"{operation} with fault in operation {at}: {result}")
                history.check_state()
            history.finish()
