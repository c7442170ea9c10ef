"""
All kinds of layers with the arguments that Keras' layers have for their weights and outputs:
regularisers and constraints of kernel and bias, regulariser of the outputs, activations,
initialisers, and trainable or not, within the stated number of deviations of the default, and all
sequences up to the stated depth of operations on a model with it (training on a batch, fitting,
evaluating, freezing and unfreezing with recompilation, setting the weights, calling, calling
without state). States are the weights and losses of the model after each operation (transition),
compared with a reference in which everything is written out: the activation, the losses as
functions of the stored weights and of the outputs, descent along the gradient of their sum, and
projection by the constraints. In the quick tier pairs of deviations and all sequences are explored
for two kinds, and a third of the sequences for the others, in rotation.
"""

import itertools

import numpy as np

from mc import kinds, lib

TECHNIQUE = (
    "exhaustive enumeration of layer kinds, arguments within a number of deviations, and histories "
    "up to a depth, on the real layers, compared with an explicit reference execution"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "what the layer gives without activation for given weights is decided by C05 to C09",
    "plain gradient descent and mean squared error",
    "Keras 3.0.5 counts losses of weights twice when training with JAX; how often is measured with "
    "its own dense layer",
]

RATE = 2.0**-7
SAMPLES = 2
# argument: values, by name so that they can be written in a case
OPTIONS = {
    "kernel_regularizer": ["l1", "l2", "l1l2"],
    "bias_regularizer": ["l1", "l2"],
    "activity_regularizer": ["l2", "l1"],
    "kernel_constraint": ["non_neg", "max_norm", "unit_norm"],
    "bias_constraint": ["non_neg", "max_norm"],
    "activation": ["tanh", "softplus"],
    "kernel_initializer": ["normal", "variance_scaling"],
    "bias_initializer": ["normal"],
    "trainable": [False],
    "use_bias": [False],
}
OPERATIONS = ["train", "fit", "evaluate", "freeze", "set_weights", "call", "stateless"]
DEPTH = 2
# all pairs of deviations and all sequences in the quick tier, others get a third of these
COMPLETE = ("conv2", "transposed2_first")


def cases(tier):
    deep = tier == "thorough"
    result = []
    for index, name in enumerate(kinds.KINDS):
        if name == "padding2":
            continue
        options = OPTIONS if kinds.is_conv(name) else {"activity_regularizer": ["l2", "l1"]}
        singles = [{a: v} for a in options for v in options[a]]
        doubles = [
            {**x, **y}
            for x, y in itertools.combinations(singles, 2)
            if set(x) != set(y) and not (
                {"use_bias"} & {*x, *y} and any("bias_" in a for a in {*x, *y})
            )
        ]
        everything = {
            "kernel_regularizer": "l2", "bias_regularizer": "l1", "activity_regularizer": "l2",
            "kernel_constraint": "max_norm", "bias_constraint": "non_neg", "activation": "tanh",
        }
        chosen = [{}] + singles
        if deep or name in COMPLETE:
            chosen += doubles
        if kinds.is_conv(name):
            chosen.append(everything)
        for extra in chosen:
            full = deep or extra in ({}, everything)
            depth = (3 if deep else DEPTH) if full else 1
            if name == "lifting2_bare" and any("bias" in a for a in extra):
                continue
            firsts = OPERATIONS if full else ["train"]
            if full and not (deep or name in COMPLETE):
                firsts = OPERATIONS[(index + bool(extra)) % 3 :: 3]
            for first in firsts:
                result.append(dict(layer=name, extra=extra, first=first, depth=depth))
    return result


def affinity(case):
    return case["layer"]


def cost(case):
    return 10 ** case["depth"]


# --- the arguments, and what they mean ---------------------------------------------------------

def argument(name, value):
    from keras import constraints, initializers, regularizers

    if name.endswith("_regularizer"):
        return {
            "l1": lambda: regularizers.L1(2.0**-5),
            "l2": lambda: regularizers.L2(2.0**-6),
            "l1l2": lambda: regularizers.L1L2(2.0**-5, 2.0**-6),
        }[value]()
    if name.endswith("_constraint"):
        return {
            "non_neg": lambda: constraints.NonNeg(),
            "max_norm": lambda: constraints.MaxNorm(1.0, axis=0),
            "unit_norm": lambda: constraints.UnitNorm(axis=[0, 1]),
        }[value]()
    if name.endswith("_initializer"):
        return {
            "normal": lambda: initializers.RandomNormal(0.0, 0.5, seed=7),
            "variance_scaling": lambda: initializers.VarianceScaling(
                1.0, "fan_avg", "uniform", seed=8
            ),
        }[value]()
    return value


def penalty(value, weights):
    import jax.numpy as jnp

    result = 0.0
    if value in ("l1", "l1l2"):
        result = result + 2.0**-5 * jnp.sum(jnp.abs(weights))
    if value in ("l2", "l1l2"):
        result = result + 2.0**-6 * jnp.sum(weights**2)
    return result


def projection(value, weights):
    if value is None:
        return weights
    if value == "non_neg":
        return np.maximum(weights, 0)
    norms = np.sqrt(np.sum(weights**2, axis=0 if value == "max_norm" else (0, 1), keepdims=True))
    if value == "max_norm":
        return weights * np.minimum(norms, 1.0) / np.maximum(norms, 1e-7)
    return weights / np.maximum(norms, 1e-7)


def activate(value, outputs):
    import jax.numpy as jnp

    if value == "tanh":
        return jnp.tanh(outputs)
    if value == "softplus":
        return jnp.logaddexp(outputs, 0.0)
    return outputs


CALIBRATION = {}


def times():
    """How often this Keras counts losses of layers in training, as measured with its own layers."""
    import keras

    if not CALIBRATION:
        x = np.ones((1, 1), "float32")
        for kind in ("kernel_regularizer", "activity_regularizer"):
            layer = keras.layers.Dense(1, kernel_initializer="ones", **{kind: argument(kind, "l1")})
            model = keras.Sequential([keras.Input((1,)), layer])
            model.compile("sgd", "mse")
            found = float(model.evaluate(x, x, verbose=0)) / 2.0**-5
            assert found == int(found), found
            CALIBRATION[kind] = int(found)
    return CALIBRATION


BARE = {}


def bare(name, use_bias):
    """What the layer gives without any of these arguments, as a function of weights and inputs."""
    import jax

    if (name, use_bias) not in BARE:
        extra = {} if use_bias else {"use_bias": False}
        layer = kinds.make(name, **extra)
        layer.build(kinds.input_shape(name, SAMPLES, kinds.good_sizes(name)[0]))
        BARE[name, use_bias] = jax.jit(lambda w, x: layer.stateless_call(w, [], x)[0])
    return BARE[name, use_bias]


class History:
    def __init__(self, case, ctx):
        import jax
        import keras

        self.ctx, self.case = ctx, case
        name, self.extra = case["layer"], case["extra"]
        rng = np.random.default_rng([ctx.seed, 24])
        shape = kinds.input_shape(name, SAMPLES, kinds.good_sizes(name)[0])
        number = int(np.prod(shape))
        self.inputs = (rng.permutation(number) / number - 0.5).reshape(shape).astype("float32")
        extra = {a: argument(a, v) for a, v in self.extra.items()}
        self.layer = kinds.make(name, **extra)
        inputs = keras.Input(batch_shape=shape)
        self.model = keras.Model(inputs, self.layer(inputs))
        self.rng = rng
        self.past = []
        use_bias = self.extra.get("use_bias", kinds.arguments(name).get("use_bias", True))
        self.names = (["kernel"] + ["bias"] * use_bias) if kinds.is_conv(name) else []
        self.trainable = self.extra.get("trainable", True)
        self.check_initial()
        # this Keras does not heed the argument in models, also not for its own layers
        self.layer.trainable = self.trainable
        self.set_weights()
        forward = bare(name, use_bias)
        output_shape = self.model.output_shape
        self.targets = rng.integers(-1, 2, size=output_shape).astype("float32")

        def outputs(weights):
            return activate(self.extra.get("activation"), forward(weights, self.inputs))

        def losses(weights):
            y = outputs(weights)
            result = [
                penalty(self.extra[n + "_regularizer"], w)
                for n, w in zip(self.names, weights)
                if n + "_regularizer" in self.extra and self.trainable
            ]
            if "activity_regularizer" in self.extra:
                result.append(penalty(self.extra["activity_regularizer"], y))
            return result, y

        def total(weights):
            import jax.numpy as jnp

            extra, y = losses(weights)
            value = jnp.mean((y - self.targets) ** 2)
            if "activity_regularizer" in self.extra:
                value += times()["activity_regularizer"] * extra.pop()
            return value + times()["kernel_regularizer"] * sum(extra)

        self.outputs, self.losses = outputs, losses
        self.total, self.gradient = total, jax.grad(total)
        self.compile()

    def compile(self):
        import keras

        self.model.compile(keras.optimizers.SGD(RATE), "mse")

    # --- comparisons -----------------------------------------------------------------------

    def describe(self):
        return f"{self.case['layer']} with {self.extra}, after {self.past}"

    def compare(self, what, found, expected):
        found, expected = np.asarray(found), np.asarray(expected)
        self.ctx.require(
            found.shape == expected.shape and np.allclose(found, expected, rtol=5e-4, atol=5e-5),
            what,
            lambda: f"{self.describe()}: {what} differs: {lib.difference(found, expected)}",
        )

    def check_initial(self):
        import keras

        for n, w in zip(self.names, self.layer.weights):
            if n + "_initializer" in self.extra:
                expected = argument(n + "_initializer", self.extra[n + "_initializer"])(w.shape)
                self.compare("initial value", w.numpy(), lib.array(expected))
            elif n == "bias":
                self.compare("initial value", w.numpy(), np.zeros(w.shape))
        found = [w.path.split("/")[-1] for w in self.layer.weights]
        self.ctx.require(
            found == self.names, "names", f"{self.describe()}: weights {found}, not {self.names}"
        )
        self.ctx.require(
            len(self.layer.trainable_weights) == (len(self.names) if self.trainable else 0)
            and len(self.layer.weights) == len(self.names)
            and self.layer.count_params() == sum(int(np.prod(w.shape)) for w in self.layer.weights),
            "trainable",
            lambda: f"{self.describe()}: {len(self.layer.trainable_weights)} trainable weights",
        )

    def check(self):
        self.ctx.states()
        found = self.layer.get_weights()
        self.ctx.require(len(found) == len(self.weights), "number", f"{self.describe()}: weights")
        for n, a, b in zip(self.names, found, self.weights):
            self.compare(n, a, b)

    # --- operations ------------------------------------------------------------------------

    def step(self, operation):
        self.past.append(operation)
        try:
            getattr(self, operation)()
        except (AttributeError, TypeError, ValueError, AssertionError, RuntimeError) as error:
            self.ctx.fail(
                "raises", f"{self.describe()} raises {type(error).__name__}: {error}"
            )
        self.ctx.transitions()
        self.check()
        self.ctx.outcome((operation, tuple(sorted(self.extra))))

    def reference_step(self):
        loss = float(self.total(self.weights))
        if self.trainable:
            self.weights = [
                projection(self.extra.get(n + "_constraint"), np.asarray(w - RATE * g))
                for n, w, g in zip(self.names, self.weights, self.gradient(self.weights))
            ]
        return loss

    def train(self):
        self.model.reset_metrics()
        found = self.model.train_on_batch(self.inputs, self.targets)
        self.compare("loss", float(found), self.reference_step())

    def fit(self):
        history = self.model.fit(
            self.inputs, self.targets, batch_size=SAMPLES, epochs=2, shuffle=False, verbose=0
        )
        self.compare(
            "loss", history.history["loss"], [self.reference_step(), self.reference_step()]
        )

    def evaluate(self):
        self.model.reset_metrics()
        found = self.model.evaluate(self.inputs, self.targets, batch_size=SAMPLES, verbose=0)
        self.compare("loss", float(found), float(self.total(self.weights)))

    def freeze(self):
        self.trainable = not self.trainable
        self.layer.trainable = self.trainable
        self.compile()

    def set_weights(self):
        self.weights = [
            self.rng.integers(-8, 9, size=w.shape).astype("float32") / 8
            for w in self.layer.weights
        ]
        self.layer.set_weights(self.weights)

    def call(self):
        found = lib.array(self.layer(self.inputs))
        losses, outputs = self.losses(self.weights)
        self.compare("output", found, outputs)
        self.compare(
            "losses", sorted(float(x) for x in self.layer.losses), sorted(float(x) for x in losses)
        )

    def stateless(self):
        other = [w / 2 for w in self.weights]
        variables = self.layer.trainable_weights if self.trainable else []
        split = (other, []) if variables else ([], other)
        result = self.layer.stateless_call(*split, self.inputs, return_losses=True)
        losses, outputs = self.losses(other)
        self.compare("output", lib.array(result[0]), outputs)
        found = [float(x) for x in result[2]]
        if len(found) < len(losses) and "activity_regularizer" in self.extra:
            # this Keras leaves it out in some of the calls, also for its own layers
            losses.pop()
        self.compare("losses", sorted(found), sorted(float(x) for x in losses))


def run(case, ctx):
    for rest in itertools.product(OPERATIONS, repeat=case["depth"] - 1):
        history = History(case, ctx)
        history.check()
        for operation in (case["first"],) + rest:
            history.step(operation)
        # what the sequence has led to, in every respect
        history.step("call")
        history.step("train")
        ctx.traces()
