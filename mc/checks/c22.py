"""
Every kind of layer, in every kind of Keras model (sequential with and without known input shape,
functional, subclassed with layers made in the constructor or in build, as a sublayer of a custom
layer that makes it in its constructor or in build, with compilation or eager), not built, and all
sequences up to the stated depth of the ways to use the model (call, predict in batches of different
sizes, evaluate, fit, training and testing on a batch, symbolic call, build, saving and loading the
weights). States are the weights of the model; after every operation (transition) the weights, the
losses and the outputs are compared with a reference: the same layer built by itself, followed by an
explicit dense layer, with gradient descent by explicit differentiation of these.
"""

import itertools
import os
import tempfile

import numpy as np

from mc import kinds, lib

TECHNIQUE = (
    "exhaustive enumeration of layer kinds, kinds of models and sequences of their uses up to a "
    "depth, on the real code, compared with explicit reference executions"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "what a layer does when built and called by itself is what C05 to C09 decide",
    "mean squared error and plain gradient descent; sequences that Keras does not allow for its "
    "own layers are left out",
]

CONTAINERS = [
    "sequential", "sequential_input", "functional", "subclass", "subclass_build", "block",
    "block_build", "eager",
]
OPERATIONS = [
    "call", "predict", "predict_on_batch", "evaluate", "test_on_batch", "fit", "train_on_batch",
    "symbolic", "build", "weights",
]
RATE = 2.0**-6
# more than one sample, and an incomplete last batch
SAMPLES, BATCH = 3, 2
CHUNK = 1


# explored to a depth of two, and in all containers
DEEPER = [("conv2", "subclass"), ("transposed2", "sequential"), ("max2", "block_build")]
COMPLETE = ("conv2", "max2_first")


def cases(tier):
    deep = tier == "thorough"
    result = []
    names = [name for name in kinds.KINDS if name != "padding2"]
    for i, name in enumerate(names):
        for j, container in enumerate(CONTAINERS):
            if not (deep or name in COMPLETE or container == "subclass" or j == i % len(CONTAINERS)):
                continue
            if deep or (name, container) in DEEPER:
                for first in OPERATIONS:
                    result.append(dict(layer=name, container=container, first=first, depth=2))
            else:
                result.append(dict(layer=name, container=container, first=None, depth=1))
    return result


def affinity(case):
    return case["layer"]


def cost(case):
    return 10 ** case["depth"]


def layer_arguments(name):
    """Initial values that are the same in every layer."""
    from keras import initializers

    if not kinds.is_conv(name):
        return {}
    return dict(
        kernel_initializer=initializers.RandomUniform(-1, 1, seed=3),
        **(
            {}
            if kinds.arguments(name).get("use_bias") is False
            else dict(bias_initializer=initializers.RandomUniform(-1, 1, seed=4))
        ),
    )


def make_layer(name):
    return kinds.make(name, **layer_arguments(name))


def make_rest():
    from keras import initializers, layers

    return [
        layers.Flatten(),
        layers.Dense(
            1,
            kernel_initializer=initializers.RandomUniform(-1, 1, seed=5),
            bias_initializer=initializers.RandomUniform(-1, 1, seed=6),
        ),
    ]


def make_model(name, container, shape):
    import keras

    class Subclass(keras.Model):
        def __init__(self):
            super().__init__()
            self.first, (self.second, self.third) = make_layer(name), make_rest()

        def call(self, inputs):
            return self.third(self.second(self.first(inputs)))

    class SubclassBuild(keras.Model):
        def build(self, input_shape):
            self.first, (self.second, self.third) = make_layer(name), make_rest()
            self.first.build(input_shape)
            output_shape = self.first.compute_output_shape(input_shape)
            self.second.build(output_shape)
            self.third.build(self.second.compute_output_shape(output_shape))
            self.built = True

        def call(self, inputs):
            return self.third(self.second(self.first(inputs)))

    class Block(keras.layers.Layer):
        def __init__(self):
            super().__init__()
            self.inner = make_layer(name)

        def call(self, inputs):
            return self.inner(inputs)

    class BlockBuild(keras.layers.Layer):
        def build(self, input_shape):
            self.inner = make_layer(name)
            self.inner.build(input_shape)
            self.built = True

        def call(self, inputs):
            return self.inner(inputs)

        def compute_output_shape(self, input_shape):
            return self.inner.compute_output_shape(input_shape)

    class Outer(keras.Model):
        def __init__(self, block):
            super().__init__()
            self.block, (self.second, self.third) = block(), make_rest()

        def call(self, inputs):
            return self.third(self.second(self.block(inputs)))

    if container == "sequential":
        model = keras.Sequential([make_layer(name)] + make_rest())
    elif container == "sequential_input":
        model = keras.Sequential([keras.Input(shape[1:]), make_layer(name)] + make_rest())
    elif container == "functional":
        inputs = outputs = keras.Input(shape[1:])
        for layer in [make_layer(name)] + make_rest():
            outputs = layer(outputs)
        model = keras.Model(inputs, outputs)
    elif container in ("subclass", "eager"):
        model = Subclass()
    elif container == "subclass_build":
        model = SubclassBuild()
    else:
        model = Outer(Block if container == "block" else BlockBuild)
    model.compile(
        keras.optimizers.SGD(RATE), "mse", run_eagerly=container == "eager",
    )
    return model


class Reference:
    """The layer by itself, and what comes after it and its training written out."""

    def __init__(self, name, inputs, targets):
        import jax
        import jax.numpy as jnp

        self.layer = make_layer(name)
        self.layer.build((None,) + inputs.shape[1:])
        rest = make_rest()
        features = int(np.prod(lib.array(self.layer(inputs)).shape[1:]))
        rest[1].build((None, features))
        self.number = len(self.layer.weights)
        self.weights = [np.asarray(w) for w in self.layer.get_weights() + rest[1].get_weights()]
        self.inputs, self.targets = inputs, targets

        def apply(weights, x):
            values, _ = self.layer.stateless_call(weights[: self.number], [], x)
            kernel, bias = weights[self.number :]
            return jnp.reshape(values, (len(x), -1)) @ kernel + bias

        def loss(weights, x, y):
            return jnp.mean((apply(weights, x) - y) ** 2)

        self.apply = apply
        self.gradient = jax.value_and_grad(loss)
        self.loss = loss

    def step(self, batch):
        value, gradient = self.gradient(self.weights, self.inputs[batch], self.targets[batch])
        self.weights = [np.asarray(w - RATE * g) for w, g in zip(self.weights, gradient)]
        return float(value)


FRESH = {}


def reference(name, inputs, targets):
    """A reference in its initial state, sharing what is compiled."""
    if name not in FRESH:
        made = Reference(name, inputs, targets)
        FRESH[name] = (made, made.weights)
    made, made.weights = FRESH[name]
    return made


class History:
    def __init__(self, case, ctx):
        name, self.container = case["layer"], case["container"]
        self.ctx, self.name = ctx, name
        size = kinds.good_sizes(name)[0]
        rng = np.random.default_rng(11)
        shape = kinds.input_shape(name, SAMPLES, size)
        # all values differ, so that there is no choice of a maximum
        values = rng.permutation(int(np.prod(shape))) / np.prod(shape) - 0.5
        self.inputs = values.reshape(shape).astype("float32")
        self.targets = rng.integers(-2, 3, size=(SAMPLES, 1)).astype("float32")
        self.model = make_model(name, self.container, shape)
        self.reference = reference(name, self.inputs, self.targets)
        self.past = []

    def enabled(self, operation):
        if operation == "weights":
            return bool(self.model.built)
        if operation == "build":
            # the others do not have a method to build them
            return not self.model.built and self.container in ("sequential", "subclass_build")
        return True

    def step(self, operation):
        if not self.enabled(operation):
            return False
        self.past.append(operation)
        self.model.reset_metrics()
        ctx = self.ctx
        try:
            found, expected = getattr(self, operation)()
        except Exception as error:
            ctx.fail(
                "raises",
                f"{self.name} in {self.container}: {self.past} raises "
                f"{type(error).__name__}: {error}",
            )
        ctx.transitions()
        self.compare("result", found, expected)
        self.check_weights()
        ctx.outcome((operation, np.shape(expected)))
        return True

    def compare(self, what, found, expected):
        found, expected = np.asarray(found), np.asarray(expected)
        self.ctx.require(
            found.shape == expected.shape and np.allclose(found, expected, rtol=2e-4, atol=2e-4),
            what,
            lambda: f"{self.name} in {self.container}: after {self.past} the {what} differs from "
            f"that of the layer by itself: {lib.difference(found, expected)}",
        )

    def check_weights(self):
        self.ctx.states()
        expected = self.reference.weights
        found = self.model.get_weights()
        if not self.model.built:
            return
        self.ctx.require(
            len(found) == len(expected),
            "weights",
            lambda: f"{self.name} in {self.container}: after {self.past} there are {len(found)} "
            f"weights instead of {len(expected)}",
        )
        for a, b in zip(found, expected):
            self.compare("weights", a, b)
        names = [v.path for v in self.model.weights]
        self.ctx.require(
            len(set(names)) == len(names), "weights", f"weights of the same name: {names}"
        )

    def batches(self):
        return [slice(i, i + BATCH) for i in range(0, SAMPLES, BATCH)]

    def outputs(self):
        return np.asarray(self.reference.apply(self.reference.weights, self.inputs))

    def call(self):
        return lib.array(self.model(self.inputs)), self.outputs()

    def predict(self):
        return self.model.predict(self.inputs, batch_size=BATCH, verbose=0), self.outputs()

    def predict_on_batch(self):
        return self.model.predict_on_batch(self.inputs), self.outputs()

    def losses(self, batches):
        squares = (self.outputs() - self.targets) ** 2
        return float(np.mean([np.mean(squares[batch]) for batch in batches]))

    def evaluate(self):
        return (
            self.model.evaluate(self.inputs, self.targets, batch_size=BATCH, verbose=0),
            self.losses(self.batches()),
        )

    def test_on_batch(self):
        return float(self.model.test_on_batch(self.inputs, self.targets)), self.losses([slice(None)])

    def fit(self):
        history = self.model.fit(
            self.inputs, self.targets, batch_size=BATCH, shuffle=False, verbose=0, epochs=1
        )
        # what Keras reports is the mean over the batches
        losses = [self.reference.step(batch) for batch in self.batches()]
        return history.history["loss"], [np.mean(losses)]

    def train_on_batch(self):
        found = self.model.train_on_batch(self.inputs, self.targets)
        return float(found), self.reference.step(slice(None))

    def symbolic(self):
        import keras

        outputs = self.model(keras.Input(self.inputs.shape[1:]))
        return np.array([n or 0 for n in outputs.shape]), np.array([0, 1])

    def build(self):
        self.model.build((None,) + self.inputs.shape[1:])
        return bool(self.model.built), True

    def weights(self):
        with tempfile.TemporaryDirectory(prefix="mc_c22_") as directory:
            path = os.path.join(directory, "model.weights.h5")
            self.model.save_weights(path)
            self.model.load_weights(path)
            other = make_model(self.name, self.container, self.inputs.shape)
            other(self.inputs)
            other.load_weights(path)
            return lib.array(other(self.inputs)), self.outputs()


def run(case, ctx):
    rest = itertools.product(OPERATIONS, repeat=case["depth"] - (case["first"] is not None))
    for sequence in rest:
        if case["first"] is not None:
            sequence = (case["first"],) + sequence
        history = History(case, ctx)
        if all(history.step(operation) for operation in sequence):
            history.step("call")
            ctx.traces()
