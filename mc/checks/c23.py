"""
Every kind of layer, as a function of its input and (for the layers that have them) of its weights,
under all words up to the stated length of transformations of functions: compilation (at once, or
ahead of time), vectorisation over a new first or last axis (with the backend's or Keras' function),
the loops map and scan over an axis, rematerialisation, a branch of a conditional, derivatives
forwards and backwards, copies and deep copies of the layer, Keras' TimeDistributed, and empty
batches. The layer is built but has not been called before, and those without weights are also not
built. States are the (layer, word) reached; what it gives is compared with what the eager layer
gives for each of the inputs, derivatives with the differences they are equal to for these
functions, which are linear or the maximum of linear ones. After every word (transition), the layer
has to give eagerly what another gives that was only called eagerly. In the quick tier, four kinds
of layers get all words of two transformations, and the others a third of these each, in rotation.
"""

import copy
import itertools

import numpy as np

from mc import kinds, lib

TECHNIQUE = (
    "exhaustive enumeration of the words up to a length in transformations of functions, run on the "
    "real layers and compared with explicit combinations of eager executions"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "what the eager layer gives is decided by C05 to C09",
    "layers with weights are built before, as Keras cannot make weights inside of a transformation",
]

WORDS = [
    "jit", "ahead", "vmap", "vmap_last", "vectorized_map", "map", "scan", "checkpoint", "cond",
    "forward", "backward",
]
# those that can only be closest to the layer
INNERMOST = ["copy", "deepcopy", "time_distributed", "functional"]
LENGTH = 2
BATCH = 2
# in the quick tier, others get a third of the words of two, in rotation
COMPLETE = ("conv2", "transposed2_first", "max2", "global2")


def cases(tier):
    deep = tier == "thorough"
    result = []
    for index, name in enumerate(kinds.KINDS):
        arguments = ["inputs"] + (["weights"] if kinds.is_conv(name) else ["unbuilt"])
        for argument in arguments:
            firsts = WORDS + (INNERMOST if argument == "inputs" else [])
            for first in firsts:
                # which of the words, None for all
                part = None if deep or name in COMPLETE else index
                result.append(
                    dict(
                        layer=name, argument=argument, first=first, part=part,
                        length=3 if deep else LENGTH,
                    )
                )
        result.append(dict(layer=name, argument="empty", first="", part=None, length=0))
    return result


def affinity(case):
    return case["layer"]


def cost(case):
    return 3 ** case["length"]


class Function:
    """
    A function of an array in JAX, next to the explicit function in numpy that it should be.
    """

    def __init__(self, real, expected, shape):
        self.real, self.expected, self.shape = real, expected, tuple(shape)


def loop(function, values, axis=0):
    return np.stack([function(v) for v in np.moveaxis(values, axis, 0)])


def transform(word, function):
    import jax
    import jax.numpy as jnp
    import keras

    real, expected, shape = function.real, function.expected, function.shape
    if word == "jit":
        return Function(jax.jit(real), expected, shape)
    if word == "ahead":
        # only with actual arrays
        compiled = jax.jit(real).lower(jax.ShapeDtypeStruct(shape, "float32")).compile()
        return Function(compiled, expected, shape)
    if word == "vmap":
        return Function(jax.vmap(real), lambda x: loop(expected, x), (3,) + shape)
    if word == "vmap_last":
        return Function(
            jax.vmap(real, in_axes=-1, out_axes=0), lambda x: loop(expected, x, -1), shape + (2,)
        )
    if word == "vectorized_map":
        return Function(
            lambda x: keras.ops.vectorized_map(real, x), lambda x: loop(expected, x), (2,) + shape
        )
    if word == "map":
        return Function(
            lambda x: jax.lax.map(real, x), lambda x: loop(expected, x), (2,) + shape
        )
    if word == "scan":
        # running sums
        def scanned(x):
            def step(carry, value):
                result = real(value) + carry
                return result, result

            start = jnp.zeros(jax.eval_shape(real, x[0]).shape, "float32")
            return jax.lax.scan(step, start, x)[1]

        return Function(
            scanned, lambda x: np.cumsum(loop(expected, x), axis=0, dtype="float32"), (2,) + shape
        )
    if word == "checkpoint":
        return Function(jax.checkpoint(real), expected, shape)
    if word == "cond":
        return Function(
            lambda x: jax.lax.cond(jnp.sum(x) > -1e9, real, lambda y: 2 * real(y), x),
            expected,
            shape,
        )
    if word == "forward":
        return Function(
            lambda x: jax.jvp(real, (x,), (x,))[1],
            lambda x: expected(x) - expected(np.zeros_like(x)),
            shape,
        )
    if word == "backward":
        # the gradient of the sum over all outputs, in the direction of the argument
        return Function(
            lambda x: jnp.sum(jax.grad(lambda y: jnp.sum(real(y)))(x) * x),
            lambda x: np.sum(expected(x) - expected(np.zeros_like(x)), dtype="float32"),
            shape,
        )
    raise AssertionError(word)


def innermost(word, layer, shape):
    """What is done with the layer itself."""
    import keras

    if word == "copy":
        return copy.copy(layer), lambda f: f, shape
    if word == "deepcopy":
        return copy.deepcopy(layer), lambda f: f, shape
    if word == "functional":
        inputs = keras.Input(batch_shape=(None,) + tuple(shape[1:]))
        return keras.Model(inputs, layer(inputs)), lambda f: f, shape
    if word == "time_distributed":
        distributed = keras.layers.TimeDistributed(layer)
        return distributed, lambda f: lambda x: np.swapaxes(
            loop(f, np.swapaxes(x, 0, 1)), 0, 1
        ), (shape[0], 2) + tuple(shape[1:])
    raise AssertionError(word)


def run(case, ctx):
    name, argument = case["layer"], case["argument"]
    size = kinds.good_sizes(name)[0]
    shape = kinds.input_shape(name, BATCH, size)
    # only ever called eagerly
    reference = kinds.make(name)
    reference.build(shape)
    values = kinds.weight_values(reference, 5)
    reference.set_weights(values)

    def eager(x):
        return lib.array(reference(x))

    rng = np.random.default_rng([ctx.seed, 23])
    fixed = distinct(rng, shape)
    before = eager(fixed)
    if argument == "empty":
        empty(case, reference, fixed, before, ctx)
        return

    for word in words(case):
        # not called before
        layer = kinds.make(name)
        if argument != "unbuilt":
            layer.build(shape)
            layer.set_weights(values)
        if argument == "inputs":
            start, inner = layer, word
            wrap, start_shape = (lambda f: f), shape
            if word[0] in INNERMOST:
                start, wrap, start_shape = innermost(word[0], layer, shape)
                inner = word[1:]
            function = Function(lambda x, l=start: l(x), wrap(eager), start_shape)
        elif argument == "unbuilt":
            inner = word
            function = Function(lambda x, l=layer: l(x), eager, shape)
        else:
            # all weights in one array
            inner = word
            shapes = [w.shape for w in values]
            total = sum(int(np.prod(s)) for s in shapes)

            def split(vector):
                result, start = [], 0
                for s in shapes:
                    number = int(np.prod(s))
                    result.append(vector[start : start + number].reshape(s))
                    start += number
                return result

            def with_weights(vector, l=layer):
                return l.stateless_call(split(vector), [], fixed)[0]

            function = Function(with_weights, explicit(name, shape, split, fixed), (total,))
        described = f"{name}, {argument}: {' of '.join(reversed(word))}"
        try:
            for w in inner:
                function = transform(w, function)
            x = distinct(rng, function.shape)
            found = np.asarray(function.real(x))
        except Exception as error:
            ctx.fail("raises", f"{described} raises {type(error).__name__}: {error}")
        expected = function.expected(x)
        ctx.states()
        ctx.transitions()
        ctx.traces()
        ctx.require(
            found.shape == expected.shape
            and np.allclose(
                found, expected, rtol=1e-4, atol=1e-4 * max(1, float(np.abs(expected).max()))
            ),
            "values",
            lambda: f"{described} differs from the eager executions: "
            f"{lib.difference(found, expected)}",
        )
        try:
            after = lib.array(layer(fixed))
        except Exception as error:
            ctx.fail("after", f"after {described}, a call raises {type(error).__name__}: {error}")
        ctx.require(
            np.allclose(after, before, rtol=1e-6, atol=1e-6),
            "after",
            lambda: f"after {described}, the layer gives something else than without: "
            f"{lib.difference(after, before)}",
        )
        for weight, value in zip(layer.get_weights(), values):
            ctx.require(
                np.array_equal(weight, value), "weights", f"{described} changes the weights"
            )
        ctx.outcome((argument, tuple(inner)))


def explicit(name, shape, split, inputs):
    """The values for given weights, of a layer that never sees a transformation."""
    other = kinds.make(name)
    other.build(shape)

    def expected(vector):
        other.set_weights([np.asarray(w) for w in split(vector)])
        return lib.array(other(inputs))

    return expected


def words(case):
    """All words that start with the given one, up to the length, without meaningless ones."""
    for length in range(case["length"]):
        for rest in itertools.product(WORDS, repeat=length):
            word = (case["first"],) + rest
            # what is compiled ahead of time can only be called with arrays
            if "ahead" in word[:-1]:
                continue
            numbers = [(WORDS + INNERMOST).index(w) for w in word]
            if case["part"] is not None and length and (sum(numbers) + case["part"]) % 3:
                continue
            yield word


def distinct(rng, shape):
    """All values differ, for maxima to be differentiable, and are multiples of 1/64."""
    number = int(np.prod(shape))
    return ((rng.permutation(number) - number // 2) / 64).reshape(shape).astype("float32")


def empty(case, layer, inputs, before, ctx):
    """No samples give no outputs."""
    import jax

    calls = {
        "eager": lambda x: layer(x),
        "jit": lambda x: jax.jit(lambda y: layer(y))(x),
        "vmap": lambda x: jax.vmap(lambda y: layer(y[None])[0])(x),
    }
    for how, call in calls.items():
        try:
            found = lib.array(call(inputs[:0]))
        except Exception as error:
            if how == "vmap":
                continue  # JAX itself rejects some
            ctx.fail("raises", f"{case['layer']}: an empty batch, {how}, raises {error}")
        ctx.states()
        ctx.transitions()
        ctx.require(
            found.shape == (0,) + before.shape[1:],
            "empty",
            f"{case['layer']}: an empty batch, {how}, gives shape {found.shape}",
        )
        single = np.concatenate([lib.array(call(inputs[i : i + 1])) for i in range(len(inputs))])
        ctx.require(
            np.allclose(single, before, rtol=1e-5, atol=1e-5),
            "samples",
            f"{case['layer']}: samples one by one, {how}, differ from the batch",
        )
    ctx.outcome(("empty", case["layer"]))
