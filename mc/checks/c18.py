"""
For all groups, subgroups and kinds of convolution: the complete Jacobians of the real layer with
respect to its kernel and bias (for every input unit, output unit and weight) and its input are
compared entry by entry with those of the documented formula, as are gradients for dense inputs
through an activation, with and without jit; for poolings the complete Jacobian with respect to the
input is compared with the entries that the outputs come from. For a range of convolutions and two
optimisers, a history that contains all sequences of the stated length of training steps, calls,
predictions and weight assignments: after every operation the weights are those that the reference
model predicts, the structure of the weights is unchanged, and the outputs are those of the formula
with the updated weights, and equivariant. States are the entries of the Jacobians and the points
of the histories, transitions the entries and operations compared, traces the dense gradients and
histories.
"""

import numpy as np

from mc import conv, lib, ref
from mc.checks import c07, c12

TECHNIQUE = (
    "explicit-state: complete Jacobians of the real layers compared with the documented reference "
    "model, exhaustive training histories with a reference optimiser"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "without activation the layer is bilinear in its input and kernel (validated in C06 and C07), "
    "so that its Jacobians on unit impulses determine its gradients for all inputs",
    "histories of the optimisers SGD with momentum and Adam",
]


def base(group, sub, **extra):
    dimensions = ref.dimensions_of(group)
    order = len(ref.DOCUMENTED[group])
    case = dict(
        group=group, sub=sub, on_group=True, transpose=False, stride=1, dilation=1, groups=1,
        format="channels_last", padding="same_equiv", bias=True,
        kernel=3 if dimensions == 2 else 2, channels=2 if order <= 4 else 1,
        filters=2 if order <= 8 else 1, shape=(3, 3) if dimensions == 2 else (2, 2, 2),
    )
    if order > 24:
        case["shape"] = (1, 1, 2)
    case.update(extra)
    return case


def cases(tier):
    deep = tier == "thorough"
    result = []
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        variants = [
            dict(), dict(on_group=False), dict(transpose=True, padding="valid_equiv", stride=2),
            dict(transpose=True, on_group=False),
        ]
        if deep or group in ("P4", "P2MM", "D4") or sub == group:
            variants += [
                dict(format="channels_first"), dict(bias=False), dict(kernel=2, padding="valid_equiv"),
                dict(stride=2, shape=(4, 4) if dimensions == 2 else (2, 2, 2), kernel=2),
                dict(format="channels_first", transpose=True),
            ]
            if dimensions == 2:
                variants += [
                    dict(groups=2, channels=2, filters=2), dict(dilation=2, shape=(4, 4)),
                    dict(shape=(2, 4) if conv.fits(group, (2, 4)) else (4, 4)),
                ]
        for variant in variants:
            if dimensions == 3 and variant.get("stride") == 2 and not deep and group in ("O", "Oh"):
                if not variant.get("transpose"):
                    continue
            result.append(dict(kind="jacobian", **base(group, sub, **variant)))
        for pool in ("Max", "Average"):
            for padding in ("same_equiv", "valid_equiv"):
                for format in ("channels_last", "channels_first") if deep or order_of(group) < 9 else (
                    "channels_last",
                ):
                    result.append(
                        dict(kind="pool", pool=pool, group=group, sub=sub, padding=padding,
                             format=format)
                    )
    for optimizer in ("sgd", "adam"):
        for group, sub, variant in [
            ("P4", "P2", dict()), ("P4", "P4", dict(on_group=False)),
            ("P4M", "PMh", dict(format="channels_first", bias=False)),
            ("P4", "P4", dict(groups=2)), ("P2MM", "PMw", dict(transpose=True)),
            ("P4", "P4", dict(transpose=True, on_group=False, padding="valid_equiv", stride=2)),
            ("D4", "D4", dict()), ("D4h", "D4", dict(on_group=False)),
            ("D4", "D4", dict(transpose=True)),
        ]:
            result.append(
                dict(
                    kind="training", optimizer=optimizer, length=4 if deep else 3,
                    **base(group, sub, **{"channels": 2, "filters": 2, **variant})
                )
            )
    return lib.unique(result)


def order_of(group):
    return len(ref.DOCUMENTED[group])


def cost(case):
    if case["kind"] == "training":
        return 10**9
    return order_of(case["group"]) * order_of(case["sub"]) * (2 if case["kind"] == "jacobian" else 1)


def run(case, ctx):
    {"jacobian": run_jacobian, "pool": run_pool, "training": run_training}[case["kind"]](case, ctx)


def documented(setup, spatial):
    case = setup.case
    if case["transpose"]:
        return lib.transposed_reference(
            setup.table, setup.domain, setup.acting, spatial, setup.kernel, setup.strides,
            setup.dilation, c07.crops(setup), case["channels"], case["filters"],
        )
    return lib.conv_reference(
        setup.table, setup.domain, setup.acting, spatial, setup.kernel, setup.strides,
        setup.dilation, setup.totals(spatial), case["channels"], case["filters"],
        groups=case["groups"],
    )


def square(x):
    return x * x


def run_jacobian(case, ctx):
    import jax

    setup = conv.Setup(case)
    spatial = tuple(case["shape"])
    layer = conv.make_layer(case)
    impulses = lib.one_hot_batch(setup.layout, spatial, setup.order_in, case["channels"])
    layer.build(impulses.shape)
    kernel = lib.numbered_weights(layer)
    model = documented(setup, spatial)
    units, outs = len(model), model[0].size
    flat = model.reshape(units, outs)
    filters = case["filters"]
    filter_of = np.broadcast_to(np.arange(filters), model.shape[1:]).reshape(-1)

    def function(weights, x):
        out = layer.stateless_call(weights, [], x)[0]
        out = np_moves(setup.out_layout, out)
        return out.reshape(out.shape[0], -1)

    weights = [np.asarray(w) for w in layer.get_weights()]

    # kernel and bias
    if units * outs * kernel.size <= 2 * 10**7:
        jacobians = jax.jit(jax.jacfwd(function))(weights, impulses)
        found = np.asarray(jacobians[0]).reshape(units, outs, kernel.size)
        expected = np.arange(1, kernel.size + 1) == flat[..., None]
        ctx.states(found.size)
        ctx.transitions(found.size)
        ctx.require(
            np.array_equal(found, expected),
            "kernel",
            lambda: "derivatives of (input unit, output unit) by kernel weight: "
            + lib.difference(found, expected.astype("float32")),
        )
        if case["bias"]:
            found = np.asarray(jacobians[1]).reshape(units, outs, filters)
            expected = np.broadcast_to(np.arange(filters) == filter_of[:, None], found.shape)
            ctx.states(found.size)
            ctx.transitions(found.size)
            ctx.require(
                np.array_equal(found, expected),
                "bias",
                lambda: "derivatives of (input unit, output unit) by bias: "
                + lib.difference(found, expected.astype("float32")),
            )
        ctx.count("complete_jacobians")

    # input, for the same distinct weights at each place
    found = np.asarray(jax.jit(jax.jacfwd(function, argnums=1))(weights, impulses[:1]))
    found = setup.layout.canonical(found.reshape((outs,) + impulses.shape[1:])).reshape(outs, units)
    ctx.states(found.size)
    ctx.transitions(found.size)
    ctx.require(
        np.array_equal(found, flat.T),
        "input",
        lambda: "derivatives of output unit by input unit: " + lib.difference(found, flat.T),
    )

    # dense: through an activation, by reverse differentiation, with and without jit
    rng = lib.generator(ctx.seed, case)
    activated = conv.make_layer(case, activation=square)
    activated.build(impulses.shape)
    inputs = lib.integers(rng, (2,) + setup.layout.canonical(impulses).shape[1:], 1)
    weights = [lib.integers(rng, w.shape, 2) for w in weights]
    bias = weights[1] if case["bias"] else None
    direction = lib.integers(rng, (2, outs))

    def loss(weights, x):
        out = np_moves(setup.out_layout, activated.stateless_call(weights, [], x)[0])
        return (out.reshape(2, -1) * direction).sum()

    linear = lib.apply_connectivity(model, weights[0], bias, inputs).reshape(2, -1)
    cotangent = 2 * linear * direction
    by_pair = inputs.reshape(2, -1).T.astype("float64") @ cotangent  # (units, outs)
    by_kernel = np.bincount(flat.reshape(-1), by_pair.reshape(-1), kernel.size + 1)[1:]
    by_bias = np.bincount(filter_of, cotangent.sum(axis=0), filters)
    by_input = cotangent @ np.concatenate([[0], weights[0].reshape(-1)])[flat].T
    signal = setup.layout.from_canonical(inputs)
    for transform in (lambda f: f, jax.jit):
        gradients, gradient = transform(jax.grad(loss, argnums=(0, 1)))(weights, signal)
        ctx.traces()
        results = [("kernel", gradients[0], by_kernel), ("input", None, by_input)]
        if case["bias"]:
            results.append(("bias", gradients[1], by_bias))
        for name, found, expected in results:
            if name == "input":
                found = setup.layout.canonical(np.asarray(gradient))
            found = np.asarray(found).reshape(expected.shape)
            ctx.require(
                np.allclose(found, expected, rtol=1e-4, atol=1e-4 * max(1, np.abs(expected).max())),
                f"dense_{name}",
                lambda: f"gradient by {name} for dense values: " + lib.difference(found, expected),
            )
    ctx.outcome((case["group"], case["sub"], kernel.size, outs))


def np_moves(layout, out):
    """To channels_last, for JAX arrays."""
    import jax.numpy as jnp

    return jnp.moveaxis(out, 1, -1) if layout.data_format == "channels_first" else out


def run_pool(case, ctx):
    import jax

    group, sub = case["group"], case["sub"]
    dimensions, order = ref.dimensions_of(group), order_of(group)
    layout = lib.Layout(dimensions, case["format"], True)
    size = 3 if dimensions == 2 else 2
    layer = lib.layer_class(f"Group{case['pool']}Pooling{dimensions}D")(
        group=group, pool_size=3 if case["padding"] == "same_equiv" else 2, padding=case["padding"],
        strides=1, data_format=case["format"], **({"subgroup": sub} if sub != group else {}),
    )
    channels = 2 if order < 9 else 1
    shape = lib.canonical_input(layout, 1, (size,) * dimensions, order, channels)
    units = int(np.prod(shape))
    rng = lib.generator(ctx.seed, case)
    values = 1 + rng.permutation(units).astype("float32")
    signal = layout.from_canonical(values.reshape(shape))

    def function(x):
        return np_moves(layout, layer(x)).reshape(-1)

    outputs = np.asarray(function(signal))
    for transform in (lambda f: f, jax.jit):
        jacobian = np.asarray(transform(jax.jacrev(function))(signal))
        found = layout.canonical(jacobian.reshape((-1,) + signal.shape[1:])).reshape(-1, units)
        if case["pool"] == "Max":
            expected = outputs[:, None] == values[None]
            ctx.require(expected.any(axis=1).all(), "values", "an output is not a value of the input")
        else:
            impulses = lib.one_hot_batch(layout, (size,) * dimensions, order, channels)
            expected = np_moves(layout, lib.array(layer(impulses))).reshape(units, -1).T
        ctx.states(found.size)
        ctx.transitions(found.size)
        ctx.traces()
        ctx.require(
            np.allclose(found, expected, rtol=1e-5, atol=1e-6),
            "pooling",
            lambda: "derivatives of output unit by input unit: "
            + lib.difference(found, np.asarray(expected, dtype="float32")),
        )


OPERATIONS = ["step_a", "step_b", "predict", "set_weights", "call"]
RATE, MOMENTUM, BETA1, BETA2, EPSILON = 0.05, 0.5, 0.9, 0.99, 0.01


class Optimizer:
    """The documented update rules, in double precision."""

    def __init__(self, name, shapes):
        self.name, self.time = name, 0
        self.first = [np.zeros(s) for s in shapes]
        self.second = [np.zeros(s) for s in shapes]

    def real(self):
        import keras

        if self.name == "sgd":
            return keras.optimizers.SGD(RATE, momentum=MOMENTUM)
        return keras.optimizers.Adam(RATE, beta_1=BETA1, beta_2=BETA2, epsilon=EPSILON)

    def step(self, weights, gradients):
        self.time += 1
        result = []
        for i, (w, g) in enumerate(zip(weights, gradients)):
            if self.name == "sgd":
                self.first[i] = MOMENTUM * self.first[i] - RATE * g
                result.append(w + self.first[i])
                continue
            self.first[i] += (g - self.first[i]) * (1 - BETA1)
            self.second[i] += (g * g - self.second[i]) * (1 - BETA2)
            rate = RATE * (1 - BETA2**self.time) ** 0.5 / (1 - BETA1**self.time)
            result.append(w - rate * self.first[i] / (self.second[i] ** 0.5 + EPSILON))
        return result


def run_training(case, ctx):
    import keras

    setup = conv.Setup(case)
    spatial = tuple(case["shape"])
    layer = conv.make_layer(case)
    shape = setup.layout.shape(2, spatial, setup.order_in, case["channels"])
    model = keras.Sequential([keras.Input(shape[1:]), layer])
    connectivity = documented(setup, spatial)
    units, outs = len(connectivity), connectivity[0].size
    flat = connectivity.reshape(units, outs)
    filter_of = np.broadcast_to(
        np.arange(case["filters"]), connectivity.shape[1:]
    ).reshape(-1)

    rng = lib.generator(ctx.seed, case)
    fixed = [rng.normal(size=w.shape).astype("float32") for w in layer.get_weights()]
    shapes = [w.shape for w in fixed]
    names = [w.path for w in layer.weights]
    optimizer = Optimizer(case["optimizer"], shapes)
    model.compile(optimizer.real(), loss="mse")
    canonical = lib.canonical_input(setup.layout, 2, spatial, setup.order_in, case["channels"])
    samples = {k: rng.normal(size=canonical).astype("float32") for k in "ab"}
    targets = {
        k: rng.normal(size=(2,) + connectivity.shape[1:]).astype("float32") for k in "ab"
    }
    # the inputs moved by each element of the subgroup, to see that the outputs move along
    moved = [
        g for g in setup.sub_indices if ref.keeps_shape(setup.table.elements[g], spatial)
    ]

    def outputs(weights, inputs):
        return lib.apply_connectivity(
            connectivity, weights[0], weights[1] if case["bias"] else None, inputs
        )

    def move(g, signal, domain):
        axes = tuple(range(1, 1 + setup.dimensions))
        if domain is None:
            return ref.act_on_grid(setup.table.elements[g], signal, axes)
        return ref.act_on_group(setup.table, g, signal, axes, 1 + setup.dimensions, domain)

    def real_outputs(function, inputs):
        out = setup.out_layout.canonical(lib.array(function(setup.layout.from_canonical(inputs))))
        return out

    weights = [w.astype("float64") for w in layer.get_weights()]
    word = c12.de_bruijn(OPERATIONS, case["length"])
    past = []
    for operation in word:
        past.append(operation)
        ctx.transitions()
        where = lambda: " after " + ", ".join(past[-8:])
        expected = weights
        if operation == "set_weights":
            layer.set_weights(fixed)
            expected = [w.astype("float64") for w in fixed]
        elif operation.startswith("step"):
            x, t = samples[operation[-1]], targets[operation[-1]]
            difference = (outputs(weights, x) - t).reshape(2, -1)
            cotangent = 2 * difference / difference.size
            by_pair = x.reshape(2, -1).T.astype("float64") @ cotangent
            gradients = [
                np.bincount(flat.reshape(-1), by_pair.reshape(-1), weights[0].size + 1)[1:].reshape(
                    shapes[0]
                )
            ]
            if case["bias"]:
                gradients.append(np.bincount(filter_of, cotangent.sum(axis=0), case["filters"]))
            expected = optimizer.step(weights, gradients)
            model.reset_metrics()
            loss = model.train_on_batch(
                setup.layout.from_canonical(x), setup.out_layout.from_canonical(t)
            )
            ctx.require(
                np.isclose(float(loss), (difference**2).mean(), rtol=1e-3, atol=1e-4),
                "loss",
                lambda: f"loss {loss} instead of {(difference**2).mean()}" + where(),
            )
        current = [np.asarray(w) for w in layer.get_weights()]
        ctx.require(
            [w.shape for w in current] == shapes
            and [w.path for w in layer.weights] == names
            and [w.path for w in layer.trainable_weights] == names
            and [w.path for w in model.trainable_weights] == names,
            "structure",
            lambda: f"weights {[(w.path, w.shape) for w in layer.weights]}" + where(),
        )
        for found, value, name in zip(current, expected, names):
            ctx.require(
                np.allclose(found, value, rtol=1e-3, atol=2e-4 * max(1.0, np.abs(value).max())),
                "update",
                lambda: f"{name}{where()}: " + lib.difference(found, value),
            )
        # continue from the actual weights, so that rounding does not add up
        weights = [w.astype("float64") for w in current]
        if operation in ("predict", "call"):
            function = layer if operation == "call" else (
                lambda x: model.predict(x, verbose=0, batch_size=2)
            )
            out = real_outputs(function, samples["a"])
            expected = outputs(weights, samples["a"])
            tolerance = 1e-4 * max(1.0, np.abs(expected).max())
            ctx.require(
                np.allclose(out, expected, rtol=1e-3, atol=tolerance),
                "outputs",
                lambda: f"outputs do not use the current weights{where()}: "
                + lib.difference(out, expected),
            )
            for g in moved:
                found = real_outputs(function, move(g, samples["a"], setup.domain))
                expected = move(g, out, setup.acting)
                ctx.require(
                    np.allclose(found, expected, rtol=1e-3, atol=tolerance),
                    "equivariance",
                    lambda: f"not equivariant under element {g}{where()}: "
                    + lib.difference(found, expected),
                )
        ctx.states()
    ctx.traces()
    ctx.count("histories")
    ctx.count("operations", len(word))
