"""
All combinations of a layer of every kind (and convolutions and poolings for all groups and
subgroups), a dtype policy, the way in which it is given (argument, policy object, global policy),
the dtype of the input, and grid sizes with and without extra padding, called directly, compiled and
symbolically. The weights must have the variable dtype, the outputs the compute dtype, and the
values must be those of the float32 layer: equal for small integers, which are exact in all these
dtypes, and up to rounding for averages. States are the combinations, transitions the outputs
compared, traces the calls.
"""

import itertools

import numpy as np

from mc import conv, kinds, lib, ref

TECHNIQUE = (
    "exhaustive enumeration of dtype policies, input dtypes, layers and sizes, comparing the real "
    "layers with their float32 counterpart"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "integers below 256 and their sums are exact in all dtypes used, float64 is left out as JAX "
    "does not have it by default, and integer inputs as Keras does not cast them",
]

POLICIES = {
    "float32": ("float32", "float32"),
    "float16": ("float16", "float16"),
    "bfloat16": ("bfloat16", "bfloat16"),
    "mixed_float16": ("float32", "float16"),
    "mixed_bfloat16": ("float32", "bfloat16"),
}
PRECISION = {"float32": 1e-5, "float16": 2e-3, "bfloat16": 1.6e-2}


def cases(tier):
    deep = tier == "thorough"
    result = []
    names = [name for name in kinds.KINDS if name != "padding2"]
    for name, policy, way in itertools.product(names, POLICIES, ("argument", "object", "global")):
        result.append(dict(kind="kind", layer=name, policy=policy, way=way))
    policies = [p for p in POLICIES if p != "float32"] if deep else ["mixed_float16", "bfloat16"]
    for (group, sub), policy in itertools.product(lib.pairs(), policies):
        for layer, on_group in [
            ("conv", True), ("conv", False), ("transposed", True), ("transposed", False),
            ("max", True), ("average", True),
        ]:
            result.append(
                dict(kind="group", layer=layer, group=group, sub=sub, on_group=on_group,
                     policy=policy)
            )
    return result


def affinity(case):
    return case["layer"] if case["kind"] == "kind" else (case["layer"], case["group"])


def cost(case):
    return 20 if case["kind"] == "kind" else 5 + len(ref.DOCUMENTED[case["group"]])


def name_of(dtype):
    import keras

    return keras.backend.standardize_dtype(dtype)


def with_policy(make, policy, way):
    """The layer with this policy, however it is given."""
    import keras

    if way == "argument":
        return make(dtype=policy)
    if way == "object":
        return make(dtype=keras.mixed_precision.DTypePolicy(policy))
    before = keras.mixed_precision.global_policy()
    keras.mixed_precision.set_global_policy(policy)
    try:
        return make()
    finally:
        keras.mixed_precision.set_global_policy(before)


def run(case, ctx):
    if case["kind"] == "kind":
        name = case["layer"]
        make = lambda **extra: kinds.make(name, **extra)
        inputs = [
            kinds.inputs(name, batch, size) / 2 // 2
            for batch, size in zip((2, 1), kinds.good_sizes(name))
        ]
        explore(case, make, inputs, case["policy"], case["way"], ctx)
        return
    group, sub = case["group"], case["sub"]
    dimensions = ref.dimensions_of(group)
    size = 2
    kwargs = dict(group=group, **({"subgroup": sub} if sub != group else {}))
    if case["layer"] in ("conv", "transposed"):
        name = f"GroupConv{dimensions}D" + ("Transpose" if case["layer"] == "transposed" else "")
        kwargs.update(filters=1, kernel_size=size, padding="same_equiv")
    else:
        name = f"Group{case['layer'].capitalize()}Pooling{dimensions}D"
        kwargs.update(pool_size=size, strides=1, padding="same_equiv")
    order = len(ref.DOCUMENTED[sub if case["layer"] == "transposed" else group])
    rng = lib.generator(ctx.seed, case)
    shape = (2,) * dimensions + ((order,) if case["on_group"] else ()) + (1,)
    explore(
        case, lambda **extra: lib.layer_class(name)(**kwargs, **extra),
        [lib.integers(rng, (2,) + shape, 1)], case["policy"], "argument", ctx,
        ("float32", "float16"),
    )


def explore(case, make, inputs, policy, way, ctx, dtypes=("float32", "float16", "bfloat16")):
    import jax
    import keras

    variable, compute = POLICIES[policy]
    reference = with_policy(make, "float32", "argument")
    layer = with_policy(make, policy, way)
    for l in (reference, layer):
        l.build(inputs[0].shape)
    rng = np.random.default_rng(ctx.seed)
    weights = [rng.integers(-1, 2, size=w.shape) for w in reference.get_weights()]
    for l in (reference, layer):
        l.set_weights(weights)
    for weight in layer.weights:
        ctx.require(
            name_of(weight.dtype) == variable,
            "variable",
            lambda: f"{weight.path} has dtype {weight.dtype}, with policy {policy}",
        )
    ctx.require(
        name_of(layer.compute_dtype) == compute and name_of(layer.variable_dtype) == variable,
        "policy",
        lambda: f"dtypes {layer.compute_dtype} and {layer.variable_dtype}, with policy {policy}",
    )
    averages = "verage" in type(layer).__name__
    for x, dtype in itertools.product(inputs, dtypes):
        expected = lib.array(reference(x))
        if np.abs(expected).max() > 256:
            raise RuntimeError("values too large to be exact")
        cast = keras.ops.cast(x, dtype)
        calls = {"call": layer}
        if dtype == dtypes[-1]:
            # the calls compile by themselves otherwise
            calls["jit"] = jax.jit(lambda x: layer(x))
        for way_called, call in calls.items():
            ctx.states()
            ctx.transitions(expected.size)
            ctx.traces()
            out = call(cast)
            ctx.require(
                name_of(out.dtype) == compute,
                "compute",
                lambda: f"{way_called}: output of dtype {out.dtype} for input of {dtype} and grid "
                f"{x.shape}, with policy {policy}",
            )
            found = lib.array(keras.ops.cast(out, "float32"))
            tolerance = PRECISION[compute] * max(1.0, np.abs(expected).max()) if averages else 0
            ctx.require(
                found.shape == expected.shape
                and np.allclose(found, expected, rtol=0, atol=tolerance),
                "values",
                lambda: f"{way_called}: with policy {policy}, input of {dtype} and shape "
                f"{x.shape}: " + lib.difference(found, expected),
            )
        symbolic = layer(keras.Input(batch_shape=x.shape, dtype=dtype))
        ctx.require(
            name_of(symbolic.dtype) == compute and tuple(symbolic.shape) == expected.shape,
            "symbolic",
            lambda: f"symbolic output {symbolic.shape} of dtype {symbolic.dtype}, with {policy}",
        )
    ctx.outcome((compute, variable, str(expected.shape)))
