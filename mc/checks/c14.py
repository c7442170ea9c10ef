"""
(1) All layer classes and constructor arguments within the stated number of deviations from a
default: get_config, through JSON, from_config, twice, from an unbuilt and from a built layer. The
rebuilt layer must have the same name and configuration, accept and reject the same sizes, and give
the same values for the same weights. (2) All model shapes from a small grammar of layers: to JSON
and back, cloned, saved to a file and loaded, twice, and their weights saved and loaded; the
predictions must be the same. States are the configurations reached, transitions the round trips,
traces the comparisons of values.
"""

import itertools
import json
import os
import shutil
import tempfile

import numpy as np

from mc import kinds, lib, ref

TECHNIQUE = (
    "exhaustive enumeration of configurations and models up to a bound on the real layers, round "
    "trips iterated, compared with the layer they started from"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "arguments that Keras itself cannot serialise (such as lambda functions) are left out, and "
    "output_padding, which Keras leaves out of the configuration of transposed convolutions",
]

COMMON = {
    "name": [None, "given_name"],
    "dtype": [None, "float64", "mixed_float16"],
    "trainable": [None, False],
    "data_format": ["channels_last", "channels_first"],
}


def conv_space(dimensions, transpose):
    space = {
        "filters": [2, 4],
        "kernel_size": [3, 2] if dimensions == 2 else [2, 1],
        "padding": ["same_equiv", "valid_equiv", "valid", "SAME"],
        "allow_non_equivariance": [None, True],
        "strides": [None, 2],
        "use_bias": [None, False],
        "activation": [None, "relu"],
        "kernel_initializer": [None, "ones"],
        "kernel_regularizer": [None, "l2"],
        "bias_constraint": [None, "non_neg"],
        "on_group": [True, False],
        **COMMON,
    }
    if not transpose:
        space["dilation_rate"] = [None, 2]
        space["groups"] = [None, 2]
    return space


def pool_space():
    return {
        "pool_size": [2, 3],
        "strides": [None, 1, 2],
        "padding": ["same_equiv", "valid_equiv", "valid", "SAME"],
        "allow_non_equivariance": [None, True],
        **COMMON,
    }


def spatial_kinds():
    for dimensions, transpose in itertools.product((2, 3), (False, True)):
        yield f"GroupConv{dimensions}D" + ("Transpose" if transpose else ""), dimensions
    for kind, dimensions in itertools.product(("Max", "Average"), (1, 2, 3)):
        yield f"Group{kind}Pooling{dimensions}D", dimensions


def cases(tier):
    deep = tier == "thorough"
    result = []
    for name, dimensions in spatial_kinds():
        space = (
            conv_space(dimensions, "Transpose" in name) if "Conv" in name else pool_space()
        )
        groups = [
            (g, s) for g, s in lib.pairs() if ref.dimensions_of(g) == max(2, dimensions)
        ]
        if dimensions == 3 and not deep:
            groups = [p for p in groups if p[0] in ("D4", "D4h") or p == ("Oh", "O")]
        main = groups[-1] if dimensions == 2 else [p for p in groups if p == ("D4h", "D4")]
        main = main[0] if isinstance(main, list) and main else (groups[0] if dimensions == 3 else ("P4M", "P4"))
        for group, sub in groups:
            bound = (2 if deep or dimensions == 2 else 1) if (group, sub) == main else 0
            if deep:
                bound = max(bound, 1)
            for arguments in lib.deviations(space, bound):
                on_group = arguments.pop("on_group", True)
                arguments = {k: v for k, v in arguments.items() if v is not None}
                arguments["group"] = group
                if sub != group:
                    arguments["subgroup"] = sub
                if arguments.get("strides") and arguments.get("dilation_rate"):
                    continue
                # only 3D with small channels
                channels = 2
                result.append(
                    dict(kind="layer", layer=name, dimensions=dimensions, arguments=arguments,
                         channels=channels, on_group=on_group)
                )
    for kind, dimensions in itertools.product(("Max", "Average"), (1, 2, 3)):
        space = {"keepdims": [None, True], **COMMON}
        for arguments in lib.deviations(space, len(space) if deep else 2):
            arguments = {k: v for k, v in arguments.items() if v is not None}
            result.append(
                dict(kind="layer", layer=f"GlobalGroup{kind}Pooling{dimensions}D",
                     dimensions=dimensions, arguments=arguments, channels=2, on_group=True)
            )
    for dimensions, option, stride, allow, format in itertools.product(
        (1, 2, 3), ("same_equiv", "valid_equiv", "valid"), (1, 2), (False, True),
        ("channels_last", "channels_first"),
    ):
        result.append(
            dict(kind="layer", layer="EquivariantPadding", dimensions=dimensions, on_group=False,
                 arguments=dict(kernel_size=3, dimensions=dimensions, strides=stride,
                                padding=option, allow_non_equivariance=allow, data_format=format),
                 channels=2)
        )
    for model in models(deep):
        result.append(dict(kind="model", model=model))
    return lib.unique(result)


def models(deep):
    """Lists of (layer class, arguments), from the input on."""
    conv = dict(filters=2, kernel_size=3, padding="same_equiv")
    result = []
    for format in ("channels_last", "channels_first"):
        f = dict(data_format=format)
        for group, sub in (("P4M", "P4"), ("P4", "P2"), ("P2MM", "PMh")):
            lift = ("GroupConv2D", dict(conv, group=group, activation="relu", **f))
            down = ("GroupConv2D", dict(conv, group=group, subgroup=sub, **f))
            keep = ("GroupConv2D", dict(conv, group=sub, use_bias=False, **f))
            pool = ("GroupMaxPooling2D", dict(group=group, subgroup=sub, pool_size=3, strides=1, padding="same_equiv", **f))
            mean = ("GroupAveragePooling2D", dict(group=sub, pool_size=3, strides=2, padding="same_equiv", **f))
            up = ("GroupConv2DTranspose", dict(filters=2, kernel_size=2, group=group, subgroup=sub, **f))
            everything = ("GlobalGroupMaxPooling2D", dict(**f))
            result += [
                [lift], [lift, down], [lift, pool], [lift, down, keep], [lift, down, mean],
                [lift, pool, up], [lift, everything], [lift, down, up, everything],
                [lift, pool, keep, mean, ("GlobalGroupAveragePooling2D", dict(keepdims=True, **f))],
            ]
    lift = ("GroupConv3D", dict(group="D4h", filters=2, kernel_size=2, padding="valid_equiv"))
    down = ("GroupConv3D", dict(group="D4h", subgroup="D4", filters=2, kernel_size=2, padding="same_equiv"))
    pool = ("GroupAveragePooling3D", dict(group="D4h", subgroup="D4", padding="same_equiv", strides=1))
    up = ("GroupConv3DTranspose", dict(group="D4h", subgroup="D4", filters=1, kernel_size=2))
    result += [[lift], [lift, down], [lift, pool, up], [lift, down, ("GlobalGroupMaxPooling3D", {})]]
    return result


def cost(case):
    return 5 if case["kind"] == "model" else 1 + case["dimensions"] // 3


def run(case, ctx):
    if case["kind"] == "layer":
        run_layer(case, ctx)
    else:
        run_model(case, ctx)


def normal(value):
    """Configurations are the same up to tuples and lists."""
    return json.loads(json.dumps(value))


def order_of(case):
    arguments = case["arguments"]
    if "group" not in arguments:
        return 4
    name = arguments["group"]
    if "Transpose" in case["layer"]:
        name = arguments.get("subgroup", name)
    return len(ref.DOCUMENTED[name])


def signal(case, n):
    dimensions = case["dimensions"]
    layout = lib.Layout(
        dimensions, case["arguments"].get("data_format", "channels_last"), case["on_group"]
    )
    shape = layout.shape(2, (n,) * dimensions, order_of(case), case["channels"])
    rng = np.random.default_rng(n)
    return rng.integers(-3, 4, size=shape).astype("float32")


def result_of(layer, inputs, weights):
    """Value or rejection, for the given weights if they fit."""
    try:
        if not layer.built:
            layer.build(inputs.shape)
        if weights is not None:
            layer.set_weights(weights)
        return lib.array(layer(inputs))
    except ValueError as error:
        return "ValueError: " + str(error)[:60]


def integer_weights(layer):
    rng = np.random.default_rng(3)
    return [rng.integers(-3, 4, size=w.shape).astype("float32") for w in layer.get_weights()]


def run_layer(case, ctx):
    cls = lib.layer_class(case["layer"])
    sizes = (3, 4) if case["dimensions"] == 3 else (3, 4, 5)
    original = cls(**case["arguments"])
    if "name" in case["arguments"]:
        ctx.require(original.name == "given_name", "name", f"the name is {original.name}")
    config = original.get_config()
    for name in ("group", "subgroup", "allow_non_equivariance", "data_format", "strides", "name"):
        if name in case["arguments"]:
            ctx.require(name in config, "missing", f"{name} is not part of the configuration")
    built = None
    for n in sizes:
        inputs = signal(case, n)
        # a new layer per size, as the first one may be rejected
        first = cls.from_config(config)
        out = result_of(first, inputs, None)
        if isinstance(out, str):
            weights = None
        else:
            weights = integer_weights(first)
            out = result_of(first, inputs, weights)
            built = first
        direct = cls(**{**case["arguments"], "name": original.name})
        expected = result_of(direct, inputs, weights)
        ctx.traces()
        compare(expected, out, f"size {n}, rebuilt from the configuration", ctx)

        # again, through JSON, from the built layer
        current = direct
        for turn in range(2):
            again = normal(current.get_config())
            ctx.states()
            ctx.transitions()
            ctx.require(
                again == normal(config),
                "config",
                lambda: f"the configuration is {again}, and was {normal(config)}",
            )
            current = cls.from_config(again)
            ctx.require(
                current.name == original.name,
                "name",
                f"the name is {current.name}",
            )
            if not isinstance(expected, str):
                compare(
                    expected, result_of(current, inputs, weights), f"size {n}, turn {turn}", ctx
                )
                ctx.traces()
            if turn == 0 and case["arguments"].get("trainable") is False:
                ctx.require(current.trainable is False, "trainable", "trainable is lost")
        ctx.outcome((case["layer"], n, expected if isinstance(expected, str) else expected.shape))
    if built is not None and case["layer"] != "EquivariantPadding":
        serialised(built, cls, ctx)


def serialised(layer, cls, ctx):
    import keras

    data = json.loads(json.dumps(keras.saving.serialize_keras_object(layer)))
    with keras.saving.CustomObjectScope({cls.__name__: cls}):
        other = keras.saving.deserialize_keras_object(data, custom_objects={cls.__name__: cls})
    ctx.transitions()
    ctx.require(
        normal(other.get_config()) == normal(layer.get_config()),
        "serialise",
        lambda: f"after serialising: {other.get_config()} instead of {layer.get_config()}",
    )


def compare(expected, found, what, ctx):
    if isinstance(expected, str) or isinstance(found, str):
        same = isinstance(expected, str) and isinstance(found, str)
    else:
        same = (
            expected.shape == found.shape
            and expected.dtype == found.dtype
            and np.array_equal(expected, found)
        )
    ctx.require(
        same,
        "values",
        lambda: what
        + ": "
        + (
            f"{found} instead of {expected}"
            if isinstance(expected, str) or isinstance(found, str)
            else f"{found.dtype} {lib.difference(found, expected)}"
        ),
    )


def classes(model):
    return {name: lib.layer_class(name) for name, _ in model}


def build_model(model, functional):
    import keras

    _, first = model[0]
    dimensions = 3 if "3D" in model[0][0] else 2
    size = 3 if dimensions == 3 else 5
    layout = lib.Layout(dimensions, first.get("data_format", "channels_last"), False)
    shape = layout.shape(None, (size,) * dimensions, None, 2)
    inputs = keras.Input(batch_shape=shape)
    layers = [lib.layer_class(name)(**arguments) for name, arguments in model]
    if functional:
        outputs = inputs
        for layer in layers:
            outputs = layer(outputs)
        result = keras.Model(inputs, outputs)
    else:
        result = keras.Sequential([inputs] + layers)
    rng = np.random.default_rng(11)
    result.set_weights(
        [rng.integers(-2, 3, size=w.shape).astype("float32") for w in result.get_weights()]
    )
    data = rng.integers(-2, 3, size=(2,) + shape[1:]).astype("float32")
    return result, data


def run_model(case, ctx):
    import keras

    model = case["model"]
    objects = classes(model)
    directory = tempfile.mkdtemp(prefix="mc_c14_")
    try:
        for functional in (False, True):
            original, data = build_model(model, functional)
            expected = lib.array(original(data))
            weights = original.get_weights()

            def check(other, what, weights_kept=True):
                if not weights_kept:
                    other.set_weights(weights)
                ctx.states()
                ctx.transitions()
                found = lib.array(other(data))
                compare(expected, found, what, ctx)
                ctx.traces()
                names = [layer.name for layer in other.layers]
                ctx.require(
                    names == [layer.name for layer in original.layers], "names", f"{what}: {names}"
                )

            with keras.saving.CustomObjectScope(objects):
                clone = keras.models.clone_model(original)
                check(clone, "cloned", False)
                check(keras.models.clone_model(clone), "cloned twice", False)
                parsed = keras.models.model_from_json(original.to_json(), custom_objects=objects)
                check(parsed, "from JSON", False)
            current = original
            for turn in range(2):
                path = os.path.join(directory, f"model{functional}{turn}.keras")
                current.save(path)
                current = keras.models.load_model(path, custom_objects=objects)
                check(current, f"saved and loaded, turn {turn}")
            path = os.path.join(directory, f"weights{functional}.weights.h5")
            original.save_weights(path)
            other, _ = build_model(model, functional)
            other.set_weights([w * 0 for w in weights])
            other.load_weights(path)
            compare(expected, lib.array(other(data)), "weights loaded", ctx)
            ctx.traces()
            ctx.outcome(expected.shape)
    finally:
        shutil.rmtree(directory)
