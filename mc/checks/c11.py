"""
Five exhaustive sweeps on the real layers. (1) plain padding: every (size, kernel, stride,
dilation, option) along one axis, accepted exactly when the standard padding already is the
equivariant one, then equal to the '_equiv' option. (2) with allow_non_equivariance: the same,
always accepted and equal to the standard Keras padding. (3) every ordered pair of sizes (build or
first call, then call; also unknown sizes at build) through one layer: every call is rejected or
gives what a fresh layer gives. (4) constructor arguments: all within the stated number of
deviations, also such that do not fit the group (sizes that differ along exchanged axes): raises
ValueError, or the complete connectivity/impulse response of the layer is equivariant under every
element of the subgroup. (5) the same arguments with allow_non_equivariance are accepted. States
are (layer, size) pairs or connections explored, transitions the comparisons, traces the calls
predicted.
"""

import itertools

import numpy as np

from mc import conv, lib, ref
from mc.checks import c08

TECHNIQUE = (
    "exhaustive enumeration of configurations, sizes and size histories on the real layers, "
    "accept/reject against a brute-force oracle, equivariance on the complete connectivity"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "activations act on every value separately",
    "sizes for which not a single window fits are left out",
    "without activation convolutions are linear, max pooling is a maximum over a set of entries",
]


def cases(tier):
    deep = tier == "thorough"
    result = []
    # 1 and 2: along one axis
    for layer, padding, kernel, stride, dilation in itertools.product(
        ("conv2", "conv3", "max1", "max2", "max3", "average1", "average2", "average3"),
        ("valid", "same"),
        range(1, 6 if deep else 5),
        range(1, 5 if deep else 4),
        (1, 2, 3) if deep else (1, 2),
    ):
        if dilation > 1 and (stride > 1 or "conv" not in layer):
            continue
        result.append(
            dict(kind="line", layer=layer, padding=padding, kernel=kernel, stride=stride,
                 dilation=dilation, top=9 if deep else 6)
        )
    # 3: histories
    for layer, padding, kernel, stride in itertools.product(
        ("conv2", "max2", "average2") + (("conv3", "max1", "max3") if deep else ()),
        ("valid", "same", "valid_equiv", "same_equiv"), (2, 3) + ((4, 5) if deep else ()),
        (1, 2) + ((3,) if deep else ()),
    ):
        result.append(
            dict(kind="history", layer=layer, padding=padding, kernel=kernel, stride=stride,
                 dilation=1, sizes=[3, 4, 5, 6] + ([7, 8, 9] if deep else []))
        )
    # 4 and 5: arguments
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        order = len(ref.DOCUMENTED[group])
        if dimensions == 2:
            dims = {
                "padding": ["same_equiv", "valid_equiv", "same", "valid"],
                "kernel": [3, 2, [3, 2], [1, 2], [3, 1]],
                "stride": [1, 2, [2, 1], [1, 2]],
                "dilation": [1, 2, [1, 2]],
                "format": ["channels_last", "channels_first"],
                "on_group": [True, False],
                "groups": [1, 2, 3],
                "extra": ["", "regularizers", "constraints", "initializers", "not_trainable"],
            }
            pool = {
                "layer": ["max", "average"],
                "padding": ["same_equiv", "valid_equiv", "same", "valid"],
                "pool": [2, 3, [2, 3], [1, 2]],
                "stride": [None, 1, 2, [2, 1]],
                "format": ["channels_last", "channels_first"],
            }
            shapes = [(4, 4), (3, 5)]
        else:
            dims = {
                "padding": ["same_equiv", "valid_equiv", "same", "valid"],
                "kernel": [2, [2, 2, 1], [1, 2, 2], [1, 3, 2]],
                "stride": [1, 2, [1, 1, 2], [2, 1, 1]],
                "dilation": [1, [1, 1, 2], [2, 1, 1]],
                "format": ["channels_last"],
                "on_group": [False] if order > 16 and not deep else [True, False],
                "groups": [1, 2],
                "extra": [""],
            }
            pool = {
                "layer": ["max", "average"],
                "padding": ["same_equiv", "valid_equiv", "same", "valid"],
                "pool": [2, [2, 2, 1], [1, 2, 2]],
                "stride": [None, 1, [1, 1, 2], [2, 1, 1]],
                "format": ["channels_last"],
            }
            shapes = [(2, 2, 3)] if order < 48 else [(1, 1, 2)]
        bound = 2 if deep or (group, sub) in (("P4M", "P2MM"), ("P4", "P4"), ("P2MM", "PMh")) else 1
        for case in lib.deviations(dims, bound):
            case["channels"] = case["filters"] = case["groups"]
            case.update(kind="arguments", group=group, sub=sub, shapes=shapes)
            result.append(case)
        for case in lib.deviations(pool, bound):
            case["dimensions"] = dimensions
            case["channels"] = 1
            case.update(kind="pool_arguments", group=group, sub=sub, shapes=shapes)
            result.append(case)
    return result


def cost(case):
    if "argument" not in case["kind"]:
        return 10**6
    order = len(ref.DOCUMENTED[case["group"]]) * len(ref.DOCUMENTED[case["sub"]])
    return 100000 + order * sum(int(np.prod(shape)) ** 2 for shape in case["shapes"])


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


# layers that work along one axis


def line_layer(case, padding, allow, square=False):
    name, dimensions = case["layer"][:-1], int(case["layer"][-1])
    group = {1: "P2", 2: "P2MM", 3: "D4"}[dimensions]
    kernel, strides, dilation = [1] * dimensions, [1] * dimensions, [1] * dimensions
    if square:
        group = {1: "P2", 2: "P4", 3: "D4"}[dimensions]
        kernel, strides = [case["kernel"]] * dimensions, [case["stride"]] * dimensions
    else:
        kernel[-1], strides[-1], dilation[-1] = case["kernel"], case["stride"], case["dilation"]
    kwargs = dict(group=group, padding=padding, strides=tuple(strides))
    if allow:
        kwargs["allow_non_equivariance"] = True
    if name == "conv":
        kwargs.update(
            filters=2, kernel_size=tuple(kernel), dilation_rate=tuple(dilation), use_bias=False
        )
        return lib.layer_class(f"GroupConv{dimensions}D")(**kwargs)
    kwargs["pool_size"] = tuple(kernel)
    return lib.layer_class(f"Group{name.capitalize()}Pooling{dimensions}D")(**kwargs)


def line_inputs(case, n, square=False):
    name, dimensions = case["layer"][:-1], int(case["layer"][-1])
    order = {1: 2, 2: 4, 3: 8}[dimensions]
    spatial = (n,) * dimensions if square else (1,) * (dimensions - 1) + (n,)
    if name == "conv":
        shape = (2,) + spatial + (2,)
    else:
        shape = (2,) + spatial + (order, 2)
    rng = np.random.default_rng(n)
    # without repetitions or zeros, so that all windows differ
    values = np.array([v for v in range(-np.prod(shape), np.prod(shape) + 1) if v])
    return rng.permutation(values)[: np.prod(shape)].reshape(shape).astype("float32")


def fixed_weights(layer):
    layer.set_weights(
        [
            np.random.default_rng(5).integers(-4, 5, size=w.shape).astype("float32")
            for w in layer.get_weights()
        ]
    )


def attempt(layer, inputs):
    """(output, None) or (None, message of the ValueError)."""
    try:
        if not layer.built:
            layer.build(inputs.shape)
            fixed_weights(layer)
        return lib.array(layer(inputs)), None
    except ValueError as error:
        return None, str(error)


def run_line(case, ctx):
    same = case["padding"] == "same"
    k, s, d = case["kernel"], case["stride"], case["dilation"]
    extent = (k - 1) * d + 1
    for n in range(1, case["top"] + 1):
        standard = ref.standard_total(n, extent, s, same)
        if n + standard < extent:
            ctx.count("left_out")
            continue
        best = ref.equivariant_total(n, extent, s, same)
        inputs = line_inputs(case, n)
        out, error = attempt(line_layer(case, case["padding"], False), inputs)
        ctx.states()
        ctx.traces()
        ctx.require(
            (error is None) == (best == standard),
            "plain",
            f"size {n}: {case['padding']} padding is "
            + ("accepted" if error is None else f"rejected ({error})")
            + f", standard total {standard}, equivariant total {best}",
        )
        if error is None:
            other, message = attempt(line_layer(case, case["padding"] + "_equiv", False), inputs)
            ctx.require(message is None, "equiv", f"size {n}: the _equiv option raises {message}")
            ctx.transitions(out.size)
            ctx.require(
                np.array_equal(out, other),
                "equiv",
                lambda: f"size {n}: differs from the _equiv option: " + lib.difference(out, other),
            )
        # insisting
        layer = line_layer(case, case["padding"], True)
        out, error = attempt(layer, inputs)
        ctx.states()
        ctx.traces()
        ctx.require(error is None, "allow", f"size {n}: rejected although allowed: {error}")
        expected = standard_result(case, layer, inputs, n)
        ctx.transitions(out.size)
        ctx.require(
            out.shape == expected.shape and np.allclose(out, expected, rtol=1e-5, atol=1e-6),
            "standard",
            lambda: f"size {n}: differs from standard {case['padding']} padding: "
            + lib.difference(out, expected),
        )
        ctx.outcome((n, standard, best))


def standard_result(case, layer, inputs, n):
    """What the standard Keras padding gives."""
    import keras

    name, dimensions = case["layer"][:-1], int(case["layer"][-1])
    if name != "conv":
        strides, pool = [1] * dimensions, [1] * dimensions
        pool[-1], strides[-1] = case["kernel"], case["stride"]
        keras_layer = getattr(keras.layers, f"{name.capitalize()}Pooling{dimensions}D")(
            pool_size=tuple(pool), strides=tuple(strides), padding=case["padding"]
        )
        merged = inputs.reshape(inputs.shape[:-2] + (-1,))
        out = lib.array(keras_layer(merged))
        return out.reshape(out.shape[:-1] + inputs.shape[-2:])
    table = lib.tables({2: "P2MM", 3: "D4"}[dimensions])
    kernel, strides, dilation = [1] * dimensions, [1] * dimensions, [1] * dimensions
    kernel[-1], strides[-1], dilation[-1] = case["kernel"], case["stride"], case["dilation"]
    extent = (case["kernel"] - 1) * case["dilation"] + 1
    total = ref.standard_total(n, extent, case["stride"], case["padding"] == "same")
    totals = [0] * (dimensions - 1) + [total]
    model = lib.conv_reference(
        table, None, list(range(table.order)), inputs.shape[1:-1], kernel, strides, dilation,
        totals, 2, 2,
    )
    return lib.apply_connectivity(model, layer.get_weights()[0], None, inputs)


def run_history(case, ctx):
    name, dimensions = case["layer"][:-1], int(case["layer"][-1])
    fresh = {}
    same = case["padding"].startswith("same")

    def skip(n):
        total = ref.standard_total(n, case["kernel"], case["stride"], same)
        return n + total < case["kernel"]

    sizes = [n for n in case["sizes"] if not skip(n)]
    for n in sizes:
        inputs = line_inputs(case, n, square=True)
        out, error = attempt(line_layer(case, case["padding"], False, square=True), inputs)
        accepted, _ = lib.expected_total(n, case["kernel"], case["stride"], 1, case["padding"])
        ctx.require(
            accepted == (error is None), "fresh", f"size {n}: accepted {error is None} ({error})"
        )
        fresh[n] = out
        ctx.states()
        ctx.traces()
    for first, second in itertools.product(["unknown"] + sizes, sizes):
        layer = line_layer(case, case["padding"], False, square=True)
        if first == "unknown":
            shape = line_inputs(case, 3, square=True).shape
            layer.build((None,) + (None,) * dimensions + shape[1 + dimensions :])
            fixed_weights(layer)
        else:
            attempt(layer, line_inputs(case, first, square=True))
        for n in (second, first, second):
            if n == "unknown":
                continue
            out, error = attempt(layer, line_inputs(case, n, square=True))
            ctx.transitions()
            ctx.require(
                (out is None) == (fresh[n] is None),
                "history",
                f"after size {first}, size {n} is {'rejected' if out is None else 'accepted'}, "
                f"not so by a fresh layer ({error})",
            )
            ctx.require(
                out is None or np.array_equal(out, fresh[n]),
                "history",
                lambda: f"after size {first}, size {n} gives something else than a fresh layer: "
                + lib.difference(out, fresh[n]),
            )
        ctx.outcome((first, second, out is None))


# constructor arguments

EXTRA = {
    "": {},
    "regularizers": dict(
        kernel_regularizer="l2", bias_regularizer="l1", activity_regularizer="l2"
    ),
    "constraints": dict(kernel_constraint="non_neg", bias_constraint="non_neg"),
    "initializers": dict(kernel_initializer="ones", bias_initializer="ones"),
    "not_trainable": dict(trainable=False, name="some_name"),
}


def run_arguments(case, ctx):
    setup = conv.Setup(case)
    spatial = tuple(case["shapes"][0])
    for spatial in map(tuple, case["shapes"]):
        models = {}
        try:
            layer = conv.make_layer(case, **EXTRA[case["extra"]])
            for shape in conv.all_shapes(setup, spatial):
                models[shape] = lib.connectivity(
                    layer, setup.layout, shape, setup.order_in, case["channels"]
                )
                ctx.states(models[shape].size)
        except ValueError as error:
            ctx.count("rejected")
            ctx.outcome(str(error)[:40])
        else:
            ctx.count("accepted")
            conv.check_equivariance(setup, models, spatial, ctx, setup.sub_indices)
            conv.check_conformance(setup, layer, models[spatial], spatial, ctx)
        insist(setup, spatial, ctx)


def insist(setup, spatial, ctx):
    """With allow_non_equivariance, plain padding is always accepted and the standard one."""
    case = setup.case
    if case["padding"].endswith("_equiv"):
        return
    if not conv.fits(case["group"], case["kernel"]):
        return  # the transformed kernels do not have a common shape
    allowed = dict(case, allow=True)
    totals = conv.Setup(allowed).totals(spatial)
    if any(n + t < e for n, t, e in zip(spatial, totals, setup.extents)):
        return
    layer = conv.make_layer(case, allow_non_equivariance=True)
    model = lib.connectivity(layer, setup.layout, spatial, setup.order_in, case["channels"])
    expected = lib.conv_reference(
        setup.table, setup.domain, setup.acting, spatial, setup.kernel, setup.strides,
        setup.dilation, totals, case["channels"], case["filters"], groups=case["groups"],
    )
    ctx.states(model.size)
    ctx.transitions(model.size)
    ctx.require(
        np.array_equal(model, expected),
        "standard",
        lambda: f"grid {spatial}, allowed to use standard padding: weights connecting "
        "(input unit, y, g, f): " + lib.difference(model, expected),
    )


def run_pool_arguments(case, ctx):
    case = dict(case, kind=case["layer"])
    setup = c08.Setup(case)
    for spatial in map(tuple, case["shapes"]):
        shapes = sorted(
            {ref.moved_shape(setup.table.elements[g], spatial) for g in setup.acting}
        )
        responses = {}
        try:
            layer = c08.make_layer(case)
            for shape in shapes:
                responses[shape] = c08.impulse_response(setup, layer, shape, ctx)
                ctx.states(responses[shape][0].size)
        except ValueError as error:
            ctx.count("rejected")
            ctx.outcome(str(error)[:40])
            continue
        ctx.count("accepted")
        c08.check_equivariance(setup, responses, spatial, ctx)
        c08.check_conformance(setup, layer, *responses[spatial], spatial, ctx)
