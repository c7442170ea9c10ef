"""
Four exhaustive sweeps of equivariant padding on the real layers. (1) 1D: every (size, kernel,
stride, dilation, padding option, data format) up to a bound. (2) 2D and 3D: every combination of
different sizes, kernels and strides per axis from a small alphabet. (3) every ordered pair of
sizes through one layer. (4) inside group convolutions and poolings: every (size, kernel, stride,
dilation, option) along one axis, with the padding read off from the complete response to unit
impulses and constants. States are the (configuration, size) explored, transitions the paddings
decided per axis, traces the calls of the real layers that were predicted. The oracle searches the totals from small to large for the first that is allowed.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "exhaustive enumeration of sizes, kernels, strides, dilations and size histories on the real "
    "padding and layers, against a brute-force search for the smallest allowed padding"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "the built-in 'same' padding is that of TensorFlow and Keras: total to get ceil(size / stride) "
    "outputs, with the odd entry at the end",
    "sizes for which not a single window fits even after the base option's padding are left out",
]


def cases(tier):
    deep = tier == "thorough"
    options = ("valid_equiv", "same_equiv")
    result = []
    for option, kernel, stride, dilation, format in itertools.product(
        options, range(1, 10 if deep else 7), range(1, 7 if deep else 5), range(1, 5 if deep else 4),
        ("channels_last", "channels_first"),
    ):
        result.append(
            dict(kind="line", option=option, kernel=kernel, stride=stride, dilation=dilation,
                 format=format, top=24 if deep else 12)
        )
    alphabet = (1, 2, 3)
    for option, kernel, stride in itertools.product(
        options, itertools.product(alphabet, repeat=2), itertools.product(alphabet, repeat=2)
    ):
        sizes = [list(s) for s in itertools.product((2, 3, 4, 5) if deep else (3, 4, 5), repeat=2)]
        result.append(
            dict(kind="axes", option=option, kernel=kernel, stride=stride, dilation=[1, 1],
                 sizes=sizes, format="channels_last" if sum(kernel) % 2 else "channels_first")
        )
    for option, kernel, stride, dilation in itertools.product(
        options, [(2, 3, 1), (3, 2, 2), (1, 3, 2), (3, 3, 3)], [(1, 2, 3), (2, 1, 2), (2, 3, 1)],
        [(1, 1, 1), (1, 2, 1), (2, 1, 3)],
    ):
        sizes = [list(s) for s in itertools.product((3, 4, 6) if deep else (4, 5), repeat=3)]
        for format in ("channels_last", "channels_first"):
            result.append(
                dict(kind="axes", option=option, kernel=kernel, stride=stride, dilation=dilation,
                     sizes=sizes, format=format)
            )
    for option, kernel, stride in itertools.product(options, range(1, 5), range(1, 5)):
        for dimensions in (1, 2):
            result.append(
                dict(kind="history", option=option, kernel=kernel, stride=stride, dilation=1,
                     dimensions=dimensions, format="channels_last", top=9 if deep else 6)
            )
    for option, kernel, stride, dilation in itertools.product(
        options, range(1, 7 if deep else 5), range(1, 6 if deep else 5), range(1, 4 if deep else 3)
    ):
        if stride > 1 and dilation > 1:
            continue  # refused by Keras
        for dimensions in (2, 3):
            result.append(
                dict(kind="conv", dimensions=dimensions, option=option, kernel=kernel,
                     stride=stride, dilation=dilation,
                     top=(12 if dimensions == 2 else 8) if deep else (7 if dimensions == 2 else 5))
            )
        if dilation == 1:
            for dimensions in (1, 2, 3):
                result.append(
                    dict(kind="pool", dimensions=dimensions, option=option, kernel=kernel,
                         stride=stride, dilation=1, top=12 if deep else 6)
                )
    return result


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def make_padding(case, dimensions):
    return lib.layer_class("EquivariantPadding")(
        kernel_size=case["kernel"] if isinstance(case["kernel"], int) else tuple(case["kernel"]),
        dimensions=dimensions,
        strides=case["stride"] if isinstance(case["stride"], int) else tuple(case["stride"]),
        dilation_rate=(
            case["dilation"] if isinstance(case["dilation"], int) else tuple(case["dilation"])
        ),
        padding=case["option"],
        data_format=case["format"],
    )


def per_axis(case, dimensions):
    return zip(*[lib.as_tuple(case[name], dimensions) for name in ("kernel", "stride", "dilation")])


def oracle(case, spatial):
    """Expected totals per axis; None where there are none, or not a single window would fit."""
    same = case["option"].startswith("same")
    result, possible = [], True
    for n, (k, s, d) in zip(spatial, per_axis(case, len(spatial))):
        extent = (k - 1) * d + 1
        if n + ref.standard_total(n, extent, s, same) < extent:
            return None, False
        total = ref.equivariant_total(n, extent, s, same)
        possible = possible and total is not None
        result.append(total)
    return result, possible


def check_padding(layer, case, spatial, ctx):
    """Returns False if this size is left out."""
    totals, possible = oracle(case, spatial)
    if totals is None:
        ctx.count("left_out")
        return False
    dimensions = len(spatial)
    layout = lib.Layout(dimensions, case["format"], False)
    shape = layout.shape(2, spatial, None, 3)
    inputs = np.arange(1, np.prod(shape) + 1, dtype="float32").reshape(shape)
    ctx.states()
    ctx.transitions(len(spatial))
    ctx.traces()
    error = None
    try:
        outputs = lib.array(layer(inputs))
    except ValueError as e:
        error = str(e)
    if not possible:
        ctx.require(
            error is not None, "accepted", f"sizes {spatial} are accepted, no padding is possible"
        )
        bad = totals.index(None)
        k, s, d = list(per_axis(case, dimensions))[bad]
        named = str(spatial[bad]) in error and str(s) in error
        named = named and (str(k) in error or str((k - 1) * d + 1) in error)
        ctx.require(named, "message", f"the error does not name the sizes: {error}")
        ctx.count("rejected")
        return True
    ctx.require(
        error is None, "rejected", f"sizes {spatial} are rejected, totals {totals} work: {error}"
    )
    inside = []
    for n, total, (k, s, d), axis in zip(
        spatial, totals, per_axis(case, dimensions), layout.spatial_axes
    ):
        extent = (k - 1) * d + 1
        padded = outputs.shape[axis]
        # what the layer that this is used in adds to the padded input
        built_in = ref.standard_total(padded, extent, s, case["option"].startswith("same"))
        found = padded - n + built_in
        ctx.require(
            found == total,
            "total",
            f"size {n}, kernel {k}, stride {s}, dilation {d}: total padding is {found}, "
            f"the smallest that works is {total}",
        )
        before = total // 2 - built_in // 2
        inside.append(slice(before, before + n))
    canonical = layout.canonical(outputs)[..., 0, :]
    expected = np.zeros(canonical.shape, "float32")
    window = (slice(None),) + tuple(inside)
    expected_window = layout.canonical(inputs)[..., 0, :]
    ctx.require(
        canonical.shape[0] == 2 and canonical.shape[-1] == 3
        and expected[window].shape == expected_window.shape,
        "shape",
        f"sizes {spatial}: padded to shape {outputs.shape}",
    )
    expected[window] = expected_window
    ctx.require(
        np.array_equal(canonical, expected),
        "contents",
        lambda: f"sizes {spatial}: the input in the centre, zeros around: "
        + lib.difference(canonical, expected),
    )
    ctx.outcome((tuple(spatial), tuple(totals)))
    return True


def run_line(case, ctx):
    for n in range(1, case["top"] + 1):
        check_padding(make_padding(case, 1), case, (n,), ctx)


def run_axes(case, ctx):
    for spatial in case["sizes"]:
        check_padding(make_padding(case, len(spatial)), case, tuple(spatial), ctx)


def run_history(case, ctx):
    for first, second in itertools.product(range(1, case["top"] + 1), repeat=2):
        layer = make_padding(case, case["dimensions"])
        if check_padding(layer, case, (first,) * case["dimensions"], ctx):
            check_padding(layer, case, (second,) * case["dimensions"], ctx)
            check_padding(layer, case, (first,) * case["dimensions"], ctx)


def run_conv(case, ctx):
    """Read off the padding of a convolution with a different weight for each kernel entry."""
    dimensions, k = case["dimensions"], case["kernel"]
    extent = (k - 1) * case["dilation"] + 1
    axis = dimensions - 1
    kernel = [1] * dimensions
    kernel[axis] = k
    strides, dilation = [1] * dimensions, [1] * dimensions
    strides[axis], dilation[axis] = case["stride"], case["dilation"]
    layer = lib.layer_class(f"GroupConv{dimensions}D")(
        group="P2MM" if dimensions == 2 else "D4", filters=1, kernel_size=tuple(kernel),
        strides=tuple(strides), dilation_rate=tuple(dilation), padding=case["option"],
        use_bias=False,
    )
    layout = lib.Layout(dimensions, "channels_last", False)
    batch = case["top"]
    for n in range(1, case["top"] + 1):
        totals, possible = oracle(case, (n,))
        if totals is None:
            ctx.count("left_out")
            continue
        ctx.states()
        ctx.transitions()
        ctx.traces()
        spatial = (1,) * (dimensions - 1) + (n,)
        inputs = np.zeros((batch, n), "float32")
        inputs[:n] = np.eye(n)
        inputs = inputs.reshape(layout.shape(batch, spatial, None, 1))
        try:
            if not layer.built:
                layer.build(inputs.shape)
                layer.set_weights(
                    [np.arange(1, k + 1, dtype="float32").reshape(layer.get_weights()[0].shape)]
                )
            outputs = lib.array(layer(inputs))
        except ValueError as e:
            ctx.require(not possible, "rejected", f"size {n} is rejected, {totals} works: {e}")
            ctx.count("rejected")
            continue
        ctx.require(possible, "accepted", f"size {n} is accepted, no padding is possible")
        outputs = outputs[:n].reshape(n, -1, outputs.shape[-2])[..., 0]
        number = (n + totals[0] - extent) // case["stride"] + 1
        expected = np.zeros((n, number))
        for y, u in itertools.product(range(number), range(k)):
            x = y * case["stride"] - totals[0] // 2 + u * case["dilation"]
            if 0 <= x < n:
                expected[x, y] = u + 1
        ctx.require(
            np.array_equal(outputs, expected),
            "windows",
            lambda: f"convolution, size {n}, total {totals[0]}: kernel entry connecting "
            "(input, output) " + lib.difference(outputs, expected),
        )
        ctx.outcome((n, totals[0]))


def run_pool(case, ctx):
    """Read off the padding of pooling layers."""
    dimensions, k, s = case["dimensions"], case["kernel"], case["stride"]
    for kind in ("Max", "Average"):
        kernel, strides = [1] * dimensions, [1] * dimensions
        kernel[0], strides[0] = k, s
        layer = lib.layer_class(f"Group{kind}Pooling{dimensions}D")(
            group="P2" if dimensions < 3 else "D4", pool_size=tuple(kernel),
            strides=tuple(strides), padding=case["option"],
            # a grid of different sizes is only kept by groups that do not exchange these axes
            subgroup="P1" if dimensions < 3 else "D4", allow_non_equivariance=dimensions == 3,
        )
        order = 2 if dimensions < 3 else 8
        layout = lib.Layout(dimensions, "channels_last", True)
        for n in range(1, case["top"] + 1):
            totals, possible = oracle(case, (n,))
            if totals is None:
                ctx.count("left_out")
                continue
            ctx.states()
            ctx.transitions()
            ctx.traces()
            spatial = (n,) + (1,) * (dimensions - 1)
            inputs = np.zeros((case["top"], n, order), "float32")
            inputs[:n] = np.eye(n)[:, :, None]
            inputs = inputs.reshape(layout.shape(len(inputs), spatial, order, 1))
            try:
                outputs = lib.array(layer(inputs))
            except ValueError as e:
                ctx.require(not possible, "rejected", f"size {n} is rejected, {totals} works: {e}")
                ctx.count("rejected")
                continue
            ctx.require(possible, "accepted", f"size {n} is accepted, no padding is possible")
            outputs = outputs[:n].reshape(n, -1, outputs.shape[-2])[..., 0] > 0
            number = (n + totals[0] - k) // s + 1
            expected = np.zeros((n, number), bool)
            for y, u in itertools.product(range(number), range(k)):
                x = y * s - totals[0] // 2 + u
                if 0 <= x < n:
                    expected[x, y] = True
            ctx.require(
                np.array_equal(outputs, expected),
                "windows",
                lambda: f"{kind} pooling, size {n}, total {totals[0]}: whether (output) includes "
                "(input) " + lib.difference(outputs, expected),
            )
            ctx.outcome((n, totals[0]))
