"""
Shared by the checks of convolutions: configurations, building the real layers, and comparing their
complete connectivity (the explicit model of a bilinear layer) with what is expected of it.
"""

import numpy as np

from mc import lib, ref

# groups that exchange axes need the same sizes along these axes
EXCHANGING = {
    name: [
        {a, int(np.flatnonzero(ref.unkey(k)[a])[0])}
        for k in ref.DOCUMENTED[name]
        for a in range(ref.dimensions_of(name))
    ]
    for name in ref.NAMES
}


def fits(name, *sizes):
    """Whether sizes per axis are the same along all axes that the group exchanges."""
    dimensions = ref.dimensions_of(name)
    for size in sizes:
        size = lib.as_tuple(size, dimensions)
        for axes in EXCHANGING[name]:
            if len({size[a] for a in axes}) > 1:
                return False
    return True


def conv_class(case):
    name = f"GroupConv{ref.dimensions_of(case['group'])}D"
    return lib.layer_class(name + ("Transpose" if case.get("transpose") else ""))


def make_layer(case, **extra):
    kwargs = dict(
        group=case["group"],
        kernel_size=case["kernel"],
        filters=case["filters"],
        padding=case["padding"],
        data_format=case["format"],
        bias_initializer="zeros",
    )
    if case["sub"] != case["group"]:
        kwargs["subgroup"] = case["sub"]
    if case["stride"] != 1:
        kwargs["strides"] = case["stride"]
    if case["dilation"] != 1:
        kwargs["dilation_rate"] = case["dilation"]
    if case.get("groups", 1) != 1:
        kwargs["groups"] = case["groups"]
    if not case.get("bias", True):
        kwargs["use_bias"] = False
    kwargs.update(extra)
    return conv_class(case)(**kwargs)


class Setup:
    """The reference view of a configuration."""

    def __init__(self, case):
        self.case = case
        self.group, self.sub = case["group"], case["sub"]
        self.dimensions = ref.dimensions_of(self.group)
        self.table = lib.tables(self.group)
        self.sub_indices = lib.subgroup_indices(self.group, self.sub)
        everything = list(range(self.table.order))
        # transposed convolutions go from the subgroup to the whole group
        if case.get("transpose"):
            self.domain, self.acting = self.sub_indices, everything
        else:
            self.domain, self.acting = everything, self.sub_indices
        if not case["on_group"]:
            self.domain = None
        self.order_in = len(self.domain) if case["on_group"] else 1
        self.layout = lib.Layout(self.dimensions, case["format"], case["on_group"])
        self.out_layout = lib.Layout(self.dimensions, case["format"], True)
        self.kernel = lib.as_tuple(case["kernel"], self.dimensions)
        self.strides = lib.as_tuple(case["stride"], self.dimensions)
        self.dilation = lib.as_tuple(case["dilation"], self.dimensions)
        self.extents = tuple((k - 1) * d + 1 for k, d in zip(self.kernel, self.dilation))

    def totals(self, spatial):
        """The total padding per axis, or None if rejected."""
        result = []
        for n, k, s, d in zip(spatial, self.kernel, self.strides, self.dilation):
            accepted, total = lib.expected_total(
                n, k, s, d, self.case["padding"], self.case.get("allow", False)
            )
            if not accepted:
                return None
            result.append(total)
        return result

    def window_fits(self, spatial):
        totals = self.totals(spatial)
        return totals is not None and all(
            n + t >= e for n, t, e in zip(spatial, totals, self.extents)
        )

    def input_shape(self, batch, spatial):
        return self.layout.shape(batch, spatial, self.order_in, self.case["channels"])


def all_shapes(setup, spatial):
    """The grid shapes that the subgroup turns this one into."""
    return sorted({ref.moved_shape(setup.table.elements[g], spatial) for g in setup.sub_indices})


def check_equivariance(setup, models, spatial, ctx, output_domain):
    """
    The explicit models, by input shape, commute with every element of the subgroup: for every
    input unit and output unit, moving both connects them by the same weight.
    """
    case = setup.case
    start = models[spatial]
    units_in = start.shape[0]
    flat = start.reshape(units_in, -1)
    out_spatial = start.shape[1 : 1 + setup.dimensions]
    for g in setup.sub_indices:
        element = setup.table.elements[g]
        target = ref.moved_shape(element, spatial)
        moved_model = models[target]
        moved_in = lib.permutation_on_units(
            setup.table, g, spatial, setup.domain, case["channels"]
        )
        moved_out = lib.permutation_on_units(
            setup.table, g, out_spatial, output_domain, start.shape[-1]
        )
        expected_shape = ref.moved_shape(element, out_spatial)
        ctx.require(
            moved_model.shape[1 : 1 + setup.dimensions] == expected_shape,
            "shape",
            lambda: f"output grid {moved_model.shape} for the moved input, "
            f"expected {expected_shape}",
        )
        # signals on a proper subgroup are only acted on by elements of that subgroup here, which
        # never take a unit out of the domain
        expected = flat[moved_in][:, moved_out]
        actual = moved_model.reshape(moved_model.shape[0], -1)
        ctx.transitions(actual.size)
        ctx.require(
            np.array_equal(actual, expected),
            "equivariance",
            lambda: f"not equivariant under element {g} of {setup.group} for input grid {spatial}: "
            "connections of (input unit, output unit) " + lib.difference(actual, expected),
        )


def set_dense_weights(layer, rng):
    weights = layer.get_weights()
    values = [lib.integers(rng, w.shape) for w in weights]
    layer.set_weights(values)
    kernel = values[0]
    bias = values[1] if len(values) > 1 else None
    return kernel, bias


def check_conformance(setup, layer, model, spatial, ctx, batch=3):
    """
    The explicit model predicts the real layer exactly on dense inputs, weights and biases.
    """
    rng = lib.generator(ctx.seed, setup.case)
    kernel, bias = set_dense_weights(layer, rng)
    shape = lib.canonical_input(
        setup.layout, batch, spatial, setup.order_in, setup.case["channels"]
    )
    inputs = lib.integers(rng, shape)
    inputs[0] = 0  # the contribution of the bias by itself
    expected = lib.apply_connectivity(model, kernel, bias, inputs)
    # the same batch size as when the model was extracted, which is compiled already
    outputs = lib.call_padded(layer, setup.layout.from_canonical(inputs), len(model))
    found = setup.out_layout.canonical(outputs)
    ctx.traces(batch)
    ctx.require(
        np.array_equal(found, expected),
        "conformance",
        lambda: "dense inputs and weights: real layer and its explicit model differ, "
        + lib.difference(found, expected),
    )
    if bias is not None:
        check_bias(setup, found[0], spatial, ctx)


def check_bias(setup, out, spatial, ctx):
    """The contribution of the bias is itself a signal that every element keeps."""
    for g in setup.sub_indices:
        if not ref.keeps_shape(setup.table.elements[g], spatial):
            continue
        domain = setup.acting
        moved = ref.act_on_group(
            setup.table, g, out, tuple(range(setup.dimensions)), setup.dimensions, domain
        )
        ctx.transitions(out.size)
        ctx.require(
            np.array_equal(moved, out),
            "bias",
            lambda: f"the bias is not invariant under element {g}: " + lib.difference(moved, out),
        )


# just above the powers of two up to which small integer and float types count
LARGE = [
    # group, subgroup, on_group, kernel, channels, filters: number of weights
    ("P4", "P2", True, 3, 2, 4),  # 2^8
    ("P4", "P4", False, [2, 2], 16, 34),  # 2^11
    ("P4M", "P4", True, 3, 21, 22),  # 2^15
    ("D4", "D4", True, 2, 32, 33),  # 2^16
    ("PMw", "PMw", False, [1, 2], 2900, 2900),  # 2^24
]


def large_cases(transpose):
    result = []
    for group, sub, on_group, kernel, channels, filters in LARGE:
        if on_group and transpose:
            # the input only lives on the subgroup
            filters *= len(ref.DOCUMENTED[group]) // len(ref.DOCUMENTED[sub])
        result.append(
            dict(
                kind="large", group=group, sub=sub, on_group=on_group, kernel=kernel,
                channels=channels, filters=filters, padding="valid_equiv", stride=1, dilation=1,
                format="channels_last", bias=True, transpose=transpose, shapes=[],
            )
        )
    return result


def check_large(case, ctx):
    """
    Kernels of many weights: the one output of a convolution as large as its input, or the
    outputs of a transposed convolution of a single point, for dense values.
    """
    setup = Setup(case)
    layer = make_layer(case)
    spatial = (1,) * setup.dimensions if case.get("transpose") else setup.kernel
    shape = lib.canonical_input(setup.layout, 2, spatial, setup.order_in, case["channels"])
    rng = lib.generator(ctx.seed, case)
    inputs = lib.integers(rng, shape, 1)
    signal = setup.layout.from_canonical(inputs)
    layer.build(signal.shape)
    kernel, bias = set_dense_weights(layer, rng)
    axes = tuple(range(setup.dimensions))
    if case.get("transpose"):
        stored = kernel.reshape(setup.kernel + (case["filters"], setup.order_in, case["channels"]))
        stored = np.moveaxis(stored, setup.dimensions, -1)
    else:
        stored = kernel.reshape(setup.kernel + (setup.order_in, case["channels"], case["filters"]))
    expected = []
    for g in setup.acting:
        if setup.domain is None:
            moved = ref.act_on_grid(setup.table.elements[g], stored, axes)
        else:
            moved = ref.act_on_group(setup.table, g, stored, axes, setup.dimensions, setup.domain)
        if case.get("transpose"):
            # the kernel itself is the output
            flat = inputs.reshape(2, -1).astype("float64")
            weights = moved.reshape(-1, flat.shape[1], case["filters"]).astype("float64")
            out = np.einsum("bi,kio->bko", flat, weights)
            out = out.reshape((2,) + setup.kernel + (case["filters"],))
        else:
            out = inputs.reshape(2, -1).astype("float64") @ moved.reshape(
                -1, case["filters"]
            ).astype("float64")
            out = out.reshape((2,) + (1,) * setup.dimensions + (case["filters"],))
        expected.append(out + bias)
    expected = np.stack(expected, axis=-2)
    found = setup.out_layout.canonical(lib.array(layer(signal)))
    ctx.states(kernel.size)
    ctx.transitions(kernel.size * len(setup.acting))
    ctx.traces(2)
    ctx.count("large_kernels")
    ctx.require(
        np.array_equal(found, expected),
        "large",
        lambda: f"kernel of {kernel.size} weights: (sample, y, g, f) "
        + lib.difference(found, expected),
    )
