"""
All networks that start with a lifting convolution with one of the groups to any of its subgroups,
followed by up to the stated number of layers, each a convolution or a maximum or average pooling to
any subgroup of the group reached, or a transposed convolution from the group reached to any group
that contains it. Each network is run on all unit impulses and on dense signals, each of these
transformed by every symmetry that all of its layers keep (those of the last group, unless a
transposed convolution went back to a larger one), and the outputs must be the transformed outputs,
with elements numbered as by the last group itself; after global pooling they must be unchanged. States are the networks (and their prefixes), transitions the
pairs of inputs and elements compared, traces the networks run.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "exhaustive enumeration of networks up to a bound, run on all unit impulses and dense signals "
    "transformed by every symmetry that the network keeps"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "each layer by itself is equivariant for all inputs (C05, C07, C08), so that a network that is "
    "not so shows on dense signals; grids for which a layer raises ValueError are left out",
]


def steps(group):
    """All layers for a signal on this group: (kind, group, subgroup)."""
    result = []
    for sub in ref.contained(group):
        result += [("conv", group, sub), ("max", group, sub), ("average", group, sub)]
    for larger in ref.WALLPAPER if ref.dimensions_of(group) == 2 else ref.SPACE:
        if group in ref.contained(larger):
            result.append(("transposed", larger, group))
    return result


def reached(step):
    """The group that the output of a layer lives on."""
    kind, group, sub = step
    return group if kind == "transposed" else sub


def symmetries(layers):
    """All symmetries that every layer keeps."""
    return set.intersection(*(set(ref.DOCUMENTED[sub]) for _, _, sub in layers))


def cases(tier):
    deep = tier == "thorough"
    result = []

    def extend(layers, group, more):
        result.append(layers)
        # nothing is claimed once no symmetry is left
        if more and len(symmetries(layers)) > 1:
            for step in steps(group):
                extend(layers + [step], reached(step), more - 1)

    for group in ref.WALLPAPER:
        for sub in ref.contained(group):
            more = 2 if deep or group in ("P4", "P2MM", "PMh") or sub in ("P4", "PMw") else 1
            if deep and len(ref.DOCUMENTED[sub]) <= 4:
                more = 3
            extend([("lift", group, sub)], sub, more)
    for group in ref.SPACE:
        for sub in ref.contained(group):
            small = group in ("D4", "D4h")
            extend([("lift", group, sub)], sub, 2 if deep and small else 1)
    return [
        dict(layers=layers, format=format)
        for layers in result
        for format in (
            ("channels_last", "channels_first")
            if deep or layers[0][1] in ("P4", "D4")
            else ("channels_last",)
        )
    ]


def cost(case):
    dimensions = ref.dimensions_of(case["layers"][0][1])
    return (1 if dimensions == 2 else 4) + len(case["layers"]) + sum(
        len(ref.DOCUMENTED[s[1]]) * len(ref.DOCUMENTED[s[2]]) / 200 for s in case["layers"]
    )


def affinity(case):
    return tuple(map(tuple, case["layers"][:2])) + (case["format"],)


def make(step, format):
    kind, group, sub = step
    dimensions = ref.dimensions_of(group)
    kwargs = dict(group=group, data_format=format)
    if sub != group:
        kwargs["subgroup"] = sub
    if kind in ("conv", "lift"):
        kwargs.update(filters=2 if dimensions == 2 else 1, padding="same_equiv")
        kwargs.update(kernel_size=3 if kind == "conv" and dimensions == 2 else 2)
        if kind == "lift":
            kwargs["activation"] = "relu"
        return lib.layer_class(f"GroupConv{dimensions}D")(**kwargs)
    if kind == "transposed":
        kwargs.update(filters=1, kernel_size=2, strides=2)
        return lib.layer_class(f"GroupConv{dimensions}DTranspose")(**kwargs)
    if kind == "max":
        # the lifting convolution changes odd sizes to even ones, and the other way round
        kwargs.update(pool_size=3, strides=2, padding="same_equiv")
    else:
        kwargs.update(pool_size=2, strides=1, padding="valid_equiv")
    return lib.layer_class(f"Group{kind.capitalize()}Pooling{dimensions}D")(**kwargs)


def run(case, ctx):
    import keras

    layers, format = [tuple(s) for s in case["layers"]], case["format"]
    group, last = layers[0][1], reached(layers[-1])
    dimensions = ref.dimensions_of(group)
    table = lib.tables(last)
    kept = [g for g in range(table.order) if table.elements[g] in symmetries(layers)]
    size, channels = (4, 2) if dimensions == 2 else (2, 1)
    layout = lib.Layout(dimensions, format, False)
    impulses = lib.one_hot_batch(layout, (size,) * dimensions, None, channels)
    rng = lib.generator(ctx.seed, case)
    dense = lib.integers(rng, (3,) + impulses.shape[1:])
    samples = np.concatenate([impulses, dense])
    inputs = np.concatenate(
        [ref.act_on_grid(table.elements[g], samples, layout.spatial_axes) for g in kept]
    )
    network = [make(step, format) for step in layers]
    outputs = inputs
    try:
        for layer in network:
            if not layer.built:
                layer.build(outputs.shape)
                layer.set_weights([lib.integers(rng, w.shape, 1) for w in layer.get_weights()])
            outputs = lib.array(layer(outputs))
    except ValueError:
        ctx.count("left_out")
        return
    ctx.states(len(layers))
    ctx.traces()
    out_layout = lib.Layout(dimensions, format, True)
    ctx.require(
        outputs.shape[out_layout.group_axis] == table.order,
        "order",
        f"output of shape {outputs.shape} has no group axis of {last}",
    )
    copies = outputs.reshape((len(kept), len(samples)) + outputs.shape[1:])
    tolerance = 1e-5 * max(1.0, float(np.abs(copies).max()))
    untransformed = copies[kept.index(identity(table))]
    for g, copy in zip(kept, copies):
        expected = ref.act_on_group(
            table, g, untransformed, out_layout.spatial_axes, out_layout.group_axis
        )
        ctx.transitions(len(samples))
        ctx.require(
            np.allclose(copy, expected, rtol=1e-4, atol=tolerance),
            "equivariance",
            lambda: f"not equivariant under element {g} of {last}: "
            + lib.difference(copy, expected),
        )
    for kind in ("Max", "Average"):
        pooling = lib.layer_class(f"GlobalGroup{kind}Pooling{dimensions}D")(data_format=format)
        pooled = lib.array(pooling(outputs)).reshape(len(kept), len(samples), -1)
        ctx.require(
            np.allclose(pooled, pooled[:1], rtol=1e-4, atol=tolerance),
            "invariance",
            lambda: f"not invariant under {last} after global pooling: "
            + lib.difference(pooled, np.broadcast_to(pooled[:1], pooled.shape)),
        )
    ctx.outcome((str(outputs.shape), bool(np.abs(copies).max() > 0)))
    if len(kept) > 1:
        ctx.count("networks_not_trivial", np.abs(copies - copies[:1]).max() > 0)
        ctx.count("networks_with_symmetry")


def identity(table):
    return table.index[ref.key(np.eye(int(round(len(table.elements[0]) ** 0.5)), dtype=int))]
