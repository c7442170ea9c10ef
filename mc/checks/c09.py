"""
All global group pooling layers (maximum and average, 1D to 3D), all group orders of the named
groups, all grid shapes up to a bound, both data formats, with and without keepdims. For each, the
response of the real layer to all unit impulses (input unit x output unit: the states) is compared
with the aggregate over all grid positions and group elements, and with itself moved by every
element of every group of that order (the transitions). Dense replays (the traces) validate that
the real layer is the maximum/mean of these.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "explicit-state: complete impulse response of the real layer compared with the aggregate over "
    "everything and with itself moved by every element, dense replays"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "max pooling is a maximum over a set of entries, average pooling linear; validated by dense "
    "replays on each configuration",
]


def cases(tier):
    deep = tier == "thorough"
    result = []
    for kind, dimensions, format, keepdims in itertools.product(
        ("Max", "Average"), (1, 2, 3), ("channels_last", "channels_first"), (None, False, True)
    ):
        if dimensions == 1:
            shapes = [(n,) for n in range(1, 9 if deep else 6)]
        elif dimensions == 2:
            shapes = list(itertools.product(range(1, 6 if deep else 4), repeat=2))
        else:
            shapes = list(itertools.product(range(1, 4 if deep else 3), repeat=3))
        for order in (1, 2, 3, 4, 8) + ((16, 24, 48) if dimensions == 3 else ()):
            if order > 8 and not deep:
                shapes = shapes[-2:]
            for channels in ((2, 1, 3) if deep else (2, 1)) if order < 8 else (2,):
                result.append(
                    dict(kind=kind, dimensions=dimensions, format=format, keepdims=keepdims,
                         order=order, channels=channels, shapes=shapes)
                )
    return result


def cost(case):
    return sum((np.prod(s) * case["order"] * case["channels"]) ** 2 + 30000 for s in case["shapes"])


def run(case, ctx):
    dimensions, order, channels = case["dimensions"], case["order"], case["channels"]
    layout = lib.Layout(dimensions, case["format"], True)
    kwargs = {"data_format": case["format"]}
    if case["keepdims"] is not None:
        kwargs["keepdims"] = case["keepdims"]
    layer = lib.layer_class(f"GlobalGroup{case['kind']}Pooling{dimensions}D")(**kwargs)
    maximum = case["kind"] == "Max"
    groups = [
        name
        for name in ref.NAMES
        if ref.dimensions_of(name) == dimensions and len(ref.DOCUMENTED[name]) == order
    ]
    for spatial in case["shapes"]:
        spatial = tuple(spatial)
        inputs = lib.one_hot_batch(layout, spatial, order, channels)
        size = int(np.prod(spatial)) * order
        units = size * channels
        if maximum:
            # two levels, so that zeros that do not come from the input are noticed
            inputs = inputs - 2
        rng = lib.generator(ctx.seed, [case, list(spatial)])
        dense = lib.integers(rng, inputs.shape[1:], 9)[None]
        dense = np.concatenate([dense, -np.abs(dense) - 1])
        if maximum:
            # any value is a value
            extreme = np.where(dense[:1] < 6, -np.inf, dense[:1])
            dense = np.concatenate([dense, -1e30 * np.abs(dense[:1]) - 1, extreme])
            dense = dense.astype(inputs.dtype)
        replays = len(dense)
        outputs = lib.call_in_batches(layer, np.concatenate([inputs, dense]))
        expected_shape = (units + replays, channels)
        if case["keepdims"]:
            expected_shape = layout.shape(units + replays, (1,) * dimensions, 1, channels)
        ctx.require(
            outputs.shape == expected_shape,
            "shape",
            f"output of shape {outputs.shape}, expected {expected_shape}",
        )
        outputs = outputs.reshape(-1, channels)
        response = outputs[:units]
        expected = np.tile(np.eye(channels), (size, 1)) / (1 if maximum else size)
        expected = expected - 2 if maximum else expected
        ctx.states(response.size)
        ctx.transitions(response.size)
        ctx.require(
            np.allclose(response, expected, rtol=1e-5, atol=1e-7),
            "response",
            lambda: f"grid {spatial}: response to impulse (input unit, channel): "
            + lib.difference(response, expected),
        )
        canonical = layout.canonical(dense).reshape(replays, size, channels)
        aggregate = canonical.max(axis=1) if maximum else canonical.mean(axis=1)
        ctx.traces(replays)
        ctx.require(
            np.allclose(outputs[units:], aggregate, rtol=1e-4, atol=1e-5),
            "conformance",
            lambda: f"grid {spatial}, dense inputs: " + lib.difference(outputs[units:], aggregate),
        )
        for name in groups:
            table = lib.tables(name)
            for g in range(table.order):
                if not ref.keeps_shape(table.elements[g], spatial):
                    continue
                moved = lib.permutation_on_units(table, g, spatial, list(range(order)), channels)
                ctx.transitions(response.size)
                ctx.require(
                    np.allclose(response[moved], response, rtol=1e-6, atol=1e-7),
                    "invariance",
                    f"grid {spatial}: changes when the input is transformed by {g} of {name}",
                )
        ctx.outcome((order, spatial))
