"""
All configurations of group max and average pooling: every (size, pool size, stride or default,
padding) up to a bound for some groups, and all within the stated number of deviations from a
default for all groups and subgroups, in 1D, 2D and 3D. For each, the complete response of the real
layer to all unit impulses (input unit x output unit: the states) gives which inputs every output
aggregates. These are compared with window x coset wherever the window lies in the input, required
not to mix channels, and compared with themselves moved by every element of the subgroup (the
transitions). Dense replays (the traces) validate that the real layer is the maximum/mean of these.
"""

import itertools

import numpy as np

from mc import conv, lib, ref

TECHNIQUE = (
    "explicit-state: complete impulse response of the real layer compared with the reference "
    "model and with itself moved by every element, dense replays"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "max pooling is a maximum over a set of entries per output, average pooling linear; validated "
    "by dense replays on each configuration",
    "in 1D, where the groups do not act on the grid, equivariance is that under reversal",
]


def config(kind, dimensions, group, sub, pool, stride, padding, shapes, format="channels_last",
           channels=2):
    return dict(
        kind=kind, dimensions=dimensions, group=group, sub=sub, pool=pool, stride=stride,
        padding=padding, shapes=shapes, format=format, channels=channels,
    )


def cases(tier):
    result = []
    kinds, paddings = ("max", "average"), ("valid_equiv", "same_equiv")
    deep = tier == "thorough"
    # all sizes
    sizes = range(1, 10 if deep else 7)
    for kind, padding, pool, stride in itertools.product(
        kinds, paddings, range(1, 6 if deep else 5), [None, 1, 2, 3] + ([4] if deep else [])
    ):
        for group, sub in [("P2", "P2")]:
            result.append(
                config(kind, 1, group, sub, pool, stride, padding, [(n,) for n in sizes])
            )
        some = [("P4M", "P4"), ("PMh", "PMh")] if deep else [("P4", "P4")]
        for group, sub in some:
            result.append(
                config(kind, 2, group, sub, pool, stride, padding, [(n, n) for n in sizes],
                       channels=1)
            )
    # all groups
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        big = len(ref.DOCUMENTED[group]) > 16
        if dimensions == 2:
            shapes = [(4, 4), (5, 5), (2, 3)]
            dims = {
                "kind": ["max", "average"],
                "pool": [2, 3, [2, 3], [3, 1]],
                "stride": [None, 1, 2, 3, [1, 2]],
                "padding": ["same_equiv", "valid_equiv"],
                "format": ["channels_last", "channels_first"],
                "channels": [2, 1],
            }
        else:
            shapes = [(2, 2, 2), (3, 3, 3)] if big else [(2, 2, 3), (3, 3, 3)]
            dims = {
                "kind": ["max", "average"],
                "pool": [2, 3, [2, 2, 1]],
                "stride": [None, 1, 3, [1, 1, 2]],
                "padding": ["same_equiv", "valid_equiv"],
                "format": ["channels_last", "channels_first"],
                "channels": [2],
            }
            if big:
                # the number of impulses is what this costs
                dims["channels"] = [1, 2]
                shapes = [(2, 2, 2)] if not deep else shapes
        bound = 2 if deep or (dimensions == 2 and (group, sub) in (("P4M", "P2MM"), ("PMh", "P1"))) else 1
        for case in lib.deviations(dims, bound):
            if not conv.fits(sub, case["pool"]):
                continue
            if case["stride"] is not None and not conv.fits(sub, case["stride"]):
                continue
            result.append(
                config(case["kind"], dimensions, group, sub, case["pool"], case["stride"],
                       case["padding"], shapes, case["format"], case["channels"])
            )
    # groups with one dimension have no action of their own on the grid, but have cosets
    for kind in kinds:
        for group, sub in [("P2", "P1"), ("PMh", "P1"), ("P4M", "P2"), ("P4", "P4")]:
            for format in ("channels_last", "channels_first"):
                result.append(
                    config(kind, 1, group, sub, 2, 1, "same_equiv", [(4,), (5,)], format)
                )
    return lib.unique(result)


def cost(case):
    order = len(ref.DOCUMENTED[case["group"]])
    return sum(
        40000 + (int(np.prod(shape)) * order * case["channels"]) ** 2 for shape in case["shapes"]
    )


def make_layer(case, **extra):
    name = "Max" if case["kind"] == "max" else "Average"
    kwargs = dict(
        group=case["group"], pool_size=case["pool"], padding=case["padding"],
        data_format=case["format"],
    )
    if case["sub"] != case["group"]:
        kwargs["subgroup"] = case["sub"]
    if case["stride"] is not None:
        kwargs["strides"] = case["stride"]
    kwargs.update(extra)
    return lib.layer_class(f"Group{name}Pooling{case['dimensions']}D")(**kwargs)


class Setup:
    def __init__(self, case):
        self.case = case
        self.dimensions = case["dimensions"]
        self.table = lib.tables(case["group"])
        self.acting = lib.subgroup_indices(case["group"], case["sub"])
        self.cosets = lib.coset_indices(case["group"], case["sub"])
        self.layout = lib.Layout(self.dimensions, case["format"], True)
        self.pool = lib.as_tuple(case["pool"], self.dimensions)
        self.strides = (
            self.pool
            if case["stride"] is None
            else lib.as_tuple(case["stride"], self.dimensions)
        )

    def totals(self, spatial):
        totals = []
        for n, k, s in zip(spatial, self.pool, self.strides):
            accepted, total = lib.expected_total(
                n, k, s, 1, self.case["padding"], self.case.get("allow", False)
            )
            if not accepted or n + total < k:
                return None
            totals.append(total)
        return totals

    def units(self, spatial):
        return int(np.prod(spatial)) * self.table.order * self.case["channels"]


def impulse_response(setup, layer, spatial, ctx):
    """
    Returns (response, padded): response[input unit, output] is the weight (average) or membership
    (max) of the input in the output; padded[output] is whether zeros count too (max).
    """
    case = setup.case
    inputs = lib.one_hot_batch(setup.layout, spatial, setup.table.order, case["channels"])
    constant = np.full((1,) + inputs.shape[1:], -2, inputs.dtype)
    outputs = lib.call_in_batches(layer, np.concatenate([inputs, constant]))
    outputs = setup.layout.canonical(outputs)
    response, constant = outputs[:-1], outputs[-1]
    if case["kind"] == "max":
        ctx.require(
            np.isin(response, (0, 1)).all() and np.isin(constant, (-2, 0)).all(),
            "maximum",
            "the response to impulses of 1 on 0 is not a maximum over them",
        )
    return response, constant == 0


def check_formula(setup, response, padded, spatial, totals, ctx):
    case = setup.case
    order, channels = setup.table.order, case["channels"]
    numbers = np.arange(setup.units(spatial)).reshape(tuple(spatial) + (order, channels))
    out_spatial = tuple(
        (n + t - k) // s + 1 for n, t, k, s in zip(spatial, totals, setup.pool, setup.strides)
    )
    expected_shape = (len(numbers.reshape(-1)),) + out_spatial + (len(setup.acting), channels)
    ctx.require(
        response.shape == expected_shape,
        "shape",
        f"outputs of (canonical) shape {response.shape}, expected {expected_shape}",
    )
    # no mixing of channels
    mixed = response.reshape(-1, channels, *response.shape[1:])
    for i, j in itertools.product(range(channels), repeat=2):
        ctx.require(
            i == j or not mixed[:, i, ..., j].any(),
            "channels",
            f"output channel {j} depends on input channel {i}",
        )
    inside = 0
    for y in itertools.product(*[range(n) for n in out_spatial]):
        starts = [s * yi - t // 2 for s, yi, t in zip(setup.strides, y, totals)]
        if any(x < 0 or x + k > n for x, k, n in zip(starts, setup.pool, spatial)):
            continue
        inside += 1
        window = numbers[tuple(slice(x, x + k) for x, k in zip(starts, setup.pool))]
        for i, h in enumerate(setup.acting):
            elements = [int(setup.table.composition[h, c]) for c in setup.cosets]
            for channel in range(channels):
                chosen = window[..., elements, channel].reshape(-1)
                weight = 1.0 if case["kind"] == "max" else 1 / len(chosen)
                expected = np.zeros(len(response))
                expected[chosen] = weight
                actual = response[(slice(None),) + y + (i, channel)]
                ctx.transitions(len(expected))
                ctx.require(
                    np.allclose(actual, expected, rtol=1e-5, atol=1e-7)
                    and not (case["kind"] == "max" and padded[y + (i, channel)]),
                    "formula",
                    lambda: f"grid {spatial}, output at {y}, element {i}, channel {channel}: "
                    f"aggregates inputs {np.flatnonzero(actual).tolist()} with weights "
                    f"{sorted(set(actual[actual != 0].tolist()))}, expected {sorted(chosen.tolist())}",
                )
    ctx.count("inner_windows", inside)


def check_equivariance(setup, responses, spatial, ctx):
    case = setup.case
    response, padded = responses[spatial]
    out_spatial = response.shape[1 : 1 + setup.dimensions]
    flat = response.reshape(len(response), -1)
    if setup.dimensions == 1:
        reverse = np.arange(len(response)).reshape(spatial[0], -1)[::-1].reshape(-1)
        outputs = np.arange(flat.shape[1]).reshape(out_spatial[0], -1)[::-1].reshape(-1)
        moves = [("reversal", reverse, outputs, spatial)]
    else:
        everything = list(range(setup.table.order))
        moves = []
        for g in setup.acting:
            element = setup.table.elements[g]
            moves.append(
                (
                    f"element {g} of {case['group']}",
                    lib.permutation_on_units(
                        setup.table, g, spatial, everything, case["channels"]
                    ),
                    lib.permutation_on_units(
                        setup.table, g, out_spatial, setup.acting, case["channels"]
                    ),
                    ref.moved_shape(element, spatial),
                )
            )
    for name, moved_in, moved_out, target in moves:
        actual, actual_padded = responses[target]
        expected = flat[moved_in][:, moved_out]
        actual = actual.reshape(len(actual), -1)
        ctx.transitions(actual.size)
        ctx.require(
            np.allclose(actual, expected, rtol=1e-5, atol=1e-7),
            "equivariance",
            lambda: f"not equivariant under {name} for input grid {spatial}: which inputs "
            "(input unit, output unit) count " + lib.difference(actual, expected),
        )
        if case["kind"] == "max":
            ctx.require(
                np.array_equal(actual_padded.reshape(-1), padded.reshape(-1)[moved_out]),
                "equivariance",
                f"not equivariant under {name} for input grid {spatial}: which outputs count zeros",
            )


def check_conformance(setup, layer, response, padded, spatial, ctx):
    case = setup.case
    rng = lib.generator(ctx.seed, [case, list(spatial)])
    maximum = case["kind"] == "max"
    samples = 6 if maximum else 4
    shape = (samples,) + tuple(spatial) + (setup.table.order, case["channels"])
    inputs = lib.integers(rng, shape, 9)
    inputs[0] = -np.abs(inputs[0]) - 1
    if maximum:
        # any value is a value
        inputs[4] = -1e30 * np.abs(inputs[4]) - 1
        inputs[5] = np.where(inputs[5] < 6, -np.inf, inputs[5])
    outputs = lib.call_padded(layer, setup.layout.from_canonical(inputs), len(response) + 1)
    found = setup.layout.canonical(outputs)
    flat = inputs.reshape(samples, -1)
    matrix = response.reshape(len(response), -1)
    if maximum:
        expected = np.stack(
            [
                np.max(np.where(matrix > 0, sample[:, None], -np.inf), axis=0)
                for sample in flat
            ]
        ).reshape(found.shape)
        expected = np.where(padded[None], np.maximum(expected, 0), expected)
    else:
        expected = (flat.astype(float) @ matrix.astype(float)).reshape(found.shape)
    ctx.traces(samples)
    ctx.require(
        np.allclose(found, expected, rtol=1e-4, atol=1e-5),
        "conformance",
        lambda: f"grid {spatial}, dense inputs: real layer and {case['kind']} over the inputs it "
        "depends on differ, " + lib.difference(found, expected),
    )


def run(case, ctx):
    setup = Setup(case)
    layer = make_layer(case)
    for spatial in case["shapes"]:
        spatial = tuple(spatial)
        totals = setup.totals(spatial)
        if totals is None:
            ctx.count("rejected_or_empty")
            continue
        shapes = [spatial]
        if setup.dimensions > 1:
            shapes = sorted(
                {ref.moved_shape(setup.table.elements[g], spatial) for g in setup.acting}
            )
        responses = {}
        for shape in shapes:
            responses[shape] = impulse_response(setup, layer, shape, ctx)
            ctx.states(responses[shape][0].size)
        response, padded = responses[spatial]
        check_formula(setup, response, padded, spatial, totals, ctx)
        check_equivariance(setup, responses, spatial, ctx)
        check_conformance(setup, layer, response, padded, spatial, ctx)
        ctx.count("accepted")
        ctx.outcome((case["group"], case["sub"], spatial, tuple(totals)))
