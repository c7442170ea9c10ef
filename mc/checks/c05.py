"""
All configurations within the stated number of deviations from a default one, for all groups and
subgroups. For each, the complete connectivity of the real layer (every input unit x output unit,
by running it on all unit impulses with all weights distinct: the states) is compared with itself
moved by every element of the subgroup (the transitions). As the layer is linear in input and
weights this decides equivariance for all inputs and weights; dense replays on the real layer
validate that the extracted model is the layer.
"""

import itertools

import numpy as np

from mc import conv, lib, ref

TECHNIQUE = (
    "explicit-state: complete connectivity of the real layer extracted with all unit impulses, "
    "equivariance checked on every (input unit, output unit, group element), dense replays"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "without activation the layer is linear in its input and affine in its weights; validated by "
    "exact dense replays on each configuration",
    "integer values are exact in float32",
]


def geometries(dimensions, tier):
    if dimensions == 2:
        return {
            "padding": ["same_equiv", "valid_equiv"],
            "kernel": [3, 2, 1, 5, [3, 2], [1, 4]],
            "stride": [1, 2, 3, [2, 1]],
            "dilation": [1, 2, [1, 3]],
            "format": ["channels_last", "channels_first"],
            "on_group": [True, False],
            "channels": [2, 1],
            "filters": [2, 3],
            "groups": [1, 2],
            "bias": [True, False],
        }
    return {
        "padding": ["same_equiv", "valid_equiv"],
        "kernel": [2, 3, 1, [2, 2, 3], [3, 1, 2]],
        "stride": [1, 2, [1, 1, 2]],
        "dilation": [1, 2],
        "format": ["channels_last", "channels_first"],
        "on_group": [True, False],
        "channels": [1, 2],
        "filters": [1, 2],
        "groups": [1, 2],
        "bias": [True],
    }


def spatial_shapes(dimensions, tier, on_group, order):
    if dimensions == 2:
        shapes = [(5, 5), (4, 4), (2, 3)]
        return shapes if tier == "quick" else shapes + [(6, 6), (1, 4), (3, 3), (7, 5)]
    if order > 24 and on_group:
        return [(2, 2, 2)] if tier == "quick" else [(2, 2, 2), (3, 3, 3)]
    shapes = [(3, 3, 3), (2, 2, 3)]
    return shapes if tier == "quick" else shapes + [(4, 4, 4), (1, 3, 2)]


def configurations(tier, names=ref.NAMES, extra=None):
    result = []
    for group, sub in lib.pairs(names):
        dimensions = ref.dimensions_of(group)
        order = len(ref.DOCUMENTED[group])
        dims = geometries(dimensions, tier)
        if extra:
            dims.update(extra)
        if dimensions == 2:
            bound = 2 if group in ("P4M", "P2MM") and sub in (group, "P2", "PMh") else 1
        else:
            bound = 1
        if tier == "thorough":
            bound += 1
        for case in lib.deviations(dims, bound):
            case.update(group=group, sub=sub)
            if case["channels"] % case["groups"] or case["filters"] % case["groups"]:
                case["channels"] = case["filters"] = 2
            strides = lib.as_tuple(case["stride"], dimensions)
            dilation = lib.as_tuple(case["dilation"], dimensions)
            if max(strides) > 1 and max(dilation) > 1:
                continue
            # kernels must be kept by the whole group, or cannot be transformed at all
            if not conv.fits(group, case["kernel"]):
                continue
            if not conv.fits(sub, case["stride"], case["dilation"]):
                continue
            if dimensions == 3 and order > 24 and case["on_group"]:
                case["kernel"] = 2 if case["kernel"] == 3 else case["kernel"]
            case["shapes"] = spatial_shapes(dimensions, tier, case["on_group"], order)
            result.append(case)
    return lib.unique(result)


def cases(tier):
    return configurations(tier)


def cost(case):
    dimensions = ref.dimensions_of(case["group"])
    order = len(ref.DOCUMENTED[case["group"]]) if case["on_group"] else 1
    acting = len(ref.DOCUMENTED[case["sub"]])
    return 20000 + sum(
        (int(np.prod(shape)) * order * case["channels"])
        * (int(np.prod(shape)) * acting * case["filters"])
        for shape in case["shapes"]
    ) + dimensions * 10000


def run(case, ctx):
    setup = conv.Setup(case)
    layer = conv.make_layer(case)
    for spatial in case["shapes"]:
        spatial = tuple(spatial)
        if not setup.window_fits(spatial):
            ctx.count("rejected_or_empty")
            continue
        models = {}
        for shape in conv.all_shapes(setup, spatial):
            models[shape] = lib.connectivity(
                layer, setup.layout, shape, setup.order_in, case["channels"]
            )
            ctx.states(models[shape].size)
        conv.check_equivariance(setup, models, spatial, ctx, setup.sub_indices)
        conv.check_conformance(setup, layer, models[spatial], spatial, ctx)
        ctx.count("accepted")
    ctx.outcome((case["group"], case["sub"], case["padding"], str(case["stride"])))

