"""
All configurations within the stated number of deviations from a default one, for all groups and
subgroups. For each, the complete connectivity of the real layer (every input unit x output unit:
the states) is compared entry by entry (the transitions) with the one that the documented formula
gives: the kernel weight that connects input (x, h, c) with output (y, g, f). Then the shapes of
the weights, and the values for dense inputs, weights and biases under each activation, are
compared with those of the formula (the traces). Kernels with just more weights than small integer
types can count are compared on dense values.
"""

import numpy as np

from mc import conv, lib, ref
from mc.checks import c05

TECHNIQUE = (
    "explicit-state: complete connectivity of the real layer compared with the documented "
    "reference model, dense replays with bias and activation"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "without activation the layer is linear in its input and affine in its weights; validated by "
    "exact dense replays on each configuration",
    "integer values are exact in float32",
]

ACTIVATIONS = {
    "none": (None, lambda x: x),
    "relu": ("relu", lambda x: np.maximum(x, 0)),
    "square": (lambda x: x * x, lambda x: x * x),
    "shift": (lambda x: x + 1, lambda x: x + 1),
}


def cases(tier):
    result = []
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        order = len(ref.DOCUMENTED[group])
        dims = c05.geometries(dimensions, tier)
        dims["activation"] = list(ACTIVATIONS)
        if dimensions == 2:
            dims["kernel"] = [3, 2, 1, [3, 2], [2, 3], [1, 4], 4]
            dims["filters"] = [2, 1, 3, 4]
            dims["channels"] = [2, 1, 3]
        else:
            dims["kernel"] = [2, 3, 1, [2, 2, 3], [2, 3, 1]]
            dims["channels"] = [2, 1]
            dims["filters"] = [1, 2]
        bound = 1
        if tier == "thorough" or (group, sub) in (("P4M", "P4"), ("P2MM", "PMh"), ("P4", "P4")):
            bound = 2
        for case in lib.deviations(dims, bound):
            case.update(group=group, sub=sub)
            if case["channels"] % case["groups"] or case["filters"] % case["groups"]:
                case["channels"] = case["filters"] = 2
            strides = lib.as_tuple(case["stride"], dimensions)
            dilation = lib.as_tuple(case["dilation"], dimensions)
            if max(strides) > 1 and max(dilation) > 1:
                continue
            if not conv.fits(group, case["kernel"]):
                continue
            if not conv.fits(sub, case["stride"], case["dilation"]):
                continue
            if dimensions == 2:
                case["shapes"] = [(4, 4), (3, 5)] if tier == "quick" else [(4, 4), (3, 5), (6, 6)]
            elif order > 24 and case["on_group"]:
                case["kernel"] = 2 if case["kernel"] == 3 else case["kernel"]
                case["channels"] = case["groups"] if tier == "quick" else case["channels"]
                case["shapes"] = [(2, 2, 2)]
            else:
                case["shapes"] = [(2, 2, 2), (3, 3, 2)] if tier == "quick" else [
                    (2, 2, 2), (3, 3, 2), (3, 3, 3)
                ]
            result.append(case)
    result += conv.large_cases(False)
    return lib.unique(result)


def cost(case):
    return 10**9 if case.get("kind") == "large" else c05.cost(case)


def run(case, ctx):
    if case.get("kind") == "large":
        return conv.check_large(case, ctx)
    setup = conv.Setup(case)
    layer = conv.make_layer(case, activation=ACTIVATIONS[case["activation"]][0])
    # the model is extracted without activation, which is applied to its outputs below
    linear = layer if case["activation"] == "none" else conv.make_layer(case)
    rng = lib.generator(ctx.seed, case)
    explored = False
    for spatial in case["shapes"]:
        spatial = tuple(spatial)
        if not setup.window_fits(spatial):
            ctx.count("rejected_or_empty")
            continue
        explored = True
        model = lib.connectivity(
            linear, setup.layout, spatial, setup.order_in, case["channels"]
        )
        expected = lib.conv_reference(
            setup.table, setup.domain, setup.acting, spatial, setup.kernel, setup.strides,
            setup.dilation, setup.totals(spatial), case["channels"], case["filters"],
            groups=case["groups"],
        )
        ctx.states(model.size)
        ctx.transitions(expected.size)
        ctx.require(
            np.array_equal(model, expected),
            "formula",
            lambda: f"grid {spatial}: weights connecting (input unit, y, g, f): "
            + lib.difference(model, expected),
        )

        check_values(setup, layer, model, spatial, rng, ctx)
    if explored:
        ctx.outcome((case["group"], case["sub"], str(case["kernel"]), case["activation"]))


def check_values(setup, layer, model, spatial, rng, ctx):
    case = setup.case
    shape = lib.canonical_input(
        setup.layout, 3, spatial, setup.order_in, case["channels"]
    )
    inputs = lib.integers(rng, shape)
    inputs[0] = 0  # the contribution of the bias by itself
    signal = setup.layout.from_canonical(inputs)
    if not layer.built:
        layer.build(signal.shape)
    kernel_shape = setup.kernel + (
        setup.order_in * case["channels"] // case["groups"], case["filters"]
    )
    shapes = [kernel_shape] + ([(case["filters"],)] if case["bias"] else [])
    found = [tuple(w.shape) for w in layer.get_weights()]
    ctx.require(found == shapes, "weights", f"weights of shape {found}, expected {shapes}")
    trainable = [tuple(w.shape) for w in layer.trainable_weights]
    ctx.require(trainable == shapes, "trainable", f"trainable weights of shape {trainable}")

    values = [lib.integers(rng, s) for s in shapes]
    layer.set_weights(values)
    bias = values[1] if case["bias"] else None
    expected = lib.apply_connectivity(model, values[0], bias, inputs)
    expected = ACTIVATIONS[case["activation"]][1](expected)
    out = setup.out_layout.canonical(lib.call_padded(layer, signal, len(model)))
    ctx.traces(3)
    ctx.require(
        np.array_equal(out, expected),
        "values",
        lambda: f"grid {spatial}, dense inputs: (sample, y, g, f) " + lib.difference(out, expected),
    )
