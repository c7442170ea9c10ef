"""
All configurations of transposed group convolutions within the stated number of deviations from a
default one (stride 1 with either padding, or valid padding with stride up to the kernel size), for
all groups and subgroups. For each, the complete connectivity of the real layer (every input unit x
output unit: the states) is compared with the documented formula (kernel weight connecting (x, h, c)
with (y, g, f), zero outside of the subgroup the input lives on), and with itself moved by every
element of the subgroup (the transitions), and predicts the real layer's values for dense inputs,
weights and biases (the traces). Every input size up to a bound is accepted with valid padding.
Kernels with just more weights than small integer types can count are compared on dense values.
"""

import itertools

import numpy as np

from mc import conv, lib, ref

TECHNIQUE = (
    "explicit-state: complete connectivity of the real layer compared with the documented "
    "reference model and with itself moved by every element, dense replays"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "without activation the layer is linear in its input and affine in its weights; validated by "
    "exact dense replays on each configuration",
    "integer values are exact in float32",
]


def geometries(dimensions):
    if dimensions == 2:
        return {
            "padding": ["valid_equiv", "same_equiv", "valid"],
            "kernel": [3, 2, 1, [3, 2], [2, 4], 4],
            "stride": [1, 2, 3, [2, 1], [1, 3]],
            "dilation": [1],
            "format": ["channels_last", "channels_first"],
            "on_group": [True, False],
            "channels": [2, 1, 3],
            "filters": [2, 1, 3],
            "bias": [True, False],
        }
    return {
        "padding": ["valid_equiv", "same_equiv", "valid"],
        "kernel": [2, 3, 1, [2, 2, 3], [2, 3, 1]],
        "stride": [1, 2, [1, 1, 2]],
        "dilation": [1],
        "format": ["channels_last", "channels_first"],
        "on_group": [True, False],
        "channels": [1, 2],
        "filters": [1, 2],
        "bias": [True],
    }


def in_regime(kernel, strides, padding):
    if max(strides) == 1:
        return True
    return padding.startswith("valid") and all(s <= k for s, k in zip(strides, kernel))


def cases(tier):
    result = []
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        order = len(ref.DOCUMENTED[group])
        bound = 1
        if tier == "thorough" or (group, sub) in (("P4", "P4"), ("P4M", "P2"), ("PMh", "P1")):
            bound = 2
        for case in lib.deviations(geometries(dimensions), bound):
            case.update(group=group, sub=sub, transpose=True)
            kernel = lib.as_tuple(case["kernel"], dimensions)
            strides = lib.as_tuple(case["stride"], dimensions)
            if not in_regime(kernel, strides, case["padding"]):
                continue
            if not conv.fits(group, case["kernel"]) or not conv.fits(sub, case["stride"]):
                continue
            if dimensions == 2:
                case["shapes"] = [(3, 3), (2, 4)] if tier == "quick" else [(3, 3), (2, 4), (5, 5)]
            elif order > 24 and case["on_group"]:
                case["kernel"] = 2 if case["kernel"] == 3 else case["kernel"]
                case["shapes"] = [(1, 1, 2), (2, 2, 2)]
                if len(ref.DOCUMENTED[sub]) > 16 and tier == "quick":
                    case["shapes"] = [(1, 1, 2)]
            else:
                case["shapes"] = [(2, 2, 2), (1, 3, 2)]
            result.append(case)
    for dimensions in (2, 3):
        top = (5 if dimensions == 2 else 3) if tier == "quick" else (8 if dimensions == 2 else 4)
        for kernel, stride, padding in itertools.product(
            range(1, 5), range(1, 5), ("valid", "valid_equiv")
        ):
            if stride <= kernel:
                result.append(
                    dict(
                        kind="sizes", group="P2" if dimensions == 2 else "D4", padding=padding,
                        sub="P2" if dimensions == 2 else "D4", transpose=True, top=top,
                        kernel=kernel, stride=stride, dilation=1, format="channels_last",
                        on_group=False, channels=1, filters=1, bias=True,
                    )
                )
    result += conv.large_cases(True)
    return lib.unique(result)


def cost(case):
    if case.get("kind"):
        return 10**6
    order = len(ref.DOCUMENTED[case["sub"]]) if case["on_group"] else 1
    acting = len(ref.DOCUMENTED[case["group"]])
    kernel = np.prod(lib.as_tuple(case["kernel"], ref.dimensions_of(case["group"])))
    return 20000 + sum(
        int(np.prod(shape)) ** 2 * order * acting * case["channels"] * case["filters"] * int(kernel)
        for shape in case["shapes"]
    )


def crops(setup):
    result = []
    for k, s in zip(setup.kernel, setup.strides):
        total = 0
        if setup.case["padding"].startswith("same"):
            total = k - 1 - (k - 1) % 2
        result.append((total // 2, total // 2))
    return result


def run(case, ctx):
    if case.get("kind") == "large":
        return conv.check_large(case, ctx)
    setup = conv.Setup(case)
    if case.get("kind") == "sizes":
        return run_sizes(setup, ctx)
    layer = conv.make_layer(case)
    # from a signal on the subgroup, to a signal on the whole group
    for spatial in case["shapes"]:
        spatial = tuple(spatial)
        models = {}
        for shape in conv.all_shapes(setup, spatial):
            models[shape] = lib.connectivity(
                layer, setup.layout, shape, setup.order_in, case["channels"]
            )
            ctx.states(models[shape].size)
            expected = lib.transposed_reference(
                setup.table, setup.domain, setup.acting, shape, setup.kernel, setup.strides,
                setup.dilation, crops(setup), case["channels"], case["filters"],
            )
            ctx.transitions(expected.size)
            ctx.require(
                np.array_equal(models[shape], expected),
                "formula",
                lambda: f"grid {shape}: weights connecting (input unit, y, g, f): "
                + lib.difference(models[shape], expected),
            )
        check_shapes(setup, layer, ctx)
        conv.check_equivariance(setup, models, spatial, ctx, setup.acting)
        conv.check_conformance(setup, layer, models[spatial], spatial, ctx)
        ctx.count("accepted")
    ctx.outcome((case["group"], case["sub"], str(case["kernel"]), str(case["stride"])))


def check_shapes(setup, layer, ctx):
    case = setup.case
    shapes = [setup.kernel + (case["filters"], setup.order_in * case["channels"])]
    if case["bias"]:
        shapes.append((case["filters"],))
    found = [tuple(w.shape) for w in layer.get_weights()]
    ctx.require(found == shapes, "weights", f"weights of shape {found}, expected {shapes}")


def run_sizes(setup, ctx):
    """With valid padding every size is accepted, and there is no padding beyond the kernel's."""
    case = setup.case
    layer = conv.make_layer(case)
    top = case["top"]
    for spatial in itertools.product(range(1, top + 1), repeat=setup.dimensions):
        if setup.dimensions == 3 and spatial[0] != spatial[1]:
            continue
        shape = setup.input_shape(1, spatial)
        out = setup.out_layout.canonical(lib.array(layer(np.ones(shape, "float32"))))
        expected = tuple(
            (n - 1) * s + k for n, s, k in zip(spatial, setup.strides, setup.kernel)
        )
        ctx.states()
        ctx.transitions()
        ctx.require(
            out.shape[1:-2] == expected,
            "sizes",
            f"output grid {out.shape[1:-2]} for input grid {spatial}, expected {expected}",
        )
        ctx.count("sizes")
