"""
All layer kinds and configurations within the stated number of deviations from a default, for all
groups and subgroups, and every grid size up to a bound. For each, the shape of the real output is
compared with the shapes reported for a symbolic input (with known and unknown batch size), by
compute_output_shape before the layer is built, after it was built for this and for every other
size, for an unknown batch size and, where reported, for unknown grid sizes. Sizes that are rejected
symbolically must be rejected for real, and the other way round. States are the (configuration,
size) pairs, transitions the shapes compared, traces the real calls.
"""

import itertools

import numpy as np

from mc import conv, lib, ref

TECHNIQUE = (
    "exhaustive enumeration of configurations, sizes and pairs of sizes, symbolic shapes compared "
    "with those of the real outputs"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "sizes for which not a single window fits are left out",
    "transposed convolutions with 'same' padding have stride 1",
]


def cases(tier):
    deep = tier == "thorough"
    result = []
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        two = dimensions == 2
        order = len(ref.DOCUMENTED[group])
        some = deep or (group, sub) in (("P4M", "P2"),)
        common = {
            "format": ["channels_last", "channels_first"],
            "on_group": [True, False],
            "filters": [3, 1],
            "channels": [2, 1],
            "bias": [True, False],
        }
        if not some:
            # these have nothing to do with the group
            common.update(filters=[3], channels=[2], bias=[True])
        layer = {
            "padding": ["same_equiv", "valid_equiv", "same", "valid"],
            "allow": [False, True],
            "kernel": [3, 2, 1, [3, 2]] if two else [2, 3, [2, 2, 3]],
            "stride": [1, 2, 3] if two else [1, 2, [1, 1, 2]],
        }
        for case in lib.deviations({**layer, "dilation": [1, 2], "groups": [1, 2], **common},
                                   2 if some else 1):
            case.update(kind="Conv", group=group, sub=sub)
            if case["groups"] == 2:
                case["channels"] = case["filters"] = 2
            if case["dilation"] > 1 and case["stride"] != 1:
                continue
            result.append(case)
        for case in lib.deviations({**layer, **common}, 2 if some else 1):
            case.update(kind="Transpose", group=group, sub=sub, dilation=1, transpose=True)
            result.append(case)
        layer["stride"] = [None] + layer["stride"]
        layer["pool"] = layer.pop("kernel")
        for kind in ("Max", "Average"):
            for case in lib.deviations({**layer, "format": common["format"], "channels": [2, 1]},
                                       2 if some and kind == "Max" else 1):
                case.update(kind=kind, group=group, sub=sub, dimensions=dimensions)
                result.append(case)
        for case in result:
            if "top" not in case:
                case["top"] = (3 if two else 2) + some + (2 if deep else 0)
    kept = []
    for case in result:
        sizes = [case.get("kernel") or case.get("pool"), case["stride"] or 1]
        if not conv.fits(case["group"], *sizes):
            continue
        if case["kind"] == "Transpose":
            kernel = lib.as_tuple(sizes[0], ref.dimensions_of(case["group"]))
            strides = lib.as_tuple(sizes[1], ref.dimensions_of(case["group"]))
            if max(strides) > 1 and case["padding"].startswith("same"):
                continue
        kept.append(case)
    for kind, group, sub, pool, stride, padding, format in itertools.product(
        ("Max", "Average"), ("P2",), ("P1", "P2"), (1, 2, 3), (None, 1, 2, 3),
        ("same_equiv", "valid_equiv", "valid", "same"), ("channels_last", "channels_first"),
    ):
        kept.append(
            dict(kind=kind, group=group, sub=sub, pool=pool, stride=stride, padding=padding,
                 format=format, channels=2, dimensions=1, top=6, allow=False)
        )
    for kind, dimensions, format, keepdims in itertools.product(
        ("GlobalMax", "GlobalAverage"), (1, 2, 3), ("channels_last", "channels_first"),
        (False, True),
    ):
        kept.append(
            dict(kind=kind, dimensions=dimensions, format=format, keepdims=keepdims, order=4,
                 channels=2, top=3)
        )
    return lib.unique(kept)


def cost(case):
    return (len(ref.DOCUMENTED[case["group"]]) if "group" in case else 1) + 5


def make(case):
    if case["kind"].startswith("Global"):
        return lib.layer_class(f"GlobalGroup{case['kind'][6:]}Pooling{case['dimensions']}D")(
            keepdims=case["keepdims"], data_format=case["format"]
        )
    extra = {"allow_non_equivariance": True} if case["allow"] else {}
    if case["kind"] in ("Conv", "Transpose"):
        return conv.make_layer(case, **extra)
    from mc.checks import c08

    return c08.make_layer(case, **extra)


def order_in(case):
    if "order" in case:
        return case["order"]
    if case["kind"] in ("Conv", "Transpose") and not case["on_group"]:
        return None
    return len(ref.DOCUMENTED[case["sub" if case["kind"] == "Transpose" else "group"]])


def order_out(case):
    return len(ref.DOCUMENTED[case["group" if case["kind"] == "Transpose" else "sub"]])


def dimensions_of(case):
    return case.get("dimensions") or ref.dimensions_of(case["group"])


def window_fits(case, spatial):
    if case["kind"] == "Transpose" or case["kind"].startswith("Global"):
        return True
    dimensions = len(spatial)
    kernel = lib.as_tuple(case.get("kernel") or case["pool"], dimensions)
    strides = kernel if case["stride"] is None else lib.as_tuple(case["stride"], dimensions)
    same = case["padding"].startswith("same")
    for n, k, s in zip(spatial, kernel, strides):
        extent = (k - 1) * case.get("dilation", 1) + 1
        if n + ref.standard_total(n, extent, s, same) < extent:
            return False
    return True


def grids(case):
    dimensions, top = dimensions_of(case), case["top"]
    if dimensions == 1:
        return [(n,) for n in range(1, top + 1)]
    square = [(n,) * dimensions for n in range(1, top + 1)]
    # and some that have as many entries, in other directions
    other = [(2, 3), (3, 2)] if dimensions == 2 else [(1, 1, 2), (2, 1, 1)]
    return square + other


def attempt(function):
    """A shape, or None if rejected."""
    try:
        return tuple(function())
    except ValueError:
        return None


def run(case, ctx):
    import keras

    dimensions = dimensions_of(case)
    order = order_in(case)
    layout = lib.Layout(dimensions, case["format"], order is not None)
    real, built = {}, {}
    for spatial in grids(case):
        if not window_fits(case, spatial):
            ctx.count("left_out")
            continue
        shape = layout.shape(2, spatial, order, case["channels"])
        layer = make(case)
        real[spatial] = attempt(lambda: layer(np.zeros(shape, "float32")).shape)
        built[spatial] = layer
        ctx.states()
        ctx.traces()
        ctx.outcome((spatial, real[spatial]))

    def check(found, expected, what):
        ctx.transitions()
        ctx.require(
            found == expected,
            "shape",
            f"{what}: reported shape {found}, real output {expected}",
        )

    accepted = [shape for shape in real.values() if shape is not None]
    if accepted:
        shape = layout.shape(None, (None,) * dimensions, order, case["channels"])
        try:
            reported = make(case)(keras.Input(batch_shape=shape)).shape
        except Exception:
            ctx.count("unknown_grid_refused")  # Keras refuses some
        else:
            for actual in accepted:
                ctx.transitions()
                ctx.require(
                    len(reported) == len(actual)
                    and all(r is None or r == a for r, a in zip(reported, actual)),
                    "unknown grid",
                    f"reported {reported} for a grid of unknown size, real output {actual}",
                )

    for spatial, expected in real.items():
        shape = layout.shape(2, spatial, order, case["channels"])
        unknown = (None,) + shape[1:]
        expected_unknown = None if expected is None else (None,) + expected[1:]
        if expected is not None and not case["kind"].startswith("Global"):
            out_layout = lib.Layout(dimensions, case["format"], True)
            axis = out_layout.group_axis
            ctx.require(
                len(expected) == dimensions + 3 and expected[axis] == order_out(case),
                "group axis",
                f"{spatial}: output of shape {expected}, expected {order_out(case)} in axis {axis}",
            )
        check(
            attempt(lambda: make(case)(keras.Input(batch_shape=shape)).shape),
            expected, f"{spatial}, symbolic input",
        )
        check(
            attempt(lambda: make(case)(keras.Input(batch_shape=unknown)).shape),
            expected_unknown, f"{spatial}, symbolic input of unknown batch size",
        )
        check(
            attempt(lambda: make(case).compute_output_shape(shape)),
            expected, f"{spatial}, compute_output_shape before build",
        )
        check(
            attempt(lambda: make(case).compute_output_shape(unknown)),
            expected_unknown, f"{spatial}, compute_output_shape for unknown batch size",
        )
        for other, layer in built.items():
            if real[other] is None:
                continue
            check(
                attempt(lambda: layer.compute_output_shape(shape)),
                expected, f"{spatial}, compute_output_shape after use with {other}",
            )
        if expected is not None:
            check(
                attempt(lambda: built[spatial](keras.Input(batch_shape=unknown)).shape),
                expected_unknown, f"{spatial}, symbolic input after use",
            )
            some = next(layer for other, layer in built.items() if real[other] is not None)
            check(
                attempt(lambda: some(keras.Input(batch_shape=unknown)).shape),
                expected_unknown, f"{spatial}, symbolic input after use with another size",
            )
