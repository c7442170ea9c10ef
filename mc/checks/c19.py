"""
For a range of layers of every kind, all combinations of the spellings of its arguments: the group
as name or object, the subgroup left out, as '', None or by name, sizes as int, tuple or list, the
padding in several letter cases or (where it is the default) left out. Each of these layers must
give the outputs of the first one, on the same weights and inputs. The ready-made constructors are
compared with the general ones for their group. For all configurations within the stated number of
deviations from a default one, for all groups, subgroups and kinds, the layers with data format
channels_first and channels_last are compared on all unit impulses and on dense inputs. States are
the layers, transitions the comparisons, traces the samples.
"""

import itertools

import numpy as np

from mc import conv, lib, ref
from mc.checks import c07

TECHNIQUE = (
    "exhaustive enumeration of spellings and data formats, comparing the real layers on dense "
    "inputs and all unit impulses"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "two layers that agree on dense integer inputs and weights (and all unit impulses, for data "
    "formats) are the same function",
]

PARTIALS = {
    "P4MConv2D": "P4M", "P4Conv2D": "P4", "P2MMConv2D": "P2MM", "PMhConv2D": "PMh",
    "PMwConv2D": "PMw", "P2Conv2D": "P2", "P1Conv2D": "P1", "OhConv3D": "Oh", "OConv3D": "O",
    "D4hConv3D": "D4h", "D4Conv3D": "D4",
}


def cases(tier):
    deep = tier == "thorough"
    result = []
    # spellings
    for group, sub in [
        ("P4M", "P4"), ("P4", "P4"), ("P2MM", "PMh"), ("PMw", "PMw"), ("D4h", "D4"), ("D4", "D4"),
    ] + ([("Oh", "O"), ("O", "O"), ("P4M", "P1"), ("P1", "P1"), ("P2", "P2")] if deep else []):
        dimensions = ref.dimensions_of(group)
        for padding, class_name in itertools.product(
            ("valid_equiv", "same_equiv", "valid", "same"),
            (
                f"GroupConv{dimensions}D", f"GroupConv{dimensions}DTranspose",
                f"GroupMaxPooling{dimensions}D", f"GroupAveragePooling{dimensions}D",
            ),
        ):
            if "Transpose" in class_name and padding == "same":
                continue
            for on_group in (True, False) if "Conv" in class_name else (True,):
                for stride in (1, 2):
                    if "Transpose" in class_name and stride == 2 and "same" in padding:
                        continue
                    if not deep and stride == 2 and not padding.endswith("_equiv"):
                        continue
                    if not deep and dimensions == 3 and not (on_group or stride == 2):
                        continue
                    result.append(
                        dict(
                            kind="spelling", layer=class_name, group=group, sub=sub,
                            padding=padding, on_group=on_group, stride=stride,
                        )
                    )
    for padding, name in itertools.product(
        ("valid_equiv", "same_equiv", "valid", "same"), ("GroupMaxPooling1D", "GroupAveragePooling1D")
    ):
        for stride in (1, 2):
            result.append(
                dict(kind="spelling", layer=name, group="P4", sub="P2", padding=padding,
                     on_group=True, stride=stride)
            )
    for name in PARTIALS:
        for sub in ref.contained(PARTIALS[name]):
            for on_group in (True, False):
                result.append(dict(kind="partial", layer=name, sub=sub, on_group=on_group))

    # data formats
    for group, sub in lib.pairs():
        dimensions = ref.dimensions_of(group)
        order = len(ref.DOCUMENTED[group])
        dims = {
            "padding": ["same_equiv", "valid_equiv"],
            "kernel": [2, 3, [2, 3] if dimensions == 2 else [2, 2, 3]],
            "stride": [1, 2, [1, 2] if dimensions == 2 else [1, 1, 2]],
            "dilation": [1, 2],
            "on_group": [True, False],
            "channels": [2, 1],
            "filters": [2, 3],
            "groups": [1, 2],
            "bias": [True, False],
        }
        if order > 16:
            dims["channels"], dims["filters"] = [1, 2], [1]
        if not deep and sub != group and group not in ("P4", "PMh", "D4"):
            # the bookkeeping of axes that differs is that of the group, not of the subgroup
            dims = {k: v if k in ("on_group", "padding") else v[:1] for k, v in dims.items()}
        for transpose in (False, True):
            for case in lib.deviations(dims, 2 if deep else 1):
                case.update(group=group, sub=sub, transpose=transpose)
                if case["groups"] == 2:
                    case["channels"] = case["filters"] = 2
                kernel = lib.as_tuple(case["kernel"], dimensions)
                strides = lib.as_tuple(case["stride"], dimensions)
                if transpose:
                    if case["dilation"] != 1 or case["groups"] != 1:
                        continue
                    if max(strides) > 1:
                        case["padding"] = "valid_equiv"
                    if not c07.in_regime(kernel, strides, case["padding"]):
                        continue
                if max(strides) > 1 and case["dilation"] != 1:
                    continue
                if not conv.fits(group, case["kernel"]):
                    continue
                if not conv.fits(sub, case["stride"], case["dilation"]):
                    continue
                result.append(dict(kind="format", layer="conv", **case))
        for pool in ("Max", "Average"):
            for case in lib.deviations(
                {
                    "padding": dims["padding"], "size": dims["kernel"],
                    "stride": [None] + dims["stride"], "channels": [2, 1],
                },
                2 if deep else 1,
            ):
                if not conv.fits(sub, case["size"]) or not conv.fits(sub, case["stride"] or 1):
                    continue
                result.append(
                    dict(kind="format", layer="pool", pool=pool, group=group, sub=sub,
                         dimensions=dimensions, **case)
                )
    for pool, dimensions, keepdims, order in itertools.product(
        ("Max", "Average"), (1, 2, 3), (False, True), (1, 2, 8)
    ):
        result.append(
            dict(kind="format", layer="global", pool=pool, dimensions=dimensions,
                 keepdims=keepdims, order=order)
        )
    for pool, padding, stride in itertools.product(
        ("Max", "Average"), ("same_equiv", "valid_equiv"), (None, 1, 2)
    ):
        result.append(
            dict(kind="format", layer="pool", pool=pool, group="P4", sub="P2", dimensions=1,
                 padding=padding, size=2, stride=stride, channels=2)
        )
    return lib.unique(result)


def cost(case):
    order = len(ref.DOCUMENTED[case["group"]]) if "group" in case else 8
    if case["kind"] == "spelling":
        return 3000 * (1 + order / 8)
    return 10 + order**2 / 20


def run(case, ctx):
    {"spelling": run_spelling, "partial": run_partial, "format": run_format}[case["kind"]](case, ctx)


def outcome_of(make, inputs, weights):
    """The outputs and shapes of the weights, or the exception raised."""
    try:
        layer = make()
        out = lib.array(layer(inputs))
        shapes = [w.shape for w in layer.get_weights()]
        if shapes:
            if weights is None or [w.shape for w in weights] != shapes:
                weights = [
                    np.random.default_rng([3, i]).integers(-3, 4, size=s).astype("float32")
                    for i, s in enumerate(shapes)
                ]
            layer.set_weights(weights)
            out = lib.array(layer(inputs))
        return out, shapes, weights
    except (ValueError, AssertionError) as e:
        return type(e).__name__, [], None


def compare(found, expected, what, ctx):
    ctx.transitions()
    ctx.require(
        isinstance(found[0], str) == isinstance(expected[0], str),
        "accepted",
        lambda: f"{what}: {describe(found[0])}, but {describe(expected[0])} as first spelled",
    )
    if isinstance(found[0], str):
        ctx.outcome("rejected")
        return
    ctx.require(
        found[1] == expected[1],
        "weights",
        f"{what}: weights of shapes {found[1]}, expected {expected[1]}",
    )
    ctx.require(
        found[0].shape == expected[0].shape and np.allclose(found[0], expected[0], rtol=1e-5, atol=1e-5),
        "outputs",
        lambda: f"{what}: " + lib.difference(found[0], expected[0]),
    )
    ctx.outcome(found[0].shape)


def describe(outcome):
    return outcome if isinstance(outcome, str) else "accepted"


LEFT_OUT = "left out"


def run_spelling(case, ctx):
    group, sub, padding = case["group"], case["sub"], case["padding"]
    cls = lib.layer_class(case["layer"])
    one = "1D" in case["layer"]
    dimensions = 1 if one else ref.dimensions_of(group)
    is_conv, transpose = "Conv" in case["layer"], "Transpose" in case["layer"]
    size_name = "kernel_size" if is_conv else "pool_size"
    size = 2
    groups = [group, lib.groco_groups()[group]]
    subs = [sub] if sub != group else [sub, "", None, LEFT_OUT]
    numbers = lambda n: [n, (n,) * dimensions, [n] * dimensions]
    paddings = [padding, padding.upper(), padding.title(), padding[:2].upper() + padding[2:]]
    if padding == "valid_equiv":
        paddings.append(LEFT_OUT)
    strides = numbers(case["stride"])
    if case["stride"] == 1 and is_conv:
        strides.append(LEFT_OUT)
    if case["stride"] == size and not is_conv:
        strides += [None, LEFT_OUT]
    formats = ["channels_last", None, LEFT_OUT]

    order_in = len(ref.DOCUMENTED[sub if transpose else group])
    grid = (4,) * dimensions if dimensions < 3 else (2,) * dimensions
    shape = (2,) + grid + ((order_in,) if case["on_group"] else ()) + (2,)
    rng = lib.generator(ctx.seed, case)
    inputs = lib.integers(rng, shape, 9)
    expected = None
    base = None
    # all combinations of two spellings that differ from the first one
    for spelled in lib.deviations(
        dict(
            group=[0, 1], subgroup=list(range(len(subs))), size=[0, 1, 2],
            strides=list(range(len(strides))), padding=list(range(len(paddings))),
            format=[0, 1, 2],
        ),
        2 if ctx.tier == "quick" else 4,
    ):
        kwargs = {
            "group": groups[spelled["group"]],
            "subgroup": subs[spelled["subgroup"]],
            size_name: numbers(size)[spelled["size"]],
            "strides": strides[spelled["strides"]],
            "padding": paddings[spelled["padding"]],
            "data_format": formats[spelled["format"]],
        }
        kwargs = {k: v for k, v in kwargs.items() if not (isinstance(v, str) and v == LEFT_OUT)}
        if is_conv:
            kwargs["filters"] = 2
        found = outcome_of(lambda: cls(**kwargs), inputs, base)
        ctx.states()
        ctx.traces(len(inputs))
        if expected is None:
            expected, base = found, found[2]
            if padding.endswith("_equiv"):
                # for size 2 and these strides and grids
                totals = [
                    lib.expected_total(n, size, case["stride"], 1, padding)[0] for n in grid
                ]
                ctx.require(
                    transpose or all(totals) == (not isinstance(found[0], str)),
                    "accepted",
                    f"{describe(found[0])} as first spelled",
                )
            continue
        shown = {k: getattr(v, "name", v) for k, v in kwargs.items()}
        compare(found, expected, f"{case['layer']}({shown})", ctx)


def run_partial(case, ctx):
    group = PARTIALS[case["layer"]]
    dimensions = ref.dimensions_of(group)
    order = len(ref.DOCUMENTED[group])
    general = lib.layer_class(f"GroupConv{dimensions}D")
    special = lib.layer_class(case["layer"])
    rng = lib.generator(ctx.seed, case)
    size = 3 if dimensions == 2 else 2
    shape = (2,) + (size,) * dimensions + ((order,) if case["on_group"] else ()) + (1,)
    inputs = lib.integers(rng, shape, 9)
    for kwargs in [
        dict(kernel_size=2, filters=2, padding="same_equiv"),
        dict(kernel_size=2, filters=1),
    ]:
        kwargs["subgroup"] = case["sub"]
        expected = outcome_of(lambda: general(group=group, **kwargs), inputs, None)
        found = outcome_of(lambda: special(**kwargs), inputs, expected[2])
        ctx.states(2)
        ctx.traces(len(inputs))
        ctx.require(not isinstance(expected[0], str), "accepted", f"{kwargs}: {expected[0]}")
        compare(found, expected, f"{case['layer']}({kwargs})", ctx)
        if case["sub"] == group:
            del kwargs["subgroup"]
            compare(
                outcome_of(lambda: special(**kwargs), inputs, expected[2]), expected,
                f"{case['layer']}({kwargs})", ctx,
            )


def run_format(case, ctx):
    """The same layer in both data formats, on impulses and dense inputs."""
    layers, layouts, out_layouts = {}, {}, {}
    for format in ("channels_last", "channels_first"):
        if case["layer"] == "conv":
            dimensions = ref.dimensions_of(case["group"])
            layers[format] = conv.make_layer(dict(case, format=format))
            name = case["sub"] if case["transpose"] else case["group"]
            order = len(ref.DOCUMENTED[name])
            on_group, channels = case["on_group"], case["channels"]
        elif case["layer"] == "pool":
            dimensions, on_group, channels = case["dimensions"], True, case["channels"]
            order = len(ref.DOCUMENTED[case["group"]])
            kwargs = dict(
                group=case["group"], pool_size=case["size"], padding=case["padding"],
                data_format=format, subgroup=case["sub"],
            )
            if case["stride"] is not None:
                kwargs["strides"] = case["stride"]
            layers[format] = lib.layer_class(f"Group{case['pool']}Pooling{dimensions}D")(**kwargs)
        else:
            dimensions, on_group, channels, order = case["dimensions"], True, 2, case["order"]
            layers[format] = lib.layer_class(f"GlobalGroup{case['pool']}Pooling{dimensions}D")(
                data_format=format, keepdims=case["keepdims"]
            )
        layouts[format] = lib.Layout(dimensions, format, on_group)
        out_layouts[format] = lib.Layout(dimensions, format, True)
    last, first = layouts["channels_last"], layouts["channels_first"]
    if dimensions == 3:
        sizes = [(2, 2, 2)] if order > 8 else [(2, 2, 2), (3, 3, 2)]
    else:
        sizes = [(4,) * dimensions, (5,) * dimensions]
        if dimensions == 2 and case["layer"] != "global" and conv.fits(case["sub"], (3, 4)):
            sizes.append((3, 4))
    rng = lib.generator(ctx.seed, case)
    weights = None
    for spatial in sizes:
        shape = lib.canonical_input(last, 1, spatial, order, channels)
        samples = lib.integers(rng, (3,) + shape[1:], 9)
        if np.prod(shape) <= 512:
            impulses = lib.one_hot_batch(last, spatial, order, channels)
            samples = np.concatenate([last.canonical(impulses), samples])
        results = {}
        for format, layer in layers.items():
            results[format] = outcome_of(
                lambda: layer, layouts[format].from_canonical(samples), weights
            )
            weights = weights or results[format][2]
        found, expected = results["channels_first"], results["channels_last"]
        ctx.states(2)
        ctx.traces(len(samples))
        if not isinstance(found[0], str):
            out = found[0]
            if case["layer"] == "global" and not case["keepdims"]:
                pass
            else:
                out = np.moveaxis(out, 1, -1)
            found = (out,) + found[1:]
        compare(found, expected, f"channels_first on grid {spatial}", ctx)
