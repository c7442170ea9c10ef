"""
One small instance of every kind of layer, used by the checks that explore what is done with a
layer rather than its configuration.
"""

import numpy as np

from mc import lib


class Failure(Exception):
    """What the controllable activation raises."""


SWITCH = {"fail": False}


def activation(x):
    if SWITCH["fail"]:
        raise Failure("the activation fails")
    return x


def conv(dimensions, group, sub, on_group, kernel, stride, padding, format, transpose=False,
         groups=1, **extra):
    return dict(
        kind="conv", dimensions=dimensions, group=group, sub=sub, on_group=on_group,
        kernel=kernel, stride=stride, padding=padding, format=format, transpose=transpose,
        groups=groups, extra=extra,
    )


def pool(kind, dimensions, group, sub, size, stride, padding, format):
    return dict(
        kind=kind, dimensions=dimensions, group=group, sub=sub, size=size, stride=stride,
        padding=padding, format=format,
    )


LAST, FIRST = "channels_last", "channels_first"

KINDS = {
    "lifting2": conv(2, "P4M", "P4", False, 3, 2, "same_equiv", LAST),
    "conv2": conv(2, "P4", "P2", True, 3, 3, "same_equiv", LAST),
    "conv2_first": conv(2, "P4", "P4", True, 2, 2, "valid_equiv", FIRST),
    "conv2_groups": conv(2, "P4", "P4", True, 3, 1, "same_equiv", LAST, groups=2),
    "lifting2_bare": conv(2, "PMh", "PMh", False, 3, 1, "valid_equiv", LAST, use_bias=False),
    "lifting3": conv(3, "D4", "D4", False, 2, 1, "same_equiv", LAST),
    "conv3": conv(3, "D4", "D4", True, 2, 1, "same_equiv", LAST),
    "transposed2": conv(2, "P4", "P2", True, 3, 2, "valid_equiv", LAST, transpose=True),
    "transposed2_first": conv(2, "P4", "P4", False, 3, 1, "same_equiv", FIRST, transpose=True),
    "transposed3": conv(3, "D4", "D4", False, 2, 2, "valid_equiv", LAST, transpose=True),
    "transposed3_group": conv(3, "D4", "D4", True, 2, 1, "same_equiv", LAST, transpose=True),
    "max1": pool("Max", 1, "P2", "P1", 3, 2, "same_equiv", LAST),
    "max2": pool("Max", 2, "P4", "P2", 3, 3, "same_equiv", LAST),
    "max2_first": pool("Max", 2, "P4", "P4", 2, 1, "same_equiv", FIRST),
    "average2": pool("Average", 2, "P4M", "P4", 2, 2, "valid_equiv", LAST),
    "max3": pool("Max", 3, "D4", "D4", 2, 1, "valid_equiv", LAST),
    "average3": pool("Average", 3, "D4", "D4", 3, 2, "same_equiv", FIRST),
    "global1": dict(kind="GlobalMax", dimensions=1, order=2, keepdims=False, format=LAST),
    "global2": dict(kind="GlobalAverage", dimensions=2, order=4, keepdims=True, format=LAST),
    "global2_first": dict(kind="GlobalMax", dimensions=2, order=4, keepdims=False, format=FIRST),
    "global3": dict(kind="GlobalMax", dimensions=3, order=8, keepdims=False, format=LAST),
    "padding2": dict(
        kind="padding", dimensions=2, kernel=3, stride=3, padding="valid_equiv", format=LAST
    ),
}


def class_name(name):
    k = KINDS[name]
    if k["kind"] == "conv":
        return f"GroupConv{k['dimensions']}D" + ("Transpose" if k["transpose"] else "")
    if k["kind"] == "padding":
        return "EquivariantPadding"
    if k["kind"].startswith("Global"):
        return f"GlobalGroup{k['kind'][6:]}Pooling{k['dimensions']}D"
    return f"Group{k['kind']}Pooling{k['dimensions']}D"


def arguments(name):
    k = KINDS[name]
    if k["kind"] == "conv":
        kwargs = dict(
            group=k["group"], kernel_size=k["kernel"], filters=2, strides=k["stride"],
            padding=k["padding"], data_format=k["format"], **k["extra"],
        )
        if k["groups"] > 1:
            kwargs["groups"] = k["groups"]
        if k["sub"] != k["group"]:
            kwargs["subgroup"] = k["sub"]
        return kwargs
    if k["kind"] == "padding":
        return dict(
            kernel_size=k["kernel"], dimensions=k["dimensions"], strides=k["stride"],
            padding=k["padding"], data_format=k["format"],
        )
    if k["kind"].startswith("Global"):
        return dict(keepdims=k["keepdims"], data_format=k["format"])
    kwargs = dict(
        group=k["group"], pool_size=k["size"], strides=k["stride"], padding=k["padding"],
        data_format=k["format"],
    )
    if k["sub"] != k["group"]:
        kwargs["subgroup"] = k["sub"]
    return kwargs


def make(name, /, **extra):
    return lib.layer_class(class_name(name))(**{**arguments(name), **extra})


def is_conv(name):
    return KINDS[name]["kind"] == "conv"


def input_order(name):
    """The size of the group axis of the input, None if there is none."""
    k = KINDS[name]
    if k["kind"] == "padding" or (k["kind"] == "conv" and not k["on_group"]):
        return None
    if "order" in k:
        return k["order"]
    from mc import ref

    if k["kind"] == "conv" and k["transpose"]:
        return len(ref.DOCUMENTED[k["sub"]])
    return len(ref.DOCUMENTED[k["group"]])


def input_shape(name, batch, size, channels=2):
    k = KINDS[name]
    order = input_order(name)
    layout = lib.Layout(k["dimensions"], k["format"], order is not None)
    spatial = (size,) * k["dimensions"] if not isinstance(size, tuple) else size
    return layout.shape(batch, spatial, order, channels)


def inputs(name, batch, size, channels=2, seed=0):
    rng = np.random.default_rng([seed, batch, channels, *np.atleast_1d(size)])
    return rng.integers(-4, 5, size=input_shape(name, batch, size, channels)).astype("float32")


def stride(name):
    return KINDS[name].get("stride") or 1


def good_sizes(name):
    """Two grid sizes that are accepted and need different paddings where that is possible."""
    k = KINDS[name]
    if k["kind"] in ("padding", "conv", "Max", "Average") and not k.get("transpose"):
        kernel = k.get("kernel") or k.get("size")
        found = {}
        for n in range(2, 9):
            accepted, total = lib.expected_total(n, kernel, k["stride"], 1, k["padding"])
            if accepted and n + total >= kernel and n >= kernel:
                found.setdefault(total, n)
        sizes = sorted(found.values())
        return (sizes[0], sizes[1]) if len(sizes) > 1 else (sizes[0], sizes[0] + 2 * k["stride"])
    return (2, 3)


def bad_size(name):
    """A grid size that cannot be padded, None if there is none."""
    k = KINDS[name]
    if k["kind"] in ("padding", "conv", "Max", "Average") and not k.get("transpose"):
        kernel = k.get("kernel") or k.get("size")
        for n in range(2, 9):
            if not lib.expected_total(n, kernel, k["stride"], 1, k["padding"])[0]:
                return n
    return None


def weight_values(layer, seed):
    return [
        np.random.default_rng([seed, i]).integers(-3, 4, size=w.shape).astype("float32")
        for i, w in enumerate(layer.weights)
    ]
