"""
(1) Histories: an explicit model of what a layer accepts (states: not built, or built for inputs
with or without a group axis and a number of channels) is explored for every class of layer, data
format and several groups: from not built and from every way of building, every input shape of the
alphabet (all ranks from one too few to two too many, every size of the group axis up to one more
than twice the order, numbers of channels) in every mode (eager call, symbolic call, call under
jit), all in one history, and all sequences of a reduced alphabet up to the stated depth. Each
operation on the real layer has to be accepted or rejected as in the model; what is accepted has to
give what a fresh layer gives. (2) Group actions: every group, domain and acting subgroup, every size
of the group axis up to two more than the order and its double, and wrong numbers of spatial axes.
(3) Constructors: every layer with a group of another dimension, an unknown one, or a subgroup that
the group does not contain, has to raise at the latest in its first call. States are those of the
model that are visited, transitions the operations performed, traces the histories.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "explicit-state exploration of a model of what a layer accepts, all sequences of operations up "
    "to a depth replayed on the real layers"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "any exception counts as a rejection, whatever its type",
    "grids that fit the padding; the padding itself is left to C10 and C11",
    "a group axis of unknown size is left out",
]

FORMATS = ("channels_last", "channels_first")
# class, dimensions, group, subgroup
LAYERS = [
    ("Conv", 2, "P4", "P4"), ("Conv", 2, "P4M", "P4"), ("Conv", 2, "PMh", "P1"),
    ("Conv", 2, "P1", "P1"), ("Conv", 3, "D4", "D4"),
    ("ConvTranspose", 2, "P4", "P4"), ("ConvTranspose", 2, "P4M", "P2MM"),
    ("ConvTranspose", 2, "P4", "P1"), ("ConvTranspose", 3, "D4", "D4"),
    ("Max", 1, "P2", "P2"), ("Max", 2, "P4", "P4"), ("Max", 2, "P4M", "P4"),
    ("Max", 2, "P4", "P1"), ("Max", 3, "D4", "D4"), ("Average", 2, "P4", "P2"),
    ("Average", 3, "D4", "D4"), ("Average", 1, "P2", "P1"),
    ("GlobalMax", 1, None, None), ("GlobalMax", 2, None, None), ("GlobalAverage", 3, None, None),
]
MODES = ("eager", "symbolic", "jit")
CHANNELS = 2


def cases(tier):
    deep = tier == "thorough"
    result = []
    layers = list(LAYERS)
    if deep:
        for group, sub in lib.pairs():
            dimensions = ref.dimensions_of(group)
            for kind in ("Conv", "ConvTranspose", "Max", "Average"):
                if (kind, dimensions, group, sub) not in layers and len(ref.DOCUMENTED[group]) < 48:
                    layers.append((kind, dimensions, group, sub))
    for index, layer in enumerate(layers):
        for data_format in FORMATS:
            base = dict(kind="shapes", layer=layer, format=data_format)
            for build in ("none", "eager", "symbolic", "build"):
                for on_group in (True, False) if is_conv(layer) else (True,):
                    if build != "none" or on_group:
                        result.append(dict(base, build=build, on_group=on_group))
            for first in range(len(reduced(layer, data_format))):
                depth = 3 if deep and index < len(LAYERS) else 2
                result.append(dict(base, kind="sequences", first=first, depth=depth))
    for name in ref.NAMES:
        result.append(dict(kind="action", group=name))
        result.append(dict(kind="constructor", group=name))
    return result


def affinity(case):
    return str(case.get("layer", case["kind"]))


CHUNK = 3


def is_conv(layer):
    return layer[0].startswith("Conv")


def order_in(layer):
    """The order of the group that the input of this layer lives on, None if it may be any."""
    kind, _, group, sub = layer
    if group is None:
        return None
    return len(ref.DOCUMENTED[sub if kind == "ConvTranspose" else group])


def class_name(layer):
    kind, dimensions = layer[:2]
    if kind.startswith("Conv"):
        return f"GroupConv{dimensions}D" + kind[4:]
    if kind.startswith("Global"):
        return f"GlobalGroup{kind[6:]}Pooling{dimensions}D"
    return f"Group{kind}Pooling{dimensions}D"


def make(layer, data_format):
    kind, dimensions, group, sub = layer
    kwargs = dict(data_format=data_format)
    if group is not None:
        kwargs.update(group=group, subgroup=sub, strides=1, padding="valid_equiv")
    if is_conv(layer):
        kwargs.update(kernel_size=2, filters=2)
    elif group is not None:
        kwargs.update(pool_size=2)
    return lib.layer_class(class_name(layer))(**kwargs)


def shape(layer, data_format, order, channels, spatial=None):
    """An input shape, without group axis if the order is None."""
    spatial = (3,) * layer[1] if spatial is None else spatial
    layout = lib.Layout(len(spatial), data_format, order is not None)
    return layout.shape(2, spatial, order, channels)


def fitting_order(layer):
    return order_in(layer) or 4


def alphabet(layer, data_format):
    """All input shapes that are tried."""
    dimensions, order = layer[1], fitting_order(layer)
    orders = sorted(set(range(1, 2 * order + 2)) | {3 * order, 4 * order})
    shapes = [shape(layer, data_format, n, CHANNELS) for n in orders]
    shapes += [
        shape(layer, data_format, n, c) for n in (order, None) for c in (1, 2, 3, 4, 2 * order)
    ]
    for spatial in ((3,) * (dimensions - 1), (3,) * (dimensions + 1)):
        for n in (order, None):
            shapes.append(shape(layer, data_format, n, CHANNELS, spatial))
    # further axes
    fit = shape(layer, data_format, order, CHANNELS)
    shapes += [fit + (1,), fit + (CHANNELS,), (1,) + fit, (2,)]
    return list(dict.fromkeys(shapes))


def reduced(layer, data_format):
    """The operations of the sequences."""
    order = fitting_order(layer)
    fit = shape(layer, data_format, order, CHANNELS)
    shapes = [
        fit,
        shape(layer, data_format, 2 * order, CHANNELS),
        shape(layer, data_format, max(1, order // 2) if order > 1 else 3, CHANNELS),
        shape(layer, data_format, order, 2 * CHANNELS),
        shape(layer, data_format, None, CHANNELS),
        fit + (1,),
        fit[:-2],
    ]
    modes = {0: MODES, 1: MODES, 4: MODES}
    return [(mode, s) for i, s in enumerate(shapes) for mode in modes.get(i, ("eager",))]


class Model:
    """
    What a layer accepts: None while it is not built, then the rank and channels it is built for.
    """

    def __init__(self, layer, data_format):
        self.layer, self.format = layer, data_format
        self.state = None

    def channels(self, shape):
        return shape[1 if self.format == "channels_first" else -1]

    def accepts(self, shape):
        dimensions = self.layer[1]
        on_group = len(shape) == dimensions + 3
        if len(shape) == dimensions + 2:
            if not is_conv(self.layer):
                return False
        elif not on_group:
            return False
        order = order_in(self.layer)
        layout = lib.Layout(dimensions, self.format, on_group)
        if on_group and order is not None and shape[layout.group_axis] != order:
            return False
        if not is_conv(self.layer):
            return True
        return self.state in (None, (len(shape), self.channels(shape)))

    def step(self, shape):
        accepted = self.accepts(shape)
        if accepted and is_conv(self.layer):
            self.state = (len(shape), self.channels(shape))
        return accepted


def values(shape):
    rng = np.random.default_rng(list(shape))
    return rng.integers(-4, 5, size=shape).astype("float32")


def set_weights(layer):
    layer.set_weights(
        [
            np.random.default_rng(7).integers(-3, 4, size=w.shape).astype("float32")
            for w in layer.get_weights()
        ]
    )


FRESH = {}


class History:
    def __init__(self, case, ctx):
        self.ctx = ctx
        self.which, self.format = tuple(case["layer"]), case["format"]
        self.layer = make(self.which, self.format)
        self.model = Model(self.which, self.format)
        self.past = []
        self.weights_set = False

    def perform(self, mode, shape):
        import jax
        import keras

        layer = self.layer
        if mode == "build":
            layer.build((None,) + tuple(shape[1:]))
            return None
        if mode == "symbolic":
            return layer(keras.Input(batch_shape=(None,) + tuple(shape[1:]))).shape
        if mode == "jit":
            return lib.array(jax.jit(lambda x: layer(x))(values(shape)))
        if not self.weights_set:
            layer(values(shape))
            set_weights(layer)
        return lib.array(layer(values(shape)))

    def fresh(self, shape):
        key = (self.which, self.format, shape)
        if key not in FRESH:
            layer = make(self.which, self.format)
            layer.build(shape)
            set_weights(layer)
            FRESH[key] = lib.array(layer(values(shape)))
        return FRESH[key]

    def step(self, mode, shape):
        shape = tuple(shape)
        if mode == "jit" and not self.layer.built and self.model.accepts(shape):
            return  # variables cannot be created under jit
        accepted = self.model.step(shape)
        ctx = self.ctx
        ctx.transitions()
        try:
            result, error = self.perform(mode, shape), None
        except Exception as e:
            result, error = None, f"{type(e).__name__}: {e}"
        self.past.append((mode, shape))
        ctx.require(
            accepted == (error is None),
            "accepted" if error is None else "rejected",
            lambda: f"{class_name(self.which)} of {self.which[2:]}, {self.format}: after "
            f"{self.past[:-1]}, {mode} with {shape} "
            + (
                f"is accepted with a result of shape {getattr(result, 'shape', result)}"
                if error is None
                else f"is rejected: {error}"
            ),
        )
        ctx.outcome((mode, error.split(":")[0] if error else "accepted"))
        if error is not None:
            return
        if self.layer.built and not self.weights_set:
            set_weights(self.layer)
            self.weights_set = True
        expected = self.fresh(shape)
        if mode == "symbolic":
            ctx.require(
                tuple(result)[1:] == expected.shape[1:],
                "shape",
                f"after {self.past}: symbolic shape {result}, expected {expected.shape}",
            )
        elif mode == "jit" and result is not None:
            # jit of the first use has been left out, so the weights are set
            self.same(result, expected)
        elif mode == "eager":
            self.same(result, expected)

    def same(self, result, expected):
        self.ctx.require(
            result.shape == expected.shape and np.allclose(result, expected, rtol=1e-4, atol=1e-4),
            "result",
            lambda: f"{class_name(self.which)} of {self.which[2:]}, {self.format}: after "
            f"{self.past} something else than a fresh layer gives: "
            + lib.difference(result, expected),
        )


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_shapes(case, ctx):
    history = History(case, ctx)
    layer, data_format = history.which, history.format
    order = fitting_order(layer)
    fit = shape(layer, data_format, order if case["on_group"] else None, CHANNELS)
    shapes = alphabet(layer, data_format)
    if case["build"] == "none":
        # each as the first input, and a fitting one after it
        for mode, s in itertools.product(MODES, shapes):
            history = History(case, ctx)
            history.step(mode, s)
            if history.model.state is None:
                history.step("eager", fit)
            ctx.states(2)
            ctx.traces()
        return
    history.step(case["build"], fit)
    for mode, s in itertools.product(MODES, shapes):
        history.step(mode, s)
    history.step("eager", fit)
    ctx.states(1)
    ctx.traces()


def run_sequences(case, ctx):
    operations = reduced(tuple(case["layer"]), case["format"])
    for rest in itertools.product(operations, repeat=case["depth"] - 1):
        history = History(case, ctx)
        for mode, s in (operations[case["first"]],) + rest:
            history.step(mode, s)
            ctx.states()
        ctx.traces()


def run_action(case, ctx):
    group = lib.groco_groups()[case["group"]]
    dimensions = ref.dimensions_of(case["group"])
    order = len(ref.DOCUMENTED[case["group"]])
    sizes = sorted(set(range(1, order + 3)) | {2 * order, 3 * order})
    if order > 16:
        sizes = [n for n in sizes if n <= 4 or n >= order - 1 or order % n == 0]
    axes = tuple(range(1, dimensions + 1))
    for domain, acting in itertools.product(ref.contained(case["group"]), repeat=2):
        if order > 16 and acting not in (case["group"], domain):
            continue
        fitting = len(ref.DOCUMENTED[domain])
        for size in sizes:
            signal = np.arange(2 * 2**dimensions * size, dtype="float32")
            signal = signal.reshape((2,) + (2,) * dimensions + (size,))
            try:
                out = lib.array(
                    group.action(
                        signal, spatial_axes=axes, group_axis=dimensions + 1, new_group_axis=0,
                        acting_group=acting, domain_group=domain,
                    )
                )
                error = None
            except Exception as e:
                error = f"{type(e).__name__}: {e}"
            ctx.transitions()
            ctx.require(
                (error is None) == (size == fitting),
                "action",
                lambda: f"{acting} acting on a signal on {domain} (order {fitting}) with a group "
                f"axis of size {size}: "
                + (f"accepted, giving shape {out.shape}" if error is None else error),
            )
            ctx.outcome((domain, size, error is None))
        ctx.states(len(sizes))
    if order > 1:
        for number in {1, 2, 3, 4} - {dimensions}:
            signal = np.zeros((2,) + (2,) * number)
            try:
                group.action(
                    signal, spatial_axes=tuple(range(1, number + 1)), new_group_axis=0,
                    domain_group=None,
                )
            except Exception:
                ctx.transitions()
            else:
                ctx.fail("axes", f"{case['group']} acts on {number} spatial axes")
    ctx.traces()


def run_constructor(case, ctx):
    name = case["group"]
    dimensions = ref.dimensions_of(name)
    order = len(ref.DOCUMENTED[name])
    attempts = []
    wrong = [n for n in ref.NAMES if n not in ref.contained(name)] + ["P5", name.lower() + "x"]
    for kind, sub in itertools.product(("Conv", "ConvTranspose", "Max", "Average"), wrong):
        for on_group in (True, False) if kind.startswith("Conv") else (True,):
            attempts.append((kind, dimensions, name, sub, on_group))
    for other in (2, 3):
        if other != dimensions and order > 1:
            for kind, on_group in itertools.product(("Conv", "ConvTranspose"), (True, False)):
                attempts.append((kind, other, name, name, on_group))
    for kind in ("Conv", "ConvTranspose", "Max", "Average"):
        attempts.append((kind, dimensions, "P5", None, True))
    for kind, d, group, sub, on_group in attempts:
        layer = (kind, d, group, sub)
        sizes = {order, len(ref.DOCUMENTED.get(sub, [0]))} if on_group else {None}
        for size in sizes:
            try:
                made = make(layer, "channels_last")
                out = made(values(shape(layer, "channels_last", size, CHANNELS)))
            except Exception as e:
                ctx.outcome(type(e).__name__)
                ctx.transitions()
            else:
                ctx.fail(
                    "constructor",
                    f"{class_name(layer)} with group {group} and subgroup {sub} accepts an input "
                    f"with group axis {size}, and gives shape {out.shape}",
                )
        ctx.states()
    ctx.traces()
