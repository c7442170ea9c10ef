"""
check_equivariance on layers that are explicit lookup tables from samples to outputs, for every
group, every choice of acting, domain and target group (or the grid), and every placement of the
axes in the stated ranks. For each of these configurations the tables are: an equivariant one, that
table changed in one single entry for every output entry of one transformed sample and for one entry
of every transformed sample, and one without any symmetry. The value reported must be exactly the
defect computed by the reference model. Signals and outputs with each wrong size of the group axis
must be rejected. Real layers, equivariant and not, are compared in the same way with the group read
from the layer. States are the configurations, transitions the tables, traces the calls.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "exhaustive enumeration of configurations and of single-entry defects of explicit table "
    "layers, comparing the reported value with the reference model"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "a layer is a map from samples to outputs, so that lookup tables on distinct samples are the "
    "most general layers",
]


# in single precision, the squares of these are out of range
SCALES = (1e-25, 1e25)


def square(group, variant=0):
    if ref.dimensions_of(group) == 2:
        shapes = [(2, 2), (1, 2), (3, 3), (2, 3), (2, 1)]
    else:
        shapes = [(1, 1, 1), (2, 2, 2), (2, 2, 1), (1, 2, 1), (2, 1, 1), (1, 2, 2)]
    fitting = [
        s for s in shapes if all(ref.keeps_shape(m, s) for m in ref.DOCUMENTED[group])
    ]
    return fitting[variant % len(fitting)]


def layouts(dimensions, rank, domain, target):
    """
    All (spatial axes, group axis) in a signal of this rank, with the batch axis first. The group
    axis is an axis of the output only if the signal is on the grid, and then after the spatial ones.
    """
    if dimensions == 2:
        spatials = list(itertools.permutations(range(1, rank), 2))
    else:
        spatials = [tuple(range(a, a + 3)) for a in range(1, rank - 2)]
    for spatial in spatials:
        if domain is None and target is None:
            yield spatial, None
            continue
        for axis in range(1, rank + (domain is None)):
            if domain is None or target is None:
                # the spatial axes are the same with and without the group axis
                if axis > max(spatial):
                    yield spatial, axis
            elif axis not in spatial:
                yield spatial, axis


def cases(tier):
    deep = tier == "thorough"
    result = []
    for group in ref.NAMES:
        dimensions = ref.dimensions_of(group)
        subs = ref.contained(group)
        for i, (acting, domain, target) in enumerate(
            itertools.product(subs, subs + [None], subs + [None])
        ):
            # as in the layers
            chosen = {acting, domain, target} - {None}
            complete = deep or group not in ("O", "Oh") and len(chosen) < 3
            complete = complete or chosen == {group}
            result.append(
                dict(
                    kind="table", group=group, acting=acting, domain=domain, target=target,
                    rank=1 + dimensions + (domain is not None) + 1, layout=None,
                    grid=square(group), full=complete,
                    out_grid=square(group, 0 if group in ("O", "Oh") and not deep else i % 2),
                    batch=2 if complete and (group not in ("O", "Oh") or deep) else 1,
                )
            )
        for domain, target in itertools.product((group, None), repeat=2):
            if not deep and group not in ("PMh", "P4", "P4M", "D4", "Oh"):
                continue
            for extra in (0, 1, 2) if group == "P4" or deep else (0, 1):
                rank = 1 + dimensions + (domain is not None) + extra
                for layout in layouts(dimensions, rank, domain, target):
                    result.append(
                        dict(
                            kind="table", group=group, acting=group, domain=domain, target=target,
                            rank=rank, layout=layout, grid=square(group, 1),
                            out_grid=square(group, 1), batch=2, full=deep,
                        )
                    )
        for batch in (1, 3) if dimensions == 2 or deep else (3,):
            for grid in range(5 if dimensions == 2 or deep else 2):
                result.append(
                    dict(
                        kind="table", group=group, acting=group, domain=group, target=group,
                        rank=dimensions + 3, layout=None, grid=square(group, grid),
                        out_grid=square(group, grid + 1), batch=batch, full=deep,
                    )
                )
        for sub in subs:
            result.append(dict(kind="sizes", group=group, sub=sub))
        for sub in subs:
            for on_group in (False, True):
                if dimensions == 2 or deep or group in ("D4", "D4h"):
                    for padding in ("same_equiv", "same", "valid"):
                        result.append(
                            dict(
                                kind="layer", group=group, sub=sub, on_group=on_group,
                                padding=padding,
                            )
                        )
            result.append(dict(kind="pool", group=group, sub=sub))
    return lib.unique(result)


def cost(case):
    group = len(ref.DOCUMENTED[case["group"]])
    if case["kind"] != "table":
        return group / 4
    target = len(ref.DOCUMENTED[case["target"]]) if case["target"] else 1
    return (target + group if case["full"] else 4) * group / 16


class Model:
    """What the elements do to samples (without the batch axis), and the resulting defect."""

    def __init__(self, group, acting, domain, target, spatial, group_axis):
        self.table = lib.tables(group)
        self.acting = lib.subgroup_indices(group, acting)
        self.domain = None if domain is None else lib.subgroup_indices(group, domain)
        self.target = None if target is None else lib.subgroup_indices(group, target)
        self.spatial, self.group_axis = spatial, group_axis
        self.copies = None  # of the one signal that a model is used for

    def act(self, g, batch, domain):
        if domain is None:
            return ref.act_on_grid(self.table.elements[g], batch, self.spatial)
        return ref.act_on_group(self.table, g, batch, self.spatial, self.group_axis, domain)

    def defect(self, layer, signal):
        if self.copies is None:
            copies = [self.act(g, signal, self.domain) for g in self.acting]
            self.copies = np.concatenate(copies)
        out = np.asarray(layer(signal))
        copies = np.asarray(layer(self.copies))
        copies = copies.reshape((len(self.acting), len(signal)) + copies.shape[1:])
        return max(
            float(np.abs(copy - self.act(g, out, self.target)).max())
            for g, copy in zip(self.acting, copies)
        )


class TableLayer:
    """The layer that looks up each sample of the batch."""

    def __init__(self, entries):
        self.entries = entries
        self.missing = False

    def __call__(self, batch):
        from keras import ops

        batch = np.asarray(batch, dtype="float32")
        rows = []
        for sample in batch:
            row = self.entries.get((sample.shape, sample.tobytes()))
            if row is None:
                self.missing = True
                row = np.zeros_like(next(iter(self.entries.values())))
            rows.append(row)
        return ops.convert_to_tensor(np.stack(rows))


def arrange(batch, spatial_shape, order, channels, rank, spatial_axes, group_axis):
    """The shape of a signal with its axes placed as stated; other axes have size `channels`."""
    shape = [channels] * rank
    shape[0] = batch
    for axis, size in zip(spatial_axes, spatial_shape):
        shape[axis] = size
    if group_axis is not None:
        shape[group_axis] = order
    return tuple(shape)


def run(case, ctx):
    {"table": run_table, "sizes": run_sizes, "layer": run_layer, "pool": run_pool}[case["kind"]](
        case, ctx
    )


def placed(case):
    dimensions = ref.dimensions_of(case["group"])
    domain, target = case["domain"], case["target"]
    if case["layout"] is not None:
        spatial, group_axis = tuple(case["layout"][0]), case["layout"][1]
    else:
        spatial = tuple(range(1, 1 + dimensions))
        group_axis = None if domain is None and target is None else 1 + dimensions
    rank_in = case["rank"]
    rank_out = rank_in - (domain is not None) + (target is not None)
    return spatial, group_axis, rank_in, rank_out


def size_of(group):
    return 1 if group is None else len(ref.DOCUMENTED[group])


def check(function, layer, model, signal, arguments, ctx, what, scale=1.0):
    expected = model.defect(layer, signal)
    ctx.transitions()
    ctx.traces()
    found = float(np.asarray(function(layer, signal, **arguments)))
    ctx.require(
        not getattr(layer, "missing", False),
        "transformed",
        f"{what}: the layer was called on a sample that is not a transformed signal",
    )
    ctx.require(
        abs(found - expected) <= 1e-5 * max(scale, expected),
        "value",
        f"{what}: {found} is reported, the largest difference is {expected}",
    )
    ctx.outcome(round(expected, 3))
    return expected


def run_table(case, ctx):
    from groco.utils import check_equivariance

    ctx.states()
    group, domain, target = case["group"], case["domain"], case["target"]
    spatial, group_axis, rank_in, rank_out = placed(case)
    model = Model(group, case["acting"], domain, target, spatial, group_axis)
    shape_in = arrange(
        case["batch"], case["grid"], size_of(domain), 2, rank_in, spatial,
        None if domain is None else group_axis,
    )
    shape_out = arrange(
        1, case["out_grid"], size_of(target), 1, rank_out, spatial,
        None if target is None else group_axis,
    )
    rng = lib.generator(ctx.seed, case)
    signal = np.arange(1, np.prod(shape_in) + 1, dtype="float32").reshape(shape_in)
    outputs = lib.integers(rng, (case["batch"],) + shape_out[1:], 9)
    copies = [(g, model.act(g, signal, model.domain)) for g in model.acting]
    identity = model.table.index[ref.key(np.eye(len(case["grid"]), dtype=int))]
    equivariant, keys = {}, []
    for g, copy in sorted(copies, key=lambda pair: pair[0] != identity):
        values = model.act(g, outputs, model.target)
        for b in range(case["batch"]):
            key = (copy[b].shape, copy[b].tobytes())
            keys.append(key)
            equivariant.setdefault(key, values[b])
    keys = list(dict.fromkeys(keys))
    arguments = dict(
        group=lib.groco_groups()[group], spatial_axes=spatial, group_axis=group_axis,
        acting_group=case["acting"], domain_group=domain, target_group=target,
    )
    if case["acting"] == group:
        arguments["acting_group"] = ""
    if domain == group:
        arguments["domain_group"] = ""
    if target == group:
        arguments["target_group"] = ""

    def changed(key, position, by):
        entries = dict(equivariant)
        values = entries[key].copy()
        values.reshape(-1)[position] += by
        entries[key] = values
        return TableLayer(entries)

    base = check(
        check_equivariance, TableLayer(equivariant), model, signal, arguments, ctx,
        "equivariant layer",
    )
    if len(keys) == len(model.acting) * case["batch"]:
        # for samples that are all different, this table is an equivariant layer
        ctx.require(base == 0, "reference", f"the reference defect of the table is {base}")
        ctx.count("equivariant")
    if rank_in == rank_out:
        from_end = dict(
            arguments,
            spatial_axes=tuple(axis - rank_in for axis in spatial),
            group_axis=None if group_axis is None else group_axis - rank_in,
        )
        for changes in (
            ("spatial_axes",), ("group_axis",), ("spatial_axes", "group_axis"),
        ):
            mixed = dict(arguments, **{name: from_end[name] for name in changes})
            found = check(
                check_equivariance, TableLayer(equivariant), model, signal, mixed, ctx,
                f"equivariant layer, {' and '.join(changes)} counted from the end",
            )
            ctx.require(
                found == base, "axes", f"{found} is reported, and {base} for the same axes"
            )
            ctx.count("from_end")
    size = int(np.prod(shape_out[1:]))
    chosen = int(rng.integers(len(keys)))
    places = [(chosen, p) for p in range(size)] if case["full"] else [(chosen, size - 1)]
    if case["full"] or len(keys) <= 16:
        places += [(k, int(rng.integers(size))) for k in range(len(keys))]
    for number, (k, p) in enumerate(places):
        by = (1.5, -2.0, 40.0, -0.25)[number % 4]
        defect = check(
            check_equivariance, changed(keys[k], p, by), model, signal, arguments, ctx,
            f"entry {p} of transformed sample {k} changed by {by}",
        )
        ctx.count("positive", defect > 0)
    for scale in SCALES:
        scaled = {key: values * np.float32(scale) for key, values in equivariant.items()}
        k, p = places[-1]
        values = scaled[keys[k]].copy()
        values.reshape(-1)[p] += np.float32(1.5 * scale)
        scaled[keys[k]] = values
        check(
            check_equivariance, TableLayer(scaled), model, signal, arguments, ctx,
            f"entry {p} of transformed sample {k} changed by 1.5, all multiplied by {scale}", scale,
        )
    entries = {key: lib.integers(rng, shape_out[1:], 50) for key in keys}
    check(
        check_equivariance, TableLayer(entries), model, signal, arguments, ctx,
        "layer without symmetry",
    )


def run_sizes(case, ctx):
    """Sizes of the group axis of the signal or output that are not those of the stated groups."""
    from groco.utils import check_equivariance

    group, sub = case["group"], case["sub"]
    dimensions = ref.dimensions_of(group)
    order, suborder = size_of(group), size_of(sub)
    grid = (2,) * dimensions
    spatial = tuple(range(1, 1 + dimensions))

    def fixed(size):
        from keras import ops

        return lambda x: ops.ones((x.shape[0],) + grid + (size, 1))

    for size in sorted({1, 2, 3, suborder - 1, suborder, suborder + 1, order, 2 * suborder}):
        if size < 1:
            continue
        for place in ("signal", "output"):
            for on_group in (True, False) if place == "output" else (True,):
                ctx.states()
                ctx.transitions()
                ctx.traces()
                size_in = size if place == "signal" else order
                size_out = size if place == "output" else order
                signal = np.ones(
                    (2,) + grid + ((size_in,) if on_group else ()) + (1,), dtype="float32"
                )
                arguments = dict(
                    group=lib.groco_groups()[group], spatial_axes=spatial,
                    group_axis=1 + dimensions,
                    domain_group=(sub if place == "signal" else "") if on_group else None,
                    target_group=sub if place == "output" else "",
                )
                try:
                    check_equivariance(fixed(size_out), signal, **arguments)
                    rejected = False
                except Exception:
                    rejected = True
                ctx.require(
                    rejected == (size != suborder),
                    "sizes",
                    f"{place} with {size} group elements for {sub} in {group}: "
                    + ("rejected" if rejected else "accepted"),
                )
                ctx.outcome(rejected)


def compare_layer(layer, signal, case, domain, target, ctx, **arguments):
    from groco.utils import check_equivariance

    dimensions = ref.dimensions_of(case["group"])
    spatial = tuple(range(1, 1 + dimensions))
    model = Model(case["group"], case["sub"], domain, target, spatial, 1 + dimensions)
    ctx.states()
    values = [
        check(
            check_equivariance, layer, model, signal,
            dict(
                spatial_axes=spatial, group_axis=1 + dimensions, acting_group=case["sub"],
                domain_group=domain, target_group=target, **group,
            ),
            ctx,
            "real layer" + (", group given" if group else ", group of the layer"),
        )
        for group in ({}, dict(group=lib.groco_groups()[case["group"]]))
    ]
    ctx.count("real_layers_positive", values[0] > 1e-3)
    return values[0]


def run_layer(case, ctx):
    group, sub = case["group"], case["sub"]
    dimensions = ref.dimensions_of(group)
    kwargs = dict(
        group=group, kernel_size=2 if case["padding"] == "same" else 3, filters=2,
        padding=case["padding"], strides=2 if case["padding"] == "valid" else 1,
        allow_non_equivariance=True, use_bias=False,
    )
    if sub != group:
        kwargs["subgroup"] = sub
    size = 4
    order = (size_of(group),) if case["on_group"] else ()
    layer = lib.layer_class(f"GroupConv{dimensions}D")(**kwargs)
    rng = lib.generator(ctx.seed, case)
    signal = lib.integers(rng, (2,) + (size,) * dimensions + order + (1,))
    layer.build(signal.shape)
    layer.set_weights([lib.integers(rng, w.shape) for w in layer.get_weights()])
    value = compare_layer(
        layer, signal, case, group if case["on_group"] else None, sub, ctx
    )
    if case["padding"] == "same_equiv":
        ctx.require(value == 0, "equivariant", f"{value} for an equivariant convolution")


def run_pool(case, ctx):
    group, sub = case["group"], case["sub"]
    dimensions = ref.dimensions_of(group)
    rng = lib.generator(ctx.seed, case)
    for padding in ("same_equiv", "same"):
        layer = lib.layer_class(f"GroupMaxPooling{dimensions}D")(
            group=group, pool_size=2, strides=1, padding=padding, allow_non_equivariance=True,
            **({"subgroup": sub} if sub != group else {}),
        )
        size = 3 if dimensions == 2 else 2
        signal = lib.integers(
            rng, (2,) + (size,) * dimensions + (size_of(group), 1), 50
        )
        value = compare_layer(layer, signal, case, group, sub, ctx)
        if padding == "same_equiv":
            ctx.require(value == 0, "equivariant", f"{value} for an equivariant pooling")
