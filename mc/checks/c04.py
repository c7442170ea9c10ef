"""
All triples (group, acting subgroup, subgroup the signal lives on), all positions of the group axis,
counted from the start or the end:
signals on the subgroup (states) are upsampled and acted on by the real code, and every entry
(transitions) is compared with the explicit zero-extension model. Acting with a subgroup on its own
signals is compared with the action of the subgroup as a group by itself.
"""

import itertools

import numpy as np

from mc import conv, lib, ref

TECHNIQUE = (
    "exhaustive enumeration of (group, acting, domain) triples, layouts and positions against an "
    "explicit zero-extension model, plus a differential check with the subgroup itself"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "actions and upsampling move values without changing them, so distinct values determine them"
]
CHUNK = 6


def layouts(dimensions, tier):
    if dimensions == 2:
        spatials = [(1, 2), (0, 1), (2, 3), (2, 1), (0, 3)]
        rank = 5
    else:
        spatials = [(1, 2, 3), (0, 1, 2), (2, 3, 4), (0, 1, 3), (0, 2, 4), (3, 1, 2)]
        rank = 5
    for spatial in spatials:
        for group_axis in range(rank):
            if group_axis not in spatial:
                yield rank, spatial, group_axis


def cases(tier):
    result = []
    for name, domain in lib.pairs():
        dimensions = ref.dimensions_of(name)
        result.append({"kind": "upsample", "group": name, "domain": domain})
        rank = dimensions + 3
        for acting in ref.contained(name):
            dtypes = ("int32", "float16", "bfloat16", "uint8", "bool")
            if tier == "quick" and dimensions == 3:
                dtypes = ("int32", "bfloat16")
            for dtype in dtypes:
                result.append(
                    {
                        "kind": "action",
                        "group": name,
                        "domain": domain,
                        "acting": acting,
                        "layouts": [(rank, tuple(range(1, 1 + dimensions)), 1 + dimensions)],
                        "new_axes": [0],
                        "dtype": dtype,
                    }
                )
        for acting in ref.contained(name):
            every = list(layouts(dimensions, tier))
            chosen = every if tier == "thorough" else every[:: 2 if dimensions == 2 else 4]
            result.append(
                {
                    "kind": "action",
                    "group": name,
                    "domain": domain,
                    "acting": acting,
                    "layouts": chosen,
                    "new_axes": [0, 2, 5] if tier == "quick" else list(range(6)),
                }
            )
    return result


def affinity(case):
    return (case["group"], case["domain"])


def cost(case):
    return len(ref.DOCUMENTED[case["group"]]) * len(case.get("layouts", [1]))


def run(case, ctx):
    from keras import ops

    name, domain = case["group"], case["domain"]
    group = lib.groco_groups()[name]
    table = lib.tables(name)
    domain_indices = lib.subgroup_indices(name, domain)
    if case["kind"] == "upsample":
        upsample(name, group, table, domain, domain_indices, ctx)
        return
    acting = case["acting"]
    acting_indices = lib.subgroup_indices(name, acting)
    dimensions = ref.dimensions_of(name)
    dtype = case.get("dtype", "float32")
    if case.get("dtype") and ctx.tier == "quick":
        grids = [(3, 3)] if dimensions == 2 else [(2, 2, 2)]
    else:
        grids = [(3, 3), (2, 3), (3, 1)] if dimensions == 2 else [(2, 2, 2), (2, 2, 3), (3, 3, 1)]
    for layout, grid in itertools.product(case["layouts"], grids):
        rank, spatial, group_axis = layout
        if grid != grids[0] and (
            not conv.fits(name, grid)
            or (ctx.tier == "quick" and layout != case["layouts"][0])
        ):
            continue
        spatial = tuple(spatial)
        shape = [2] * rank
        for axis, size in zip(spatial, grid):
            shape[axis] = size
        shape[group_axis] = len(domain_indices)
        signal = lib.distinct_values(shape, "float32" if dtype == "bfloat16" else dtype)
        if dtype == "bfloat16":
            signal = ops.cast(signal, dtype)
        expected = [
            ref.act_on_group(table, g, lib.array(signal), spatial, group_axis, domain_indices)
            for g in acting_indices
        ]
        for new_axis in case["new_axes"]:
            stacked = np.stack(expected, axis=new_axis)
            kwargs = dict(spatial_axes=spatial, group_axis=group_axis, new_group_axis=new_axis)
            result = group.action(signal, acting_group=acting, domain_group=domain, **kwargs)
            found = lib.array(result)
            ctx.states()
            ctx.transitions(stacked.size)
            ctx.traces()
            ctx.require(
                str(result.dtype) == dtype,
                f"action-dtype:{name}",
                f"{name} acting on a signal on {domain} turns {dtype} into {result.dtype}",
            )
            ctx.require(
                lib.same(found, stacked),
                f"action:{name}:{acting}:{domain}",
                lambda: f"{name} acting with {acting} on a signal on {domain} of shape "
                f"{tuple(shape)}, spatial axes {spatial}, group axis {group_axis}, new axis "
                f"{new_axis}: " + lib.difference(found, stacked),
            )
            if layout == case["layouts"][0] and grid == grids[0]:
                # axes counted from the end
                for sign in list(itertools.product((0, 1), repeat=3))[1:]:
                    again = group.action(
                        signal, acting_group=acting, domain_group=domain,
                        spatial_axes=tuple(a - rank * sign[0] for a in spatial),
                        group_axis=group_axis - rank * sign[1],
                        new_group_axis=new_axis - (rank + 1) * sign[2],
                    )
                    ctx.states()
                    ctx.require(
                        lib.same(lib.array(again), stacked),
                        f"end:{name}:{acting}:{domain}",
                        lambda: f"{name} acting with {acting} on a signal on {domain}, with axes "
                        f"counted from the end {sign}: "
                        + lib.difference(lib.array(again), stacked),
                    )
            if acting == domain:
                alone = lib.array(lib.groco_groups()[acting].action(signal, **kwargs))
                ctx.count("compared_with_subgroup")
                ctx.require(
                    lib.same(found, alone),
                    f"alone:{name}:{acting}",
                    lambda: f"{acting} within {name} and by itself act differently: "
                    + lib.difference(found, alone),
                )
    ctx.outcome((name, acting, domain))


def upsample(name, group, table, domain, domain_indices, ctx):
    from keras import ops

    for rank in (1, 2, 4):
        for group_axis in range(rank):
            shape = [2, 3, 1, 2][:rank]
            shape[group_axis] = len(domain_indices)
            for dtype in ("float32", "int32", "float16", "bool", "uint8"):
                signal = lib.distinct_values(shape, dtype)
                full = list(shape)
                full[group_axis] = table.order
                expected = np.zeros(full, dtype=dtype)
                target = np.moveaxis(expected, group_axis, 0)
                for position, element in enumerate(domain_indices):
                    target[element] = np.moveaxis(signal, group_axis, 0)[position]
                result = group.upsample(ops.convert_to_tensor(signal), group_axis, domain)
                found = lib.array(result)
                again = group.upsample(ops.convert_to_tensor(signal), group_axis - rank, domain)
                ctx.require(
                    lib.same(lib.array(again), expected),
                    f"upsample-end:{name}:{domain}",
                    f"upsampling from {domain} to {name}, axis {group_axis - rank}",
                )
                ctx.states()
                ctx.traces()
                ctx.transitions(expected.size)
                ctx.require(
                    str(result.dtype) == dtype,
                    f"upsample-dtype:{name}",
                    f"upsampling turns {dtype} into {result.dtype}",
                )
                ctx.require(
                    lib.same(found, expected),
                    f"upsample:{name}:{domain}",
                    lambda: f"upsampling from {domain} to {name}, shape {shape}, axis {group_axis}: "
                    + lib.difference(found, expected),
                )
