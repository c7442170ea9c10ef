"""
Every placement of the spatial axes, the group axis and the new axis in signals up to a rank bound
(at the lowest rank also counted from the end, in all combinations),
for every group and acting subgroup, on square and non-square grids and in several dtypes (states
are signals in a layout); each entry of each transformed copy (transitions) of the real action is
compared with an explicit index model.
"""

import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "exhaustive enumeration of axis layouts, groups, acting subgroups and grid positions, "
    "comparing every entry of the real action with an explicit index model"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "an action moves values without changing them, so a signal of distinct values determines it",
]
CHUNK = 6


def placements(dimensions, on_group, rank, every=True):
    """
    All (spatial axes, group axis) in a signal of this rank, optionally without those that only
    differ in the order in which the spatial axes are given.
    """
    choose = itertools.permutations if every else itertools.combinations
    spatials = choose(range(rank), dimensions)
    for spatial in spatials:
        if not on_group:
            yield spatial, None
        else:
            for axis in range(rank):
                if axis not in spatial:
                    yield spatial, axis


def grids(name, tier):
    """Grid shapes the group maps to themselves."""
    if ref.dimensions_of(name) == 2:
        candidates = [(3, 3), (2, 4), (1, 2)] if tier == "quick" else [
            (a, b) for a in range(1, 6) for b in range(1, 6)
        ]
    else:
        candidates = [(2, 2, 2), (3, 3, 2), (2, 3, 1)] if tier == "quick" else [
            (a, b, c) for a in range(1, 4) for b in range(1, 4) for c in range(1, 4)
        ]
    return [
        shape
        for shape in candidates
        if all(ref.keeps_shape(m, shape) for m in ref.DOCUMENTED[name])
    ]


def signs(name, extra, spatial, deep):
    """
    Which of the spatial, group and new axes are counted from the end, in all combinations at the
    lowest rank (in 3D for one group and increasing axes), and otherwise none or all.
    """
    number = len(spatial) + 2
    if not extra and (deep or len(spatial) == 2 or name == "D4" and sorted(spatial) == list(spatial)):
        return list(itertools.product((0, 1), repeat=number))
    if not extra and name != "Oh":
        return [(0,) * number, (1,) * number]
    return [(0,) * number]


def cases(tier):
    result = []
    deep = tier == "thorough"
    for name in ref.NAMES:
        dimensions = ref.dimensions_of(name)
        for on_group in (False, True):
            minimum = dimensions + on_group
            extra = 2 if dimensions == 2 or deep else 1
            if dimensions == 2 and on_group and not deep:
                extra = 1
            for rank in range(minimum, minimum + extra + 1):
                every = dimensions == 2 or deep or (name == "D4" and rank == minimum)
                for spatial, group_axis in placements(dimensions, on_group, rank, every):
                    acting = ref.contained(name) if deep else [name]
                    result.append(
                        {
                            "group": name,
                            "acting": acting,
                            "rank": rank,
                            "spatial": spatial,
                            "group_axis": group_axis,
                            "grids": grids(name, tier)[:1],
                            "dtypes": ["float32"],
                            "signs": signs(name, rank - minimum, spatial, deep),
                        }
                    )
            # all acting subgroups, grids and dtypes in the layouts of the layers
            for rank, spatial, group_axis in [
                (dimensions + 2 + on_group, tuple(range(1, 1 + dimensions)), 1 + dimensions),
                (dimensions + 2 + on_group, tuple(range(2, 2 + dimensions)), 2 + dimensions),
                (dimensions + on_group, tuple(range(dimensions)), dimensions),
            ]:
                for sub in ref.contained(name):
                    result.append(
                        {
                            "group": name,
                            "acting": [sub],
                            "rank": rank,
                            "spatial": spatial,
                            "group_axis": group_axis if on_group else None,
                            "grids": grids(name, tier),
                            "dtypes": ["float32"],
                        }
                    )
                for dtype in ("int32", "float16", "bfloat16", "uint8", "bool"):
                    result.append(
                        {
                            "group": name,
                            "acting": [name],
                            "rank": rank,
                            "spatial": spatial,
                            "group_axis": group_axis if on_group else None,
                            "grids": grids(name, tier)[:1],
                            "dtypes": [dtype],
                            "default_new_axis": True,
                        }
                    )
    return result


def affinity(case):
    return (case["group"], case["rank"])


def cost(case):
    order = len(ref.DOCUMENTED[case["group"]])
    return order * len(case["acting"]) * len(case["grids"]) * (case["rank"] + 1)


def make_signal(shape, dtype, rng):
    size = int(np.prod(shape))
    if dtype in ("float32", "int32"):
        return lib.distinct_values(shape, dtype)
    if dtype == "bool":
        return rng.integers(0, 2, size=shape).astype(bool)
    return rng.integers(0, 200, size=shape)


def run(case, ctx):
    from keras import ops

    name = case["group"]
    group = lib.groco_groups()[name]
    table = lib.tables(name)
    spatial, group_axis, rank = tuple(case["spatial"]), case["group_axis"], case["rank"]
    rng = lib.generator(ctx.seed, case)
    for grid in case["grids"]:
        shape = [2] * rank
        for axis, size in zip(spatial, grid):
            shape[axis] = size
        if group_axis is not None:
            shape[group_axis] = table.order
        for dtype in case["dtypes"]:
            signal = make_signal(shape, dtype, rng)
            tensor = ops.cast(ops.convert_to_tensor(signal), dtype)
            reference = lib.array(tensor)
            new_axes = [None] if case.get("default_new_axis") else range(rank + 1)
            for sub in case["acting"]:
                acting = lib.subgroup_indices(name, sub)
                expected = []
                for g in acting:
                    if group_axis is None:
                        expected.append(ref.act_on_grid(table.elements[g], reference, spatial))
                    else:
                        expected.append(
                            ref.act_on_group(table, g, reference, spatial, group_axis)
                        )
                none = (0,) * (len(spatial) + 2)
                for new_axis, sign in itertools.product(new_axes, case.get("signs", [none])):
                    from_end = [-rank * bit for bit in sign]
                    if group_axis is None and sign[-2]:
                        continue
                    kwargs = {}
                    if new_axis is not None:
                        kwargs["new_group_axis"] = new_axis - (rank + 1) * sign[-1]
                    if sub != name or new_axis:
                        kwargs["acting_group"] = sub
                    if group_axis is None:
                        kwargs["domain_group"] = None
                    else:
                        kwargs["group_axis"] = group_axis + from_end[-2]
                    given = tuple(axis + shift for axis, shift in zip(spatial, from_end))
                    actual = group.action(tensor, spatial_axes=given, **kwargs)
                    stacked = np.stack(expected, axis=new_axis or 0)
                    found = lib.array(actual)
                    ctx.states()
                    ctx.traces()
                    ctx.transitions(stacked.size)
                    ctx.require(
                        str(actual.dtype) == dtype,
                        f"dtype:{name}",
                        f"{name} turns {dtype} into {actual.dtype}",
                    )
                    ctx.require(
                        lib.same(found, stacked),
                        f"action:{name}:{sub}",
                        lambda: f"{name} acting with {sub} on shape {tuple(shape)}, spatial axes "
                        f"{given}, group axis {group_axis}, new axis {new_axis}, from the end "
                        f"{sign}: "
                        + lib.difference(found, stacked),
                    )
    ctx.outcome((name, rank, group_axis is None, case["acting"][0]))
