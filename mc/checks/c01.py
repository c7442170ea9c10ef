"""
For every named group: the complete set of its elements (states) and all pairs and triples of them
(transitions) are enumerated. Elements are read off the real action on signals with all values
distinct, for many grid shapes and every position, and compared with explicit matrices of the
documented symmetries; the published tables are then checked against these matrices.
"""

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "explicit-state enumeration of all group elements, pairs and triples against a matrix model, "
    "bound to the code by probing the real actions at every grid position"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "an action moves values without changing them, so a signal of distinct values determines it",
    "groups and their documented symmetries: README and module documentation",
]


def cases(tier):
    result = []
    for name in ref.NAMES:
        dimensions = ref.dimensions_of(name)
        limit = {2: 6, 3: 4} if tier == "quick" else {2: 9, 3: 5}
        shapes = [
            shape
            for shape in np.ndindex(*(limit[dimensions],) * dimensions)
            for shape in [tuple(int(n) + 1 for n in shape)]
            if all(ref.keeps_shape(m, shape) for m in ref.DOCUMENTED[name])
        ]
        result.append({"group": name, "part": "tables"})
        for start in range(0, len(shapes), 12):
            result.append(
                {"group": name, "part": "shapes", "shapes": shapes[start : start + 12]}
            )
    return result


def run(case, ctx):
    name = case["group"]
    group = lib.groco_groups()[name]
    table = lib.tables(name)
    if case["part"] == "tables":
        check_tables(name, group, table, ctx)
    else:
        check_shapes(name, group, table, [tuple(s) for s in case["shapes"]], ctx)


def check_tables(name, group, table, ctx):
    documented = ref.DOCUMENTED[name]
    require = ctx.require
    order = len(documented)
    ctx.states(order)
    require(group.name == name, f"name:{name}", f"{name} is called {group.name}")
    require(
        int(group.order) == order == table.order,
        f"order:{name}",
        f"{name} has order {group.order} and {table.order} elements, documented are {order}",
    )
    require(
        set(table.elements) == documented,
        f"elements:{name}",
        f"the elements of {name} are not its documented symmetries",
    )
    identity = ref.key(np.eye(ref.dimensions_of(name), dtype=int))
    require(table.elements[0] == identity, f"identity:{name}", f"element 0 of {name} moves")

    composition = lib.array(group.composition)
    inverses = lib.array(group.inverses)
    require(
        composition.shape == (order, order) and inverses.shape == (order,),
        f"tableshape:{name}",
        f"tables of {name} have shapes {composition.shape}, {inverses.shape}",
    )
    for i in range(order):
        require(
            table.elements[int(inverses[i])] == ref.invert(table.elements[i]),
            f"inverse:{name}",
            f"{name}: inverses[{i}] = {inverses[i]} is not the inverse of element {i}",
        )
        for j in range(order):
            ctx.transitions()
            require(
                table.elements[int(composition[i][j])]
                == ref.multiply(table.elements[i], table.elements[j]),
                f"composition:{name}",
                f"{name}: composition[{i}][{j}] = {composition[i][j]} is not element {j} and then {i}",
            )
    # the axioms of the tables by themselves, over all triples
    everything = np.arange(order)
    require(
        all(set(row) == set(everything) for row in composition)
        and all(set(column) == set(everything) for column in composition.T),
        f"latin:{name}",
        f"composition of {name} is not a Latin square",
    )
    left = composition[composition[:, :, None], everything[None, None, :]]
    right = composition[everything[:, None, None], composition[None, :, :]]
    ctx.transitions(order**3)
    require(
        np.array_equal(left, right),
        f"associative:{name}",
        f"composition of {name} is not associative: {lib.difference(left, right)}",
    )
    require(
        np.array_equal(composition[everything, inverses], np.zeros(order))
        and np.array_equal(composition[inverses, everything], np.zeros(order)),
        f"inverse-axiom:{name}",
        f"an element of {name} composed with its inverse is not the identity",
    )
    # acting twice, with the real action on the real action
    dimensions = ref.dimensions_of(name)
    signal = np.arange(4**dimensions, dtype="float32").reshape((4,) * dimensions)
    axes = tuple(range(dimensions))
    once = lib.array(group.action(signal, spatial_axes=axes, new_group_axis=0, domain_group=None))
    shifted = tuple(a + 1 for a in axes)
    twice = lib.array(
        group.action(once, spatial_axes=shifted, new_group_axis=0, domain_group=None)
    )
    for i in range(order):
        for j in range(order):
            ctx.traces()
            require(
                np.array_equal(twice[i][j], once[int(composition[i][j])]),
                f"acting-twice:{name}",
                f"{name}: acting with {j} and then {i} is not acting with composition[{i}][{j}]",
            )
    ctx.outcome((name, order))


def check_shapes(name, group, table, shapes, ctx):
    axes = tuple(range(ref.dimensions_of(name)))
    for shape in shapes:
        signal = np.arange(int(np.prod(shape)), dtype="float32").reshape(shape)
        copies = lib.array(
            group.action(signal, spatial_axes=axes, new_group_axis=0, domain_group=None)
        )
        for i, element in enumerate(table.elements):
            expected = ref.act_on_grid(element, signal, axes)
            ctx.transitions(signal.size)
            ctx.traces()
            ctx.require(
                np.array_equal(copies[i], expected),
                f"action:{name}",
                lambda: f"{name}: element {i} on a grid of shape {shape}: "
                + lib.difference(copies[i], expected),
            )
        ctx.states(len(table.elements))
