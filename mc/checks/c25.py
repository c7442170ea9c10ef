"""
Groups made with the Group class. The parents are built from a composition table, their subgroups and
an action, once in GroCo's order of elements and once in another, for the symmetries of the square
(all 10 subgroups) and of the cube (all 98 subgroups). From each, a Group is restricted to every
subgroup, with several orders of its elements (all orders if there are few), and from that to every
one of its own subgroups. States are these groups and their elements; transitions all pairs of
elements, and of acting and domain subgroups; each is compared with explicit matrices. Traces are
runs of layers with these groups (lifting and group convolutions, transposed convolutions, poolings)
onto their subgroups, compared with a plain Keras convolution or the explicit cosets, and with
themselves transformed by every element. The named groups are restricted to every group they
declare, and along every chain of them, in the same way.
"""

import functools
import itertools

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "exhaustive enumeration of all subgroups of the symmetries of the square and the cube, as groups "
    "restricted from a parent, against explicit matrices"
)
LEVEL = "model_checking"
ASSUMPTIONS = [
    "element 0 is the identity, as for the named groups",
    "groups with these symmetries are used in layers by adding them to group_dict",
]

ROOTS = {"square": 2, "cube": 3}


@functools.lru_cache(maxsize=None)
def root_table(root, order):
    """All symmetries, in two different orders of the elements."""
    elements = lib.tables({"square": "P4M", "cube": "Oh"}[root]).elements
    if order == "other":
        elements = elements[:1] + elements[:0:-1]
    return ref.Tables(elements)


@functools.lru_cache(maxsize=None)
def subgroups(root):
    """All subgroups, as sorted tuples of matrices."""
    table = ref.Tables(
        sorted((ref.key(m) for m in ref.matrices(ROOTS[root])), key=lambda k: (-sum(k[:: ROOTS[root] + 1]), k))
    )
    composition = table.composition

    def closure(start):
        current = frozenset(start) | {0}
        while True:
            members = np.array(sorted(current))
            larger = frozenset(int(i) for i in composition[np.ix_(members, members)].reshape(-1))
            if larger == current:
                return current
            current = larger

    cyclic = {closure([i]) for i in range(table.order)}
    found, new = set(cyclic), set(cyclic)
    while new:
        new = {closure(a | b) for a in new for b in cyclic if not b <= a} - found
        found |= new
    ordered = sorted(found, key=lambda s: (len(s), sorted(s)))
    return [tuple(table.elements[i] for i in sorted(s)) for s in ordered]


def named(root, number):
    return f"{root} {number}"


def contained(root, number):
    these = set(subgroups(root)[number])
    return [i for i, s in enumerate(subgroups(root)) if set(s) <= these]


def orders(elements, all_up_to):
    """Orders of the elements that start with the identity."""
    first = ref.key(np.eye(int(len(elements[0]) ** 0.5), dtype=int))
    rest = [e for e in elements if e != first]
    if len(elements) <= all_up_to:
        chosen = list(itertools.permutations(rest))
    else:
        half = len(rest) // 2
        chosen = [tuple(rest), tuple(rest[::-1]), tuple(rest[half:] + rest[:half])]
    return [(first,) + tuple(c) for c in dict.fromkeys(chosen)]


def make_action(elements):
    """An action as a user would write it: the transformed copies along the new axis."""

    def action(signal, spatial_axes, new_group_axis):
        from keras import ops

        count = len(spatial_axes)
        shape = tuple(signal.shape[axis] for axis in spatial_axes)
        indices = np.stack([ref.source_indices(e, shape) for e in elements]).astype("int32")
        moved = ops.moveaxis(signal, spatial_axes, range(count))
        flat = ops.reshape(moved, (-1,) + tuple(moved.shape[count:]))
        copies = ops.take(flat, indices, axis=0)
        # the copies are the first axis, and now stay there until all others are in their places
        copies = ops.moveaxis(copies, range(1, 1 + count), [1 + axis for axis in spatial_axes])
        return ops.moveaxis(copies, 0, new_group_axis)

    return action


def transversal(table, members, last):
    """Representatives of all H*c, the first or the last element of each."""
    seen, result = set(), []
    for c in list(range(table.order))[:: -1 if last else 1]:
        if c not in seen:
            result.append(c)
            seen |= {int(table.composition[h][c]) for h in members}
    if last:
        # the identity represents its own coset
        result = [c for c in result if c not in members] + [0]
    return result[::-1] if last else result


def make_parent(root, order, special=None, inverses=True):
    """A Group with all subgroups declared; `special` gives one of them another order of elements."""
    from groco.groups import Group

    table = root_table(root, order)
    declared, cosets, members = {}, {}, {}
    for number, elements in enumerate(subgroups(root)):
        if len(elements) == table.order:
            name, listed = root, table.elements
        else:
            name = named(root, number)
            listed = orders(elements, 0)[number % 3 % len(orders(elements, 0))]
            if special is not None and special[0] == number:
                listed = special[1]
        members[name] = tuple(listed)
        declared[name] = [table.index[e] for e in listed]
        cosets[name] = transversal(table, declared[name], order == "other")
    group = Group(
        name=root,
        order=table.order,
        inverses=table.inverses.tolist() if inverses else None,
        composition=table.composition.tolist(),
        subgroup=declared,
        cosets=cosets,
        action=make_action(table.elements),
    )
    return group, table, members


def check_group(group, name, elements, members, dimensions, ctx, what, few, grid=2):
    """Compare a group with the matrices that are its elements, and their subgroups."""
    table = ref.Tables(elements)
    order = table.order
    ctx.states(order)
    ctx.require(
        group.name == name and int(group.order) == order,
        "name", f"{what}: called {group.name}, of order {group.order}",
    )
    ctx.transitions(order**2)
    composition, inverses = lib.array(group.composition), lib.array(group.inverses)
    ctx.require(
        np.array_equal(composition, table.composition),
        "composition", lambda: f"{what}: {lib.difference(composition, table.composition)}",
    )
    ctx.require(
        np.array_equal(inverses, table.inverses),
        "inverses", lambda: f"{what}: {lib.difference(inverses, table.inverses)}",
    )
    own = {n: m for n, m in members.items() if set(m) <= set(elements)}
    declared = {n: [int(i) for i in lib.array(v).reshape(-1)] for n, v in group.subgroup.items()}
    ctx.require(
        set(declared) == set(own) and set(group.cosets) >= set(own),
        "declared", f"{what}: declares {sorted(set(declared) ^ set(own))} wrongly",
    )
    for subgroup, listed in own.items():
        ctx.require(
            [table.elements[i] for i in declared[subgroup]] == list(listed),
            "embedding", f"{what}: {subgroup} is declared as {declared[subgroup]}",
        )
        cosets = [int(i) for i in lib.array(group.cosets[subgroup]).reshape(-1)]
        products = sorted(int(table.composition[h][c]) for h in declared[subgroup] for c in cosets)
        ctx.require(
            products == list(range(order)),
            "cosets", f"{what}: {cosets} do not represent the cosets of {subgroup}",
        )
    # actions
    axes = tuple(range(1, 1 + dimensions))
    shape = (grid,) * dimensions
    signal = np.arange(1, 1 + 2 * grid**dimensions, dtype="int32").reshape((2,) + shape)
    acting_names = list(own) if order <= few else [name] + list(own)[:: max(1, len(own) // 3)][:few]
    domains = list(own) if order <= few else acting_names
    for acting in dict.fromkeys(acting_names):
        given = "" if acting == name else acting
        found = lib.array(
            group.action(
                signal, spatial_axes=axes, new_group_axis=1, acting_group=given, domain_group=None
            )
        )
        expected = np.stack([ref.act_on_grid(e, signal, axes) for e in own[acting]], axis=1)
        ctx.transitions(len(own[acting]))
        ctx.require(
            lib.same(found, expected),
            "grid", lambda: f"{what}: {acting} on the grid: {lib.difference(found, expected)}",
        )
        for domain in dict.fromkeys(domains):
            size = len(own[domain])
            values = np.arange(1, 1 + signal.size * size, dtype="int32")
            values = values.reshape((2,) + shape + (size,))
            found = lib.array(
                group.action(
                    values, spatial_axes=axes, group_axis=1 + dimensions, new_group_axis=0,
                    acting_group=given, domain_group="" if domain == name else domain,
                )
            )
            expected = np.stack(
                [
                    ref.act_on_group(
                        table, table.index[e], values, axes, 1 + dimensions, declared[domain]
                    )
                    for e in own[acting]
                ]
            )
            ctx.transitions(len(own[acting]))
            ctx.require(
                lib.same(found, expected),
                "group",
                lambda: f"{what}: {acting} on signals on {domain}: {lib.difference(found, expected)}",
            )
    return own


def integers(shape, seed, bound=5):
    rng = np.random.default_rng([seed, *shape])
    return rng.integers(-bound, bound + 1, size=shape).astype("float32")


def equivariant(function, table, names_in, names_out, acting, signal, dimensions, ctx, what):
    """Acting on a signal, on the grid (None) or on a subgroup, gives the transformed output."""
    axes = tuple(range(1, 1 + dimensions))
    out = function(signal)
    axis = 1 + dimensions
    copies, expected = [], []
    for element in acting:
        g = table.index[element]
        if names_in is None:
            copies.append(ref.act_on_grid(element, signal, axes))
        else:
            copies.append(ref.act_on_group(table, g, signal, axes, axis, names_in))
        expected.append(ref.act_on_group(table, g, out, axes, axis, names_out))
    found = function(np.concatenate(copies))
    expected = np.concatenate(expected)
    ctx.traces(len(copies))
    ctx.require(
        lib.same(found, expected),
        "equivariance", lambda: f"{what}: {lib.difference(found, expected)}",
    )
    return out


def check_layers(group, table, own, sub, dimensions, ctx, what, seed):
    import keras

    import groco.layers

    convolution = getattr(groco.layers, f"GroupConv{dimensions}D")
    transposed = getattr(groco.layers, f"GroupConv{dimensions}DTranspose")
    plain = getattr(keras.layers, f"Conv{dimensions}D")
    sub_elements = list(own[sub])
    indices = [table.index[e] for e in sub_elements]
    everything = list(range(table.order))
    on_all = [table.elements[i] for i in everything]
    chosen = {} if sub == group.name else {"subgroup": sub}
    grid = (3,) * dimensions
    ordinary = plain(2, 2, use_bias=True)

    def run(layer):
        return lambda x: lib.array(layer(x))

    # lifting and group convolutions, with all outputs explicit
    for on_group in (False, True):
        signal = integers((1,) + grid + ((table.order,) if on_group else ()) + (2,), seed)
        layer = convolution(filters=2, kernel_size=2, group=group, **chosen)
        layer.build((None,) + signal.shape[1:])
        values = [integers(w.shape, seed + 1, 3) for w in layer.weights]
        layer.set_weights(values)
        described = f"{what}, onto {sub}, {'group' if on_group else 'lifting'} convolution"
        out = equivariant(
            run(layer), table, everything if on_group else None, indices, sub_elements, signal,
            dimensions, ctx, described,
        )
        merged = signal.reshape((1,) + grid + (-1,))
        if not ordinary.built:
            ordinary.build(merged.shape)
        kernel, bias = layer.weights[0].numpy(), layer.weights[1].numpy()
        expected = lib.array(keras.ops.conv(merged, kernel, padding="valid")) + bias.reshape(-1)
        ctx.require(
            np.array_equal(out[..., indices.index(0), :], expected),
            "ordinary",
            lambda: f"{described}: the copy of the identity is not an ordinary convolution",
        )
    signal = integers((1,) + grid + (len(indices), 2), seed)
    layer = transposed(filters=2, kernel_size=2, group=group, **chosen)
    layer.build((None,) + signal.shape[1:])
    layer.set_weights([integers(w.shape, seed + 2, 3) for w in layer.weights])
    equivariant(
        run(layer), table, indices, everything, sub_elements, signal, dimensions, ctx,
        f"{what}, from {sub}, transposed convolution",
    )
    # pooling over cosets
    signal = integers((1,) + grid + (table.order, 2), seed, 999)
    cosets = [int(i) for i in lib.array(group.cosets[sub]).reshape(-1)]
    for kind, function in (("Max", np.max), ("Average", np.mean)):
        layer = getattr(groco.layers, f"Group{kind}Pooling{dimensions}D")(
            group=group, pool_size=1, **chosen
        )
        found = lib.array(layer(signal))
        expected = np.stack(
            [
                function(
                    [signal[..., int(table.composition[h][c]), :] for c in cosets], axis=0
                )
                for h in indices
            ],
            axis=-2,
        )
        ctx.traces()
        ctx.require(
            found.shape == expected.shape and np.allclose(found, expected, rtol=1e-5, atol=1e-3),
            "pooling", lambda: f"{what}, onto {sub}, {kind}: {lib.difference(found, expected)}",
        )


class Registered:
    """Layers look up subgroups by their names."""

    def __init__(self, groups):
        self.groups = groups

    def __enter__(self):
        lib.groco_groups().update({g.name: g for g in self.groups})

    def __exit__(self, *_):
        for group in self.groups:
            lib.groco_groups().pop(group.name, None)


def chains(name):
    """All ways to restrict a named group step by step."""
    result = [[name]]
    for smaller in ref.contained(name):
        if smaller != name:
            result += [[name] + chain for chain in chains(smaller)]
    return result


def cases(tier):
    deep = tier == "thorough"
    result = []
    for root, number_of in (("square", 10), ("cube", 98)):
        for order in ("same", "other"):
            result.append(dict(kind="parent", root=root, order=order, deep=deep))
            for number in range(number_of):
                result.append(
                    dict(kind="restricted", root=root, order=order, number=number, deep=deep)
                )
    for name in ref.NAMES:
        for chain in chains(name):
            if len(chain) > 1:
                result.append(dict(kind="chain", chain=chain, deep=deep))
    return result


def affinity(case):
    return case.get("root", case.get("chain", [""])[0])


def cost(case):
    if case["kind"] == "restricted":
        return 3 + case["number"] * (1 if case["root"] == "cube" else 3)
    return 3


def run(case, ctx):
    if case["kind"] == "chain":
        run_chain(case, ctx)
    else:
        run_made(case, ctx)


def run_chain(case, ctx):
    from groco.groups import Group

    chain = case["chain"]
    name, dimensions = chain[-1], ref.dimensions_of(chain[0])
    group = lib.groco_groups()[chain[0]]
    for smaller in chain[1:]:
        group = Group(name=smaller, order=len(ref.DOCUMENTED[smaller]), parent=group)
    ctx.traces()
    members = {n: tuple(lib.tables(n).elements) for n in ref.contained(name)}
    check_group(
        group, name, lib.tables(name).elements, members, dimensions, ctx,
        " restricted to ".join(chain), 48 if case["deep"] else 4,
    )
    ctx.outcome((name, len(chain)))


def run_made(case, ctx):
    from groco.groups import Group

    root, deep = case["root"], case["deep"]
    dimensions = ROOTS[root]
    total = len(subgroups(root))
    ctx.require(total == {"square": 10, "cube": 98}[root], "harness", f"{total} subgroups")
    if case["kind"] == "parent":
        group, table, members = make_parent(root, case["order"], inverses=case["order"] == "same")
        own = check_group(
            group, root, table.elements, members, dimensions, ctx, f"the {root}", 8,
        )
        chosen = list(own) if dimensions == 2 or deep else list(own)[(case["order"] == "other") * 6 :: 12] + [root]
        with Registered([group] + [Group(name=n, order=len(own[n]), parent=group)
                                   for n in chosen if n != root]):
            for sub in chosen:
                check_layers(group, table, own, sub, dimensions, ctx, f"the {root}", ctx.seed)
        return

    number = case["number"]
    if number == total - 1:
        # the parent itself
        return
    name = named(root, number)
    elements = subgroups(root)[number]
    light = root == "cube" and not deep
    for variant, listed in enumerate(orders(elements, 6 if deep else 4)):
        if light and len(listed) > 8 and variant > (case["order"] == "same"):
            continue
        what = f"{name} of the {root}, order of elements {variant}"
        parent, _, members = make_parent(root, case["order"], (number, listed))
        group = Group(name=name, order=len(listed), parent=parent)
        own = check_group(
            group, name, listed, members, dimensions, ctx, what, 16 if deep else 4,
            2 if variant % 2 == 0 else 3,
        )
        # restricting once more
        smaller = {}
        for sub in own:
            if sub == name:
                continue
            smaller[sub] = Group(name=sub, order=len(own[sub]), parent=group)
            check_group(
                smaller[sub], sub, own[sub], members, dimensions, ctx, f"{sub} of {what}",
                8 if deep else 1,
            )
        if not deep and variant > 1:
            continue
        if light and variant + (case["order"] == "other") != number % 2:
            continue
        table = ref.Tables(listed)
        subs = list(own)
        if not deep and len(subs) > 4:
            subs = [name] + [s for s in subs if s != name][number % 4 :: 8 if light else 4]
        with Registered([group] + list(smaller.values())):
            for sub in subs:
                check_layers(group, table, own, sub, dimensions, ctx, what, ctx.seed)
        ctx.outcome((len(listed), len(own)))
