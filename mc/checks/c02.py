"""
All pairs and chains of named groups of the same dimension, and all their elements (states):
documented containment of their symmetries implies a declared embedding in the right order, and
coset representatives give every element as a unique product (transitions: all pairs of subgroup
elements and representatives). Elements are those read off the real actions.
"""

import numpy as np

from mc import lib, ref

TECHNIQUE = (
    "explicit-state enumeration of all pairs and chains of groups and their elements and cosets "
    "against a matrix model extracted from the real actions"
)
LEVEL = "model_checking"
ASSUMPTIONS = ["cosets are those of the form H*c, as pooling over a subgroup uses them"]


def cases(tier):
    result = [{"kind": "declared", "group": name} for name in ref.NAMES]
    for name, sub in lib.pairs():
        result.append({"kind": "pair", "group": name, "sub": sub})
        for smaller in ref.contained(sub):
            result.append({"kind": "chain", "group": name, "sub": sub, "smaller": smaller})
    return result


def run(case, ctx):
    name = case["group"]
    group = lib.groco_groups()[name]
    table = lib.tables(name)
    if case["kind"] == "declared":
        names = set(ref.contained(name))
        ctx.states()
        ctx.transitions(len(names))
        for attribute in ("subgroup", "cosets"):
            declared = set(getattr(group, attribute))
            ctx.require(
                declared >= names,
                f"missing:{name}",
                f"{name} contains {sorted(names - declared)} but does not declare them in {attribute}",
            )
            wrong = {
                n for n in declared - names if n in ref.NAMES
            }
            ctx.require(
                not wrong, f"wrong:{name}", f"{name} declares {sorted(wrong)} in {attribute}"
            )
        return

    sub = case["sub"]
    sub_table = lib.tables(sub)
    indices = lib.subgroup_indices(name, sub)
    ctx.states(len(indices))
    ctx.require(
        len(set(indices)) == len(indices) == sub_table.order,
        f"size:{name}:{sub}",
        f"{name} declares {sub} as {indices}, of order {sub_table.order}",
    )
    for i, index in enumerate(indices):
        ctx.transitions()
        ctx.require(
            0 <= index < table.order and table.elements[index] == sub_table.elements[i],
            f"embedding:{name}:{sub}",
            f"{name} declares element {index} as the {i}th of {sub}, which acts differently",
        )
    if case["kind"] == "chain":
        smaller = case["smaller"]
        inner = lib.subgroup_indices(sub, smaller)
        direct = lib.subgroup_indices(name, smaller)
        through = [indices[i] for i in inner]
        ctx.traces()
        ctx.require(
            direct == through,
            f"chain:{name}:{sub}:{smaller}",
            f"{smaller} in {name} is {direct} but through {sub} it is {through}",
        )
        return

    cosets = lib.coset_indices(name, sub)
    ctx.require(
        len(cosets) * len(indices) == table.order,
        f"cosets:{name}:{sub}",
        f"{name} has {len(cosets)} coset representatives {cosets} of {sub}",
    )
    ctx.require(
        0 in cosets, f"cosets:{name}:{sub}", f"the identity does not represent a coset of {sub}"
    )
    composition = lib.array(group.composition)
    reached = {}
    for h in indices:
        for c in cosets:
            ctx.transitions()
            by_matrix = table.index[ref.multiply(table.elements[h], table.elements[c])]
            ctx.require(
                int(composition[h][c]) == by_matrix,
                f"composition:{name}",
                f"composition[{h}][{c}] of {name} is {composition[h][c]}, not {by_matrix}",
            )
            ctx.require(
                by_matrix not in reached,
                f"cosets:{name}:{sub}",
                f"element {by_matrix} of {name} is both {reached.get(by_matrix)} and {(h, c)} of "
                f"{sub} and its coset representatives",
            )
            reached[by_matrix] = (h, c)
    ctx.traces()
    ctx.require(
        len(reached) == table.order,
        f"cosets:{name}:{sub}",
        f"the cosets of {sub} do not cover {name}",
    )
    ctx.outcome((name, sub, np.sum(cosets)))
