"""
Helpers shared by the checks, to drive the real code through its public interface only.
"""

import functools
import itertools
import json

import numpy as np

from mc import ref
from mc.core import Violation


def groco_groups():
    from groco.groups import group_dict

    return group_dict


def array(tensor):
    from keras import ops

    return np.asarray(ops.convert_to_numpy(tensor))


@functools.lru_cache(maxsize=None)
def tables(name):
    """
    The reference tables of a named group, in the element order that its action declares.

    Each element is identified by what its action does to a signal with all values distinct.
    """
    group = groco_groups()[name]
    dimensions = ref.dimensions_of(name)
    signal = np.arange(3**dimensions, dtype="float32").reshape((3,) * dimensions)
    copies = array(
        group.action(
            signal, spatial_axes=tuple(range(dimensions)), new_group_axis=0, domain_group=None
        )
    )
    elements = []
    candidates = [ref.key(m) for m in ref.matrices(dimensions)]
    for i, copy in enumerate(copies):
        matching = [
            k
            for k in candidates
            if np.array_equal(ref.act_on_grid(k, signal, tuple(range(dimensions))), copy)
        ]
        if len(matching) != 1:
            raise Violation(
                f"element:{name}", f"element {i} of {name} does not act as a symmetry of the grid"
            )
        elements.append(matching[0])
    if len(set(elements)) != len(elements):
        raise Violation(f"elements:{name}", f"elements of {name} do not act distinctly")
    return ref.Tables(elements)


def subgroup_indices(name, subgroup):
    group = groco_groups()[name]
    return [int(i) for i in np.asarray(array(group.subgroup[subgroup or name])).reshape(-1)]


def coset_indices(name, subgroup):
    group = groco_groups()[name]
    return [int(i) for i in np.asarray(array(group.cosets[subgroup or name])).reshape(-1)]


def pairs(names=ref.NAMES):
    """All (group, subgroup) that are documented to be contained."""
    return [(name, sub) for name in names for sub in ref.contained(name)]


def deviations(dimensions, bound):
    """
    All combinations of values that differ from the defaults (the first values) in at most `bound`
    places, those with fewest deviations first.
    """
    names = list(dimensions)
    result = []
    for number in range(bound + 1):
        for chosen in itertools.combinations(names, number):
            for values in itertools.product(*(dimensions[name][1:] for name in chosen)):
                case = {name: dimensions[name][0] for name in names}
                case.update(zip(chosen, values))
                result.append(case)
    return result


def unique(cases):
    seen, result = set(), []
    for case in cases:
        k = json.dumps(case, sort_keys=True)
        if k not in seen:
            seen.add(k)
            result.append(case)
    return result


def as_tuple(value, dimensions):
    if isinstance(value, (tuple, list)):
        return tuple(int(v) for v in value)
    return (int(value),) * dimensions


def layer_class(name):
    import groco.layers

    return getattr(groco.layers, name)


class Layout:
    """Where the axes of a signal are, for a data format."""

    def __init__(self, dimensions, data_format, on_group):
        self.dimensions, self.data_format, self.on_group = dimensions, data_format, on_group
        first = 2 if data_format == "channels_first" else 1
        self.spatial_axes = tuple(range(first, first + dimensions))
        self.group_axis = first + dimensions if on_group else None

    def shape(self, batch, spatial, order, channels):
        group = (order,) if self.on_group else ()
        if self.data_format == "channels_first":
            return (batch, channels) + tuple(spatial) + group
        return (batch,) + tuple(spatial) + group + (channels,)

    def canonical(self, signal):
        """To (batch, *spatial, group, channels), with a group axis of size one if there is none."""
        if self.data_format == "channels_first":
            signal = np.moveaxis(signal, 1, -1)
        if not self.on_group:
            signal = np.expand_dims(signal, self.dimensions + 1)
        return signal

    def from_canonical(self, signal):
        if not self.on_group:
            signal = np.squeeze(signal, self.dimensions + 1)
        if self.data_format == "channels_first":
            signal = np.moveaxis(signal, -1, 1)
        return signal


def canonical_input(layout, batch, spatial, order, channels):
    return (batch,) + tuple(spatial) + ((order if layout.on_group else 1), channels)


def permutation_on_units(table, element, spatial, domain, channels):
    """
    For units (spatial, group, channels) of a canonical signal: moved[u] is the unit whose value the
    transformed signal has at unit u, or -1 if that is zero. `domain` None means no group axis.
    """
    size = len(domain) if domain is not None else 1
    units = np.arange(1, int(np.prod(spatial)) * size * channels + 1)
    units = units.reshape(tuple(spatial) + (size, channels))
    axes = tuple(range(len(spatial)))
    if domain is None:
        moved = ref.act_on_grid(table.elements[element], units, axes)
    else:
        moved = ref.act_on_group(table, element, units, axes, len(spatial), domain)
    return moved.reshape(-1) - 1


def one_hot_batch(layout, spatial, order, channels, dtype="float32"):
    """All unit impulses as one batch, in canonical unit order."""
    shape = canonical_input(layout, 1, spatial, order, channels)[1:]
    units = int(np.prod(shape))
    batch = np.eye(units, dtype=dtype).reshape((units,) + shape)
    return layout.from_canonical(batch)


def call_in_batches(layer, inputs, limit=2**24):
    """Call a layer on a large batch in pieces of equal size, to bound memory."""
    per_sample = max(1, int(np.prod(inputs.shape[1:])))
    size = max(1, min(len(inputs), limit // per_sample))
    if size >= len(inputs):
        return array(layer(inputs))
    outputs = []
    for start in range(0, len(inputs), size):
        piece = inputs[start : start + size]
        missing = size - len(piece)
        if missing:
            piece = np.concatenate([piece, np.zeros((missing,) + piece.shape[1:], piece.dtype)])
        out = array(layer(piece))
        outputs.append(out[: size - missing] if missing else out)
    return np.concatenate(outputs)


def call_padded(layer, inputs, batch):
    """Call a layer on inputs filled up with zeros to a batch size that it was called with before."""
    if len(inputs) >= batch:
        return array(layer(inputs))
    filler = np.zeros((batch - len(inputs),) + inputs.shape[1:], inputs.dtype)
    return call_in_batches(layer, np.concatenate([inputs, filler]))[: len(inputs)]


def numbered_weights(layer):
    """Set every kernel weight to its own distinct integer and the biases to zero."""
    weights = layer.get_weights()
    kernel = np.arange(1, weights[0].size + 1, dtype="float32").reshape(weights[0].shape)
    if weights[0].size >= 2**24:
        raise RuntimeError("too many weights to number them in float32")
    layer.set_weights([kernel] + [np.zeros_like(w) for w in weights[1:]])
    return kernel


def connectivity(layer, layout, spatial, order, channels):
    """
    The explicit model of a layer that is linear in its input and in its kernel: for every input
    unit and output unit, the number (from 1) of the kernel weight connecting them, 0 if none.

    Extracted by running the real layer on all unit impulses with all weights distinct.
    Returns (inputs, *output shape in canonical layout).
    """
    inputs = one_hot_batch(layout, spatial, order, channels)
    if not layer.built:
        layer.build(inputs.shape)
    numbered_weights(layer)
    outputs = call_in_batches(layer, inputs)
    rounded = np.rint(outputs).astype(np.int64)
    if not np.array_equal(rounded, outputs):
        raise Violation("connectivity", "an impulse response is not a single kernel weight")
    output_layout = Layout(layout.dimensions, layout.data_format, True)
    if rounded.ndim != layout.dimensions + 3:
        raise Violation("rank", f"output of shape {rounded.shape} has no group axis")
    return output_layout.canonical(rounded)


def apply_connectivity(table, kernel, bias, inputs):
    """The output of the explicit model for dense canonical inputs: exact in integers."""
    weights = np.concatenate([[0], np.asarray(kernel).reshape(-1)]).astype(np.float64)
    matrix = weights[table].reshape(table.shape[0], -1)
    flat = np.asarray(inputs, dtype=np.float64).reshape(len(inputs), -1)
    outputs = (flat @ matrix).reshape((len(inputs),) + table.shape[1:])
    return outputs if bias is None else outputs + np.asarray(bias, dtype=np.float64)


def integers(rng, shape, bound=3):
    return rng.integers(-bound, bound + 1, size=shape).astype("float32")


def generator(seed, case):
    import hashlib

    digest = hashlib.sha1(json.dumps([seed, case], sort_keys=True).encode()).digest()
    return np.random.default_rng(int.from_bytes(digest[:8], "big"))


def expected_total(size, kernel, stride, dilation, padding, allow=False):
    """
    The total padding a layer should do along an axis: (accepted, total).
    """
    extent = (kernel - 1) * dilation + 1
    padding = padding.lower()
    same = padding.startswith("same")
    best = ref.equivariant_total(size, extent, stride, same)
    standard = ref.standard_total(size, extent, stride, same)
    if padding.endswith("_equiv"):
        return best is not None, best
    if allow:
        return True, standard
    return best == standard, standard


def conv_reference(
    table, domain, acting, spatial, kernel, strides, dilation, totals, channels, filters, befores=None,
    groups=1,
):
    """
    The connectivity of the documented group convolution: output (y, g, f) gets input (x, h, c)
    through kernel weight (g^-1 u, g^-1 h, c, f) if x = s*y - p + d*u.

    domain: elements of the group the input lives on, None for the grid.
    acting: elements of the group convolved with.
    """
    dimensions = len(spatial)
    order = len(domain) if domain is not None else 1
    # with several feature groups, each kernel only sees its own block of the channels
    block = channels // groups
    block_filters = filters // groups
    befores = [t // 2 for t in totals] if befores is None else befores
    extents = [(k - 1) * d + 1 for k, d in zip(kernel, dilation)]
    out_spatial = [
        (n + t - e) // s + 1 for n, t, e, s in zip(spatial, totals, extents, strides)
    ]
    numbers = np.arange(1, int(np.prod(kernel)) * order * block * filters + 1)
    numbers = numbers.reshape(tuple(kernel) + (order, block, filters))
    axes = tuple(range(dimensions))
    result = np.zeros(
        tuple(spatial) + (order, channels) + tuple(out_spatial) + (len(acting), filters),
        dtype=np.int64,
    )
    transformed = []
    for g in acting:
        if domain is None:
            transformed.append(ref.act_on_grid(table.elements[g], numbers, axes))
        else:
            transformed.append(
                ref.act_on_group(table, g, numbers, axes, dimensions, domain)
            )
    transformed = np.stack(transformed, axis=-2)  # (*kernel, order, block, acting, filters)
    full = np.zeros(tuple(kernel) + (order, channels, len(acting), filters), dtype=np.int64)
    for j in range(groups):
        fs = slice(j * block_filters, (j + 1) * block_filters)
        cs = slice(j * block, (j + 1) * block)
        full[..., cs, :, fs] = transformed[..., fs]
    for y in itertools.product(*[range(n) for n in out_spatial]):
        for u in itertools.product(*[range(k) for k in kernel]):
            x = tuple(
                s * yi - p + d * ui
                for s, yi, p, d, ui in zip(strides, y, befores, dilation, u)
            )
            if all(0 <= xi < n for xi, n in zip(x, spatial)):
                result[x + (slice(None), slice(None)) + y] = full[u]
    units = int(np.prod(spatial)) * order * channels
    return result.reshape((units,) + tuple(out_spatial) + (len(acting), filters))


def transposed_reference(
    table, domain, acting, spatial, kernel, strides, dilation, crops, channels, filters
):
    """
    The connectivity of the documented transposed group convolution: output (y, g, f) gets input
    (x, h, c) through kernel weight (g^-1 u, f, g^-1 h, c) if y = s*x + d*u - crop, where
    the kernel is zero for g^-1 h outside the domain.

    crops: (before, after) per axis of the full output.
    """
    dimensions = len(spatial)
    order = len(domain) if domain is not None else 1
    extents = [(k - 1) * d + 1 for k, d in zip(kernel, dilation)]
    out_spatial = [
        (n - 1) * s + e - before - after
        for n, s, e, (before, after) in zip(spatial, strides, extents, crops)
    ]
    numbers = np.arange(1, int(np.prod(kernel)) * order * channels * filters + 1)
    numbers = numbers.reshape(tuple(kernel) + (filters, order, channels))
    numbers = np.moveaxis(numbers, dimensions, -1)  # (*kernel, order, channels, filters)
    axes = tuple(range(dimensions))
    transformed = []
    for g in acting:
        if domain is None:
            transformed.append(ref.act_on_grid(table.elements[g], numbers, axes))
        else:
            transformed.append(ref.act_on_group(table, g, numbers, axes, dimensions, domain))
    transformed = np.stack(transformed, axis=-2)
    result = np.zeros(
        tuple(spatial) + (order, channels) + tuple(out_spatial) + (len(acting), filters),
        dtype=np.int64,
    )
    for x in itertools.product(*[range(n) for n in spatial]):
        for u in itertools.product(*[range(k) for k in kernel]):
            y = tuple(
                s * xi + d * ui - before
                for s, xi, d, ui, (before, _) in zip(strides, x, dilation, u, crops)
            )
            if all(0 <= yi < n for yi, n in zip(y, out_spatial)):
                result[x + (slice(None), slice(None)) + y] = transformed[u]
    units = int(np.prod(spatial)) * order * channels
    return result.reshape((units,) + tuple(out_spatial) + (len(acting), filters))


def distinct_values(shape, dtype):
    """
    A signal of distinct values, that includes those which do not survive all arithmetic: integers
    that are not representable in float32, infinities and nan.
    """
    size = int(np.prod(shape))
    values = np.arange(1, size + 1)
    if dtype == "int32":
        values = values + 2**24
    signal = values.astype(dtype)
    if dtype.startswith("float"):
        special = [np.inf, -np.inf, np.nan][: size - 1]
        signal[: len(special)] = special
    return signal.reshape(shape)


def same(a, b):
    """Whether arrays are equal, with nan equal to nan."""
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))


def difference(a, b):
    """A short description of the first place two arrays differ."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return f"shapes {a.shape} and {b.shape} differ"
    where = np.argwhere(~((a == b) | ((a != a) & (b != b))))
    if len(where) == 0:
        return "no difference"
    first = tuple(int(i) for i in where[0])
    return f"{len(where)} of {a.size} entries differ, first at {first}: {a[first]} instead of {b[first]}"
