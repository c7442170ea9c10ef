"""
The reference model: the documented groups as explicit signed permutation matrices, and what they
do to signals, written independently of GroCo in plain numpy.

A symmetry g of the grid is an integer matrix M with one +-1 per row and column. It moves the value
at (centred) position x to position M x. Nothing here imports groco, keras or jax.
"""

import functools
import itertools

import numpy as np


def matrices(dimensions):
    result = []
    for permutation in itertools.permutations(range(dimensions)):
        for signs in itertools.product((1, -1), repeat=dimensions):
            matrix = np.zeros((dimensions, dimensions), dtype=int)
            for row, (column, sign) in enumerate(zip(permutation, signs)):
                matrix[row, column] = sign
            result.append(matrix)
    return result


def key(matrix):
    return tuple(int(v) for v in np.asarray(matrix).reshape(-1))


def unkey(k):
    dimensions = int(round(len(k) ** 0.5))
    return np.array(k).reshape(dimensions, dimensions)


def multiply(a, b):
    return key(unkey(a) @ unkey(b))


def invert(a):
    return key(unkey(a).T)


def det(a):
    return int(round(np.linalg.det(unkey(a))))


def _documented_groups():
    all2 = [key(m) for m in matrices(2)]
    all3 = [key(m) for m in matrices(3)]
    diagonal = [k for k in all2 if k[1] == 0]
    return {
        # axis 0 is the height, axis 1 the width
        "P1": {(1, 0, 0, 1)},
        "P2": {(1, 0, 0, 1), (-1, 0, 0, -1)},
        "PMh": {(1, 0, 0, 1), (-1, 0, 0, 1)},
        "PMw": {(1, 0, 0, 1), (1, 0, 0, -1)},
        "P2MM": set(diagonal),
        "P4": {k for k in all2 if det(k) == 1},
        "P4M": set(all2),
        "D4": {k for k in all3 if k[8] != 0 and det(k) == 1},
        "D4h": {k for k in all3 if k[8] != 0},
        "O": {k for k in all3 if det(k) == 1},
        "Oh": set(all3),
    }


DOCUMENTED = _documented_groups()
WALLPAPER = ["P1", "P2", "PMw", "PMh", "P2MM", "P4", "P4M"]
SPACE = ["D4", "D4h", "O", "Oh"]
NAMES = WALLPAPER + SPACE


def dimensions_of(name):
    return 2 if name in WALLPAPER else 3


def contained(name):
    """The named groups contained in this one, by their documented symmetries."""
    return [
        other
        for other in NAMES
        if dimensions_of(other) == dimensions_of(name) and DOCUMENTED[other] <= DOCUMENTED[name]
    ]


def moved_shape(matrix, shape):
    """The shape of a grid after the symmetry is applied."""
    return tuple(shape[int(np.flatnonzero(row)[0])] for row in unkey(matrix))


def keeps_shape(matrix, shape):
    return moved_shape(matrix, shape) == tuple(shape)


@functools.lru_cache(maxsize=None)
def source_indices(matrix, shape):
    """
    The flat index in the old grid that each position in the transformed grid gets its value from:
    new[x] = old[g^-1 x].
    """
    m = unkey(matrix)
    new_shape = moved_shape(matrix, shape)
    coordinates = np.stack(np.meshgrid(*[np.arange(n) for n in new_shape], indexing="ij"), axis=-1)
    centred = 2 * coordinates - (np.array(new_shape) - 1)
    old = centred @ m  # rows are x^T, (M^-1 x)^T = (M^T x)^T = x^T M
    old = (old + np.array(shape) - 1) // 2
    return np.ravel_multi_index(tuple(np.moveaxis(old, -1, 0)), shape)


def act_on_grid(matrix, array, spatial_axes):
    """Transform an array, with the spatial axes anywhere."""
    array = np.asarray(array)
    count = len(spatial_axes)
    moved = np.moveaxis(array, spatial_axes, range(count))
    shape = moved.shape[:count]
    flat = moved.reshape((-1,) + moved.shape[count:])
    result = flat[source_indices(matrix, shape)]
    return np.moveaxis(result, range(count), spatial_axes)


class Tables:
    """
    A group as a list of matrices in a given order, with its tables derived from them.
    """

    def __init__(self, elements):
        self.elements = [tuple(e) for e in elements]
        self.index = {e: i for i, e in enumerate(self.elements)}
        self.order = len(self.elements)

    @functools.cached_property
    def composition(self):
        """composition[i][j]: first j, then i."""
        return np.array(
            [[self.index[multiply(a, b)] for b in self.elements] for a in self.elements]
        )

    @functools.cached_property
    def inverses(self):
        return np.array([self.index[invert(a)] for a in self.elements])


def act_on_group(tables, g, array, spatial_axes, group_axis, domain=None):
    """
    Transform a signal on the group, or zero-extended on the elements `domain` of it, by element g:
    new[x, h] = old[g^-1 x, g^-1 h].
    """
    array = np.asarray(array)
    domain = list(range(tables.order)) if domain is None else [int(d) for d in domain]
    position = {d: i for i, d in enumerate(domain)}
    row = tables.composition[tables.inverses[g]]
    # elements outside of the domain count as zero
    sources = [position.get(int(row[h]), -1) for h in domain]
    permuted = np.take(array, sources, axis=group_axis)
    if -1 in sources:
        outside = [i for i, source in enumerate(sources) if source == -1]
        permuted[(slice(None),) * (group_axis % array.ndim) + (outside,)] = 0
    return act_on_grid(tables.elements[g], permuted, spatial_axes)


# padding


def built_in_same(size, kernel, stride):
    """The total padding of 'same', as TensorFlow and Keras define it."""
    return max((-(-size // stride) - 1) * stride + kernel - size, 0)


def equivariant_total(size, kernel, stride, same):
    """
    The smallest even total padding, not below that of the base option, for which the last window
    ends at the border. None if there is none. `kernel` is the extent including dilation.
    """
    base = built_in_same(size, kernel, stride) if same else 0
    for total in range(base, base + 2 * stride + 2):
        if total % 2 == 0 and (size + total - kernel) % stride == 0:
            return total
    return None


def standard_total(size, kernel, stride, same):
    return built_in_same(size, kernel, stride) if same else 0
