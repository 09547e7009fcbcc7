"""Reference definitions, written over field elements (GFElem) and independent of the code under test.

They work on symbolic and on concrete inputs: nothing here forks.
"""
from __future__ import annotations

import itertools

import numpy as np

from . import symnp as S
from . import values as V


def elems(ctx, matrix, q=2):
    """Rows of a matrix as lists of field elements."""
    info = V.field_info(q)
    if isinstance(matrix, (list, tuple)):
        return [[V.int_to_field(info, x) for x in row] for row in matrix]
    arr = S.raw(matrix) if isinstance(matrix, np.ndarray) else np.asarray(matrix)
    assert arr.ndim == 2, arr.shape
    return [[V.int_to_field(info, arr[i, j]) for j in range(arr.shape[1])] for i in range(arr.shape[0])]


def vec(ctx, vector, q=2):
    return elems(ctx, [list(S.raw(vector)) if isinstance(vector, np.ndarray) else list(vector)], q)[0]


def dot(a, b, q=2):
    total = V.field_info(q).consts[0]
    for x, y in zip(a, b):
        total = total + x * y
    return total


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def scale(c, a):
    return [c * x for x in a]


def matvec(rows, v, q=2):
    return [dot(row, v, q) for row in rows]


def zero_lit(v) -> int:
    return V._dag().and_all([x.nonzero_lit() ^ 1 for x in v])


def is_zero(v):
    return V.mkbool(zero_lit(v))


def all_zero(rows):
    return V.mkbool(V._dag().and_all([zero_lit(r) for r in rows]))


def same(a, b):
    return V.mkbool(V._dag().and_all([V.blit(x == y) for x, y in zip(a, b)]))


def all_of(conds):
    return V.mkbool(V._dag().and_all([V.blit(c) for c in conds]))


def any_of(conds):
    return V.mkbool(V._dag().or_all([V.blit(c) for c in conds]))


def not_(c):
    return V.mkbool(V.blit(c) ^ 1)


def implies(a, b):
    return V.mkbool(V._dag().or_(V.blit(a) ^ 1, V.blit(b)))


def iff(a, b):
    return V.mkbool(V._dag().xor_(V.blit(a), V.blit(b)) ^ 1)


def count(conds):
    bits = V.sum_bits([[V.blit(c)] for c in conds] or [[0]])
    return V.mkint(list(bits) + [0])


def weight(v):
    return count([V.mkbool(x.nonzero_lit()) for x in v])


def symplectic_weight(v):
    n = len(v) // 2
    d = V._dag()
    return count([V.mkbool(d.or_(v[i].nonzero_lit(), v[n + i].nonzero_lit())) for i in range(n)])


def symplectic(a, b, q=2):
    """a_x b_z - a_z b_x."""
    n = len(a) // 2
    return dot(a[:n], b[n:], q) - dot(a[n:], b[:n], q)


def constants(rows):
    """The numbers of rows without symbolic entries."""
    if all(x.const is not None for row in rows for x in row):
        return [[x.const for x in row] for row in rows]
    return None


def basis(rows, q):
    """Independent rows with the same span (rows of numbers); the first nonzero entry of each is 1 and unique in its column."""
    info = V.field_info(q)
    add_t, mul_t, neg_t, inv_t = info.add_t, info.mul_t, info.neg_t, info.inv_t
    out = []
    for row in rows:
        row = residue(row, out, q)
        at = next((j for j, x in enumerate(row) if x), None)
        if at is None:
            continue
        row = [mul_t[inv_t[row[at]]][x] for x in row]
        for k, (other_at, other) in enumerate(out):
            c = neg_t[other[at]]
            if c:
                out[k] = other_at, [add_t[y][mul_t[c][x]] for x, y in zip(row, other)]
        out.append((at, row))
    return out


def residue(row, reduced, q):
    info = V.field_info(q)
    for at, other in reduced:
        c = info.neg_t[row[at]]
        if c:
            row = [info.add_t[x][info.mul_t[c][y]] for x, y in zip(row, other)]
    return row


def combos(rows, q=2, ncols=None):
    """All q^m linear combinations: list of (coefficients, vector)."""
    info = V.field_info(q)
    ncols = len(rows[0]) if rows else ncols
    out = [((), [info.consts[0]] * (ncols or 0))]
    for row in rows:
        multiples = [scale(info.consts[c], row) for c in range(q)]
        out = [(cs + (c,), add(v, multiples[c]) if c else v) for cs, v in out for c in range(q)]
    return out


def vectors(n, q=2):
    """All concrete vectors of length n."""
    info = V.field_info(q)
    return [[info.consts[c] for c in cs] for cs in itertools.product(range(q), repeat=n)]


def in_span(v, rows, q=2, span=None):
    if span is None and (numbers := constants([v, *rows])) is not None:
        return not any(residue(numbers[0], basis(numbers[1:], q), q))
    span = span if span is not None else [w for _, w in combos(rows, q, len(v))]
    return any_of([same(v, w) for w in span])


def rank_is(rows, r, q=2, ncols=None):
    """Condition: the rank of the rows equals r (counts vanishing combinations)."""
    if (numbers := constants(rows)) is not None:
        return len(basis(numbers, q)) == r
    zeros = count([is_zero(v) for _, v in combos(rows, q, ncols)])
    expected = 0
    for k in range(len(rows) + 1):
        expected = V.ite(r == k, q ** (len(rows) - k), expected)
    return zeros == expected


def span_size_is(rows, r, q=2, ncols=None):
    return rank_is(rows, r, q, ncols)


def same_span(a, b, q=2, ncols=None):
    """The two sets of rows span the same space."""
    na, nb = constants(a), constants(b)
    if na is not None and nb is not None:
        return sorted(basis(na, q)) == sorted(basis(nb, q))
    sa = [w for _, w in combos(a, q, ncols)]
    sb = [w for _, w in combos(b, q, ncols)]
    return all_of([in_span(x, None, q, sb) for x in a] + [in_span(y, None, q, sa) for y in b])


def minimum(pairs, default):
    """Least value among those whose condition holds."""
    best = default
    for cond, value in pairs:
        better = all_of([cond, value < best])
        best = V.ite(better, value, best)
    return best


def least(conds_by_value, default):
    """conds_by_value: list of (value, condition), concrete values; least value with a true condition."""
    best = default
    for value, cond in sorted(conds_by_value, key=lambda t: -t[0]):
        best = V.ite(cond, value, best)
    return best


def kron(a, b):
    """Kronecker product of matrices of field elements."""
    return [[x * y for x in ra for y in rb] for ra in a for rb in b]


def transpose(rows, ncols=None):
    if not rows:
        return [[] for _ in range(ncols or 0)]
    return [list(c) for c in zip(*rows)]


def matmul(a, b, q=2):
    bt = transpose(b)
    return [[dot(r, c, q) for c in bt] for r in a]
