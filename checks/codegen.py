"""Symbolic code inputs shared by several checks."""
from vf import spec


def css(ctx, mx, mz, n, q, subsystem, base=None):
    """A CSS code with symbolic checks.  subsystem: False -> commuting checks, True -> anything."""
    hx = ctx.field_array("hx", (mx, n), q)
    hz = ctx.field_array("hz", (mz, n), q)
    rx, rz = spec.elems(ctx, hx, q), spec.elems(ctx, hz, q)
    commute = spec.all_zero(spec.matmul(rx, spec.transpose(rz), q))
    if subsystem is False:
        ctx.assume(commute)
    elif subsystem is True:
        ctx.assume(spec.not_(commute))
    return ctx.q.codes.CSSCode(hx, hz), rx, rz


def embed(rx, rz, n, q):
    """CSS rows as symplectic rows."""
    from vf import values as V

    zero = V.field_info(q).consts[0]
    return [list(r) + [zero] * n for r in rx] + [[zero] * n + list(r) for r in rz]


def qudit(ctx, m, n, q, subsystem):
    """A general code with m symbolic checks on n qudits."""
    H = ctx.field_array("H", (m, 2 * n), q)
    rows = spec.elems(ctx, H, q)
    commute = spec.all_of([spec.symplectic(a, b, q) == 0 for i, a in enumerate(rows) for b in rows[:i]])
    if subsystem is False:
        ctx.assume(commute)
    elif subsystem is True:
        ctx.assume(spec.not_(commute))
    return ctx.q.codes.QuditCode(H), rows


def gram(rows_a, rows_b, q):
    return [[spec.symplectic(a, b, q) for b in rows_b] for a in rows_a]


def canonical_pairs(rows, q):
    """Row j is dual to row j+k and commutes with all others."""
    k = len(rows) // 2
    conds = []
    for i in range(2 * k):
        for j in range(2 * k):
            value = spec.symplectic(rows[i], rows[j], q)
            if j == i + k:
                conds.append(value == 1)
            elif i == j + k:
                conds.append(-value == 1)
            else:
                conds.append(value == 0)
    return spec.all_of(conds)


def commute(rows_a, rows_b, q):
    return spec.all_of([x == 0 for row in gram(rows_a, rows_b, q) for x in row])


def std_available(rows, n, q):
    """Does the gauge group split into (stabilizers | g X-type) and (stabilizers | g Z-type) rows of the standard form?

    Reference condition: rank of the X parts of the gauge group = (rank of the X parts of its center) + g,
    where 2g is the rank of the commutation matrix of the checks.
    """
    combos = spec.combos(rows, q, 2 * n)
    center = [spec.all_of([spec.symplectic(w, r, q) == 0 for r in rows]) for _, w in combos]
    # sizes: |pure-Z elements|, |center|, |pure-Z center|
    pure = [spec.is_zero(w[:n]) for _, w in combos]
    zeros = spec.count([spec.is_zero(w) for _, w in combos])
    p = spec.count(pure)
    c = spec.count(center)
    pc = spec.count([spec.all_of([a, b]) for a, b in zip(pure, center)])
    # all divided by `zeros`:  |G|/|pure| = q^rank_x(G);  c/pc = q^rank_x(S);  |G|/c = q^(2g)
    total = q ** len(rows)
    # want: total/p == (c/pc) * q^g  <=>  (total*pc/(p*c))^2 == total/c  <=> total*pc*pc == p*p*c
    del zeros
    return _powers_equal(total, pc, p, c, q, len(rows))


def _powers_equal(total, pc, p, c, q, m):
    """total * pc^2 == p^2 * c, all of them powers of q."""
    def log(x):
        out = 0
        for e in range(1, m + 1):
            from vf import values as V
            out = V.ite(x == q**e, e, out)
        return out
    return m + 2 * log(pc) == 2 * log(p) + log(c)
