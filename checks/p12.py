"""Lifted product codes: checks are the lifted products, with all promised commutation relations."""
from checks import codegen, p11
from checks.p08 import concrete, rank, same_rows
from checks.p10 import algebra
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["coefficients of all matrix entries are symbolic; groups are fixed per case (abelian ones, except where stated: finding F02 covers lifted products over non-abelian groups)"]
FUNCS = ["codes.quantum.LPCode.*", "codes.quantum.SLPCode.*", "codes.quantum.HGPCode.get_matrix_product", "codes.quantum.SHPCode.get_matrix_product", "abstract.RingArray.*", "codes.common.CSSCode.*"]


def lift(ctx, G, members, ref, shape, q):
    """Lift a matrix of coefficient vectors with the representation of the group (matrices of field elements)."""
    info = V.field_info(q)
    mats = [[[info.consts[int(x) % info.p] for x in row] for row in ctx.q.abstract.Group.lift(G, g).tolist()] for g in members]
    d = len(mats[0])
    out = []
    for i in range(shape[0]):
        for s in range(d):
            line = []
            for j in range(shape[1]):
                for t in range(d):
                    total = info.consts[0]
                    for c, m in zip(ref[i][j], mats):
                        if V.blit(m[s][t] == 0) != 1:
                            total = total + c * m[s][t]
                    line.append(total)
            out.append(line)
    return out, d


def kron_left(mat, shape, size, none):
    return [[mat[i][j] if s == t else none for j in range(shape[1]) for t in range(size)] for i in range(shape[0]) for s in range(size)]


def kron_right(mat, shape, size, none):
    return [[mat[i][j] if s == t else none for t in range(size) for j in range(shape[1])] for s in range(size) for i in range(shape[0])]


def setup(ctx, group, q, a, b, support):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = p11.matrix(ctx, A, ring, members, "x", a, q, support)
    Y, ry = (X, rx) if b is None else p11.matrix(ctx, A, ring, members, "y", b, q, support)
    none = [V.field_info(q).consts[0]] * len(members)
    bar = lambda m, shape: [[[m[i][j][inverse[h]] for h in range(len(members))] for i in range(shape[0])] for j in range(shape[1])]
    return A, G, members, X, rx, Y, ry, b or a, none, bar


def h_lp(ctx, group, q, a, b, support):
    A, G, members, X, rx, Y, ry, shape_b, none, bar = setup(ctx, group, q, a, b, support)
    code = ctx.q.codes.LPCode(X) if b is None else ctx.q.codes.LPCode(X, Y)
    (ma, na), (mb, nb) = a, shape_b
    minus = [[[-c for c in e] for e in row] for row in ry]
    mx = [r + s for r, s in zip(kron_left(rx, a, nb, none), kron_right(bar(ry, shape_b), (nb, mb), ma, none))]
    mz = [r + s for r, s in zip(kron_right(minus, shape_b, na, none), kron_left(bar(rx, a), (na, ma), mb, none))]
    hx, d = lift(ctx, G, members, mx, (ma * nb, na * nb + ma * mb), q)
    hz, d = lift(ctx, G, members, mz, (na * mb, na * nb + ma * mb), q)
    ctx.check(len(code) == d * (na * nb + ma * mb) and code.field.order == q, "size and field")
    same_rows(ctx, code.matrix_x, hx, q, "X-type checks")
    same_rows(ctx, code.matrix_z, hz, q, "Z-type checks")
    ctx.check(spec.all_zero(spec.matmul(hx, spec.transpose(hz), q)), "X-type and Z-type checks commute")
    ctx.check(not code.is_subsystem_code, "a stabilizer code")
    ctx.check([[int(x) for x in r] for r in code.sector_size] == [[d * na * nb, d * na * mb], [d * ma * nb, d * ma * mb]], "sector sizes")
    split = d * na * nb
    n = len(code)
    new = spec.elems(ctx, code.conjugated().matrix, q)
    conds = []
    for r, s in zip(codegen.embed(hx, hz, n, q), new):
        for j in range(n):
            if j < split:
                conds += [s[j] == r[j], s[n + j] == r[n + j]]
            else:
                conds += [spec.any_of([s[j] == r[n + j], s[j] == -r[n + j]]), spec.any_of([s[n + j] == r[j], s[n + j] == -r[j]])]
    ctx.check(spec.all_of(conds), "by default the check-check sector is Fourier transformed")


def h_lp_other(ctx, group, q, a, b, support):
    """Over a non-abelian group, whenever the entries of A commute with the transposed entries of B (the rest is finding F02)."""
    A, G, members, X, rx, Y, ry, shape_b, none, bar = setup(ctx, group, q, a, b, support)
    table = [[members.index(g * h) for h in members] for g in members]
    for row in rx:
        for e in row:
            for other in bar(ry, shape_b):
                for f in other:
                    ctx.assume(spec.same(p11.product(e, f, table, q), p11.product(f, e, table, q)))
    code = ctx.q.codes.LPCode(X, Y)
    hx, hz = spec.elems(ctx, code.matrix_x, q), spec.elems(ctx, code.matrix_z, q)
    d = G.lift_dim
    ctx.check(len(hx) == d * a[0] * b[1] and len(hz) == d * a[1] * b[0] and len(code) == d * (a[1] * b[1] + a[0] * b[0]), "sizes")
    ctx.check(spec.all_zero(spec.matmul(hx, spec.transpose(hz), q)), "X-type and Z-type checks commute")


def _f02():
    import numpy as np
    import qldpc
    from qldpc.abstract import GroupRing, RingArray, RingMember, SymmetricGroup

    group = SymmetricGroup(3)
    ring = GroupRing(group)
    x, y = [RingMember(ring, g) for g in group.generators[:2]]
    code = qldpc.codes.LPCode(RingArray([[ring.one + x]]), RingArray([[ring.one + y]]))
    return bool(np.any(code.matrix_x @ code.matrix_z.T))


FINDINGS = {"F02": _f02}


def h_lp_params(ctx, group, q, a, b, support):
    """The number of logical qudits and the logical operators of a lifted product code."""
    A, G, members, X, rx, Y, ry, shape_b, none, bar = setup(ctx, group, q, a, b, support)
    code = ctx.q.codes.LPCode(X, Y)
    hx, hz = spec.elems(ctx, code.matrix_x, q), spec.elems(ctx, code.matrix_z, q)
    n = len(code)
    k = n - concrete(ctx, rank(hx, q, n), len(hx)) - concrete(ctx, rank(hz, q, n), len(hz))
    ctx.check(code.dimension == k, "number of logical qudits")
    ops = spec.elems(ctx, code.get_logical_ops(), q)
    ctx.check(len(ops) == 2 * k, "number of logical operators")
    ctx.check(codegen.commute(ops, codegen.embed(hx, hz, n, q), q), "logical operators commute with every check")
    ctx.check(codegen.canonical_pairs(ops, q), "logical operators form dual pairs")


def h_slp(ctx, group, q, a, b, support):
    A, G, members, X, rx, Y, ry, shape_b, none, bar = setup(ctx, group, q, a, b, support)
    code = ctx.q.codes.SLPCode(X) if b is None else ctx.q.codes.SLPCode(X, Y)
    (ma, na), (mb, nb) = a, shape_b
    hx, d = lift(ctx, G, members, kron_left(rx, a, nb, none), (ma * nb, na * nb), q)
    hz, d = lift(ctx, G, members, kron_right(ry, shape_b, na, none), (na * mb, na * nb), q)
    ctx.check(len(code) == d * na * nb and code.field.order == q, "size and field")
    same_rows(ctx, code.matrix_x, hx, q, "X-type checks")
    same_rows(ctx, code.matrix_z, hz, q, "Z-type checks")


def h_trivial(ctx, q, a, b):
    """Over the trivial group a lifted product is a hypergraph product."""
    A, B = ctx.field_array("A", a, q), ctx.field_array("B", b, q)
    to_ring = ctx.q.abstract.TrivialGroup.to_ring_array
    lp = ctx.q.codes.LPCode(to_ring(A), to_ring(B))
    hgp = ctx.q.codes.HGPCode(A, B)
    ctx.check(lp.field.order == q, "field")
    same_rows(ctx, lp.matrix_x, spec.elems(ctx, hgp.matrix_x, q), q, "X-type checks")
    same_rows(ctx, lp.matrix_z, spec.elems(ctx, hgp.matrix_z, q), q, "Z-type checks")
    slp = ctx.q.codes.SLPCode(to_ring(A), to_ring(B))
    shp = ctx.q.codes.SHPCode(A, B)
    same_rows(ctx, slp.matrix_x, spec.elems(ctx, shp.matrix_x, q), q, "X-type checks (subsystem)")
    same_rows(ctx, slp.matrix_z, spec.elems(ctx, shp.matrix_z, q), q, "Z-type checks (subsystem)")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    grid = [("C2", 2, (1, 1), (1, 1), None), ("C3", 2, (1, 1), (1, 1), None), ("C2", 2, (1, 2), (2, 1), None), ("C2", 2, (1, 2), None, None), ("C3", 2, (1, 2), (1, 1), None), ("C2", 3, (1, 1), (1, 2), None),
            ("C2xC2", 2, (1, 1), (1, 1), None), ("C2+C2", 2, (1, 1), (1, 2), 2), ("C2", 4, (1, 1), (1, 1), None), ("C4", 2, (1, 1), (1, 1), None), ("C2xC3", 2, (1, 1), (1, 1), 3), ("C3", 2, (2, 1), None, None)]
    if thorough:
        grid += [("C2", 2, (2, 2), (1, 2), None), ("C3", 2, (1, 2), (2, 1), 2), ("C3", 3, (1, 1), (1, 1), None)]
    for g, q, a, b, support in grid:
        for kind, func in (("lp", h_lp), ("slp", h_slp)):
            add(f"{kind}-{g}-q{q}-{a}-{b}", func, f"all matrices {a}, {b or a} over GF({q})[{g}] (support {support or 'full'})", 30, group=g, q=q, a=a, b=b, support=support)
    for g, q, a, b, support in [("S3", 2, (1, 1), (1, 1), 3), ("Q8", 3, (1, 1), (1, 1), 2), ("D4", 2, (1, 1), (1, 2), 2)]:
        add(f"slp-{g}-q{q}-{a}-{b}", h_slp, f"all matrices {a}, {b} over GF({q})[{g}] (support {support})", 30, group=g, q=q, a=a, b=b, support=support)
    for g, q, a, b, support in [("S3", 2, (1, 1), (1, 1), None), ("D4", 2, (1, 1), (1, 1), 4), ("Q8", 3, (1, 1), (1, 1), 2), ("S3", 2, (1, 2), (1, 1), 3)]:
        add(f"lp-other-{g}-q{q}-{a}-{b}", h_lp_other, f"matrices {a}, {b} over GF({q})[{g}] (support {support or 'full'}) whose entries commute", 30, group=g, q=q, a=a, b=b, support=support)
    for g, q, a, b, support in [("C2", 2, (1, 1), (1, 1), None), ("C3", 2, (1, 1), (1, 1), None), ("C2", 2, (1, 2), (1, 1), None), ("C2", 3, (1, 1), (1, 1), None)]:
        add(f"params-{g}-q{q}-{a}-{b}", h_lp_params, f"all matrices {a}, {b} over GF({q})[{g}]", 50, group=g, q=q, a=a, b=b, support=support)
    for q, a, b in [(2, (2, 2), (1, 2)), (3, (1, 2), (2, 1)), (2, (1, 3), (2, 1)), (5, (1, 1), (1, 2))]:
        add(f"trivial-q{q}-{a}-{b}", h_trivial, f"all matrices {a}, {b} over GF({q})", 10, q=q, a=a, b=b)
    return out
