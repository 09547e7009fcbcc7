"""Stabilizer generators span the center of the gauge group."""
from checks import codegen
from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["check matrices are symbolic up to the stated sizes"]
FUNCS = ["codes.common.QuditCode.get_stabilizer_ops", "codes.common.CSSCode.get_stabilizer_ops", "codes.common._is_canonicalized",
         "codes.common.*.canonicalized", "codes.common.QuditCode.__init__", "codes.common.CSSCode.__init__",
         "math.symplectic_conjugate", "math.first_nonzero_cols"]


def echelon(rows):
    """Reduced row echelon form without zero rows."""
    conds = []
    for i, row in enumerate(rows):
        conds.append(spec.not_(spec.is_zero(row)))
        for c, x in enumerate(row):
            pivot = spec.all_of([x != 0, spec.is_zero(row[:c])])
            below_right = [spec.is_zero(other[: c + 1]) for other in rows[i + 1:]]
            alone = [other[c] == 0 for j, other in enumerate(rows) if j != i]
            conds.append(spec.implies(pivot, spec.all_of([x == 1] + below_right + alone)))
    return spec.all_of(conds)


def judge(ctx, code, rows, n, q, css, subsystem, early):
    Pauli = ctx.q.objects.Pauli
    commuting = codegen.commute(rows, rows, q)
    ctx.check(spec.iff(code.is_subsystem_code, spec.not_(commuting)) if subsystem is None else code.is_subsystem_code == subsystem,
              "a code is a subsystem code exactly when its checks do not commute")
    if early:  # asking for a part first must not change anything
        code.get_stabilizer_ops(Pauli.X)
    stabs = spec.elems(ctx, code.get_stabilizer_ops(), q)
    canon = spec.elems(ctx, code.get_stabilizer_ops(canonicalized=True), q)
    k, g = code.dimension, code.gauge_dimension
    ctx.observe("kg", [k, g])
    ctx.check(spec.all_of([spec.in_span(r, rows, q) for r in stabs]), "stabilizers lie in the gauge group")
    ctx.check(codegen.commute(stabs, rows, q), "stabilizers commute with every check")
    ctx.check(len(canon) == n - k - g, "number of independent stabilizers")
    ctx.check(spec.rank_is(rows, len(canon) + 2 * g, q, 2 * n), "stabilizers and gauge pairs make up the rank")
    ctx.check(spec.rank_is(codegen.gram(rows, rows, q), 2 * g, q, len(rows)), "number of gauge qudits")
    ctx.check(echelon(canon), "canonicalized stabilizers are row reduced")
    ctx.check(spec.same_span(stabs, canon, q, 2 * n), "canonicalized stabilizers generate the same group")
    again = spec.elems(ctx, code.get_stabilizer_ops(recompute=True), q)
    ctx.check(spec.same_span(stabs, again, q, 2 * n), "recomputing gives the same group")
    for canonicalized in (False, True):
        kwargs = {"symplectic": True} if css else {}
        whole = spec.elems(ctx, code.get_stabilizer_ops(canonicalized=canonicalized), q)
        xs = spec.elems(ctx, code.get_stabilizer_ops(Pauli.X, canonicalized=canonicalized, **kwargs), q)
        zs = spec.elems(ctx, code.get_stabilizer_ops(Pauli.Z, canonicalized=canonicalized, **kwargs), q)
        ctx.check(len(xs) + len(zs) == len(whole), "every stabilizer has one type")
        ctx.check(spec.same_span(xs + zs, whole, q, 2 * n), "both types together generate the stabilizer group")
        ctx.check(spec.all_zero([r[:n] for r in zs]), "Z-type stabilizers have no X support")
        if canonicalized:
            ctx.check(echelon(xs), "canonicalized X-type stabilizers are row reduced")
            ctx.check(echelon(zs), "canonicalized Z-type stabilizers are row reduced")
        if css:
            ctx.check(spec.all_zero([r[n:] for r in xs]), "X-type stabilizers of a CSS code have no Z support")
            for pauli, want, sector in ((Pauli.X, xs, slice(0, n)), (Pauli.Z, zs, slice(n, 2 * n))):
                part = spec.elems(ctx, code.get_stabilizer_ops(pauli, canonicalized=canonicalized), q)
                ctx.check(len(part) == len(want) and spec.all_of([spec.same(a, b[sector]) for a, b in zip(part, want)]),
                          "one-sector form of the stabilizers of one type")
    final = spec.elems(ctx, code.get_stabilizer_ops(canonicalized=True), q)
    ctx.check(len(final) == len(canon) and spec.all_of([spec.same(a, b) for a, b in zip(final, canon)]), "asking again gives the same answer")


def h_css(ctx, mx, mz, n, q, subsystem, early):
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, subsystem)
    judge(ctx, code, codegen.embed(rx, rz, n, q), n, q, True, subsystem, early)


def h_qudit(ctx, m, n, q, subsystem, early):
    code, rows = codegen.qudit(ctx, m, n, q, subsystem)
    judge(ctx, code, rows, n, q, False, subsystem, early)


def h_shp(ctx, a, b, q, early):
    """Codes that come with a stabilizer basis supplied by their construction."""
    ha, hb = ctx.field_array("ha", a, q), ctx.field_array("hb", b, q)
    code = ctx.q.codes.SHPCode(ha, hb)
    n = a[1] * b[1]
    rx, rz = spec.elems(ctx, code.matrix_x, q), spec.elems(ctx, code.matrix_z, q)
    judge(ctx, code, codegen.embed(rx, rz, n, q), n, q, True, True, early)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=40000 if thorough else 6000, **params))

    css = [(1, 1, 2, 2), (1, 1, 3, 2), (2, 1, 3, 2), (1, 2, 3, 2), (2, 2, 3, 2), (1, 1, 4, 2), (2, 1, 4, 2), (1, 1, 2, 3), (1, 1, 3, 3)]
    if thorough:
        css += [(1, 2, 4, 2), (2, 2, 4, 2), (1, 1, 5, 2), (2, 1, 2, 3), (2, 1, 3, 3), (1, 1, 2, 4), (3, 2, 3, 2)]
    for mx, mz, n, q in css:
        for sub in (False, True):
            for early in (False, True):
                if early and mx + mz == 4:
                    continue
                add(f"css{'-sub' if sub else ''}-{mx}+{mz}x{n}-q{q}{'-early' if early else ''}", h_css,
                    f"all {'subsystem' if sub else 'stabilizer'} CSS codes with {mx}+{mz} checks on {n} qudits over GF({q})",
                    (mx + mz) * n * q, mx=mx, mz=mz, n=n, q=q, subsystem=sub, early=early)
    gen = [(1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (1, 2, 3), (2, 1, 3)]
    if thorough:
        gen += [(3, 3, 2), (4, 2, 2), (2, 2, 3), (1, 3, 3), (1, 2, 4), (2, 1, 4)]
    for m, n, q in gen:
        for sub in (False, True):
            if m == 1 and sub:
                continue
            add(f"general{'-sub' if sub else ''}-{m}x{n}-q{q}", h_qudit,
                f"all {'subsystem' if sub else 'stabilizer'} codes with {m} generators on {n} qudits over GF({q})",
                m * n * q * 2, m=m, n=n, q=q, subsystem=sub, early=bool(m % 2))
    for a, b, q in [((1, 2), (1, 2), 2), ((2, 2), (1, 2), 2), ((2, 2), (2, 2), 2), ((1, 2), (1, 3), 2), ((1, 2), (2, 3), 2), ((1, 2), (1, 2), 3),
                    ((1, 4), (1, 2), 2), ((1, 2), (1, 4), 2), ((2, 4), (1, 1), 2), ((1, 4), (1, 1), 3)]:
        for early in (False, True):
            if a[0] * a[1] + b[0] * b[1] == 8 and early and not thorough:
                continue
            add(f"shp-{a[0]}x{a[1]}-{b[0]}x{b[1]}-q{q}{'-early' if early else ''}", h_shp,
                f"subsystem hypergraph products of all {a} and {b} matrices over GF({q})", 20, a=a, b=b, q=q, early=early)
    return out
