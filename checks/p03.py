"""Logical operators are a complete symplectic basis."""
from checks import codegen
from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["check matrices are symbolic up to the stated sizes; the general subsystem cases are restricted to gauge groups "
               "that have the standard form (the others are finding F01)"]
FUNCS = ["codes.common.QuditCode.get_logical_ops", "codes.common.CSSCode.get_logical_ops", "codes.common.*.get_standard_form_data*",
         "codes.common.*.get_gauge_ops", "codes.common.*.get_stabilizer_ops", "codes.common.*.dimension",
         "codes.common.*.gauge_dimension", "codes.common.*.rank", "math.symplectic_conjugate", "math.first_nonzero_cols"]


def judge(ctx, code, rows, n, q, gauge, css):
    logicals = code.get_logical_ops()
    k, g = code.dimension, code.gauge_dimension
    ctx.observe("kg", [k, g])
    ctx.check(logicals.shape == (2 * k, 2 * n), "two logical operators per logical qudit")
    ops = spec.elems(ctx, logicals, q)
    ctx.check(codegen.commute(ops, rows, q), "logical operators commute with every parity check")
    ctx.check(codegen.canonical_pairs(ops, q), "logical operators form dual pairs and otherwise commute")
    # n = k + g + stabilizers
    ctx.check(spec.rank_is(rows, n - k + g, q, 2 * n), "number of logical qudits")
    ctx.check(spec.rank_is(codegen.gram(rows, rows, q), 2 * g, q, len(rows)), "number of gauge qudits")
    ctx.check(code.rank == n - k + g, "rank")
    half_z = ops[k:]
    ctx.check(spec.all_zero([r[:n] for r in half_z]), "Z-type logical operators only have Z support")
    if css:
        ctx.check(spec.all_zero([r[n:] for r in ops[:k]]), "X-type logical operators of a CSS code only have X support")
    Pauli = ctx.q.objects.Pauli
    for pauli, want in ((Pauli.X, ops[:k]), (Pauli.Z, ops[k:])):
        kwargs = {"symplectic": True} if css else {}
        part = spec.elems(ctx, code.get_logical_ops(pauli, **kwargs), q)
        ctx.check(len(part) == k and spec.all_of([spec.same(a, b) for a, b in zip(part, want)]), "operators of one type")
        if css:
            part = spec.elems(ctx, code.get_logical_ops(pauli), q)
            sector = slice(0, n) if pauli is Pauli.X else slice(n, 2 * n)
            ctx.check(spec.all_of([spec.same(a, b[sector]) for a, b in zip(part, want)]), "operators of one type, one sector")
    if gauge:
        gops = code.get_gauge_ops()
        ctx.check(gops.shape == (2 * g, 2 * n), "two gauge operators per gauge qudit")
        grows = spec.elems(ctx, gops, q)
        ctx.check(codegen.canonical_pairs(grows, q), "gauge operators form dual pairs")
        ctx.check(codegen.commute(grows, ops, q), "gauge operators commute with logical operators")
        ctx.check(spec.all_of([spec.in_span(r, rows, q) for r in grows]), "gauge operators lie in the gauge group")
        dual = code.get_dual_subsystem_code()
        ctx.check(dual.dimension == g, "the dual code swaps gauge and logical qudits (k)")
        ctx.check(dual.gauge_dimension == k, "the dual code swaps gauge and logical qudits (g)")
    again = spec.elems(ctx, code.get_logical_ops(), q)
    ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(again, ops)]), "asking again gives the same operators")


def h_css(ctx, mx, mz, n, q, subsystem, gauge):
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, subsystem)
    judge(ctx, code, codegen.embed(rx, rz, n, q), n, q, gauge, True)


def h_qudit(ctx, m, n, q, subsystem, gauge):
    code, rows = codegen.qudit(ctx, m, n, q, subsystem)
    if subsystem:
        ctx.assume(codegen.std_available(rows, n, q))
    judge(ctx, code, rows, n, q, gauge, False)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=40000 if thorough else 6000, **params))

    css = [(1, 1, 2, 2), (1, 1, 3, 2), (2, 1, 3, 2), (1, 2, 3, 2), (2, 2, 3, 2), (1, 1, 4, 2), (1, 1, 2, 3), (1, 1, 3, 3), (2, 1, 4, 2), (2, 1, 3, 3), (1, 2, 3, 3)]
    if thorough:
        css += [(1, 2, 4, 2), (2, 2, 4, 2), (1, 1, 5, 2), (2, 1, 2, 3), (1, 1, 2, 4), (1, 1, 2, 5)]
    for mx, mz, n, q in css:
        for sub in (False, True):
            add(f"css{'-sub' if sub else ''}-{mx}+{mz}x{n}-q{q}", h_css,
                f"all {'subsystem' if sub else 'stabilizer'} CSS codes with {mx}+{mz} checks on {n} qudits over GF({q})",
                (mx + mz) * n * q, mx=mx, mz=mz, n=n, q=q, subsystem=sub, gauge=sub)
    stab = [(1, 1, 2), (1, 2, 2), (2, 2, 2), (1, 3, 2), (2, 3, 2), (3, 2, 2), (3, 3, 2), (1, 2, 3), (2, 2, 3), (1, 1, 4)]
    if thorough:
        stab += [(1, 3, 3), (1, 2, 4)]
    for m, n, q in stab:
        add(f"stab-{m}x{n}-q{q}", h_qudit, f"all stabilizer codes with {m} generators on {n} qudits over GF({q})",
            m * n * q * 2, m=m, n=n, q=q, subsystem=False, gauge=False)
    sub = [(2, 1, 2), (2, 2, 2), (3, 2, 2), (2, 1, 3), (2, 3, 2), (2, 2, 3), (4, 2, 2)]
    if thorough:
        sub += [(3, 3, 2), (2, 1, 4)]
    for m, n, q in sub:
        add(f"subsystem-{m}x{n}-q{q}", h_qudit, f"all subsystem codes with {m} gauge generators on {n} qudits over GF({q})",
            m * n * q * 2, m=m, n=n, q=q, subsystem=True, gauge=True)
    return out


def _f01():
    import numpy as np
    import qldpc.codes
    from qldpc.math import symplectic_conjugate

    code = qldpc.codes.QuditCode([[1, 0, 0, 0], [0, 1, 1, 0]])
    return bool(np.any(symplectic_conjugate(code.matrix) @ code.get_logical_ops().T))


FINDINGS = {"F01": _f01}
