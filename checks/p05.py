"""The standard form is an equivalent code with identity blocks in the promised places."""
from checks import codegen
from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["check matrices are symbolic up to the stated sizes; general subsystem codes are restricted to gauge groups that "
               "have the standard form (finding F01 covers the others)"]
FUNCS = ["codes.common.QuditCode.get_standard_form_data", "codes.common.CSSCode.get_standard_form_data_xz", "codes.common.*.canonicalized",
         "codes.common._join_slices", "math.first_nonzero_cols"]


def index(sector, length):
    return list(range(length))[sector] if isinstance(sector, slice) else [int(x) for x in sector]


def judge(ctx, code, rows, n, q, mats, locs, row_sectors, col_sectors, offset):
    """mats: X-sector rows and Z-sector rows as (x part, z part); offset: where the Z rows start in the sectors."""
    locs = [int(x) for x in locs]
    ctx.check(sorted(locs) == list(range(n)), "qudit locations are a permutation")
    k, g = code.dimension, code.gauge_dimension
    xz = mats  # list of (x row, z row) in standard order
    total = len(xz)
    rsx, rgx, rsz, rgz = [index(s, total) for s in row_sectors]
    rsz, rgz = [r + offset for r in rsz], [r + offset for r in rgz]
    csx, cgx, clx, csz, cgz, clz = [index(s, n) for s in col_sectors]
    ctx.observe("sectors", [len(rsx), len(rgx), len(rsz), len(rgz)])
    ctx.check(rsx + rgx + rsz + rgz == list(range(total)), "row sectors partition the rows")
    ctx.check(len(rgx) == g and len(rgz) == g and total == n - k + g, "sizes of the row sectors")
    for cols in (csx + cgx + clx + csz, csx + cgz + clz + csz):
        ctx.check(sorted(cols) == list(range(n)), "column sectors partition the columns")
    ctx.check(len(csx) == len(rsx) and len(csz) == len(rsz) and len(cgx) == g and len(cgz) == g and len(clx) == k and len(clz) == k,
              "sizes of the column sectors")
    for sector, rs, cs in ((0, rsx, csx), (0, rgx, cgx), (1, rsz, csz), (1, rgz, cgz)):
        ctx.check(spec.all_of([xz[r][sector][c] == int(i == j) for i, r in enumerate(rs) for j, c in enumerate(cs)]), "identity blocks")
    for sector, rs, cs in ((0, rgx, csx), (1, rgz, csz)):
        ctx.check(spec.all_of([xz[r][sector][c] == 0 for r in rs for c in cs]), "gauge rows vanish on stabilizer pivots")
    ctx.check(spec.all_zero([xz[r][0] for r in rsz + rgz]), "Z-type rows have no X support")
    # back to the original order
    back = [locs.index(i) for i in range(n)]
    original = [[x[c] for c in back] + [z[c] for c in back] for x, z in xz]
    ctx.check(spec.same_span(original, rows, q, 2 * n), "the standard form generates the same group")
    ctx.check(codegen.commute([original[r] for r in rsx + rsz], rows, q), "stabilizer rows are stabilizers")


def h_css(ctx, mx, mz, n, q, subsystem):
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, subsystem)
    matrix_x, matrix_z, locs, row_sectors, col_sectors = code.get_standard_form_data_xz()
    zero = [0 * x for x in (rx + rz)[0]]
    mats = [(r, zero) for r in spec.elems(ctx, matrix_x, q)] + [(zero, r) for r in spec.elems(ctx, matrix_z, q)]
    judge(ctx, code, codegen.embed(rx, rz, n, q), n, q, mats, locs, row_sectors, col_sectors, len(matrix_x))


def h_qudit(ctx, m, n, q, subsystem):
    code, rows = codegen.qudit(ctx, m, n, q, subsystem)
    if subsystem:
        ctx.assume(codegen.std_available(rows, n, q))
    matrix, locs, row_sectors, col_sectors = code.get_standard_form_data()
    mats = [(spec.vec(ctx, matrix[i, 0], q), spec.vec(ctx, matrix[i, 1], q)) for i in range(len(matrix))]
    judge(ctx, code, rows, n, q, mats, locs, row_sectors, col_sectors, 0)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=40000 if thorough else 6000, **params))

    css = [(1, 1, 2, 2), (1, 1, 3, 2), (2, 1, 3, 2), (1, 2, 3, 2), (2, 2, 3, 2), (1, 1, 4, 2), (2, 1, 4, 2), (1, 1, 2, 3), (1, 1, 3, 3), (2, 1, 2, 3), (1, 2, 3, 3), (2, 1, 3, 3)]
    if thorough:
        css += [(1, 2, 4, 2), (2, 2, 4, 2), (1, 1, 5, 2), (1, 1, 2, 4), (1, 1, 2, 5), (3, 2, 3, 2)]
    for mx, mz, n, q in css:
        for sub in (False, True):
            add(f"css{'-sub' if sub else ''}-{mx}+{mz}x{n}-q{q}", h_css,
                f"all {'subsystem' if sub else 'stabilizer'} CSS codes with {mx}+{mz} checks on {n} qudits over GF({q})",
                (mx + mz) * n * q, mx=mx, mz=mz, n=n, q=q, subsystem=sub)
    gen = [(1, 2, 2), (2, 2, 2), (3, 2, 2), (2, 3, 2), (3, 3, 2), (1, 2, 3), (2, 1, 3), (2, 2, 3)]
    if thorough:
        gen += [(4, 2, 2), (1, 3, 3), (1, 2, 4), (2, 1, 4)]
    for m, n, q in gen:
        for sub in (False, True):
            if m == 1 and sub:
                continue
            add(f"general{'-sub' if sub else ''}-{m}x{n}-q{q}", h_qudit,
                f"all {'subsystem' if sub else 'stabilizer'} codes with {m} generators on {n} qudits over GF({q})",
                m * n * q * 2, m=m, n=n, q=q, subsystem=sub)
    return out


def _f01():
    import numpy as np
    import qldpc.codes

    code = qldpc.codes.QuditCode([[1, 0, 0, 0], [0, 1, 1, 0]])
    matrix, locs = code.get_standard_form_data()[:2]
    matrix = matrix[:, :, np.argsort(locs)].reshape(-1, 2 * len(code)).view(code.field)
    return not np.array_equal(matrix.row_reduce(), code.canonicalized.matrix)


FINDINGS = {"F01": _f01}
