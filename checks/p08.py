"""Product constructions give valid codes with valid canonical logical operators."""
from checks import codegen
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["seed matrices are symbolic up to the stated sizes"]
FUNCS = ["codes.quantum.HGPCode.*", "codes.quantum.SHPCode.*", "codes.quantum.TBCode.*", "codes.quantum.BaconShorCode.*",
         "codes.common.CSSCode.*", "codes.common.ClassicalCode.generator", "math.first_nonzero_cols"]


def eye(n, q):
    info = V.field_info(q)
    return [[info.consts[int(i == j)] for j in range(n)] for i in range(n)]


def hstack(a, b):
    return [x + y for x, y in zip(a, b)] if a else list(b)


def neg(rows):
    return [[-x for x in r] for r in rows]


def same_rows(ctx, got, want, q, label):
    mine = spec.elems(ctx, got, q)
    ctx.check(len(mine) == len(want) and all(len(a) == len(b) for a, b in zip(mine, want))
              and spec.all_of([spec.same(a, b) for a, b in zip(mine, want)]), label)


def judge(ctx, code, rx, rz, n, q, k, g=0, logicals=True):
    ctx.check(len(code) == n and tuple(code.matrix.shape) == (len(rx) + len(rz), 2 * n), "size")
    same_rows(ctx, code.matrix_x, rx, q, "X-type checks")
    same_rows(ctx, code.matrix_z, rz, q, "Z-type checks")
    rows = codegen.embed(rx, rz, n, q)
    if not g:
        ctx.check(spec.all_zero(spec.matmul(rx, spec.transpose(rz, n), q)), "X and Z checks commute")
    ctx.check(code.dimension == k, "number of logical qudits")
    ctx.check(code.gauge_dimension == g, "number of gauge qudits")
    if logicals:
        ops = spec.elems(ctx, code.get_logical_ops(), q)
        ctx.check(len(ops) == 2 * k, "two logical operators per logical qudit")
        ctx.check(codegen.commute(ops, rows, q), "logical operators commute with every check")
        ctx.check(codegen.canonical_pairs(ops, q), "logical operators form dual pairs and otherwise commute")
        ctx.check(spec.all_zero([r[n:] for r in ops[:k]] + [r[:n] for r in ops[k:]]), "X-type and Z-type logical operators")


def rank(rows, q, ncols):
    """Reference rank (an integer term)."""
    value = 0
    for r in range(1, min(len(rows), ncols) + 1):
        value = V.ite(spec.rank_is(rows, r, q, ncols), r, value)
    return value


def concrete(ctx, value, top):
    for v in range(top + 1):
        if V.blit(value == v) == 1:
            return v
    for v in range(top + 1):
        if value == v:
            return v
    raise AssertionError


def h_hgp(ctx, a, b, q, set_logicals, same_code=False):
    A = ctx.field_array("A", a, q)
    B = A if same_code else ctx.field_array("B", b, q)
    ra, rb = spec.elems(ctx, A, q), spec.elems(ctx, B, q)
    (m1, n1), (m2, n2) = a, b
    codes = ctx.q.codes
    if same_code:
        code = codes.HGPCode(codes.ClassicalCode(A), set_logicals=set_logicals)
    else:
        code = codes.HGPCode(A, B, set_logicals=set_logicals)
    rx = hstack(spec.kron(ra, eye(n2, q)), spec.kron(eye(m1, q), spec.transpose(rb, n2)))
    rz = hstack(neg(spec.kron(eye(n1, q), rb)), spec.kron(spec.transpose(ra, n1), eye(m2, q)))
    rank_a, rank_b = concrete(ctx, rank(ra, q, n1), m1), concrete(ctx, rank(rb, q, n2), m2)
    k = (n1 - rank_a) * (n2 - rank_b) + (m1 - rank_a) * (m2 - rank_b)
    ctx.check(type(code.matrix).order == q, "field")
    judge(ctx, code, rx, rz, n1 * n2 + m1 * m2, q, k)
    ctx.check([[int(x) for x in r] for r in code.sector_size] == [[n1 * n2, n1 * m2], [m1 * n2, m1 * m2]], "sector sizes")
    new = code.conjugated()
    n = n1 * n2 + m1 * m2
    mine = spec.elems(ctx, new.matrix, q)
    old = codegen.embed(rx, rz, n, q)
    conds = []
    for r, s in zip(old, mine):
        for j in range(n):
            if j < n1 * n2:
                conds += [s[j] == r[j], s[n + j] == r[n + j]]
            else:
                conds += [spec.any_of([s[j] == r[n + j], s[j] == -r[n + j]]), spec.any_of([s[n + j] == r[j], s[n + j] == -r[j]])]
    ctx.check(spec.all_of(conds), "by default the check-check sector is Fourier transformed")


def h_shp(ctx, a, b, q, set_logicals, same_code=False):
    A = ctx.field_array("A", a, q)
    B = A if same_code else ctx.field_array("B", b, q)
    ra, rb = spec.elems(ctx, A, q), spec.elems(ctx, B, q)
    (m1, n1), (m2, n2) = a, b
    code = ctx.q.codes.SHPCode(A, None if same_code else B, set_logicals=set_logicals)
    rx = spec.kron(ra, eye(n2, q))
    rz = spec.kron(eye(n1, q), rb)
    rank_a, rank_b = concrete(ctx, rank(ra, q, n1), m1), concrete(ctx, rank(rb, q, n2), m2)
    judge(ctx, code, rx, rz, n1 * n2, q, (n1 - rank_a) * (n2 - rank_b), rank_a * rank_b)


def h_tb(ctx, size, q, careful):
    A, B = ctx.field_array("A", (size, size), q), ctx.field_array("B", (size, size), q)
    ra, rb = spec.elems(ctx, A, q), spec.elems(ctx, B, q)
    ab, ba = spec.matmul(ra, rb, q), spec.matmul(rb, ra, q)
    fits = spec.all_of([spec.same(x, y) for x, y in zip(ab, ba)])
    if not careful:
        ctx.assume(fits)
    try:
        code = ctx.q.codes.TBCode(A, B, validate=careful)
    except ValueError:
        ctx.check(spec.not_(fits), "commuting matrices are accepted")
        return
    ctx.check(fits, "matrices that do not commute are rejected")
    rx = hstack(ra, rb)
    rz = hstack(spec.transpose(rb, size), neg(spec.transpose(ra, size)))
    r = concrete(ctx, rank(rx, q, 2 * size), size) + concrete(ctx, rank(rz, q, 2 * size), size)
    judge(ctx, code, rx, rz, 2 * size, q, 2 * size - r)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    for a, b, q in [((1, 1), (1, 1), 2), ((1, 2), (1, 1), 2), ((1, 2), (1, 2), 2), ((2, 1), (1, 2), 2), ((2, 2), (1, 2), 2), ((1, 2), (2, 2), 2),
                    ((1, 3), (1, 2), 2), ((1, 2), (1, 2), 3), ((1, 1), (1, 2), 4), ((2, 1), (1, 1), 3), ((1, 1), (1, 1), 5), ((1, 3), (2, 1), 2), ((2, 2), (2, 1), 2)
                    ] + ([((2, 2), (2, 2), 2), ((2, 2), (1, 1), 3), ((1, 3), (1, 3), 2), ((2, 3), (1, 2), 2), ((1, 2), (1, 2), 4)] if thorough else []):
        for logs in (True, False):
            add(f"hgp-{a}-{b}-q{q}-{logs}".replace(" ", ""), h_hgp, f"all seed matrices {a}, {b} over GF({q})", q ** (a[0] * a[1] + b[0] * b[1]), a=a, b=b, q=q, set_logicals=logs)
        add(f"shp-{a}-{b}-q{q}".replace(" ", ""), h_shp, f"all seed matrices {a}, {b} over GF({q})", q ** (a[0] * a[1] + b[0] * b[1]), a=a, b=b, q=q, set_logicals=True)
    for a, q in [((1, 2), 2), ((2, 2), 2), ((1, 2), 3), ((2, 1), 2)]:
        add(f"hgp-self-{a}-q{q}".replace(" ", ""), h_hgp, f"squares of all seed matrices {a} over GF({q})", 50, a=a, b=a, q=q, set_logicals=True, same_code=True)
        add(f"shp-self-{a}-q{q}".replace(" ", ""), h_shp, f"squares of all seed matrices {a} over GF({q})", 50, a=a, b=a, q=q, set_logicals=False, same_code=True)
    for size, q in [(1, 2), (2, 2), (1, 3), (2, 3), (1, 4)] + ([(3, 2)] if thorough else []):
        for careful in (True, False):
            add(f"tb-{size}-q{q}-{careful}", h_tb, f"all pairs of {size}x{size} matrices over GF({q})", 50 * size * q, size=size, q=q, careful=careful)
    return out
