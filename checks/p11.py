"""Matrices over a group algebra behave like their lifts."""
from checks.p10 import algebra, element, product
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["coefficients of all matrix entries are symbolic; groups are fixed per case and their multiplication is executed concretely (sympy)"]
FUNCS = ["abstract.RingArray.*", "abstract.RingMember.*", "abstract.GroupRing.*", "abstract.Group.*", "abstract.TrivialGroup.to_ring_array"]


def matrix(ctx, A, ring, members, name, shape, q, support=None, decide=False):
    """A symbolic ring matrix, with its coefficients as nested lists."""
    rows, ref = [], []
    for i in range(shape[0]):
        pairs = [element(ctx, A, ring, members, f"{name}{i}_{j}", q, support[i][j] if isinstance(support, list) else support, decide) for j in range(shape[1])]
        rows.append([x for x, _ in pairs])
        ref.append([r for _, r in pairs])
    out = A.RingArray(rows, ring) if rows and rows[0] else None
    return out, ref


def coeffs(ctx, array, q):
    """Nested coefficients of a 2-D ring array."""
    out = []
    for i in range(array.shape[0]):
        out.append([spec.vec(ctx, array[i, j].to_vector(), q) for j in range(array.shape[1])])
    return out


def same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) for x, y in zip(a, b)) and spec.all_of([spec.same(x, y) for r, s in zip(a, b) for x, y in zip(r, s)])


def ref_matmul(a, b, table, q):
    n = len(table)
    zero = [V.field_info(q).consts[0]] * n
    out = []
    for row in a:
        line = []
        for j in range(len(b[0])):
            total = zero
            for x, brow in zip(row, b):
                total = spec.add(total, product(x, brow[j], table, q))
            line.append(total)
        out.append(line)
    return out


def flat(ref):
    """Coefficient vectors of rows."""
    return [[x for entry in row for x in entry] for row in ref]


def translates(row, table, inverse):
    """All products g * row, as coefficient vectors."""
    n = len(table)
    out = []
    for g in range(n):
        line = []
        for entry in row:
            moved = [None] * n
            for h in range(n):
                moved[table[g][h]] = entry[h]
            line += moved
        out.append(line)
    return out


def h_algebra(ctx, group, q, a, b, support):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = matrix(ctx, A, ring, members, "x", a, q, support)
    Y, ry = matrix(ctx, A, ring, members, "y", b, q, support)
    n = len(members)
    P = X @ Y
    ctx.check(type(P) is A.RingArray and P.ring == ring, "type of a product")
    want = ref_matmul(rx, ry, table, q)
    ctx.check(same(coeffs(ctx, P, q), want), "matrix product")
    T = X.T
    ctx.check(same(coeffs(ctx, T, q), [[[rx[i][j][inverse[h]] for h in range(n)] for i in range(a[0])] for j in range(a[1])]), "transpose, also of every entry")
    ctx.check(same(coeffs(ctx, ~X, q), [[[e[inverse[h]] for h in range(n)] for e in row] for row in rx]), "entry-wise transpose")
    ctx.check(same(coeffs(ctx, X, q), rx), "operands are not modified")


def h_lift(ctx, group, q, a, b, support, regular):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = matrix(ctx, A, ring, members, "x", a, q, support)
    Y, ry = matrix(ctx, A, ring, members, "y", b, q, support)

    def lift(x):
        return spec.elems(ctx, x.regular_lift() if regular else x.lift(), q)

    def rows_same(x, y):
        return len(x) == len(y) and spec.all_of([spec.same(r, s) for r, s in zip(x, y)])

    lx, ly = lift(X), lift(Y)
    d = G.order if regular else G.lift_dim
    ctx.check(len(lx) == d * a[0] and all(len(r) == d * a[1] for r in lx), "size of a lift")
    for i in range(a[0]):
        for j in range(a[1]):
            block = [r[j * d:(j + 1) * d] for r in lx[i * d:(i + 1) * d]]
            one = X[i, j].regular_lift() if regular else X[i, j].lift()
            ctx.check(rows_same(block, spec.elems(ctx, one, q)), "blocks are lifts of the entries")
    ctx.check(rows_same(lift(X @ Y), spec.matmul(lx, ly, q)), "lifting respects products")
    ctx.check(rows_same(lift(X.T), spec.transpose(lx)), "lifting respects transposes")


def h_fields(ctx, group, q, shape):
    """Conversions to and from coefficient arrays."""
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    n = len(members)
    data = ctx.field_array("data", (*shape, n), q)
    X = A.RingArray.from_field_array(ring, data)
    ctx.check(X.shape == tuple(shape) and type(X) is A.RingArray, "shape")
    ref = [[spec.vec(ctx, data[i, j], q) for j in range(shape[1])] for i in range(shape[0])]
    ctx.check(same(coeffs(ctx, X, q), ref), "entries have the given coefficients")
    back = X.to_field_array()
    ctx.check(tuple(back.shape) == (*shape, n) and type(back).order == q, "shape and field of the coefficients")
    ctx.check(spec.all_of([spec.same(spec.vec(ctx, back[i, j], q), ref[i][j]) for i in range(shape[0]) for j in range(shape[1])]), "coefficient round trip")
    v = data.reshape(-1)
    w = A.RingArray.from_field_vector(ring, v)
    ctx.check(w.shape == (shape[0] * shape[1],), "vector shape")
    ctx.check(spec.same(spec.vec(ctx, w.to_field_vector(), q), spec.vec(ctx, v, q)), "vector round trip")


def h_build(ctx, group, q):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    n = len(members)
    x, rx = element(ctx, A, ring, members, "x", q, 2)
    g = ctx.choice("g", list(range(n)))
    value = ctx.choice("v", [0, 1])
    X = A.RingArray.build([[x, members[g]], [value, x]], ring)
    e = members.index(G.identity)
    zero, one = V.field_info(q).consts[:2]
    unit = [one if i == g else zero for i in range(n)]
    const = [(one if value else zero) if i == e else zero for i in range(n)]
    ctx.check(same(coeffs(ctx, X, q), [[rx, unit], [const, rx]]), "entries are cast to the ring")


def h_trivial(ctx, q, shape):
    A = ctx.q.abstract
    H = ctx.field_array("H", shape, q)
    if q == 4:  # the conversion is documented for entries 0 and 1 only; for prime fields it works for all entries
        ctx.assume(spec.all_of([spec.any_of([x == 0, x == 1]) for row in spec.elems(ctx, H, q) for x in row]))
    X = A.TrivialGroup.to_ring_array(H)
    rows = spec.elems(ctx, H, q)
    mine = spec.elems(ctx, X.lift(), q)
    ctx.check(X.field.order == q, "field")
    ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(mine, rows)]), "lifting an array over the trivial group gives the array back")


def judge_rows(ctx, A, got, ref_rows, ncols, table, inverse, q, label):
    """The rows of `got` generate the same module as the coefficient rows `ref_rows` (field vectors closed under translation)."""
    mine = coeffs(ctx, got, q)
    gens = [t for row in mine for t in translates(row, table, inverse)]
    total = ncols * len(table)
    ctx.check(spec.all_of([spec.not_(spec.is_zero([x for e in row for x in e])) for row in mine]), label + ": no zero rows")
    ctx.check(spec.same_span(gens, ref_rows, q, total) if gens else spec.all_zero(ref_rows), label + ": the same row space")
    return mine, gens


def h_row_reduce(ctx, group, q, shape, support=None, decide=False):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = matrix(ctx, A, ring, members, "x", shape, q, support, decide)
    got = X.row_reduce()
    ctx.check(type(got) is A.RingArray and got.shape[1] == shape[1], "shape")
    ref = [t for row in rx for t in translates(row, table, inverse)]
    mine, gens = judge_rows(ctx, A, got, ref, shape[1], table, inverse, q, "row reduction")
    # every row has a unit column or only non-invertible entries
    n = len(table)
    e = members.index(G.identity)
    one = [V.field_info(q).consts[int(i == e)] for i in range(n)]
    vectors = spec.vectors(n, q)
    for i, row in enumerate(mine):
        pivot = spec.any_of([spec.all_of([spec.same(row[j], one)] + [spec.is_zero(other[j]) for o, other in enumerate(mine) if o != i]) for j in range(shape[1])])
        singular = spec.all_of([spec.not_(spec.any_of([spec.same(product(x, v, table, q), one) for v in vectors])) for x in row])
        ctx.check(spec.any_of([pivot, singular]), "pivot rows have a unique 1, other rows only non-invertible entries")
    # no row is a combination of the others
    for i in range(len(mine)):
        others = [t for k, row in enumerate(mine) if k != i for t in translates(row, table, inverse)]
        flat_row = [x for entry in mine[i] for x in entry]
        ctx.check(spec.not_(spec.in_span(flat_row, others, q)) if others else True, "rows are independent")
    ctx.check(same(coeffs(ctx, X, q), rx), "the array is not modified")


def h_null_space(ctx, group, q, shape, support=None, decide=False):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = matrix(ctx, A, ring, members, "x", shape, q, support, decide)
    null = X.null_space()
    ctx.check(type(null) is A.RingArray and null.shape[1] == shape[1], "shape")
    mine = coeffs(ctx, null, q)
    n = len(table)
    bar = [[[e[inverse[h]] for h in range(n)] for e in row] for row in mine]
    for row in rx:
        for v in bar:
            total = [V.field_info(q).consts[0]] * n
            for x, y in zip(row, v):
                total = spec.add(total, product(x, y, table, q))
            ctx.check(spec.is_zero(total), "null vectors are annihilated")
    # completeness: the dimension of the row space of `null` over the field is the dimension of the kernel
    lifted = spec.elems(ctx, X.regular_lift(), q)
    gens = [t for row in mine for t in translates(row, table, inverse)]
    cols = shape[1] * n
    for r in range(0, cols + 1):
        ctx.check(spec.implies(spec.rank_is(lifted, cols - r, q, cols) if lifted else r == cols, spec.rank_is(gens, r, q, cols) if gens else r == 0), "all null vectors are combinations of the rows")
    return


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    for g, q, a, b, support in [("C2", 2, (1, 2), (2, 1), None), ("C3", 2, (1, 1), (1, 2), None), ("S3", 2, (1, 2), (2, 1), 2), ("C2", 3, (1, 2), (2, 1), None),
                                ("C2xC2", 2, (2, 1), (1, 2), 2), ("C2", 4, (1, 1), (1, 2), None), ("D4", 2, (1, 1), (1, 1), 4), ("Q8", 3, (1, 1), (1, 1), 2)]:
        add(f"algebra-{g}-q{q}-{a}-{b}".replace(" ", ""), h_algebra, f"all {a} and {b} matrices over GF({q})[{g}] (support {support or 'full'})", 50, group=g, q=q, a=a, b=b, support=support)
        for regular in (False, True):
            sup = support or (2 if (a, b) != ((1, 1), (1, 2)) else None)
            add(f"lift-{g}-q{q}-{a}-{b}-{regular}".replace(" ", ""), h_lift, f"all {a} and {b} matrices over GF({q})[{g}] (support {sup or 'full'})", 100, group=g, q=q, a=a, b=b, support=min(sup or 9, 2), regular=regular)
    for g, q, shape in [("C2", 2, (2, 2)), ("C3", 2, (1, 2)), ("C2", 3, (1, 2)), ("S3", 2, (1, 1)), ("C2", 4, (1, 2))]:
        add(f"fields-{g}-q{q}-{shape}".replace(" ", ""), h_fields, f"all coefficient arrays of shape {shape} over GF({q})[{g}]", 30, group=g, q=q, shape=shape)
    for g, q in [("C2", 2), ("S3", 2), ("C3", 3)]:
        add(f"build-{g}-q{q}", h_build, f"arrays of ring members, group members and integers over GF({q})[{g}]", 10, group=g, q=q)
    for q, shape in [(2, (2, 2)), (3, (1, 2)), (4, (1, 2))]:
        add(f"trivial-q{q}-{shape}".replace(" ", ""), h_trivial, f"all {shape} matrices over GF({q})", 10, q=q, shape=shape)
    for g, q, shape in [("C2", 2, (1, 1)), ("C2", 2, (1, 2)), ("C2", 2, (2, 1)), ("C3", 2, (1, 1)), ("C3", 2, (1, 2)), ("C2", 2, (2, 2)), ("SL22", 2, (1, 1)), ("C2xC2", 2, (1, 1)), ("C2", 3, (1, 2)), ("S3", 2, (1, 1)), ("C4", 2, (1, 1)), ("C3", 3, (1, 1)), ("C3", 2, (2, 1))]:
        add(f"reduce-{g}-q{q}-{shape}".replace(" ", ""), h_row_reduce, f"all {shape} matrices over GF({q})[{g}]", 100, group=g, q=q, shape=shape)
        if g != "S3" or thorough:
            add(f"null-{g}-q{q}-{shape}".replace(" ", ""), h_null_space, f"all {shape} matrices over GF({q})[{g}]", 100, group=g, q=q, shape=shape)
    partial = [("C3", 2, (2, 2), [[[0, 1, 2], [0, 1]], [[0], [0]]]), ("C3", 2, (2, 2), [[[0, 1], [0, 1]], [[0, 1, 2], [1]]]), ("C2xC2", 2, (2, 2), [[[0, 1], [0, 2]], [[], [0, 1, 2, 3]]]),
               ("C2xC2", 2, (2, 2), [[[], [0, 1, 2, 3]], [[0, 1], [0, 2]]]), ("C2", 3, (2, 2), [[[0, 1], [0]], [[0], [1]]]), ("C4", 2, (2, 2), [[[0, 2], [0, 1]], [[], [0, 1, 2, 3]]]), ("C3", 2, (3, 1), [[[0, 1, 2]], [[0, 1]], [[1, 2]]])]
    partial += [("S3", 2, (2, 1), [[[0, 1, 2]], [[3, 4, 5]]]), ("S3", 2, (2, 1), [[[0, 5]], [[0, 1, 2, 3, 4, 5]]]), ("S3", 2, (1, 2), [[[0, 2, 4], [1, 3, 5]]]), ("SL22", 2, (2, 1), [[[0, 1, 4]], [[2, 3, 5]]]), ("D4", 2, (2, 1), [[[0, 1, 4]], [[2, 7]]])]
    for i, (g, q, shape, support) in enumerate(partial):
        if not thorough and i in (3, 5):
            continue
        n = sum(len(x) for r in support for x in r)
        add(f"reduce-partial{i}-{g}-q{q}", h_row_reduce, f"{shape} matrices over GF({q})[{g}] with {n} free coefficients", 100, group=g, q=q, shape=shape, support=support, decide=i >= 7)
        if i in (4, 9, 10) or thorough:
            add(f"null-partial{i}-{g}-q{q}", h_null_space, f"{shape} matrices over GF({q})[{g}] with {n} free coefficients", 100, group=g, q=q, shape=shape, support=support, decide=i >= 7)
    return out
