"""Chain complexes: validation, duals and tensor products."""
from checks import p11
from checks.p10 import algebra
from checks.p08 import eye
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["boundary operators are symbolic up to the stated shapes; groups are fixed per case"]
FUNCS = ["objects.ChainComplex.*", "abstract.RingArray.*", "codes.quantum.HGPCode.get_matrix_product"]


def info(q):
    return V.field_info(q)


def same_matrix(a, b):
    return len(a) == len(b) and all(len(x) == len(y) for x, y in zip(a, b)) and spec.all_of([spec.same(x, y) for x, y in zip(a, b)])


def is_complex(mats):
    """Do the (reference) matrices compose to zero?"""
    return spec.all_of([spec.all_zero(spec.matmul(a, b)) if len(a) and len(b) else True for a, b in zip(mats, mats[1:])])


def mul(a, b, q, cols):
    """Product of matrices given as rows (b may have no rows)."""
    bt = spec.transpose(b, cols)
    return [[spec.dot(r, c, q) for c in bt] for r in a]


def h_validate(ctx, shapes, q, plain):
    make = (lambda n, s: ctx.words(n, s, 0, q - 1)) if plain else (lambda n, s: ctx.field_array(n, s, q))
    ops = [ctx.field_array(f"d{i}", s, q) for i, s in enumerate(shapes)]
    rows = [spec.elems(ctx, op, q) for op in ops]
    fits = all(a[1] == b[0] for a, b in zip(shapes, shapes[1:]))
    good = spec.all_of([spec.all_zero(mul(a, b, q, s[1])) for a, b, s in zip(rows, rows[1:], shapes[1:])]) if fits else False
    given = [op.view(ctx.np.ndarray) for op in ops] if plain else ops
    C = ctx.q.objects.ChainComplex
    try:
        chain = C(*given, field=q) if plain else C(*given)
    except ValueError:
        ctx.check(spec.not_(good), "operators that compose to zero are accepted")
        return
    ctx.check(good, "operators that do not compose to zero are rejected")
    ctx.check(chain.field.order == q and chain.group is None and chain.num_links == len(shapes), "field and length")
    dims = [shapes[0][0]] + [s[1] for s in shapes]
    for d in range(len(shapes) + 1):
        ctx.check(chain.dim(d) == dims[d], "dimensions of the modules")
    for d in range(len(shapes) + 2):
        op = chain.op(d)
        ctx.check(type(op).order == q, "field of an operator")
        want = rows[d - 1] if 0 < d <= len(shapes) else ([] if d == 0 else [[] for _ in range(dims[-1])])
        ctx.check(tuple(op.shape) == ((0, dims[0]) if d == 0 else (dims[d - 1], dims[d] if d < len(dims) else 0)), "shape of an operator")
        ctx.check(same_matrix(spec.elems(ctx, op, q) if op.shape[0] else [], want), "boundary operators")
    dual = chain.T
    ctx.check(dual.field.order == q and dual.num_links == len(shapes), "field and length of the dual")
    for d in range(1, len(shapes) + 1):
        want = spec.transpose(rows[len(shapes) - d], shapes[len(shapes) - d][1])
        ctx.check(same_matrix(spec.elems(ctx, dual.op(d), q), want), "the dual complex has the transposed operators in reverse order")


def symbolic_chain(ctx, name, shapes, q):
    ops = [ctx.field_array(f"{name}{i}", s, q) for i, s in enumerate(shapes)]
    rows = [spec.elems(ctx, op, q) for op in ops]
    for a, b, s in zip(rows, rows[1:], shapes[1:]):
        ctx.assume(spec.all_zero(mul(a, b, q, s[1])))
    return ops, rows, [shapes[0][0]] + [s[1] for s in shapes]


def product_reference(da, ra, db, rb, q):
    """Boundary operators of a tensor product: P_k = sum of A_i x B_j (i descending), d(a x b) = da x b + (-1)^i a x db."""
    zero, one = info(q).consts[:2]
    la, lb = len(ra), len(rb)

    def sectors(k):
        return [(i, k - i) for i in range(min(la, k), max(k - lb, 0) - 1, -1)]

    def position(k):
        out, at = {}, 0
        for i, j in sectors(k):
            out[i, j] = at
            at += da[i] * db[j]
        return out, at

    result = []
    for k in range(1, la + lb + 1):
        (rows, nrows), (cols, ncols) = position(k - 1), position(k)
        M = [[zero] * ncols for _ in range(nrows)]
        for (i, j), c0 in cols.items():
            sign = one if i % 2 == 0 else -one
            for s in range(da[i]):
                for t in range(db[j]):
                    col = c0 + s * db[j] + t
                    if i:
                        for u in range(da[i - 1]):
                            row = rows[i - 1, j] + u * db[j] + t
                            M[row][col] = M[row][col] + ra[i - 1][u][s]
                    if j:
                        for u in range(db[j - 1]):
                            row = rows[i, j - 1] + s * db[j - 1] + u
                            M[row][col] = M[row][col] + sign * rb[j - 1][u][t]
        result.append(M)
    return result


def h_product(ctx, a, b, q, as_chain):
    C = ctx.q.objects.ChainComplex
    oa, ra, da = symbolic_chain(ctx, "a", a, q)
    ob, rb, db = symbolic_chain(ctx, "b", b, q)
    if as_chain:
        chain = C.tensor_product(C(*oa, skip_validation=True), C(*ob, skip_validation=True))
    else:
        chain = C.tensor_product(oa[0], ob[0])
    ctx.check(chain.field.order == q and chain.group is None and chain.num_links == len(a) + len(b), "field and length of a product")
    want = product_reference(da, ra, db, rb, q)
    mine = []
    for d in range(1, len(a) + len(b) + 1):
        op = chain.op(d)
        ctx.check(type(op).order == q, "field of the operators")
        mine.append(spec.elems(ctx, op, q))
        ctx.check(same_matrix(mine[-1], want[d - 1]), "operators of a tensor product")
    for x, y in zip(mine, mine[1:]):
        ctx.check(spec.all_zero(mul(x, y, q, len(y[0]) if y else 0)), "operators of a product compose to zero")
    C(*[chain.op(d) for d in range(1, len(a) + len(b) + 1)])  # accepted by validation
    for orig, rows in ((oa, ra), (ob, rb)):
        ctx.check(spec.all_of([same_matrix(spec.elems(ctx, o, q), r) for o, r in zip(orig, rows)]), "factors are not modified")


def h_hgp(ctx, a, b, q):
    """The 2-complex of A and B.T gives the checks of the hypergraph product."""
    A, B = ctx.field_array("a", a, q), ctx.field_array("b", b, q)
    chain = ctx.q.objects.ChainComplex.tensor_product(A, B.T)
    mx, mz = chain.op(1), chain.op(2).T
    hx, hz = ctx.q.codes.HGPCode.get_matrix_product(A, B)
    ctx.check(same_matrix(spec.elems(ctx, mx, q), spec.elems(ctx, hx, q)), "X-type checks are the first boundary operator")
    ctx.check(same_matrix(spec.elems(ctx, mz, q), spec.elems(ctx, hz, q)), "Z-type checks are the second boundary operator, transposed")


def h_ring(ctx, group, q, a, b, support):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = p11.matrix(ctx, A, ring, members, "x", a, q, support)
    Y, ry = p11.matrix(ctx, A, ring, members, "y", b, q, support)
    C = ctx.q.objects.ChainComplex
    chain = C.tensor_product(X, Y)
    ctx.check(chain.group == G and chain.field.order == q and chain.num_links == 2, "group, field and length")
    zero, one = info(q).consts[:2]
    n = len(members)
    e = members.index(G.identity)
    unit = [one if i == e else zero for i in range(n)]
    none = [zero] * n

    def kron_left(mat, size):  # mat x I
        return [[mat[i][j] if s == t else none for j in range(len(mat[0])) for t in range(size)] for i in range(len(mat)) for s in range(size)]

    def kron_right(mat, size):  # I x mat
        return [[mat[i][j] if s == t else none for t in range(size) for j in range(len(mat[0]))] for s in range(size) for i in range(len(mat))]

    minus = [[[-c for c in entry] for entry in row] for row in ry]
    (ma, na), (mb, nb) = a, b
    d1 = [r + s for r, s in zip(kron_left(rx, mb), kron_right(ry, ma))]
    d2 = kron_right(minus, na) + kron_left(rx, nb)
    for op, want, label in ((chain.op(1), d1, "first"), (chain.op(2), d2, "second")):
        ctx.check(type(op) is A.RingArray and op.group == G and op.ring == ring, f"{label} operator is a matrix over the group algebra")
        ctx.check(p11.same(p11.coeffs(ctx, op, q), want), f"{label} operator")
    if group != "S3":
        C(chain.op(1), chain.op(2))  # accepted by validation
    dual = chain.T
    bar = [[[d1[i][j][inverse[h]] for h in range(n)] for i in range(len(d1))] for j in range(len(d1[0]))]
    ctx.check(p11.same(p11.coeffs(ctx, dual.op(2), q), bar), "operators of the dual complex")
    lifted = spec.elems(ctx, chain.op(1).lift(), q)
    ctx.check(len(lifted) == G.lift_dim * len(d1) and all(len(r) == G.lift_dim * len(d1[0]) for r in lifted), "operators can be lifted")
    l2 = spec.elems(ctx, chain.op(2).lift(), q)
    if group != "S3":
        ctx.check(spec.all_zero(spec.matmul(lifted, l2, q)), "lifted operators compose to zero")


def h_ring_longer(ctx, group, q):
    """Products of longer complexes have zero blocks."""
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = p11.matrix(ctx, A, ring, members, "x", (1, 1), q)
    Y, ry = p11.matrix(ctx, A, ring, members, "y", (1, 1), q)
    C = ctx.q.objects.ChainComplex
    two = C.tensor_product(X, Y)
    three = C.tensor_product(two, X)
    ctx.check(three.num_links == 3, "length")
    none = [info(q).consts[0]] * len(members)
    bound = {1: [(1, 3)], 2: [(3, 3)], 3: [(3, 1)]}
    neg = lambda m: [-c for c in m]
    x, y = rx[0][0], ry[0][0]
    want = {1: [[x, y, x]], 2: [[neg(y), neg(x), none], [x, none, neg(x)], [none, x, y]], 3: [[x], [neg(y)], [x]]}
    for d in (1, 2, 3):
        op = three.op(d)
        ctx.check(type(op) is A.RingArray and op.shape == bound[d][0], "shape and type")
        ctx.check(p11.same(p11.coeffs(ctx, op, q), want[d]), f"operator of degree {d}")
        ctx.check(tuple(op.lift().shape) == tuple(G.lift_dim * s for s in op.shape), "operators can be lifted")
        ctx.check(tuple(op.T.shape) == op.shape[::-1], "operators can be transposed")
    C(*[three.op(d) for d in (1, 2, 3)])  # accepted by validation


def h_ring_validate(ctx, group, q):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    X, rx = p11.matrix(ctx, A, ring, members, "x", (1, 2), q)
    Y, ry = p11.matrix(ctx, A, ring, members, "y", (2, 1), q)
    value = p11.ref_matmul(rx, ry, table, q)[0][0]
    good = spec.is_zero(value)
    try:
        chain = ctx.q.objects.ChainComplex(X, Y)
    except ValueError:
        ctx.check(spec.not_(good), "operators that compose to zero are accepted")
        return
    ctx.check(good, "operators that do not compose to zero are rejected")
    ctx.check([chain.dim(d) for d in range(3)] == [1, 2, 1], "dimensions")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    for shapes, q in [([(2, 3)], 2), ([(1, 2), (2, 1)], 2), ([(2, 2), (2, 2)], 2), ([(2, 2), (2, 2)], 3), ([(1, 2), (2, 1)], 4), ([(1, 2), (2, 2), (2, 1)], 2), ([(1, 2), (2, 2), (2, 1)], 3),
                      ([(1, 2), (1, 2)], 2), ([(0, 2), (2, 1)], 2), ([(2, 3), (3, 2)], 2), ([(1, 1), (1, 1), (1, 1), (1, 1)], 3)]:
        for plain in (False, True):
            add(f"validate-{shapes}-q{q}-{'plain' if plain else 'field'}", h_validate, f"all sequences of matrices {shapes} over GF({q})", 10, shapes=shapes, q=q, plain=plain)
    one = [((1, 1), (1, 1)), ((2, 1), (1, 2)), ((2, 3), (2, 2)), ((3, 1), (1, 3))]
    for a, b in one:
        for q in (2, 3, 4):
            add(f"product-{a}-{b}-q{q}", h_product, f"all pairs of matrices {a}, {b} over GF({q})", 10, a=[a], b=[b], q=q, as_chain=False)
            add(f"hgp-{a}-{b}-q{q}", h_hgp, f"all pairs of matrices {a}, {b} over GF({q})", 10, a=a, b=b, q=q)
    for a, b, q in [([(1, 2), (2, 1)], [(2, 2)], 2), ([(1, 2), (2, 1)], [(1, 2), (2, 1)], 3), ([(2, 1)], [(1, 2), (2, 1)], 3), ([(1, 1), (1, 1), (1, 1)], [(1, 2), (2, 2)], 3),
                    ([(2, 2), (2, 2)], [(2, 1), (1, 2)], 2), ([(1, 2), (2, 1)], [(1, 2), (2, 1)], 4), ([(2, 2), (2, 2)], [(2, 2), (2, 2)], 3)]:
        add(f"product-{a}-{b}-q{q}", h_product, f"all complexes of shapes {a} and {b} over GF({q})", 30, a=a, b=b, q=q, as_chain=True)
    for g, q, a, b, support in [("C2", 2, (1, 2), (2, 1), None), ("C2", 3, (1, 1), (1, 2), None), ("C3", 2, (2, 1), (1, 1), None), ("S3", 2, (1, 1), (1, 1), 3), ("C2", 4, (1, 1), (1, 1), None), ("C2xC2", 2, (1, 2), (1, 1), 3)]:
        add(f"ring-{g}-q{q}-{a}-{b}", h_ring, f"all matrices {a}, {b} over GF({q})[{g}] (support {support or 'full'})", 30, group=g, q=q, a=a, b=b, support=support)
    for g, q in [("C2", 2), ("C2", 3), ("C3", 2), ("C3", 3)]:
        add(f"ring3-{g}-q{q}", h_ring_longer, f"products of three 1-complexes over GF({q})[{g}]", 20, group=g, q=q)
        add(f"ring-validate-{g}-q{q}", h_ring_validate, f"all pairs of a (1,2) and a (2,1) matrix over GF({q})[{g}]", 20, group=g, q=q)
    return out
