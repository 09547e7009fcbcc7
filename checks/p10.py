"""Group algebras are algebras, and lifting is a homomorphism of them."""
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["coefficients of algebra elements are symbolic; groups are fixed per case and their multiplication is executed concretely (sympy)"]
FUNCS = ["abstract.RingMember.*", "abstract.GroupRing.*", "abstract.Group.*"]

S3_TABLE = [[0, 1, 2, 3, 4, 5], [1, 2, 0, 4, 5, 3], [2, 0, 1, 5, 3, 4], [3, 5, 4, 0, 2, 1], [4, 3, 5, 1, 0, 2], [5, 4, 3, 2, 1, 0]]
NOT_ORTHOGONAL = {"SL22", "SL22r", "SL23", "PSL22"}  # groups of arbitrary matrices; transposes are inverses in the other groups
GROUPS = {
    "C1": lambda A: A.TrivialGroup(), "C2": lambda A: A.CyclicGroup(2), "C3": lambda A: A.CyclicGroup(3), "C4": lambda A: A.CyclicGroup(4), "C5": lambda A: A.CyclicGroup(5),
    "C2xC2": lambda A: A.AbelianGroup(2, 2), "C2+C2": lambda A: A.AbelianGroup(2, 2, direct_sum=True), "C2xC3": lambda A: A.AbelianGroup(2, 3), "S3": lambda A: A.SymmetricGroup(3),
    "D4": lambda A: A.DihedralGroup(4), "D3": lambda A: A.DihedralGroup(3), "A3": lambda A: A.AlternatingGroup(3), "Q8": lambda A: A.QuaternionGroup(),
    "SL22": lambda A: A.SL(2, 2), "SL22r": lambda A: A.SL(2, 2, linear_rep=False), "SL23": lambda A: A.SL(2, 3), "PSL22": lambda A: A.PSL(2, 2), "PSL23": lambda A: A.PSL(2, 3),
    "signed": lambda A: A.Group.from_generating_mats([[0, -1], [1, 0]], [[1, 0], [0, -1]]), "table": lambda A: A.Group.from_table(S3_TABLE), "S3xC2": lambda A: A.SymmetricGroup(3) * A.CyclicGroup(2),
    "C1xC3": lambda A: A.AbelianGroup(1, 3), "C2xC1": lambda A: A.AbelianGroup(2, 1), "A4": lambda A: A.AlternatingGroup(4),
}


def algebra(ctx, name, q):
    A = ctx.q.abstract
    group = GROUPS[name](A)
    members = list(group.generate())
    table = [[members.index(a * b) for b in members] for a in members]
    inverse = [next(j for j in range(len(members)) if members[table[i][j]] == group.identity) for i in range(len(members))]
    return A, group, A.GroupRing(group, q), members, table, inverse


def element(ctx, A, ring, members, name, q, support=None, decide=False):
    """A symbolic element, built from terms (on the given number of group members), and its reference coefficients."""
    n = len(members)
    if isinstance(support, (list, tuple)):
        coeffs = ctx.field_array(name, len(support), q)
        if decide:  # one path per value
            coeffs = ctx.galois.GF(q)([int(c) for c in coeffs])
        ref = [V.field_info(q).consts[0]] * n
        for i, c in zip(support, spec.vec(ctx, coeffs, q)):
            ref[i] = c
        return A.RingMember(ring, *[(coeffs[k], members[i]) for k, i in enumerate(support)]), ref
    support = min(support or n, n)
    coeffs = ctx.field_array(name, support, q)
    terms = [(coeffs[i], g) for i, g in enumerate(members[n - support:])]
    zero = V.field_info(q).consts[0]
    return A.RingMember(ring, *terms), [zero] * (n - support) + spec.vec(ctx, coeffs, q)


def product(a, b, table, q):
    out = [V.field_info(q).consts[0]] * len(a)
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            out[table[i][j]] = out[table[i][j]] + x * y
    return out


def coeffs(ctx, x, q):
    return spec.vec(ctx, x.to_vector(), q)


def h_arithmetic(ctx, group, q):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    n = len(members)
    a, ra = element(ctx, A, ring, members, "a", q)
    b, rb = element(ctx, A, ring, members, "b", q)
    info = V.field_info(q)
    zero, one = info.consts[0], info.consts[1]

    def expect(x, want, label):
        ctx.check(isinstance(x, A.RingMember), label + " (type)")
        ctx.check(spec.same(coeffs(ctx, x, q), want), label)

    expect(a + b, spec.add(ra, rb), "sum")
    expect(a - b, [x - y for x, y in zip(ra, rb)], "difference")
    expect(-a, [-x for x in ra], "negative")
    expect(a * b, product(ra, rb, table, q), "product")
    expect(a.T, [ra[inverse[i]] for i in range(n)], "transpose")
    e = members.index(G.identity)
    expect(ring.one, [one if i == e else zero for i in range(n)], "one")
    expect(ring.zero, [zero] * n, "zero")
    g = ctx.choice("g", list(range(n)))
    expect(a * members[g], product(ra, [one if i == g else zero for i in range(n)], table, q), "right translation")
    expect(members[g] * a, product([one if i == g else zero for i in range(n)], ra, table, q), "left translation")
    expect(a + members[g], [x + one if i == g else x for i, x in enumerate(ra)], "sum with a group member")
    expect(members[g] + a, [x + one if i == g else x for i, x in enumerate(ra)], "sum with a group member (left)")
    expect(a - members[g], [x - one if i == g else x for i, x in enumerate(ra)], "difference with a group member")
    expect(a.copy(), ra, "copy")
    # the operands are not modified
    expect(a, ra, "left operand is not modified")
    expect(b, rb, "right operand is not modified")


def h_scalars(ctx, group, q, values):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    a, ra = element(ctx, A, ring, members, "a", q)
    p = V.field_info(q).p
    e = members.index(G.identity)

    def times(x, c):
        out = x - x
        for _ in range(c % p):
            out = out + x
        return out

    one = V.field_info(q).consts[1]
    for c in values:
        ctx.check(spec.same(coeffs(ctx, a * c, q), [times(x, c) for x in ra]), "integer multiple (right)")
        ctx.check(spec.same(coeffs(ctx, c * a, q), [times(x, c) for x in ra]), "integer multiple (left)")
        ctx.check(spec.same(coeffs(ctx, a + c, q), [x + times(one, c) if i == e else x for i, x in enumerate(ra)]), "sum with an integer")
    want = [one if i == e else one - one for i in range(len(members))]
    for power in range(4):
        ctx.check(spec.same(coeffs(ctx, a**power, q), want), "power")
        want = product(want, ra, table, q)


def h_lift(ctx, group, q, regular, support=None, first=None):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    a, ra = element(ctx, A, ring, members, "a", q, first)
    b, rb = element(ctx, A, ring, members, "b", q, support)

    def lift(x):
        return spec.elems(ctx, x.regular_lift() if regular else x.lift(), q)

    def same(x, y):
        return len(x) == len(y) and spec.all_of([spec.same(r, s) for r, s in zip(x, y)])

    la, lb = lift(a), lift(b)
    ctx.check(len(la) == (G.order if regular else G.lift_dim) == len(la[0]), "dimension of the representation")
    ctx.check(same(lift(a * b), spec.matmul(la, lb, q)), "lifting respects products")
    ctx.check(same(lift(a + b), [spec.add(x, y) for x, y in zip(la, lb)]), "lifting respects sums")
    if regular or group not in NOT_ORTHOGONAL:
        ctx.check(same(lift(a.T), spec.transpose(la)), "lifting respects transposes")
    if regular:
        # the first column holds the coefficients: the regular lift is faithful
        e = members.index(G.identity)
        ctx.check(spec.same([r[e] for r in la], ra), "the regular lift acts on coefficient vectors")


def h_inverse(ctx, group, q):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    a, ra = element(ctx, A, ring, members, "a", q)
    e = members.index(G.identity)
    one = V.field_info(q).consts[1]
    want = [one if i == e else one - one for i in range(len(members))]
    exists = spec.any_of([spec.same(product(ra, v, table, q), want) for v in spec.vectors(len(members), q)])
    inv = a.inverse()
    if inv is None:
        ctx.check(spec.not_(exists), "invertible elements have an inverse")
        ctx.check_raises(ValueError, lambda: a**-1, "no negative powers without an inverse")
        return
    ctx.check(exists, "elements without inverse are reported")
    ri = coeffs(ctx, inv, q)
    ctx.check(spec.same(product(ra, ri, table, q), want), "right inverse")
    ctx.check(spec.same(product(ri, ra, table, q), want), "left inverse")
    for power, value in ((1, ri), (2, product(ri, ri, table, q))):
        ctx.check(spec.same(coeffs(ctx, a**-power, q), value), "negative powers are powers of the inverse")


def h_vectors(ctx, group, q):
    A, G, ring, members, table, inverse = algebra(ctx, group, q)
    v = ctx.array("v", len(members), 0, q - 1)
    rv = spec.vec(ctx, v, q)
    x = A.RingMember.from_vector(ring, v)
    ctx.check(spec.same(coeffs(ctx, x, q), rv), "vector round trip")
    y, ry = element(ctx, A, ring, members, "y", q)
    ctx.check(spec.iff(x == y, spec.same(rv, ry)), "equal exactly when all coefficients agree")
    ctx.check(spec.iff(bool(x), spec.not_(spec.is_zero(rv))), "nonzero exactly when some coefficient is nonzero")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    small = [("C1", 2), ("C2", 2), ("C3", 2), ("C2xC2", 2), ("C2", 3), ("C3", 3), ("C2", 4), ("S3", 2), ("C4", 2), ("C1", 5), ("C2+C2", 2), ("A3", 4), ("C2xC3", 2), ("C1xC3", 2), ("SL22", 2), ("SL22r", 2), ("PSL22", 2), ("table", 2)]
    if thorough:
        small += [("D4", 2), ("C5", 2), ("C2xC3", 2), ("S3", 3), ("Q8", 3), ("C2xC1", 3), ("A4", 2), ("PSL23", 2), ("S3xC2", 2), ("SL23", 3)]
    for g, q in small:
        add(f"arithmetic-{g}-q{q}", h_arithmetic, f"all pairs of elements of GF({q})[{g}]", 50, group=g, q=q)
        add(f"lift-{g}-q{q}", h_lift, f"all pairs of elements of GF({q})[{g}], the second on {'all' if thorough else 'the last 2 or 3'} members", 50, group=g, q=q, regular=False, support=None if thorough else 3)
        add(f"regular-{g}-q{q}", h_lift, f"all pairs of elements of GF({q})[{g}], the second on {'all' if thorough else 'the last 2 or 3'} members", 50, group=g, q=q, regular=True, support=None if thorough else 2)
        add(f"vectors-{g}-q{q}", h_vectors, f"all pairs of elements of GF({q})[{g}]", 50, group=g, q=q)
        add(f"scalars-{g}-q{q}", h_scalars, f"all elements of GF({q})[{g}], integers -2..4", 50, group=g, q=q, values=(-2, -1, 0, 1, 2, 3, 4))
        add(f"inverse-{g}-q{q}", h_inverse, f"all elements of GF({q})[{g}]", 50, group=g, q=q)
    for g, q, supports in [("signed", 3, [[0, 1], [2, 3], [5, 7]]), ("SL23", 3, [[0, 1, 2], [3, 10]]), ("A4", 2, [[0, 1, 2, 3], [4, 5, 8]]), ("PSL23", 2, [[0, 3, 7], [1, 11]]), ("D4", 2, [[0, 2, 5, 7]]), ("S3xC2", 2, [[1, 3, 8]])]:
        for k, support in enumerate(supports):
            other = supports[k - 1]
            for regular in (False, True):
                add(f"lift-part{k}-{g}-q{q}-{regular}", h_lift, f"all pairs of elements of GF({q})[{g}] on {len(support)} and {len(other)} members", 50, group=g, q=q, regular=regular, support=other, first=support)
    return out
