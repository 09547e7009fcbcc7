"""Finite groups: members, tables, products, matrix groups, symmetric subsets."""
import contextlib
import itertools
import math
import re

import galois
import numpy as np

from checks.p10 import GROUPS
from vf import spec
from vf import symnp as S
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["permutations, tables and matrices are decided by the solver and then fixed per path, because sympy works on numbers",
               "random members are arbitrary members, at most the stated number of them"]
FUNCS = ["abstract.Group.*", "abstract.GroupMember.*", "abstract.AbelianGroup.*", "abstract.SpecialLinearGroup.*", "abstract.ProjectiveSpecialLinearGroup.*"]


def plain(matrix):
    """Integers of a concrete matrix, in either mode."""
    return [[number(x) for x in row] for row in S.raw(np.asarray(matrix, dtype=object) if not isinstance(matrix, np.ndarray) else matrix)]


def number(x):
    return int(x)


def multiply(a, b, p=None):
    out = np.array(a, dtype=np.int64) @ np.array(b, dtype=np.int64)
    return (out % p if p else out).tolist()


def after(p, q):
    """First p, then q."""
    return [q[x] for x in p]


def h_member(ctx, n, m):
    G = ctx.q.abstract.GroupMember
    p, q, r = ctx.permutation("p", n), ctx.permutation("q", n), ctx.permutation("r", m)
    a, b, c = G(p), G(q), G(r)
    ctx.check(list((a * b).array_form) == after(p, q), "products are compositions")
    ma, mb = plain(a.to_matrix()), plain(b.to_matrix())
    ctx.check(ma == [[int(p[i] == j) for j in range(n)] for i in range(n)], "permutation matrices act on row vectors")
    ctx.check(plain((a * b).to_matrix()) == multiply(ma, mb), "permutation matrices respect products")
    ctx.check(list((a @ c).array_form) == p + [n + x for x in r], "tensor products act on both parts")
    ctx.check(isinstance(a * b, G) and isinstance(a @ c, G), "types")
    ctx.check((a < b) == (p < q), "members are sorted by rank")
    ctx.check((a == b) == (p == q), "equal exactly when they act in the same way")
    text = a.to_gap_cycles()
    ctx.check(re.fullmatch(r"(\(\d*(,\d+)*\))+", text) is not None, "cycle notation")
    image = list(range(n))
    for cycle in re.findall(r"\(([\d,]+)\)", text):
        items = [int(x) - 1 for x in cycle.split(",")]
        for x, y in zip(items, items[1:] + items[:1]):
            image[x] = y
    ctx.check(image == p, "cycle notation describes the permutation")


def h_group(ctx, group):
    """Index, membership, table of a group."""
    G = GROUPS[group](ctx.q.abstract)
    members = list(G.generate())
    n = len(members)
    ctx.check(n == G.order == len(set(members)), "every member is generated once")
    i, j = ctx.choice("i", range(n)), ctx.choice("j", range(n))
    a, b = members[i], members[j]
    ctx.check(a in G and a * b in G and ~a in G, "closed under products and inverses")
    ctx.check(G.index(a) == i, "positions of members")
    table = plain(G.table)
    ctx.check(members[table[i][j]] == a * b, "the table lists products")
    ctx.check(G.identity in G and a * G.identity == a, "the identity")
    ctx.check(G.is_abelian == all(x * y == y * x for x in members for y in members), "abelian exactly when all products commute")
    ctx.check(set(G.generators) <= set(members) and closure(G.generators, G.identity) == set(members), "generators generate the group")
    again = ctx.q.abstract.Group.from_table(table)
    ctx.check(again.order == n and again.is_abelian == G.is_abelian, "a group can be rebuilt from its table")
    outside = ctx.q.abstract.GroupMember(list(range(G.identity.size)) + [G.identity.size + 1, G.identity.size])
    ctx.check_raises(ValueError, lambda: G.index(outside), "other permutations have no position")


def closure(generators, identity):
    seen, todo = {identity}, [identity]
    while todo:
        x = todo.pop()
        for g in generators:
            if x * g not in seen:
                seen.add(x * g)
                todo.append(x * g)
    return seen


def is_group_table(t, n):
    """Rows are permutations, associative, with an identity (symbolic)."""
    latin = [spec.not_(t[i][j] == t[i][k]) for i in range(n) for j in range(n) for k in range(j)] + [spec.not_(t[j][i] == t[k][i]) for i in range(n) for j in range(n) for k in range(j)]
    return spec.all_of(latin)


def h_table(ctx, n):
    flat = ctx.ints("t", n * n, 0, n - 1)
    t = [flat[i * n:(i + 1) * n] for i in range(n)]
    ctx.assume(is_group_table(t, n))
    t = [[int(x) for x in row] for row in t]
    ctx.assume(all(t[t[i][j]][k] == t[i][t[j][k]] for i, j, k in itertools.product(range(n), repeat=3)))
    A = ctx.q.abstract
    e = next(i for i in range(n) if t[i] == list(range(n)))
    # the representation by matrices that permute the members from the left
    left = [[[int(t[g][j] == i) for j in range(n)] for i in range(n)] for g in range(n)]
    G = A.Group.from_table(t, integer_lift=lambda i: np.array(left[int(i)]))
    H = A.Group.from_table(t)
    members = list(G.generate())
    ctx.check(len(members) == G.order == H.order == n, "order")
    ctx.check(G.is_abelian == H.is_abelian == (t == [list(r) for r in zip(*t)]), "abelian exactly when the table is symmetric")
    lifts = [plain(G.lift(g)) for g in members]
    ctx.check(sorted(lifts) == sorted(left), "members are lifted to the given matrices")
    ctx.check(plain(G.lift(G.identity)) == left[e], "the identity is lifted to the identity")
    ctx.check(G.lift_dim == n, "dimension of the representation")
    ctx.check(all(plain(G.lift(x * y)) == multiply(a, b) for x, a in zip(members, lifts) for y, b in zip(members, lifts)), "lifting respects products")
    others = list(H.generate())
    orders = lambda ms: sorted(next(k for k in range(1, n + 1) if m**k == m * ~m) for m in ms)  # noqa: E731
    want = []
    for g in range(n):
        x, k = g, 1
        while x != e:
            x, k = t[x][g], k + 1
        want.append(k)
    ctx.check(orders(members) == orders(others) == sorted(want), "orders of members")


def h_mats(ctx, count, d, q, signed=False):
    """Groups generated by arbitrary invertible matrices."""
    A = ctx.q.abstract
    mats = []
    for k in range(count):
        if signed:
            perm = ctx.permutation(f"p{k}", d)
            signs = [1 - 2 * int(s) for s in ctx.ints(f"s{k}", d, 0, 1)]
            mats.append([[signs[i] if perm[i] == j else 0 for j in range(d)] for i in range(d)])
        else:
            flat = ctx.ints(f"m{k}", d * d, 0, q - 1)
            det = flat[0] if d == 1 else flat[0] * flat[3] - flat[1] * flat[2]
            ctx.assume(spec.not_(det % q == 0))
            flat = [int(x) for x in flat]
            mats.append([flat[i * d:(i + 1) * d] for i in range(d)])
    field = None if signed else ctx.galois.GF(q)
    # matrices may repeat, and be given as lists or as arrays of integers of different sizes
    formats = [lambda m: m, ctx.np.array, lambda m: ctx.np.array(m, dtype=ctx.np.int8)]
    pick = [k if count > 1 else 1 for k in range(count)] if signed else []
    G = A.Group.from_generating_mats(*[formats[pick[k] % 3](m) if signed else field(m) for k, m in enumerate(mats)])
    mats = [m for k, m in enumerate(mats) if m not in mats[:k]]
    count = len(mats)
    p = None if signed else q
    one = [[int(i == j) for j in range(d)] for i in range(d)]
    want, todo = [one], [one]
    while todo:
        x = todo.pop()
        for m in mats:
            y = multiply(x, m, p)
            if y not in want:
                want.append(y)
                todo.append(y)
    members = list(G.generate())
    ctx.check(G.order == len(members) == len(want), "order")
    lifts = [plain(G.lift(g)) for g in members]
    ctx.check(sorted(lifts) == sorted(want), "members are lifted to the matrices of the group")
    if count == 1 or one not in mats:
        ctx.check([plain(G.lift(g)) for g in G.generators] == mats, "generators are lifted to the given matrices")
    ctx.check(plain(G.lift(G.identity)) == one, "the identity is lifted to the identity")
    ctx.check(all(plain(G.lift(x * y)) == multiply(a, b, p) for x, a in zip(members, lifts) for y, b in zip(members, lifts)), "lifting respects products")


def h_product(ctx, first, second, power):
    A = ctx.q.abstract
    F = GROUPS[first](A)
    if power:
        G, n = F**power, F.order**power
        parts = [F] * power
    else:
        parts = [F, GROUPS[second](A)]
        G, n = F * parts[1], F.order * parts[1].order
    P = A.Group.product(*parts)
    ctx.check(G == P and A.Group.product(F, repeat=2) == F * F, "products in different notations")
    members = list(G.generate())
    ctx.check(G.order == n == len(members) == len(set(members)), "order of a product")
    lists = [list(x.generate()) for x in parts]
    x = [ctx.choice(f"x{k}", ms) for k, ms in enumerate(lists)]
    y = [ctx.choice(f"y{k}", ms) for k, ms in enumerate(lists)]

    def tensor(items):
        out = items[0]
        for item in items[1:]:
            out = out @ item
        return out

    ctx.check(tensor(x) in G and tensor(x) * tensor(y) == tensor([u * v for u, v in zip(x, y)]), "multiplied part by part")
    ctx.check(G.is_abelian == all(z.is_abelian for z in parts), "products of abelian groups")


# ---------------------------------------------------------------- matrix groups
def det_is_one(m, d, q):
    info = V.field_info(q)
    total = info.consts[0]
    for perm in itertools.permutations(range(d)):
        sign = sum(perm[i] > perm[j] for i in range(d) for j in range(i, d)) % 2
        term = info.consts[1]
        for i in range(d):
            term = term * m[i][perm[i]]
        total = total - term if sign else total + term
    return total == 1


def h_sl(ctx, d, q, linear):
    A = ctx.q.abstract
    G = A.SL(d, q, linear_rep=linear)
    size = math.prod(q**d - q**j for j in range(d)) // (q - 1)
    ctx.check(G.order == size and G.dimension == d and G.field.order == q, "order, dimension and field")
    ctx.check(G.identity.size == (q**d - 1 if linear else size) and G.lift_dim == d, "members move the nonzero vectors, or each other")
    listed = [spec.elems(ctx, m, q) for m in A.SL.iter_mats(d, q)]
    gens = list(A.SL.get_generating_mats(d, q))
    members = list(G.generate())
    lifts = [spec.elems(ctx, G.lift(g), q) for g in members]
    ctx.check(spec.all_of([equal(spec.elems(ctx, G.lift(g), q), spec.elems(ctx, m, q)) for g, m in zip(G.generators, gens)]), "generators are lifted to the generating matrices")
    flat = spec.vec(ctx, ctx.field_array("m", d * d, q), q)
    m = [flat[i * d:(i + 1) * d] for i in range(d)]
    want = det_is_one(m, d, q)
    ctx.check(len(listed) == len(lifts) == size, "every matrix is listed once")
    ctx.check(spec.iff(spec.any_of([equal(x, m) for x in listed]), want), "the listed matrices are those of determinant one")
    ctx.check(spec.iff(spec.any_of([equal(x, m) for x in lifts]), want), "members are lifted to the matrices of determinant one")
    # any two products, by linearity in a combination of them
    coefficients = spec.vec(ctx, ctx.field_array("c", 6 if q == 2 else 3, q), q)
    picked = members[:: max(1, len(members) // len(coefficients))][:len(coefficients)]
    for g in G.generators:
        total, other = zeros(d, q), zeros(d, q)
        for c, h in zip(coefficients, picked):
            total = combine(total, c, spec.elems(ctx, G.lift(g * h), q))
            other = combine(other, c, spec.elems(ctx, G.lift(h), q))
        ctx.check(equal(total, spec.matmul(spec.elems(ctx, G.lift(g), q), other, q)), "lifting respects products")
        a = plain(G.lift(g))
        ctx.check(all(plain(G.lift(g * h)) == product(a, plain(G.lift(h)), q) for h in members), "lifting respects products, one by one")


def h_words(ctx, d, q, length, ends):
    """Products of generating matrices of PSL agree exactly when those of SL agree up to a scalar."""
    A = ctx.q.abstract
    gens = [[spec.elems(ctx, m, q) for m in cls.get_generating_mats(d, q)] for cls in (A.SL, A.PSL)]
    info = V.field_info(q)
    # common letters at either end can be cancelled
    letters = [spec.vec(ctx, [end, *ctx.ints(name, length - 2, 0, 1), last], q) for name, end, last in (("u", 1, ends), ("v", 0, 1 - ends))]

    def word(x, w, choice):
        n = len(x)
        out = [[info.consts[int(i == j)] for j in range(n)] for i in range(n)]
        for c in choice:  # either generator
            factor = [[b + c * (a - b) for a, b in zip(r, t)] for r, t in zip(x, w)]
            out = spec.matmul(out, factor, q)
        return out

    words = [[word(*pair, choice) for choice in letters] for pair in gens]
    scalars = [info.consts[s] for s in range(1, q)]
    alike = spec.any_of([equal([[s * y for y in row] for row in words[0][0]], words[0][1]) for s in scalars])
    ctx.check(spec.iff(alike, equal(*words[1])), "products agree exactly when they should")
    if q == 2:
        ctx.check(spec.all_of([equal(a, b) for a, b in zip(*gens)]), "without scalars, the generators are those of SL")


def h_psl(ctx, d, q, linear):
    A = ctx.q.abstract
    G = A.PSL(d, q, linear_rep=linear)
    size = math.prod(q**d - q**j for j in range(d)) // (q - 1) // math.gcd(d, q - 1)
    ctx.check(G.order == size and G.dimension == d and G.field.order == q, "order, dimension and field")
    roots = math.gcd(d, q - 1)
    ctx.check(G.identity.size == ((q**d - 1) // roots if linear else size), "members move the nonzero vectors up to roots of unity, or each other")
    ctx.check(not linear or G.lift_dim == (d if roots == 1 else size), "members are lifted to matrices of the group, if they are matrices")
    mats = list(A.PSL.iter_mats(d, q))
    ctx.check(len(mats) == size and all(tuple(m.shape) == (d, d) for m in mats), "one square matrix per member")
    listed = [spec.elems(ctx, m, q) for m in mats]
    flat = spec.vec(ctx, ctx.field_array("m", d * d, q), q)
    m = [flat[i * d:(i + 1) * d] for i in range(d)]
    info = V.field_info(q)
    scalars = [info.consts[s] for s in range(1, q)]
    multiples = [spec.any_of([equal(x, [[s * y for y in row] for row in m]) for s in scalars]) for x in listed]
    has_multiple = spec.any_of([det_is_one([[s * y for y in row] for row in m], d, q) for s in scalars])
    ctx.check(spec.iff(spec.any_of(multiples), has_multiple), "the listed matrices are those of determinant one, up to scalars")
    ctx.check(spec.all_of([spec.not_(spec.all_of([a, b])) for a, b in itertools.combinations(multiples, 2)]) if len(multiples) < 80 else True, "no two listed matrices differ by a scalar")
    members = list(G.generate())
    lifts = [np.array(plain(G.lift(g)), dtype=np.int64) for g in members]
    n = len(lifts[0])
    ctx.check(len({x.tobytes() for x in lifts}) == size == len(members) and G.lift_dim == n, "the representation is faithful")
    for k, x in enumerate(G.generators):
        a = lifts[members.index(x)]
        products = [plain(G.lift(y * x)) for y in members]
        if n == size:
            ctx.check(all((y @ a).tolist() == xy for y, xy in zip(lifts, products)), "lifting respects products")
        else:
            c = spec.vec(ctx, ctx.field_array(f"c{k}", 12 if q == 2 else 3, q), q)
            ctx.check(all(xy == product(y.tolist(), a.tolist(), q) for y, xy in zip(lifts, products)), "lifting respects products, one by one")
            total, other = zeros(n, q), zeros(n, q)
            for v, y, xy in zip(c, lifts, products):
                total, other = combine(total, v, wrap(xy, q)), combine(other, v, wrap(y.tolist(), q))
            ctx.check(equal(total, spec.matmul(other, wrap(a.tolist(), q), q)), "lifting respects products")


def product(a, b, q):
    """Product of matrices of numbers."""
    return np.array(galois.GF(q)(a) @ galois.GF(q)(b)).tolist()


def wrap(matrix, q):
    return [[V.field_info(q).consts[x] for x in row] for row in matrix]


def zeros(d, q):
    return [[V.field_info(q).consts[0]] * d for _ in range(d)]


def combine(total, c, m):
    return [[x + c * y for x, y in zip(r, s)] for r, s in zip(total, m)]


def equal(a, b):
    return len(a) == len(b) and spec.all_of([spec.same(r, s) for r, s in zip(a, b)])


# ---------------------------------------------------------------- random subsets
@contextlib.contextmanager
def arbitrary(ctx, group, limit):
    """Random members are arbitrary members."""
    import sympy.core.random as R

    members = list(group.generate())
    count = [0]

    def draw(options):
        count[0] += 1
        ctx.assume(count[0] <= limit)
        return ctx.choice(f"draw{count[0]}", options)

    saved = R.randint
    R.randint = lambda a, b: draw(range(a, b + 1))
    group.random = lambda *, seed=None: draw(members)
    try:
        yield
    finally:
        R.randint = saved


def h_subset(ctx, group, size, exclude, limit):
    G = GROUPS[group](ctx.q.abstract)
    with arbitrary(ctx, G, limit):
        got = G.random_symmetric_subset(size, exclude_identity=exclude)
    ctx.check(len(got) == size, "the subset has the requested size")
    ctx.check(all(~g in got and g in G for g in got), "the subset is symmetric")
    if exclude:
        ctx.check(G.identity not in got, "the identity is excluded")


def h_subset_rejected(ctx, group):
    G = GROUPS[group](ctx.q.abstract)
    size = ctx.integer("size", -3, int(G.order) + 3)
    ctx.assume(spec.any_of([size <= 0, size > G.order]))
    ctx.check_raises(ValueError, lambda: G.random_symmetric_subset(size), "impossible sizes are rejected")


def h_random(ctx, group):
    """Random members are members (whatever the generator of random numbers answers)."""
    import sympy.combinatorics.perm_groups as P
    G = GROUPS[group](ctx.q.abstract)
    count = [0]

    def randrange(*args):
        count[0] += 1
        ctx.assume(count[0] < 5)
        return ctx.choice(f"r{count[0]}", list(range(*args)))

    saved = P.randrange
    P.randrange = randrange
    try:
        g = G.random()
    finally:
        P.randrange = saved
    ctx.check(g in G and isinstance(g, ctx.q.abstract.GroupMember), "random members are members")


def h_small(ctx, order, index, generators):
    """Small groups, with a stand-in for the external data base."""
    groups = ctx.q.external.groups
    saved = groups.get_generators, groups.get_small_group_number
    try:
        groups.get_generators = lambda name: generators
        groups.get_small_group_number = lambda n: 3
        G = ctx.q.abstract.SmallGroup(order, index)
        ctx.check(G.order == order and str(G) == f"SmallGroup({order},{index})" if order > 1 else G.order == 1, "order and name")
        bad = ctx.integer("bad", -2, 6)
        ctx.assume(spec.any_of([bad < 1, bad > 3]))
        ctx.check_raises(ValueError, lambda: ctx.q.abstract.SmallGroup(order, int(bad)), "there are only so many groups")
        drawn = {G.random(seed=s) for s in range(20)}
        ctx.check(drawn <= set(G.generate()) and (len(drawn) > 1 or order == 1), "random members vary")
    finally:
        groups.get_generators, groups.get_small_group_number = saved


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=3000 if thorough else 240, max_paths=60000 if thorough else 8000, **params))

    for n, m in [(1, 2), (2, 3), (3, 2)] + ([(4, 3)] if thorough else []):
        add(f"member-{n}-{m}", h_member, f"all permutations of {n} and {m} points", 30, n=n, m=m)
    for g in GROUPS:
        add(f"group-{g}", h_group, "all pairs of members", 20, group=g)
        add(f"random-{g}", h_random, "all random numbers", 5, group=g)
        add(f"subset-rejected-{g}", h_subset_rejected, "all impossible sizes", 1, group=g)
    for n in (1, 2, 3, 4) + ((5,) if thorough else ()):
        add(f"table-{n}", h_table, f"all group tables of order {n}", 40, n=n)
    for count, d, q in [(1, 1, 3), (1, 1, 5), (2, 1, 5), (1, 2, 2), (2, 2, 2), (1, 2, 3)]:
        add(f"mats-{count}-{d}-q{q}", h_mats, f"all {count} invertible {d} by {d} matrices over GF({q})", 40, count=count, d=d, q=q)
    for count, d in [(1, 2), (2, 2), (1, 3)]:
        add(f"signed-{count}-{d}", h_mats, f"all {count} signed permutation matrices of size {d}", 40, count=count, d=d, q=0, signed=True)
    for a, b in [("C2", "C3"), ("C3", "S3"), ("C1", "C2"), ("C2xC2", "D3"), ("C1", "C1")]:
        add(f"product-{a}-{b}", h_product, "all pairs of members", 20, first=a, second=b, power=0)
    for a, k in [("C2", 3), ("S3", 1), ("C3", 2), ("C1", 2)]:
        add(f"power-{a}-{k}", h_product, "all pairs of members", 20, first=a, second=None, power=k)
    for d, q in [(2, 2), (2, 3), (2, 4), (2, 5)] + ([(3, 2)] if thorough else []):
        for linear in (True, False):
            if not linear and q == 5 and not thorough:
                continue
            add(f"sl-{d}-q{q}-{linear}", h_sl, f"all {d} by {d} matrices over GF({q})", 60, d=d, q=q, linear=linear)
            add(f"psl-{d}-q{q}-{linear}", h_psl, f"all {d} by {d} matrices over GF({q})", 60, d=d, q=q, linear=linear)
    for d, q, length in [(2, 2, 4), (2, 3, 6), (2, 4, 6), (2, 5, 5), (3, 4, 10)] + ([(2, 7, 6), (2, 9, 6), (3, 4, 12), (3, 3, 8)] if thorough else []):
        for ends in (0, 1):
            add(f"words-{d}-q{q}-{length}-{ends}", h_words, f"all pairs of products of {length} generators of SL({d},{q}) and PSL({d},{q}) without common letters at the ends", 60, d=d, q=q, length=length, ends=ends)
    for g, size, exclude, limit in [("C2", 1, False, 4), ("C2", 2, False, 4), ("C3", 2, True, 4), ("C3", 3, False, 4), ("C4", 2, False, 4), ("C4", 3, True, 5), ("S3", 2, True, 3), ("S3", 3, False, 4), ("C2xC2", 3, True, 4), ("C5", 1, False, 5), ("C5", 2, True, 3), ("C5", 3, False, 4), ("C2xC3", 3, True, 4)]:
        add(f"subset-{g}-{size}-{exclude}", h_subset, f"all sequences of at most {limit} random numbers", 30, group=g, size=size, exclude=exclude, limit=limit)
    for order, index, gens in [(1, 1, []), (2, 1, [[(0, 1)]]), (4, 1, [[(0, 1, 2, 3)]]), (4, 2, [[(0, 1)], [(2, 3)]]), (6, 1, [[(0, 1, 2)], [(0, 1)]])]:
        add(f"small-{order}-{index}", h_small, "all invalid numbers", 5, order=order, index=index, generators=gens)
    return out
