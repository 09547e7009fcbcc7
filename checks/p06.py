"""Classical code operations agree with linear algebra."""
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["matrices and words are symbolic up to the stated sizes"]
FUNCS = ["codes.common.ClassicalCode.*", "codes.common.AbstractCode.equiv"]


def words_of(rows, n, q):
    """(condition, word): is the vector a code word of the code with the given checks?"""
    return [(spec.is_zero(spec.matvec(rows, v, q)), v) for v in spec.vectors(n, q)]


def same_words(ctx, code, membership, n, q, label):
    """The parity checks of `code` accept exactly the vectors satisfying `membership(v)`."""
    ctx.check(len(code) == n, label + " (length)")
    rows = spec.elems(ctx, code.matrix, q)
    ctx.check(spec.all_of([spec.iff(spec.is_zero(spec.matvec(rows, v, q)), membership(v)) for v in spec.vectors(n, q)]), label)


def span_of(gen, q, n):
    return [w for _, w in spec.combos(gen, q, n)]


def h_basic(ctx, m, n, q):
    H = ctx.field_array("H", (m, n), q)
    code = ctx.q.codes.ClassicalCode(H)
    rows = spec.elems(ctx, H, q)
    G = spec.elems(ctx, code.generator, q)
    k = code.dimension
    ctx.observe("k", k)
    ctx.check(len(code) == n and code.num_bits == n and code.num_checks == m, "sizes")
    ctx.check(len(G) == k and code.rank == n - k, "generator rows, dimension and rank agree")
    ctx.check(spec.rank_is(rows, n - k, q, n), "rank of the parity check matrix")
    span = span_of(G, q, n)
    ctx.check(spec.all_zero([spec.matvec(rows, g, q) for g in G]), "generator rows are code words")
    ctx.check(spec.rank_is(G, k, q, n), "generator rows are independent")
    words = list(code.iter_words())
    ctx.check(len(words) == q**k, "number of enumerated words")
    listed = [spec.vec(ctx, w, q) for w in words]
    ctx.check(spec.all_of([spec.in_span(w, None, q, span) for w in listed]), "enumerated words are code words")
    ctx.check(spec.all_of([spec.not_(spec.same(a, b)) for i, a in enumerate(listed) for b in listed[:i]]), "words are enumerated once")
    ctx.check(spec.all_of([spec.not_(spec.is_zero(spec.vec(ctx, w, q))) for w in code.iter_words(skip_zero=True)]), "the zero word is skipped")
    dual = code.dual()
    same_words(ctx, dual, lambda v: spec.in_span(v, rows, q), n, q, "dual = orthogonal complement of the code")
    ctx.check(dual.dimension == n - k, "dimension of the dual")
    same_words(ctx, ~dual, lambda v: spec.is_zero(spec.matvec(rows, v, q)), n, q, "dual of the dual")
    canon = spec.elems(ctx, code.canonicalized.matrix, q)
    ctx.check(len(canon) == n - k and spec.same_span(canon, rows, q, n), "canonical checks generate the same checks")
    ctx.check(ctx.q.codes.ClassicalCode.equiv(code, code.canonicalized), "equivalent to its canonical form")
    copy = ctx.q.codes.ClassicalCode(code)
    ctx.check(copy == code and copy.dimension == k, "copy")
    if m:
        weights = [spec.weight(r) for r in rows]
        w = code.get_weight()
        ctx.check(spec.all_of([x <= w for x in weights] + [spec.any_of([x == w for x in weights])]), "weight = largest check weight")


def h_contains(ctx, m, n, q, many):
    H = ctx.field_array("H", (m, n), q)
    code = ctx.q.codes.ClassicalCode(H)
    rows = spec.elems(ctx, H, q)
    words = ctx.array("words", (many, n) if many else n, 0, q - 1)
    inside = words in code
    listed = spec.elems(ctx, words, q) if many else [spec.vec(ctx, words, q)]
    ctx.check(spec.iff(inside, spec.all_zero([spec.matvec(rows, w, q) for w in listed])), "membership = all checks satisfied")


def h_equiv(ctx, ma, mb, n, q, qb=None):
    A, B = ctx.field_array("A", (ma, n), q), ctx.field_array("B", (mb, n), qb or q)
    C = ctx.q.codes.ClassicalCode
    a, b = C(A), C(B)
    got = C.equiv(a, b)
    if qb and qb != q:
        ctx.check(not got, "codes over different fields are not equivalent")
        return
    ctx.check(spec.iff(got, spec.same_span(spec.elems(ctx, A, q), spec.elems(ctx, B, q), q, n)), "equivalent = same row space")
    identical = ma == mb and spec.all_of([spec.same(x, y) for x, y in zip(spec.elems(ctx, A, q), spec.elems(ctx, B, q))])
    ctx.check(spec.iff(a == b, identical), "equal = same parity check matrix")


def h_generator(ctx, m, n, q):
    G = ctx.field_array("G", (m, n), q)
    code = ctx.q.codes.ClassicalCode.from_generator(G)
    rows = spec.elems(ctx, G, q)
    same_words(ctx, code, lambda v: spec.in_span(v, rows, q), n, q, "code words = combinations of the generator")
    ctx.check(spec.rank_is(rows, code.dimension, q, n), "dimension = rank of the generator")
    ctx.check(spec.same_span(spec.elems(ctx, code.generator, q), rows, q, n), "same generator span")


def h_set_generator(ctx, m, n, q, g):
    H = ctx.field_array("H", (m, n), q)
    G = ctx.array("G", (g, n), 0, q - 1)
    code = ctx.q.codes.ClassicalCode(H)
    rows, gen = spec.elems(ctx, H, q), spec.elems(ctx, G, q)
    try:
        code.set_generator(G)
    except ValueError:
        valid = False
    else:
        valid = True
    zero_syndrome = spec.all_zero([spec.matvec(rows, x, q) for x in gen])
    basis = spec.all_of([zero_syndrome, spec.rank_is(gen, g, q, n), spec.rank_is(rows, n - g, q, n) if g <= n else False])
    ctx.check(spec.iff(valid, basis), "a generator is accepted exactly when it is a basis of the code")
    if valid:
        ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(spec.elems(ctx, code.generator, q), gen)]), "and then it is used")


def h_tensor(ctx, a, b, q):
    A, B = ctx.field_array("A", a, q), ctx.field_array("B", b, q)
    C = ctx.q.codes.ClassicalCode
    code = C.tensor_product(C(A), C(B))
    ra, rb = spec.elems(ctx, A, q), spec.elems(ctx, B, q)
    na, nb = a[1], b[1]

    def member(v):
        matrix = [v[i * nb:(i + 1) * nb] for i in range(na)]
        columns = spec.all_zero([spec.matvec(ra, [matrix[i][j] for i in range(na)], q) for j in range(nb)])
        return spec.all_of([columns, spec.all_zero([spec.matvec(rb, row, q) for row in matrix])])

    same_words(ctx, code, member, na * nb, q, "tensor product: every row and column of the word is a code word")
    ctx.check(code.dimension == C(A).dimension * C(B).dimension, "dimension of the tensor product")


def h_stack(ctx, shapes, q):
    C = ctx.q.codes.ClassicalCode
    mats = [ctx.field_array(f"H{i}", s, q) for i, s in enumerate(shapes)]
    code = C.stack(*[C(m) for m in mats])
    rows = [spec.elems(ctx, m, q) for m in mats]

    def member(v):
        conds, start = [], 0
        for r, (_, n) in zip(rows, shapes):
            conds.append(spec.is_zero(spec.matvec(r, v[start:start + n], q)))
            start += n
        return spec.all_of(conds)

    same_words(ctx, code, member, sum(n for _, n in shapes), q, "stacked code: every part is a code word")
    ctx.check(code.num_checks == sum(m for m, _ in shapes), "stacked checks")


def h_puncture(ctx, m, n, q, bits, shorten, from_gen):
    H = ctx.field_array("H", (m, n), q)
    C = ctx.q.codes.ClassicalCode
    code = C.from_generator(H) if from_gen else C(H)
    rows = spec.elems(ctx, H, q)
    if from_gen:
        words = [(True, w) for w in span_of(rows, q, n)]
    else:
        words = words_of(rows, n, q)
    keep = [i for i in range(n) if i not in bits]
    new = code.shorten(*bits) if shorten else code.puncture(*bits)

    def member(v):
        conds = []
        for c, w in words:
            same = spec.same([w[i] for i in keep], v)
            if shorten:
                same = spec.all_of([same, spec.is_zero([w[i] for i in bits])])
            conds.append(spec.all_of([c, same]))
        return spec.any_of(conds)

    same_words(ctx, new, member, len(keep), q, "shortened words" if shorten else "punctured words")


def h_random(ctx, m, n, q, seed):
    code = ctx.q.codes.ClassicalCode.random(n, m, q, seed=seed)
    rows = spec.elems(ctx, code.matrix, q)
    ctx.check(code.matrix.shape == (m, n) and code.field.order == q, "requested size and field")
    ctx.check(spec.all_of([spec.not_(spec.is_zero(r)) for r in rows]), "no trivial checks")
    ctx.check(spec.all_of([spec.not_(spec.is_zero(c)) for c in spec.transpose(rows)]), "no unchecked bits")
    word = spec.vec(ctx, code.get_random_word(), q)
    ctx.check(spec.is_zero(spec.matvec(rows, word, q)), "a random word is a code word")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=40000 if thorough else 6000, **params))

    sizes = [(1, 2, 2), (1, 3, 2), (2, 2, 2), (2, 3, 2), (3, 3, 2), (2, 4, 2), (3, 4, 2), (1, 2, 3), (2, 2, 3), (1, 3, 3), (2, 3, 3), (1, 2, 4), (1, 3, 4), (1, 2, 5)]
    if thorough:
        sizes += [(3, 5, 2), (2, 5, 2), (4, 4, 2), (3, 3, 3), (2, 4, 3), (2, 2, 4), (2, 3, 4), (2, 2, 5), (1, 2, 7)]
    for m, n, q in sizes:
        add(f"basic-{m}x{n}-q{q}", h_basic, f"all {m}x{n} check matrices over GF({q})", m * n * q * 2, m=m, n=n, q=q)
        add(f"from_generator-{m}x{n}-q{q}", h_generator, f"all {m}x{n} generators over GF({q})", m * n * q, m=m, n=n, q=q)
    for m, n, q, many in [(2, 3, 2, 0), (3, 4, 2, 0), (2, 3, 2, 2), (2, 3, 3, 0), (2, 2, 4, 0), (3, 6, 2, 3), (2, 3, 5, 2), (3, 4, 3, 2)]:
        add(f"contains-{m}x{n}-q{q}-{many}", h_contains, f"all {m}x{n} check matrices over GF({q}) and all words", m=m, n=n, q=q, many=many)
    for ma, mb, n, q in [(1, 1, 3, 2), (2, 2, 2, 2), (2, 1, 3, 2), (2, 2, 3, 2), (1, 2, 2, 3), (1, 1, 3, 3)] + ([(3, 2, 3, 2), (2, 2, 4, 2), (2, 2, 2, 3)] if thorough else []):
        add(f"equiv-{ma}+{mb}x{n}-q{q}", h_equiv, f"all pairs of {ma}x{n} and {mb}x{n} check matrices over GF({q})", 30, ma=ma, mb=mb, n=n, q=q)
    add("equiv-fields", h_equiv, "1x2 matrices over GF(2) and GF(4)", ma=1, mb=1, n=2, q=2, qb=4)
    for m, n, q, g in [(1, 2, 2, 1), (1, 2, 2, 2), (1, 3, 2, 2), (2, 3, 2, 1), (2, 3, 2, 2), (1, 3, 2, 3), (1, 2, 3, 1), (1, 2, 3, 2)]:
        add(f"set_generator-{m}x{n}-q{q}-{g}", h_set_generator, f"all {m}x{n} check matrices over GF({q}) and all {g}x{n} proposals", 10, m=m, n=n, q=q, g=g)
    for a, b, q in [((1, 2), (1, 2), 2), ((1, 2), (1, 3), 2), ((2, 2), (1, 2), 2), ((1, 3), (1, 2), 2), ((1, 2), (1, 2), 3)] + ([((1, 2), (2, 3), 2), ((2, 3), (1, 2), 2)] if thorough else []):
        add(f"tensor-{a[0]}x{a[1]}-{b[0]}x{b[1]}-q{q}", h_tensor, f"all {a} and {b} check matrices over GF({q})", 30, a=a, b=b, q=q)
    for shapes, q in [(((1, 2), (1, 2)), 2), (((2, 2), (1, 3)), 2), (((1, 2), (1, 1), (2, 2)), 2), (((1, 2), (1, 2)), 3), (((1, 2), (1, 1)), 4)]:
        add(f"stack-{'-'.join(f'{m}x{n}' for m, n in shapes)}-q{q}", h_stack, f"all check matrices of shapes {shapes} over GF({q})", shapes=shapes, q=q)
    for shorten in (False, True):
        for from_gen in (False, True):
            for m, n, q, bits in [(1, 3, 2, (0,)), (1, 3, 2, (1,)), (2, 3, 2, (2,)), (2, 3, 2, (0, 2)), (2, 4, 2, (1, 2)), (2, 4, 2, (3, 0)), (1, 4, 2, (0, 1, 3)),
                                  (1, 3, 3, (1,)), (1, 2, 3, (0,)), (1, 3, 3, (2, 0)), (1, 2, 4, (1,)), (2, 3, 2, ())]:
                if n == 4 and m == 2 and not thorough and bits == (3, 0):
                    continue
                add(f"{'shorten' if shorten else 'puncture'}-{'G' if from_gen else 'H'}-{m}x{n}-q{q}-{'_'.join(map(str, bits))}", h_puncture,
                    f"all {m}x{n} {'generators' if from_gen else 'check matrices'} over GF({q}), bits {bits}", m * n * q, m=m, n=n, q=q, bits=bits, shorten=shorten, from_gen=from_gen)
    for m, n, q, seed in [(1, 2, 2, None), (2, 2, 2, None), (1, 2, 3, None), (2, 3, 2, None), (2, 2, 2, 0)]:
        add(f"random-{m}x{n}-q{q}-{seed}", h_random, f"random {m}x{n} codes over GF({q}); any draws accepted within 2 attempts", m * n * q, m=m, n=n, q=q, seed=seed)
    return out
