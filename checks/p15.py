"""Distance bounds are never below the true distance, whatever the decoder answers."""
from checks import codegen
from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["decoder answers and random draws are arbitrary; at most the stated number of decoder calls per computation "
               "(longer retry loops repeat the same step)"]
FUNCS = ["codes.common.*.get_distance*", "codes.common.*.get_one_distance_bound", "codes.common.*.get_code_params", "codes.common.CSSCode.get_random_logical_op",
         "codes.common.get_random_array", "decoders.*"]


class AnyDecoder:
    """Answers with an arbitrary vector; the path ends after a number of calls."""

    def __init__(self, ctx, n, q, calls):
        self.ctx, self.n, self.q, self.left, self.answers = ctx, n, q, calls, []

    def decode(self, syndrome):
        if len(self.answers) >= self.left:
            self.ctx.assume(False)
        self.answers.append(self.ctx.array(f"answer{len(self.answers) + 1}", self.n, 0, self.q - 1))
        return self.answers[-1]


def words_of(rows, n, q):
    """(condition: v is a nonzero code word, weight) for all vectors."""
    return [(sum(int(x) != 0 for x in v), spec.is_zero(spec.matvec(rows, v, q))) for v in spec.vectors(n, q)[1:]]


def judge(ctx, bound, terms, n, answers):
    """`terms`: (weight, condition) of everything that counts."""
    found = spec.any_of([c for _, c in terms])
    if isinstance(bound, float):
        ctx.check(bound != bound and not answers, "undefined bounds are nan, without decoding")
        ctx.check(spec.not_(found), "bounds are undefined only without nontrivial words")
        return False
    ctx.check(found, "there is a nontrivial word")
    ctx.check(spec.all_of([bound >= spec.least(terms, n + 1), bound <= n]), "the bound lies between the distance and the length")
    return True


def h_classical(ctx, m, n, q, trials, calls, cutoff, entry):
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    code = ctx.q.codes.ClassicalCode(H)
    decoder = AnyDecoder(ctx, n, q, calls)
    if entry == "distance":
        bound = code.get_distance(bound=trials, static_decoder=decoder)
    elif entry == "params":
        length, dim, bound = code.get_code_params(bound=trials, static_decoder=decoder)
        ctx.check(spec.all_of([length == n, spec.rank_is(rows, n - dim, q, n)]), "length and dimension")
    else:
        bound = code.get_distance_bound(trials, cutoff=cutoff, static_decoder=decoder)
    terms = words_of(rows, n, q)
    if not judge(ctx, bound, terms, n, decoder.answers):
        return
    ctx.observe("bound", bound)
    weights = [spec.weight(spec.vec(ctx, a, q)) for a in decoder.answers]
    ctx.check(spec.any_of([bound == w for w in weights] + [bound == n]), "the bound is the weight of a word that was found")
    if calls == trials and not cutoff:  # no retries: every answer was accepted
        ctx.check(len(weights) == trials and spec.all_of([bound <= w for w in weights]), "the best of all trials counts")
    if cutoff:
        ctx.check(len(weights) <= calls, "number of trials")
        if len(weights) < trials:
            ctx.check(bound <= cutoff, "trials end early only at the cutoff")
    exact = code.get_distance()
    ctx.check(exact == spec.least(terms, n + 1), "the exact distance is unaffected by earlier bounds")


def h_vector(ctx, m, n, q, trials, how):
    """Distance of a vector from the code."""
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    vector = ctx.array("vector", n, 0, q - 1)
    mine = spec.vec(ctx, vector, q)
    code = ctx.q.codes.ClassicalCode(H)
    terms = []
    for w in spec.vectors(n, q):
        terms.append((spec.is_zero(spec.matvec(rows, w, q)), spec.weight([a - b for a, b in zip(mine, w)])))
    true = spec.minimum(terms, n + 1)
    if how == "any":
        args = {"static_decoder": AnyDecoder(ctx, n, q, trials)}
    elif how == "guf":
        args = {"with_GUF": True}
    else:
        args = {"with_lookup": True, "max_weight": how}
    bound = code.get_distance(bound=trials, vector=vector, **args)
    ctx.observe("bound", bound)
    ctx.check(spec.all_of([bound >= true, bound <= n]), "the bound lies between the distance and the length")
    if how == n:
        ctx.check(bound == true, "exhaustive lookup gives the exact distance")


def h_real(ctx, m, n, q, how):
    """Bounds from actual decoders."""
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    args = {"with_GUF": True} if how == "guf" else {"with_lookup": True, "max_weight": how}
    bound = ctx.q.codes.ClassicalCode(H).get_distance(bound=1, **args)
    judge(ctx, bound, words_of(rows, n, q), n, [])


def css_terms(rx, rz, n, q, which):
    """(weight, condition) of the dressed logical operators of the given types."""
    out = []
    for p in which:
        mine, others = (rx, rz) if p == "X" else (rz, rx)
        center = [(spec.is_zero(spec.matvec(mine, w, q)), w) for _, w in spec.combos(others, q, n)]
        span = [w for _, w in spec.combos(mine, q, n)]
        for v in spec.vectors(n, q)[1:]:
            commutes = spec.all_of([spec.implies(c, spec.dot(w, v, q) == 0) for c, w in center])
            out.append((sum(int(x) != 0 for x in v), spec.all_of([commutes, spec.not_(spec.in_span(v, None, q, span))])))
    return out


def h_css(ctx, mx, mz, n, q, subsystem, which, trials, calls, entry):
    Pauli = ctx.q.objects.Pauli
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, subsystem)
    decoder = AnyDecoder(ctx, n, q, calls)
    pauli = None if which == "XZ" else getattr(Pauli, which)
    if entry == "distance":
        bound = code.get_distance(pauli, bound=trials, static_decoder=decoder)
    elif entry == "params":
        length, dim, bound = code.get_code_params(bound=trials, static_decoder=decoder)
        ctx.check(length == n and (dim == 0) == isinstance(bound, float), "length and dimension")
    else:
        bound = code.get_distance_bound(trials, pauli, static_decoder=decoder)
    terms = css_terms(rx, rz, n, q, which)
    if not judge(ctx, bound, terms, n, decoder.answers):
        return
    ctx.observe("bound", bound)
    answers = [spec.vec(ctx, a, q) for a in decoder.answers]
    if len(answers) == 1:  # accepted at once
        v = answers[0]
        span = {"X": [w for _, w in spec.combos(rx, q, n)], "Z": [w for _, w in spec.combos(rz, q, n)]}
        real = [spec.all_of([spec.is_zero(spec.matvec(rz if p == "X" else rx, v, q)), spec.not_(spec.in_span(v, None, q, span[p]))]) for p in which]
        ctx.check(spec.any_of(real), "accepted answers are nontrivial logical operators of the requested type")
        ctx.check(spec.weight(v) == bound, "the bound is the weight of the operator")
    if trials == calls:
        ctx.check(spec.all_of([bound <= spec.weight(v) for v in answers] + [len(answers) == trials]), "the best of all trials counts")


def h_css_history(ctx, mx, mz, n, q, first, second):
    """Asking for distances and bounds in any order."""
    Pauli = ctx.q.objects.Pauli
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, False)
    decoder = AnyDecoder(ctx, n, q, 2)
    true = {p: css_terms(rx, rz, n, q, p) for p in ("X", "Z", "XZ")}
    for kind, which in (first, second):
        pauli = None if which == "XZ" else getattr(Pauli, which)
        value = code.get_distance(pauli) if kind == "exact" else code.get_distance(pauli, bound=1, static_decoder=decoder)
        found = spec.any_of([c for _, c in true[which]])
        if isinstance(value, float):
            ctx.check(spec.all_of([value != value, spec.not_(found)]), "undefined only without logical operators")
        else:
            least = spec.least(true[which], n + 1)
            ctx.check(spec.all_of([found, value == least if kind == "exact" else value >= least]), "distances and bounds")


def h_random_logical(ctx, mx, mz, n, q, subsystem, which, nontrivial, seed):
    Pauli = ctx.q.objects.Pauli
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, subsystem)
    mine, others = (rx, rz) if which == "X" else (rz, rx)
    if nontrivial and code.dimension == 0:
        ctx.assume(False)
    op = code.get_random_logical_op(getattr(Pauli, which), ensure_nontrivial=nontrivial, **({"seed": seed} if seed is not None else {}))
    v = spec.vec(ctx, op, q)
    ctx.check(len(v) == n and type(op).order == q, "length and field")
    ctx.check(spec.is_zero(spec.matvec(others, v, q)), "random logical operators commute with all checks of the other type")
    if nontrivial:
        ctx.check(spec.not_(spec.in_span(v, mine, q)), "nontrivial operators are no products of checks")


def h_random_array(ctx, shape, q, seed):
    field = ctx.galois.GF(q)
    out = ctx.q.codes.common.get_random_array(field, shape, satisfy=lambda a: a.any(), seed=seed)
    v = spec.vec(ctx, out.reshape(-1), q)
    ctx.check(tuple(out.shape) == (shape if isinstance(shape, tuple) else (shape,)) and type(out).order == q, "shape and field")
    ctx.check(spec.not_(spec.is_zero(v)), "the condition is met")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, draws=3, **params):
        out.append(Case(name.replace(" ", "").replace("'", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=60000 if thorough else 6000, max_draws=draws, **params))

    for m, n, q, trials, calls, cutoff, entry in [
        (1, 2, 2, 1, 1, None, "distance"), (2, 3, 2, 1, 2, None, "distance"), (1, 3, 2, 2, 2, None, "distance"), (1, 3, 3, 1, 1, None, "distance"), (1, 2, 4, 1, 2, None, "params"),
        (2, 3, 2, 2, 2, 1, "bound"), (1, 3, 2, 3, 3, 2, "bound"), (1, 2, 5, 2, 2, None, "params"), (2, 4, 2, 1, 1, None, "distance"), (1, 4, 2, 2, 3, None, "bound"), (2, 2, 3, 2, 2, 1, "bound"), (1, 3, 4, 1, 1, None, "bound"),
    ] + ([(3, 5, 2, 2, 2, None, "distance"), (2, 4, 3, 1, 2, None, "distance"), (2, 4, 2, 3, 4, 1, "bound")] if thorough else []):
        add(f"classical-{m}x{n}-q{q}-t{trials}-c{calls}-{cutoff}-{entry}", h_classical, f"all {m}x{n} matrices over GF({q}), all answers of {calls} decoder calls, all random words",
            30, draws=calls + 1, m=m, n=n, q=q, trials=trials, calls=calls, cutoff=cutoff, entry=entry)
    for m, n, q, trials, how in [(1, 2, 2, 1, "any"), (2, 3, 2, 1, "any"), (1, 3, 2, 2, "any"), (1, 2, 3, 2, "any"), (1, 3, 2, 1, "guf"), (2, 3, 2, 1, "guf"), (1, 2, 3, 1, "guf"),
                                 (2, 3, 2, 1, 1), (2, 3, 2, 1, 3), (2, 2, 3, 1, 2), (1, 2, 4, 1, "any"), (1, 2, 4, 1, 2), (2, 3, 2, 1, 0)]:
        add(f"vector-{m}x{n}-q{q}-t{trials}-{how}", h_vector, f"all {m}x{n} matrices and vectors over GF({q}), decoder: {how}", 20, m=m, n=n, q=q, trials=trials, how=how)
    for m, n, q, how in [(1, 2, 2, "guf"), (1, 3, 2, "guf"), (1, 2, 3, "guf"), (1, 3, 2, 2), (2, 3, 2, 1), (1, 2, 3, 1), (1, 2, 4, "guf")]:
        add(f"real-{m}x{n}-q{q}-{how}", h_real, f"all {m}x{n} matrices over GF({q}), all random words, decoder: {how}", 30, draws=2, m=m, n=n, q=q, how=how)
    for mx, mz, n, q, sub, which, trials, calls, entry in [
        (1, 1, 2, 2, None, "X", 1, 1, "distance"), (1, 1, 3, 2, False, "X", 1, 2, "distance"), (1, 1, 3, 2, False, "Z", 2, 2, "bound"), (1, 1, 3, 2, True, "X", 1, 1, "distance"), (1, 1, 3, 2, True, "Z", 1, 1, "distance"),
        (1, 1, 3, 2, False, "XZ", 1, 1, "distance"), (2, 1, 3, 2, None, "XZ", 1, 1, "params"), (1, 1, 2, 3, None, "X", 1, 1, "distance"), (1, 1, 2, 3, None, "XZ", 2, 2, "bound"), (1, 1, 2, 4, None, "Z", 1, 1, "distance"),
        (2, 1, 4, 2, False, "X", 1, 1, "distance"), (1, 1, 3, 3, False, "Z", 1, 1, "bound"), (1, 2, 3, 2, None, "Z", 1, 1, "bound"),
    ] + ([(2, 2, 4, 2, None, "X", 1, 1, "distance"), (2, 2, 4, 2, None, "XZ", 1, 1, "distance")] if thorough else []):
        add(f"css-{mx}+{mz}x{n}-q{q}-{sub}-{which}-t{trials}-c{calls}-{entry}", h_css, f"all CSS codes {mx}+{mz}x{n} over GF({q}) (subsystem: {sub}), all answers of {calls} decoder calls, all random operators",
            60, draws=calls * 3, mx=mx, mz=mz, n=n, q=q, subsystem=sub, which=which, trials=trials, calls=calls, entry=entry)
    for first, second in [(("exact", "X"), ("exact", "XZ")), (("exact", "Z"), ("bound", "X")), (("exact", "XZ"), ("bound", "Z")), (("bound", "X"), ("exact", "X")), (("bound", "XZ"), ("exact", "XZ")), (("exact", "X"), ("bound", "XZ"))]:
        for mx, mz, n, q in [(1, 1, 3, 2), (1, 1, 2, 3)]:
            add(f"history-{''.join(first)}-{''.join(second)}-q{q}", h_css_history, f"all CSS codes {mx}+{mz}x{n} over GF({q})", 30, draws=4, mx=mx, mz=mz, n=n, q=q, first=first, second=second)
    for mx, mz, n, q, sub, which, nontrivial, seed in [(1, 1, 3, 2, False, "X", True, None), (1, 1, 3, 2, False, "Z", True, 7), (1, 1, 3, 2, True, "X", True, None), (1, 1, 3, 2, None, "Z", False, None), (1, 1, 2, 3, None, "X", True, None),
                                                       (1, 1, 2, 4, None, "Z", True, None), (2, 1, 3, 2, False, "Z", False, 3), (1, 1, 4, 2, None, "Z", True, None), (1, 1, 3, 3, False, "X", True, None)]:
        add(f"random-logical-{mx}+{mz}x{n}-q{q}-{sub}-{which}-{nontrivial}", h_random_logical, f"all CSS codes {mx}+{mz}x{n} over GF({q}), all random coefficients", 30, draws=2, mx=mx, mz=mz, n=n, q=q, subsystem=sub,
            which=which, nontrivial=nontrivial, seed=seed)
    for shape, q, seed in [(3, 2, None), ((2, 2), 3, None), ((1, 2), 4, None)]:
        add(f"random-array-{shape}-q{q}", h_random_array, f"all arrays of shape {shape} over GF({q})", 3, draws=2, shape=shape, q=q, seed=seed)
    return out
