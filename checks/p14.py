"""Decoders return corrections that reproduce the syndrome, within their promises."""
import contextlib
import itertools
import types

from vf import spec
from vf import values as V
from vf.engine import EngineGap
from vf.harness import Case

ASSUMPTIONS = ["parity check matrices and errors are symbolic up to the stated sizes; the integer programs handed to cvxpy are checked as constraint systems "
               "(all variable assignments), the external integer program solver itself is not"]
FUNCS = ["decoders.*", "codes.common.ClassicalCode.*", "codes.common.QuditCode.*", "math.symplectic_conjugate"]


def conj(rows, n):
    return [[-x for x in r[n:]] + list(r[:n]) for r in rows]


def inputs(ctx, m, n, q, symplectic, plain):
    cols = 2 * n if symplectic else n
    H = ctx.field_array("H", (m, cols), q)
    rows = spec.elems(ctx, H, q)
    given = H.view(ctx.np.ndarray) if plain else H
    return given, (conj(rows, n) if symplectic else rows), cols


def weight_of(symplectic):
    return spec.symplectic_weight if symplectic else spec.weight


def h_lookup(ctx, m, n, q, symplectic, limit, plain):
    given, rows, cols = inputs(ctx, m, n, q, symplectic, plain)
    error = ctx.field_array("e", cols, q)
    e = spec.vec(ctx, error, q)
    weigh = weight_of(symplectic)
    syndrome = spec.matvec(rows, e, q)
    decoder = ctx.q.decoders.LookupDecoder(given, max_weight=limit, symplectic=symplectic)
    s = make_syndrome(ctx, given, symplectic, error, q, plain)
    found = decoder.decode(s)
    got = spec.vec(ctx, found, q)
    ctx.check(len(got) == cols, "length of a correction")
    known = spec.any_of([spec.all_of([spec.same(spec.matvec(rows, v, q), syndrome), weigh(v) <= limit]) for v in spec.vectors(cols, q)])
    explains = spec.same(spec.matvec(rows, got, q), syndrome)
    ctx.check(spec.implies(weigh(e) <= limit, spec.all_of([explains, weigh(got) <= weigh(e)])), "errors within the maximum weight get a correction of no larger weight")
    ctx.check(spec.implies(spec.not_(known), spec.is_zero(got)), "other syndromes get the trivial correction")
    # corrections belong to the caller
    for i in range(cols):
        found[i] = 1
    again = spec.vec(ctx, decoder.decode(s), q)
    ctx.check(spec.same(again, got), "corrections do not change when the caller modifies one")


def make_syndrome(ctx, given, symplectic, error, q, plain):
    """The syndrome as a user would compute it."""
    H = given.view(ctx.galois.GF(q))
    if symplectic:
        H = ctx.q.math.symplectic_conjugate(H)
    s = H @ error
    return s.view(ctx.np.ndarray) if plain else s


def h_lookup_default(ctx, m, n, q):
    """Without a maximum weight, every error of weight at most (d-1)//2 is corrected."""
    given, rows, cols = inputs(ctx, m, n, q, False, False)
    error = ctx.field_array("e", cols, q)
    e = spec.vec(ctx, error, q)
    kernel = [(spec.all_of([spec.is_zero(spec.matvec(rows, v, q)), spec.not_(spec.is_zero(v))]), spec.weight(v)) for v in spec.vectors(cols, q)]
    distance = spec.minimum(kernel, n + 1)
    decoder = ctx.q.decoders.LookupDecoder(given)
    got = spec.vec(ctx, decoder.decode(make_syndrome(ctx, given, False, error, q, False)), q)
    ctx.check(spec.implies(spec.all_of([distance <= n, 2 * spec.weight(e) < distance]), spec.same(got, e)), "errors below half the distance are corrected")


def h_lookup_default_quantum(ctx, m, n, q):
    given, rows, cols = inputs(ctx, m, n, q, True, False)
    plain_rows = spec.elems(ctx, given, q)
    ctx.assume(spec.all_of([spec.symplectic(a, b, q) == 0 for i, a in enumerate(plain_rows) for b in plain_rows[:i]]))
    error = ctx.field_array("e", cols, q)
    e = spec.vec(ctx, error, q)
    span = [w for _, w in spec.combos(plain_rows, q, cols)]
    logical = [(spec.all_of([spec.is_zero(spec.matvec(rows, v, q)), spec.not_(spec.in_span(v, None, q, span))]), spec.symplectic_weight(v)) for v in spec.vectors(cols, q)]
    distance = spec.minimum(logical, n + 1)
    decoder = ctx.q.decoders.LookupDecoder(given, symplectic=True)
    got = spec.vec(ctx, decoder.decode(make_syndrome(ctx, given, True, error, q, False)), q)
    rest = [x - y for x, y in zip(got, e)]
    ctx.check(spec.implies(spec.all_of([distance <= n, 2 * spec.symplectic_weight(e) < distance]), spec.in_span(rest, None, q, span)),
              "errors below half the distance are corrected up to stabilizers")


def h_guf(ctx, m, n, q, symplectic, plain, limit, at_call):
    given, rows, cols = inputs(ctx, m, n, q, symplectic, plain)
    error = ctx.field_array("e", cols, q)
    e = spec.vec(ctx, error, q)
    syndrome = spec.matvec(rows, e, q)
    if limit is None:
        decoder = ctx.q.decoders.GUFDecoder(given, symplectic=symplectic)
        found = decoder.decode(make_syndrome(ctx, given, symplectic, error, q, plain))
    else:
        base = ctx.q.decoders.GUFDecoder(given, symplectic=symplectic)
        s = make_syndrome(ctx, given, symplectic, error, q, plain)
        first = spec.vec(ctx, base.decode(s), q)
        if at_call:
            found = base.decode(s, max_weight=limit)
        else:
            found = ctx.q.decoders.GUFDecoder(given, symplectic=symplectic, max_weight=limit).decode(s)
    got = spec.vec(ctx, found, q)
    ctx.check(len(got) == cols, "length of a correction")
    ctx.check(spec.same(spec.matvec(rows, got, q), syndrome), "the correction reproduces the syndrome of every error")
    if limit is not None:
        weigh = weight_of(symplectic)
        ctx.check(weigh(got) <= weigh(first), "a maximum weight does not make corrections heavier")
        # the search covers at least the solutions whose support lies within that of the first one
        better = []
        for v in spec.vectors(cols, q):
            within = [spec.implies(spec.is_zero([first[i]] + ([first[i + n]] if symplectic else [])), spec.is_zero([v[i]] + ([v[i + n]] if symplectic else []))) for i in range(n)]
            better.append(spec.all_of([spec.same(spec.matvec(rows, v, q), syndrome), *within, weigh(v) < weigh(got)]))
        ctx.check(spec.implies(weigh(got) > limit, spec.not_(spec.any_of(better))), "corrections above the maximum weight are lightest")


def h_guf_none(ctx, m, n, q):
    """Syndromes that no error explains get the trivial correction."""
    given, rows, cols = inputs(ctx, m, n, q, False, False)
    s = ctx.field_array("s", m, q)
    sv = spec.vec(ctx, s, q)
    possible = spec.any_of([spec.same(spec.matvec(rows, v, q), sv) for v in spec.vectors(cols, q)])
    got = spec.vec(ctx, ctx.q.decoders.GUFDecoder(given).decode(s.view(ctx.np.ndarray)), q)
    ctx.check(spec.implies(spec.not_(possible), spec.is_zero(got)), "syndromes that no error explains get the trivial correction")
    ctx.check(spec.implies(possible, spec.same(spec.matvec(rows, got, q), sv)), "the correction reproduces the syndrome")


# ---------------------------------------------------------------- integer programs
class Solve(Exception):
    def __init__(self, problem):
        self.problem = problem


class Expr:
    """A vector (or scalar) expression over decision variables."""

    __array_ufunc__ = None

    def __init__(self, func, size=None, variables=()):
        self.func, self.size, self.vars = func, size, tuple(variables)  # func(assignment) -> list (size) or term

    def _both(self, other, op):
        def at(env):
            a = self.func(env)
            b = other.func(env) if isinstance(other, Expr) else other
            listy = isinstance(a, list) or isinstance(b, list) or getattr(b, "ndim", 0)
            if not listy:
                return op(a, b)
            n = len(a) if isinstance(a, list) else len(b)
            a = a if isinstance(a, list) else [a] * n
            b = list(b) if isinstance(b, list) or getattr(b, "ndim", 0) else [b] * n
            return [op(x, y) for x, y in zip(a, b)]
        return Expr(at, self.size, self.vars + (other.vars if isinstance(other, Expr) else ()))

    def __add__(self, o): return self._both(o, lambda a, b: a + b)
    def __radd__(self, o): return self._both(o, lambda a, b: b + a)
    def __sub__(self, o): return self._both(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._both(o, lambda a, b: b - a)
    def __mul__(self, o): return self._both(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._both(o, lambda a, b: b * a)
    def __neg__(self): return self._both(-1, lambda a, b: a * b)
    def __ge__(self, o): return Constraint(self._both(o, lambda a, b: a >= b))
    def __le__(self, o): return Constraint(self._both(o, lambda a, b: a <= b))
    def __eq__(self, o): return Constraint(self._both(o, lambda a, b: a == b))
    __hash__ = object.__hash__

    def __rmatmul__(self, o):
        coeffs = [o[i] for i in range(len(o))]
        def at(env):
            total = 0
            for c, v in zip(coeffs, self.func(env)):
                total = total + c * v
            return total
        return Expr(at, None, self.vars)

    def __matmul__(self, o): return self.__rmatmul__(o)
    def __getitem__(self, i): return Expr(lambda env: self.func(env)[i], None, self.vars)
    def __iter__(self): return (self[i] for i in range(self.size))


class Constraint:
    def __init__(self, expr):
        self.expr = expr

    def holds(self, env):
        value = self.expr.func(env)
        return spec.all_of(value if isinstance(value, list) else [value])


class Variable(Expr):
    def __init__(self, shape=(), boolean=False, integer=False, **kw):
        if kw or not (boolean or integer):
            raise EngineGap("kind of decision variable")
        size = shape if isinstance(shape, int) else (shape[0] if shape else 1)
        self.boolean, self.scalar = boolean, shape == ()
        super().__init__(lambda env: env[id(self)][0] if self.scalar else list(env[id(self)]), size, (self,))
        self.value = None


def norm(expr, p):
    if p != 1:
        raise EngineGap("norm")
    def at(env):
        total = 0
        for v in expr.func(env):
            total = total + v
        return total
    return Expr(at, None, expr.vars)


class Problem:
    def __init__(self, objective, constraints):
        self.objective, self.constraints = objective, list(constraints)

    def solve(self, **_):
        raise Solve(self)


def cvxpy_stub():
    module = types.ModuleType("cvxpy")
    module.Variable, module.norm, module.Problem, module.Constraint = Variable, norm, Problem, Constraint
    module.Minimize = lambda expr: expr
    module.sum = lambda expr: norm(expr, 1)
    return {"cvxpy": module}


def h_ilp(ctx, m, n, q, plain):
    """Feasible points of the integer program are exactly the errors with the given syndrome, and the objective is their weight."""
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    x = ctx.field_array("x", n, q)
    xv = spec.vec(ctx, x, q)
    s = ctx.field_array("s", m, q)
    sv = spec.vec(ctx, s, q)
    explains = spec.same(spec.matvec(rows, xv, q), sv)
    decoder = ctx.q.decoders.ILPDecoder(H.view(ctx.np.ndarray) if plain else H)
    if not ctx.symbolic:
        try:
            got = decoder.decode(s.view(ctx.np.ndarray))
        except ValueError:
            ctx.check(spec.not_(explains), "solutions are found")
            return
        gv = spec.vec(ctx, got, q)
        ctx.check(spec.all_of([spec.same(spec.matvec(rows, gv, q), sv), spec.implies(explains, spec.weight(gv) <= spec.weight(xv))]), "solutions are valid and optimal")
        return
    try:
        decoder.decode(s.view(ctx.np.ndarray))
        raise EngineGap("no problem was solved")
    except Solve as call:
        problem = call.problem
    except ValueError:
        ctx.check(spec.not_(explains), "solutions are found")
        return
    main = decoder.variables
    values = [V.to_int(v) for v in xv]
    others = []
    for expr in [problem.objective] + [c.expr for c in problem.constraints]:
        for v in expr.vars:
            if v is not main and not any(v is o for o in others):
                others.append(v)
    if not all(v.boolean for v in others):
        raise EngineGap("integer slack variables")
    sizes = [v.size for v in others]
    feasible, costs = [], []
    for bits in itertools.product((0, 1), repeat=sum(sizes)):
        env, at = {id(main): values}, 0
        for v, k in zip(others, sizes):
            env[id(v)], at = list(bits[at:at + k]), at + k
        ok = spec.all_of([c.holds(env) for c in problem.constraints])
        feasible.append(ok)
        costs.append((ok, problem.objective.func(env)))
    some = spec.any_of(feasible)
    ctx.check(spec.all_of([spec.iff(some, explains), spec.implies(some, spec.minimum(costs, 10**3) == spec.weight(xv))]), "feasible points and their cost")


# ---------------------------------------------------------------- composite decoders
class Recorder:
    """An arbitrary decoder that answers with fresh vectors and remembers what it was asked."""

    def __init__(self, ctx, length, q):
        self.ctx, self.length, self.q, self.asked, self.answers = ctx, length, q, [], []

    def decode(self, syndrome):
        self.asked.append(syndrome)
        self.answers.append(self.ctx.array(f"answer{len(self.asked)}", self.length, 0, self.q - 1))
        return self.answers[-1]


def h_block(ctx, m, n, blocks, q):
    inner = Recorder(ctx, n, q)
    s = ctx.array("s", m * blocks, 0, q - 1)
    out = ctx.q.decoders.BlockDecoder(m, inner).decode(s)
    ctx.check(len(inner.asked) == blocks, "every block is decoded once")
    ctx.check(spec.all_of([a[i] == s[b * m + i] for b, a in enumerate(inner.asked) for i in range(m)] + [len(a) == m for a in inner.asked]), "blocks are decoded in order")
    ctx.check(len(out) == n * blocks and spec.all_of([out[b * n + i] == a[i] for b, a in enumerate(inner.answers) for i in range(n)]), "corrections are joined in order")


def h_direct(ctx, m, n, q, plain):
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    word = ctx.field_array("w", n, q)
    w = spec.vec(ctx, word, q)
    inner = Recorder(ctx, n, q)
    decoder = ctx.q.decoders.DirectDecoder.from_indirect(inner, H.view(ctx.np.ndarray) if plain else H)
    out = spec.vec(ctx, decoder.decode(word.view(ctx.np.ndarray)), q)
    ctx.check(len(inner.asked) == 1 and spec.same(spec.vec(ctx, inner.asked[0], q), spec.matvec(rows, w, q)), "the syndrome of the word is decoded")
    answer = spec.vec(ctx, inner.answers[0], q)
    ctx.check(spec.same(out, [x - y for x, y in zip(w, answer)]), "the correction is subtracted")
    ctx.check(spec.implies(spec.same(spec.matvec(rows, answer, q), spec.matvec(rows, w, q)), spec.is_zero(spec.matvec(rows, out, q))), "valid corrections give code words")


def h_dispatch(ctx, q, kind):
    """The front end hands the problem to the decoder that was asked for."""
    D = ctx.q.decoders
    H = ctx.field_array("H", (1, 2), q)
    rows = spec.elems(ctx, H, q)
    e = ctx.field_array("e", 2, q)
    ev = spec.vec(ctx, e, q)
    s = (H @ e).view(ctx.np.ndarray)
    if kind == "static":
        inner = Recorder(ctx, 2, q)
        out = D.decode(H, s, static_decoder=inner)
        ctx.check(out is inner.answers[0] and spec.same(spec.vec(ctx, inner.asked[0], q), spec.matvec(rows, ev, q)), "the given decoder is used")
    elif kind == "constructor":
        inner = Recorder(ctx, 2, q)
        seen = []
        def build(matrix, **kw):
            seen.append((matrix, kw))
            return inner
        out = D.decode(H, s, decoder_constructor=build, option=3)
        ctx.check(out is inner.answers[0] and seen[0][1] == {"option": 3} and seen[0][0] is H, "the given constructor is used")
    elif kind == "guf":
        args = {"with_GUF": True} if q == 2 else {}
        out = spec.vec(ctx, D.decode(H, s, **args), q)
        ctx.check(spec.same(spec.matvec(rows, out, q), spec.matvec(rows, ev, q)), "union-find decoding reproduces the syndrome")
        ctx.check(type(D.get_decoder(H, **args)) is D.GUFDecoder, "decoder type")
    elif kind == "lookup":
        out = spec.vec(ctx, D.decode(H, s, with_lookup=True, max_weight=2), q)
        ctx.check(spec.same(spec.matvec(rows, out, q), spec.matvec(rows, ev, q)), "lookup decoding reproduces the syndrome")
        ctx.check(spec.weight(out) <= spec.weight(ev), "lookup corrections are lightest")


@contextlib.contextmanager
def recorded(made, decoder):
    """Stand-ins for the external decoders, which record how they are built."""
    import ldpc
    import ldpc.bplsd_decoder
    import pymatching

    places = [(ldpc, "BpOsdDecoder"), (ldpc, "BeliefFindDecoder"), (ldpc.bplsd_decoder, "BpLsdDecoder"), (ldpc, "BpLsdDecoder"), (pymatching.Matching, "from_check_matrix")]
    saved = [(owner, name, owner.__dict__[name]) for owner, name in places if name in owner.__dict__]

    def build(name):
        def make(*args, **kwargs):
            made.append((name, args, kwargs))
            return decoder
        return make

    for owner, name, old in saved:
        setattr(owner, name, staticmethod(build(name)) if isinstance(owner, type) else build(name))
    try:
        yield
    finally:
        for owner, name, old in saved:
            setattr(owner, name, old)


def h_external(ctx, m, n, plain):
    """External decoders get the matrix, the options of the caller, and an error rate if there is none."""
    D = ctx.q.decoders
    H = ctx.field_array("H", (m, n), 2)
    rows = spec.elems(ctx, H, 2)
    given = H.view(ctx.np.ndarray) if plain else H
    syndrome = ctx.array("s", m, 0, 1)
    rate = ctx.integer("rate", 1, 9)
    kinds = {"with_BP_OSD": "BpOsdDecoder", None: "BpOsdDecoder", "with_BP_LSD": "BpLsdDecoder", "with_BF": "BeliefFindDecoder", "with_MWPM": "from_check_matrix"}
    kind = ctx.choice("kind", list(kinds))
    options = ctx.choice("options", [{}, {"error_rate": None}, {"error_channel": [0.1] * n}, {"option": 5, "other": None}])
    options = {k: (rate if v is None else v) for k, v in options.items()}
    args = {**({kind: True} if kind else {}), **options}
    made, inner = [], Recorder(ctx, n, 2)
    with recorded(made, inner):
        if ctx.choice("direct", [0, 1]):
            out = D.decode(given, syndrome, **args)
        else:
            decoder = D.get_decoder(given, **args)
            ctx.check(decoder is inner, "the decoder itself is returned")
            out = decoder.decode(syndrome)
    ctx.check(len(made) == 1 and made[0][0] == kinds[kind], "the decoder that was asked for")
    name, positional, keywords = made[0]
    ctx.check(len(positional) == 1 and spec.all_of([spec.same(r, s) for r, s in zip(spec.elems(ctx, positional[0], 2), rows)]) and tuple(positional[0].shape) == (m, n), "the matrix that was given")
    want = dict(options)
    if kind != "with_MWPM" and not {"error_rate", "error_channel"} & set(options):
        placeholder = keywords.get("error_rate")
        ctx.check(isinstance(placeholder, float) and 0 < placeholder < 0.5, "an error rate, which these decoders need")
        want["error_rate"] = placeholder
    ctx.check(set(keywords) == set(want) and spec.all_of([keywords[k] == want[k] if k != "error_channel" else keywords[k] is want[k] for k in want if k in keywords]), "the options of the caller")
    ctx.check(out is inner.answers[0] and len(inner.asked) == 1 and spec.same(spec.vec(ctx, inner.asked[0], 2), spec.vec(ctx, syndrome, 2)), "the answer of the decoder")
    ctx.check(set(args) == set(options) | ({kind} if kind else set()), "the options of the caller are left alone")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, max_draws=params.pop("draws", 3), **params))

    for m, n, q, sym, limit, plain in [(1, 2, 2, False, 1, False), (1, 3, 2, False, 1, False), (2, 3, 2, False, 1, False), (2, 3, 2, False, 2, True), (1, 2, 3, False, 1, False), (2, 2, 3, False, 2, False), (1, 2, 4, False, 1, False),
                                       (1, 2, 2, True, 1, False), (2, 1, 2, True, 1, True), (1, 2, 2, True, 2, False), (1, 1, 3, True, 1, False), (2, 1, 3, True, 1, False), (1, 1, 4, True, 1, False), (2, 3, 2, False, 0, False)]:
        add(f"lookup-{m}x{n}-q{q}-{sym}-w{limit}-{plain}", h_lookup, f"all {m}x{2 * n if sym else n} matrices over GF({q}), all errors, maximum weight {limit}", 30,
            m=m, n=n, q=q, symplectic=sym, limit=limit, plain=plain)
    for m, n, q in [(2, 3, 2), (1, 2, 2), (2, 3, 3) if thorough else (1, 2, 3)]:
        add(f"lookup-default-{m}x{n}-q{q}", h_lookup_default, f"all {m}x{n} matrices over GF({q}), all errors", 30, m=m, n=n, q=q)
    for m, n, q in [(1, 2, 2), (2, 2, 2)]:
        add(f"lookup-default-quantum-{m}x{n}-q{q}", h_lookup_default_quantum, f"all stabilizer codes {m}x{2 * n} over GF({q}), all errors", 30, m=m, n=n, q=q)
    for m, n, q, sym, plain in [(1, 2, 2, False, False), (2, 3, 2, False, True), (3, 2, 2, False, False), (2, 2, 3, False, False), (1, 2, 4, False, False), (1, 2, 2, True, False), (2, 2, 2, True, True), (1, 1, 3, True, False), (2, 1, 3, True, False), (1, 2, 5, False, False), (1, 4, 2, False, False)]:
        for limit, at_call in [(None, None), (0, True), (1, False)]:
            add(f"guf-{m}x{n}-q{q}-{sym}-{plain}-{limit}", h_guf, f"all {m}x{2 * n if sym else n} matrices over GF({q}), all errors, maximum weight {limit}", 60,
                m=m, n=n, q=q, symplectic=sym, plain=plain, limit=limit, at_call=at_call)
    for m, n, q in [(2, 2, 2), (2, 1, 3), (3, 2, 2), (1, 2, 4)]:
        add(f"guf-none-{m}x{n}-q{q}", h_guf_none, f"all {m}x{n} matrices and syndromes over GF({q})", 30, m=m, n=n, q=q)
    for m, n, q, plain in [(1, 3, 2, False), (2, 2, 2, True), (1, 2, 3, False), (2, 2, 3, False), (1, 2, 5, False), (1, 4, 2, True), (1, 3, 3, False)]:
        add(f"ilp-{m}x{n}-q{q}-{plain}", h_ilp, f"all {m}x{n} matrices, syndromes and candidate errors over GF({q})", 60, m=m, n=n, q=q, plain=plain, stubs=cvxpy_stub, validate=4)
    for m, n, blocks, q in [(2, 3, 2, 2), (1, 2, 3, 3), (3, 1, 1, 2), (2, 2, 3, 5)]:
        add(f"block-{m}x{n}-{blocks}-q{q}", h_block, f"{blocks} blocks of all syndromes of length {m}, all inner answers", 5, m=m, n=n, blocks=blocks, q=q)
    for m, n, q, plain in [(2, 3, 2, True), (2, 3, 2, False), (2, 2, 3, False), (1, 2, 4, False), (1, 3, 5, False)]:
        add(f"direct-{m}x{n}-q{q}-{plain}", h_direct, f"all {m}x{n} matrices and words over GF({q}), all inner answers", 5, m=m, n=n, q=q, plain=plain)
    for m, n, plain in [(1, 2, False), (2, 3, True), (2, 2, False)]:
        add(f"external-{m}x{n}-{plain}", h_external, f"all {m}x{n} binary matrices, syndromes and answers, four external decoders", 5, m=m, n=n, plain=plain)
    for q in (2, 3, 4):
        for kind in ("static", "constructor", "guf", "lookup"):
            add(f"dispatch-{kind}-q{q}", h_dispatch, f"all 1x2 problems over GF({q})", 5, q=q, kind=kind)
    return out
