"""Logical error rate estimates mix the observed decoding failures with binomial weights."""
import math

from checks import codegen
from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["random draws and decoder answers are arbitrary; logarithms, exponentials and other floating-point functions are those of the libraries, "
               "evaluated on every path (the physical error rates are fixed numbers), and compared within 1e-9"]
FUNCS = ["codes.common.*.get_logical_error_rate_func", "codes.common.*._estimate_decoding_fidelity_and_variance", "codes.common._get_sample_allocation",
         "codes.common._get_error_probs_by_weight", "decoders.get_decoder", "decoders.DirectDecoder.*", "math.log_choose"]
RATES = (0.0, 0.01, 0.2, 0.5, 1.0)


def mixture(n, p, failures):
    """Estimate and standard error from {weight: [failed, ...]}."""
    top = max(failures)
    rate, variance = 0.0, 0.0
    for k in range(n + 1):
        prob = math.comb(n, k) * p**k * (1 - p) ** (n - k)
        if k == 0:
            continue
        if k > top:
            rate += prob
            continue
        bad = sum(failures[k]) / len(failures[k])
        rate += prob * bad
        variance += prob**2 * bad * (1 - bad) / len(failures[k])
    return rate, math.sqrt(variance)


def judge(ctx, estimate, n, failures, samples, limit):
    """Compare the estimates with the failures that were observed."""
    weights = sorted(failures)
    ctx.check(weights == list(range(1, len(weights) + 1)), "errors of all weights from one on are sampled")
    ctx.check(samples <= sum(map(len, failures.values())), "the number of samples is at least the requested one")
    outcomes = {k: [bool(f) for f in v] for k, v in failures.items()}
    close = True
    for p in RATES:
        if p > limit:
            continue
        got, want = estimate(p), mixture(n, p, outcomes)
        close = close and all(abs(float(a) - b) < 1e-9 for a, b in zip(got, want)) and len(got) == 2
    ctx.check(close, "estimates and standard errors mix the failures with binomial weights")
    many = estimate([p for p in RATES if p <= limit])
    ctx.check(len(many[0]) == sum(p <= limit for p in RATES) and all(abs(float(many[0][i]) - float(estimate(p)[0])) < 1e-12 for i, p in enumerate(RATES) if p <= limit), "many error rates at once")
    if limit < 1:
        ctx.check_raises(ValueError, lambda: estimate(limit + 0.05), "rates beyond the maximum are rejected")


def h_classical(ctx, m, n, q, samples, limit, kind):
    H = ctx.field_array("H", (m, n), q)
    rows = spec.elems(ctx, H, q)
    code = ctx.q.codes.ClassicalCode(H)
    log = []
    if kind == "direct":
        def answer(word):
            out = ctx.array(f"answer{len(log)}", n, 0, q - 1)
            log.append((spec.vec(ctx, word, q), spec.vec(ctx, out, q)))
            return out
        args = {"static_decoder": ctx.q.decoders.DirectDecoder(answer)}
    estimate = code.get_logical_error_rate_func(samples, limit, **args)
    failures = {}
    for word, out in log:
        weight = int(spec.weight(word))
        failures.setdefault(weight, []).append(spec.any_of([x != 0 for x in out]))
    judge(ctx, estimate, n, failures, samples, limit)


class Quantum:
    """Records what the decoders of both sectors are asked, and answers with arbitrary undetected remainders."""

    def __init__(self, ctx, code, which):
        self.ctx, self.n, self.q, self.which = ctx, len(code), code.field.order, which
        self.gauges = {p: spec.elems(ctx, getattr(code, f"matrix_{p.lower()}"), self.q) for p in "XZ"}
        self.bare = {p: self.commuting(self.gauges["XZ".replace(p, "")]) for p in "XZ"}
        self.stabilizers = {p: [v for v in self.bare[p] if spec.in_span(v, self.gauges[p], self.q)] for p in "XZ"}
        assert self.bare["X"] and sorted(map(str, self.stabilizers["X"])) != sorted(map(str, self.stabilizers["Z"]))
        self.log, self.made = [], []

    def commuting(self, rows):
        return [v for v in spec.vectors(self.n, self.q) if spec.is_zero(spec.matvec(rows, v, self.q))]

    def build(self, matrix, **kwargs):
        """A decoder for the sector that the matrix checks."""
        ctx, rows = self.ctx, spec.elems(self.ctx, matrix, self.q)
        kinds = [p for p in "XZ" if all(any(bool(spec.same(r, v)) for v in self.stabilizers[p]) for r in rows)
                 and bool(spec.rank_is(rows, spec_rank(self.stabilizers[p], self.q), self.q, self.n))]
        ctx.check(len(kinds) == 1, "decoders are built for the stabilizers of one type")
        ctx.check(kwargs == {"option": 3}, "decoder options are passed on")
        errors = "Z" if kinds[0] == "X" else "X"
        self.made.append(errors)

        def answer(word):
            out = ctx.array(f"answer{len(self.log)}", self.n, 0, self.q - 1)
            vec = spec.vec(ctx, out, self.q)
            ctx.assume(spec.is_zero(spec.matvec(rows, vec, self.q)))
            if self.which == "clean" and errors == "Z":
                ctx.assume(spec.is_zero(vec))
            self.log.append((errors, spec.vec(ctx, word, self.q), vec))
            return out

        return ctx.q.decoders.DirectDecoder(answer)

    def failed(self, errors, residual):
        other = "X" if errors == "Z" else "Z"
        return spec.any_of([spec.dot(v, residual, self.q) != 0 for v in self.bare[other]])

    def samples(self):
        """Decoder calls of every sample: at most one for each type."""
        out = []
        for entry in self.log:
            if not out or entry[0] in [e[0] for e in out[-1]]:
                out.append([])
            out[-1].append(entry)
        return out


def spec_rank(vectors, q):
    return round(math.log(len(vectors), q)) if vectors else 0


def css_code(ctx, name):
    C, F = ctx.q.codes, ctx.galois.GF
    if name == "4-1":
        return C.CSSCode(F(2)([[1, 1, 1, 1]]), F(2)([[1, 1, 0, 0], [0, 0, 1, 1]]))
    if name == "shor-3x2":
        return C.BaconShorCode(3, 2, field=2)
    if name == "3-1-gf3":
        return C.CSSCode(F(3)([[1, 1, 1]]), F(3)([[1, 2, 0]]))
    if name == "2-1-gf3":
        return C.CSSCode(F(3)([[1, 1]]), F(3)([[0, 0]]))
    if name == "3-1-gf4":
        return C.CSSCode(F(4)([[1, 2, 3]]), F(4)([[1, 1, 1]]))
    if name == "surface":
        return C.SurfaceCode(2, 3, rotated=True, field=2)
    if name == "3-1":
        return C.CSSCode(F(2)([[1, 1, 0]]), F(2)([[1, 1, 1]]))
    raise AssertionError(name)


def h_quantum(ctx, family, samples, limit, bias, which):
    code = css_code(ctx, family)
    n, q = len(code), code.field.order
    world = Quantum(ctx, code, which)
    estimate = code.get_logical_error_rate_func(samples, limit, bias, decoder_constructor=world.build, option=3)
    ctx.check(sorted(world.made) == ["X", "Z"], "one decoder for every type of error")
    failures = {}
    for sample in world.samples():
        words = {kind: word for kind, word, _ in sample}
        bad = spec.any_of([world.failed(kind, residual) for kind, _, residual in sample])
        if len(words) == 2:
            weight = spec.count([spec.any_of([x != 0, z != 0]) for x, z in zip(words["X"], words["Z"])])
            for allowed, x_part, z_part in zip(bias or (1, 1, 1), (True, True, False), (False, True, True)):
                if not allowed:
                    seen = [spec.all_of([(x != 0) == x_part, (z != 0) == z_part]) for x, z in zip(words["X"], words["Z"])]
                    ctx.check(spec.not_(spec.any_of(seen)), "errors without bias do not occur")
        else:
            ctx.check(bad, "samples are given up only after a failure")
            weight = spec.weight(words["Z"]) if which == "z" else 1 if which == "single" else 0
        failures.setdefault(int(weight), []).append(bad)
    judge(ctx, estimate, n, failures, samples, limit)


def indirect_code(ctx, name):
    """A code, options of its decoder, and the weights of errors that are corrected, for every bias."""
    C, G, np = ctx.q.codes, ctx.galois.GF, ctx.np
    if name.startswith("rep"):
        _, n, q, top = name.split("-")
        return C.RepetitionCode(int(n), int(q)), {"with_lookup": True, "max_weight": int(top)}, {None: range(int(top) + 1)}
    if name == "flip":
        return C.CSSCode(G(2).Zeros((1, 3)), C.RepetitionCode(3)), {"with_lookup": True, "max_weight": 1}, {(1, 0, 0): (0, 1), (0, 0, 2): (0, 2), (0, 1, 0): (0,)}
    if name == "phase":
        return C.CSSCode(C.RepetitionCode(3), G(2).Zeros((1, 3))), {"with_lookup": True, "max_weight": 1}, {(1, 0, 0): (0, 2), (0, 0, 2): (0, 1), (0, 1, 0): (0,)}
    if name == "flip-3":
        return C.CSSCode(G(3).Zeros((1, 3)), C.RepetitionCode(3, 3)), {"with_lookup": True, "max_weight": 1}, {(1, 0, 0): (0, 1)}
    raise AssertionError(name)


def h_indirect(ctx, family, samples, limit, bias):
    """Decoders of syndromes: failures depend only on the weight of the error."""
    code, args, good = indirect_code(ctx, family)
    n = len(code)
    options = dict(args) if bias is None else {"pauli_bias": bias, **args}
    estimate = code.get_logical_error_rate_func(samples, limit, **options)
    ctx.check(args.get("max_weight") is not None, "options of the caller are left alone")
    close = True
    for p in RATES:
        if p > limit:
            continue
        rate, error = estimate(p)
        tops = [k for k in range(n + 1)]
        want = sum(math.comb(n, k) * p**k * (1 - p) ** (n - k) for k in tops if k not in good[bias])
        # weights beyond the sampled ones count as failures
        sampled = [sum(math.comb(n, k) * p**k * (1 - p) ** (n - k) for k in tops if k > top or k not in good[bias]) for top in tops]
        close = close and any(abs(float(rate) - x) < 1e-9 for x in sampled) and float(rate) >= want - 1e-9 and abs(float(error)) < 1e-9
    ctx.check(close, "estimates are the probabilities of the weights that are not corrected")


def h_rejected(ctx, samples):
    """Values that no probability distribution has."""
    H = ctx.field_array("H", (1, 2), 2)
    code = ctx.q.codes.ClassicalCode(H)
    estimate = code.get_logical_error_rate_func(samples, 0.1, static_decoder=ctx.q.decoders.DirectDecoder(lambda word: word))
    for rate in (0.1001, 0.5, 1):
        ctx.check_raises(ValueError, lambda: estimate(rate), "rates beyond the maximum are rejected")
    ctx.check(tuple(map(float, estimate(0))) == (0.0, 0.0), "no error at rate zero")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, samples, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, max_draws=8 * samples + 40, max_paths=40000, timeout=1500 if thorough else 240, **params, samples=samples))

    for m, n, q, samples, limit in [(1, 2, 2, 2, 1), (1, 2, 3, 2, 0.3), (1, 3, 2, 3, 0.5), (1, 2, 4, 3, 0.25), (1, 5, 2, 3, 0.9), (1, 4, 3, 4, 0.2), (0, 3, 2, 4, 0.05), (2, 3, 5, 2, 0.6), (1, 4, 2, 5, 0.7)] + (
            [(1, 7, 2, 8, 0.4), (1, 6, 3, 6, 0.99), (1, 4, 4, 6, 0.3), (2, 9, 2, 4, 0.15)] if thorough else []):
        add(f"classical-{m}x{n}-q{q}-{samples}-{limit}", h_classical, f"all errors and remainders of {n} symbols over GF({q}), {samples} samples, rates up to {limit}", samples, 5, m=m, n=n, q=q, limit=limit, kind="direct")
    configs = [("4-1", 2, 0.5, None, "clean"), ("4-1", 2, 0.4, (0, 1, 2), "z"), ("4-1", 3, 0.01, (1, 0, 3), "single"), ("4-1", 2, 0.9, (1, 0, 0), "clean"), ("3-1", 2, 0.3, (2, 1, 0), "clean"),
               ("3-1", 3, 0.2, (0, 0, 1), "z"), ("3-1-gf3", 2, 0.3, None, "clean"), ("3-1-gf3", 2, 0.3, (0, 2, 3), "z"), ("2-1-gf3", 2, 0.02, None, "single"), ("3-1-gf4", 2, 0.02, (1, 1, 0), "single"),
               ("3-1-gf4", 2, 0.3, (0, 1, 1), "z"), ("shor-3x2", 2, 0.01, None, "single"), ("surface", 2, 0.01, (1, 2, 3), "single")]
    if thorough:
        configs += [("surface", 1, 0.9, (0, 1, 0), "z"), ("4-1", 3, 0.5, (1, 2, 0), "clean"), ("4-1", 3, 0.6, (0, 3, 1), "z"), ("4-1", 4, 0.01, None, "single"), ("3-1-gf3", 3, 0.4, None, "clean"), ("shor-3x2", 2, 0.3, (0, 1, 1), "z"),
                    ("surface", 3, 0.01, None, "single"), ("surface", 2, 0.3, None, "clean"), ("3-1-gf4", 3, 0.02, None, "single")]
    for family, samples, limit, bias, which in configs:
        add(f"quantum-{family}-{samples}-{limit}-{bias}-{which}".replace(" ", ""), h_quantum, f"all errors and undetected remainders of the code {family}, {samples} samples, rates up to {limit}", samples, 10, family=family, limit=limit, bias=bias, which=which)
    for family, samples, limit, bias in [("rep-3-2-1", 3, 0.5, None), ("rep-3-3-1", 3, 0.4, None), ("rep-5-2-2", 3, 0.3, None), ("rep-2-4-0", 2, 0.5, None), ("flip", 3, 0.5, (1, 0, 0)), ("flip", 2, 0.9, (0, 0, 2)), ("flip", 2, 0.4, (0, 1, 0)),
                                         ("phase", 2, 0.5, (1, 0, 0)), ("phase", 3, 0.5, (0, 0, 2)), ("phase", 2, 0.4, (0, 1, 0)), ("flip-3", 2, 0.02, (1, 0, 0))]:
        add(f"indirect-{family}-{samples}-{limit}-{bias}".replace(" ", ""), h_indirect, f"all errors on the code {family}, {samples} samples, rates up to {limit}", samples, 10, family=family, limit=limit, bias=bias)
    add("rejected", h_rejected, "all checks on two bits", 1)
    return out
