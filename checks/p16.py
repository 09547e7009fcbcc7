"""Named codes have the parameters they claim."""
import functools

from checks import codegen
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["constructors run on the stated parameters; the quantification over all operators and words of a code is symbolic",
               "ranks and centers of the resulting concrete matrices are computed by a reference elimination"]
FUNCS = ["codes.classical.*", "codes.quantum.SurfaceCode.*", "codes.quantum.ToricCode.*", "codes.quantum.GeneralizedSurfaceCode.*", "codes.quantum.IcebergCode.*", "codes.quantum.C4Code.*", "codes.quantum.C6Code.*",
         "codes.quantum.SteaneCode.*", "codes.quantum.FiveQubitCode.*", "codes.quantum.BaconShorCode.*", "codes.quantum.SHYPSCode.*", "codes.common.*.get_distance*", "codes.common.*.get_code_params", "codes.common.*.dimension"]


# ---------------------------------------------------------------- reference linear algebra on concrete matrices
class Field:
    def __init__(self, q):
        self.q, self.info = q, V.field_info(q)
        c = self.info.consts
        self.add = [[int(c[a] + c[b]) for b in range(q)] for a in range(q)]
        self.mul = [[int(c[a] * c[b]) for b in range(q)] for a in range(q)]
        self.neg = [next(b for b in range(q) if self.add[a][b] == 0) for a in range(q)]
        self.inv = [None] + [next(b for b in range(q) if self.mul[a][b] == 1) for a in range(1, q)]


@functools.cache
def field(q):
    return Field(q)


def reduce_rows(rows, q, n):
    F, rows, pivots, r = field(q), [list(x) for x in rows], [], 0
    for c in range(n):
        p = next((i for i in range(r, len(rows)) if rows[i][c]), None)
        if p is None:
            continue
        rows[r], rows[p] = rows[p], rows[r]
        s = F.inv[rows[r][c]]
        rows[r] = [F.mul[s][x] for x in rows[r]]
        for i in range(len(rows)):
            if i != r and rows[i][c]:
                t = F.neg[rows[i][c]]
                rows[i] = [F.add[x][F.mul[t][y]] for x, y in zip(rows[i], rows[r])]
        pivots.append(c)
        r += 1
    return rows[:r], pivots


def kernel(rows, q, n):
    F = field(q)
    red, pivots = reduce_rows(rows, q, n)
    out = []
    for f in (c for c in range(n) if c not in pivots):
        v = [0] * n
        v[f] = 1
        for row, p in zip(red, pivots):
            v[p] = F.neg[row[f]]
        out.append(v)
    return out


def multiply(a, b, q):
    """a @ b.T"""
    F = field(q)
    def dot(x, y):
        total = 0
        for s, t in zip(x, y):
            total = F.add[total][F.mul[s][t]]
        return total
    return [[dot(x, y) for y in b] for x in a]


def combine(coeffs, rows, q, n):
    return multiply(coeffs, [[r[c] for r in rows] for c in range(n)], q)


def numbers(ctx, matrix):
    return [[int(x) for x in row] for row in matrix]


def lift(rows, q):
    info = V.field_info(q)
    return [[info.consts[x] for x in r] for r in rows]


# ---------------------------------------------------------------- classical codes
def distance_claim(ctx, make, length, nonzero, q, d, weigh, label):
    """make(coefficients) -> vector; all vectors satisfying nonzero(coefficients, vector) have weight at least d, and one has weight d."""
    x = spec.vec(ctx, ctx.field_array("v" + label, length, q), q)
    v = make(x)
    ctx.check(spec.implies(nonzero(x, v), weigh(v) >= d), f"{label}: no smaller weight")
    def attained(w):
        u = make(w)
        return spec.all_of([nonzero(w, u), weigh(u) == d])
    ctx.check(ctx.exists_vector(length, q, attained), f"{label}: weight attained")


def judge_classical(ctx, code, q, n, k, d):
    ctx.check(type(code.matrix).order == q and code.field.order == q, "field")
    H = numbers(ctx, code.matrix)
    ctx.check(len(code) == n and all(len(r) == n for r in H), "length")
    real_k = n - len(reduce_rows(H, q, n)[0])
    ctx.check(real_k == k and code.dimension == k, "dimension")
    params = code.get_code_params()
    if k == 0:
        ctx.check(params[:2] == (n, 0) and params[2] != params[2], "codes without nonzero words have no distance")
        return
    if d is None:
        return
    ctx.check(tuple(params) == (n, k, d), "claimed parameters")
    gen = lift(kernel(H, q, n), q)
    rows = lift(H, q)
    if k <= n - k or k * q.bit_length() <= 16:
        distance_claim(ctx, lambda x: spec.matvec(spec.transpose(gen, n), x, q), k, lambda x, v: spec.not_(spec.is_zero(x)), q, d, spec.weight, "words")
    else:
        distance_claim(ctx, lambda x: x, n, lambda x, v: spec.all_of([spec.not_(spec.is_zero(v)), spec.is_zero(spec.matvec(rows, v, q))]), q, d, spec.weight, "words")


def h_classical(ctx, kind, args, q, n, k, d):
    code = getattr(ctx.q.codes, kind)(*args[0], **args[1])
    judge_classical(ctx, code, q, n, k, d)


def h_repetition(ctx, kind, n, q):
    """All bits of a word are equal."""
    code = getattr(ctx.q.codes, kind)(n, **({"field": q} if q != 2 else {}))
    v = spec.vec(ctx, ctx.field_array("v", n, q), q)
    rows = spec.elems(ctx, code.matrix, q)
    ctx.check(spec.iff(spec.is_zero(spec.matvec(rows, v, q)), spec.all_of([x == v[0] for x in v])), "words are the constant ones")
    ctx.check(len(rows) == (n if kind == "RingCode" else n - 1), "number of checks")


def h_same_code(ctx, first, second, q, dual=False):
    """Two codes have the same words (or one has the words orthogonal to the other's)."""
    a = getattr(ctx.q.codes, first[0])(*first[1])
    b = getattr(ctx.q.codes, second[0])(*second[1])
    n = len(a)
    ctx.check(len(b) == n, "lengths agree")
    rows_a = spec.elems(ctx, a.matrix, q)
    rows_b = lift(kernel(numbers(ctx, b.matrix), q, n), q) if dual else spec.elems(ctx, b.matrix, q)
    v = spec.vec(ctx, ctx.field_array("v", n, q), q)
    ctx.check(spec.iff(spec.is_zero(spec.matvec(rows_a, v, q)), spec.is_zero(spec.matvec(rows_b, v, q))), "the codes have the same words")


def h_hamming(ctx, rank, q):
    """Every syndrome belongs to exactly one error of weight at most one."""
    code = ctx.q.codes.HammingCode(rank, **({"field": q} if q != 2 else {}))
    H = spec.elems(ctx, code.matrix, q)
    s = spec.vec(ctx, ctx.field_array("s", rank, q), q)
    cols = spec.transpose(H)
    hits = [spec.same([info * x for x in c], s) for c in cols for info in V.field_info(q).consts[1:]]
    ctx.check(spec.count(hits) == V.ite(spec.is_zero(s), 0, 1), "every nonzero syndrome belongs to exactly one single-bit error")


def h_rejected(ctx, kind, args, error):
    ctx.check_raises(getattr(__import__("builtins"), error), lambda: getattr(ctx.q.codes, kind)(*args), "invalid parameters are rejected")


# ---------------------------------------------------------------- quantum codes
def center(mine, others, q, n):
    """Combinations of `mine` orthogonal to all of `others`."""
    if not mine:
        return []
    gram = multiply(others, mine, q)  # others x mine
    return reduce_rows(combine(kernel(gram, q, len(mine)), mine, q, n), q, n)[0]


def judge_css(ctx, code, q, n, k, dx, dz, g=0):
    ctx.check(code.field.order == q and type(code.matrix).order == q, "field")
    hx, hz = numbers(ctx, code.matrix_x), numbers(ctx, code.matrix_z)
    ctx.check(len(code) == n and all(len(r) == n for r in hx + hz), "length")
    if g == 0:
        ctx.check(all(x == 0 for r in multiply(hx, hz, q) for x in r), "X-type and Z-type checks commute")
    sx, sz = center(hx, hz, q, n), center(hz, hx, q, n)
    rank_x, rank_z = len(reduce_rows(hx, q, n)[0]), len(reduce_rows(hz, q, n)[0])
    ctx.check(rank_x - len(sx) == g and rank_z - len(sz) == g, "number of gauge qudits")
    ctx.check(n - rank_x - rank_z + g == k and code.dimension == k, "number of logical qudits")
    params = code.get_code_params() if None not in (dx, dz) or k == 0 else None
    if k == 0:
        ctx.check(params[:2] == (n, 0) and params[2] != params[2], "codes without logical qudits have no distance")
        return
    ops = spec.elems(ctx, code.get_logical_ops(), q)
    ctx.check(len(ops) == 2 * k and codegen.commute(ops, codegen.embed(lift(hx, q), lift(hz, q), n, q), q) and codegen.canonical_pairs(ops, q), "logical operators")
    Pauli = ctx.q.objects.Pauli
    if params:
        ctx.check(tuple(params) == (n, k, min(dx, dz)), "claimed parameters")
    for d, pauli, mine, stabs, label in [(dx, Pauli.X, hx, sz, "X"), (dz, Pauli.Z, hz, sx, "Z")]:
        if d is None:
            continue
        ctx.check(code.get_distance(pauli) == d, f"claimed {label} distance")
        stabs, probes = lift(stabs, q), lift(kernel(mine, q, n), q)
        # v commutes with all stabilizers and is no product of checks
        def nontrivial(x, v, stabs=stabs, probes=probes):
            return spec.all_of([spec.is_zero(spec.matvec(stabs, v, q)), spec.not_(spec.is_zero(spec.matvec(probes, v, q)))])
        distance_claim(ctx, lambda x: x, n, nontrivial, q, d, spec.weight, label)


def h_css(ctx, kind, args, q, n, k, dx, dz, g=0):
    code = getattr(ctx.q.codes, kind)(*args[0], **args[1])
    judge_css(ctx, code, q, n, k, dx, dz, g)


def h_qudit(ctx, kind, q, n, k, d):
    code = getattr(ctx.q.codes, kind)()
    rows = numbers(ctx, code.matrix)
    ctx.check(tuple(code.get_code_params()) == (n, k, d) and len(code) == n, "claimed parameters")
    conj = [[field(q).neg[x] for x in r[n:]] + r[:n] for r in rows]
    ctx.check(all(x == 0 for r in multiply(conj, rows, q) for x in r) and n - len(reduce_rows(rows, q, 2 * n)[0]) == k, "commuting checks and dimension")
    stabs, probes = lift(conj, q), lift(kernel(rows, q, 2 * n), q)
    distance_claim(ctx, lambda x: x, 2 * n, lambda x, v: spec.all_of([spec.is_zero(spec.matvec(stabs, v, q)), spec.not_(spec.is_zero(spec.matvec(probes, v, q)))]), q, d, spec.symplectic_weight, "logical")


def h_lattice(ctx, kind, rows, cols, rotated, q):
    """Checks of surface and toric codes touch neighbouring qudits only."""
    code = getattr(ctx.q.codes, kind)(rows, cols, *(() if q == 2 else (q,)), rotated=rotated)
    hx, hz = numbers(ctx, code.matrix_x), numbers(ctx, code.matrix_z)
    n = len(code)
    weights = [sum(1 for x in r if x) for r in hx + hz]
    ctx.check(max(weights) <= 4 and min(weights) >= 2, "checks have weight two to four")
    ctx.check(all(sum(1 for r in h if r[c]) <= 2 for h in (hx, hz) for c in range(n)), "every qudit is in at most two checks of each type")
    if kind == "SurfaceCode":
        ctx.check(len(hx) + len(hz) == n - 1, "independent checks")
    elif not (rotated and rows == cols == 2):
        ctx.check(len(hx) + len(hz) == n, "one check per qudit")
        # a single error of either type violates exactly two checks
        i = ctx.integer("i", 0, n - 1)
        for h in (hx, hz):
            hits = 0
            for c in range(n):
                hits = V.ite(i == c, sum(1 for r in h if r[c]), hits) if ctx.symbolic else (sum(1 for r in h if r[c]) if i == c else hits)
            ctx.check(hits == 2, "single errors violate two checks")
    if rotated:
        for h in (hx, hz):
            for r in h:
                cells = [divmod(c, cols) for c in range(n) if r[c]]
                ok = any(all((a - r0) % rows in (0, 1) and (b - c0) % cols in (0, 1) for a, b in cells) for r0 in range(rows) for c0 in range(cols))
                if not ok:
                    ctx.check(False, "checks are plaquettes of the lattice")
        ctx.check(True, "checks are plaquettes of the lattice")


def h_xzzx(ctx, rows, cols, q):
    """The conjugated rotated code: one operator string XZZX for all bulk checks, and the same distance."""
    code = ctx.q.codes.SurfaceCode(rows, cols, *(() if q == 2 else (q,)))
    new = code.conjugated()
    n = rows * cols
    mats = numbers(ctx, new.matrix)
    full = [r for r in mats if sum(1 for c in range(n) if r[c] or r[c + n]) == 4]
    ok = all(sum(1 for c in range(n) if r[c]) == 2 == sum(1 for c in range(n) if r[c + n]) for r in full)
    ctx.check(len(full) == (rows - 1) * (cols - 1) and ok, "bulk checks have two X and two Z operators")
    conj = [[field(q).neg[x] for x in r[n:]] + r[:n] for r in mats]
    ctx.check(all(x == 0 for r in multiply(conj, mats, q) for x in r), "checks commute")
    stabs, probes = lift(conj, q), lift(kernel(mats, q, 2 * n), q)
    d = min(rows, cols)
    distance_claim(ctx, lambda x: x, 2 * n, lambda x, v: spec.all_of([spec.is_zero(spec.matvec(stabs, v, q)), spec.not_(spec.is_zero(spec.matvec(probes, v, q)))]), q, d, spec.symplectic_weight, "logical")


def binomial(n, k):
    import math
    return math.comb(n, k)


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", "").replace("'", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=3000 if thorough else 300, max_paths=20000, **params))

    def f(q):
        return {"field": q} if q != 2 else {}

    for name in ("RepetitionCode", "RingCode"):
        for q in (2, 3, 4, 5):
            for n in (1, 2, 3, 5, 8):
                add(f"{name}-{n}-q{q}", h_repetition, f"all words of length {n} over GF({q})", n=n, q=q, kind=name)
                add(f"{name}-params-{n}-q{q}", h_classical, f"all words of length {n} over GF({q})", kind=name, args=((n,), f(q)), q=q, n=n, k=1, d=n)
    for rank, q in [(1, 2), (2, 2), (3, 2), (4, 2), (1, 3), (2, 3), (3, 3), (2, 4), (2, 5), (1, 5)] + ([(5, 2), (3, 4), (2, 7), (2, 8)] if thorough else []):
        n = (q**rank - 1) // (q - 1)
        add(f"hamming-{rank}-q{q}", h_hamming, f"all syndromes over GF({q})", rank=rank, q=q)
        add(f"hamming-params-{rank}-q{q}", h_classical, f"all words of length {n} over GF({q})", kind="HammingCode", args=((rank,), f(q)), q=q, n=n, k=n - rank, d=3, cost=n)
    for rank in (1, 2, 3, 4) + ((5,) if thorough else ()):
        n = 2**rank
        add(f"extended-hamming-{rank}", h_classical, f"all words of length {n}", kind="ExtendedHammingCode", args=((rank,), {}), q=2, n=n, k=n - rank - 1, d=4, cost=n)
        if rank >= 2:
            add(f"extended-hamming-rm-{rank}", h_same_code, f"all words of length {n}", first=("ExtendedHammingCode", (rank,)), second=("ReedMullerCode", (rank - 2, rank)), q=2)
    for m in range(0, 5 if not thorough else 6):
        for r in range(0, m + 1):
            n, k = 2**m, sum(binomial(m, i) for i in range(r + 1))
            for q in (2, 3, 4):
                if q > 2 and m > 2:
                    continue
                add(f"reed-muller-{r}-{m}-q{q}", h_classical, f"all words of length {n} over GF({q})", kind="ReedMullerCode", args=((r, m), f(q)), q=q, n=n, k=k, d=2**(m - r), cost=n)
            if r < m:
                add(f"reed-muller-dual-{r}-{m}", h_same_code, f"all words of length {n}", first=("ReedMullerCode", (r, m)), second=("ReedMullerCode", (m - r - 1, m)), q=2, dual=True)
    for args in [(-1, 2), (3, 2), (1, 0), (0, -1)]:
        add(f"reed-muller-invalid-{args}", h_rejected, f"parameters {args}", kind="ReedMullerCode", args=args, error="ValueError")
    for dim in (2, 3, 4, 5) + ((6, 7) if thorough else ()):
        n = 2**dim - 1
        add(f"simplex-{dim}", h_classical, f"all words of length {n}", kind="SimplexCode", args=((dim,), {}), q=2, n=n, k=dim, d=2**(dim - 1), cost=n)
    for dim in (1, 8):
        add(f"simplex-invalid-{dim}", h_rejected, f"dimension {dim}", kind="SimplexCode", args=(dim,), error="ValueError")
    for n, k, d in [(7, 4, 3), (7, 1, 7), (15, 11, 3), (15, 7, 5), (15, 5, 7), (3, 1, 3)]:
        add(f"bch-{n}-{k}", h_bch, f"all words of length {n}", n=n, k=k, d=d, cost=n)
    for args in [(6, 3), (8, 4), (5, 1)]:
        add(f"bch-invalid-{args}", h_rejected, f"parameters {args}", kind="BCHCode", args=args, error="ValueError")
    for n, k, q in [(3, 1, 4), (3, 2, 4), (7, 5, 8), (7, 3, 8), (7, 1, 8)]:
        add(f"reed-solomon-{n}-{k}", h_rs, f"all words of length {n} over GF({q})", n=n, k=k, q=q, cost=n)

    def css(name, args, kw, q, n, k, dx, dz, g=0, cost=1.0):
        label = "-".join(str(a) for a in args) + "".join(f"-{k}{v}" for k, v in kw.items())
        add(f"{name}-{label}", h_css, f"all operators of each type on {n} qudits", kind=name, args=(args, kw), q=q, n=n, k=k, dx=dx, dz=dz, g=g, cost=cost)

    for r in range(1, 6):
        for c in range(1, 6):
            for q in (2, 3, 4):
                if r * c <= {2: 25, 3: 9, 4: 6}[q]:
                    css("SurfaceCode", (r, c), {**f(q)}, q, r * c, 1, c, r, cost=r * c * q)
                n = r * c + (r - 1) * (c - 1)
                if n <= {2: 25, 3: 8, 4: 5}[q]:
                    css("SurfaceCode", (r, c), {"rotated": False, **f(q)}, q, n, 1, c, r, cost=n * q)
                if 2 * r * c <= {2: 18, 3: 8, 4: 8}[q]:
                    css("ToricCode", (r, c), {"rotated": False, **f(q)}, q, 2 * r * c, 2, min(r, c), min(r, c), cost=2 * r * c * q)
    for r, c, q in [(2, 2, 2), (2, 4, 2), (4, 2, 2), (4, 4, 2), (2, 2, 3), (2, 4, 3), (2, 2, 4)] + ([(4, 6, 2), (6, 6, 2), (4, 4, 3)] if thorough else []):
        css("ToricCode", (r, c), {**f(q)}, q, r * c, 2, min(r, c), min(r, c), cost=r * c * q)
    css("SurfaceCode", (3,), {}, 2, 9, 1, 3, 3)
    css("ToricCode", (4,), {}, 2, 16, 2, 4, 4)
    for args in [(3, 3), (2, 3), (3, 4)]:
        add(f"toric-invalid-{args}", h_rejected, f"side lengths {args}", kind="ToricCode", args=args, error="ValueError")
    for size, dim, q, per in [(2, 2, 2, False), (3, 2, 2, False), (2, 3, 2, False), (2, 2, 3, False), (2, 2, 2, True), (3, 2, 2, True), (2, 3, 2, True), (2, 2, 3, True), (2, 4, 2, False), (2, 3, 3, False)] + ([(3, 3, 2, False), (4, 2, 2, True)] if thorough else []):
        if per:
            n, k = dim * size**dim, dim
        else:
            n, k = size**dim + (dim - 1) * size ** (dim - 2) * (size - 1) ** 2, 1
            n = lattice_edges(size, dim)
        css("GeneralizedSurfaceCode", (size, dim), {**({"periodic": True} if per else {}), **f(q)}, q, n, k, size ** (dim - 1), size, cost=n * q)
    add("generalized-invalid", h_rejected, "dimension 1", kind="GeneralizedSurfaceCode", args=(3, 1), error="ValueError")
    for size in range(1, 6):
        css("IcebergCode", (size,), {}, 2, 2 * size, 2 * size - 2, 2, 2)
    css("IcebergCode", (3,), {"alternative_logicals": True}, 2, 6, 4, 2, 2)
    css("C4Code", (), {}, 2, 4, 2, 2, 2)
    css("C6Code", (), {}, 2, 6, 2, 2, 2)
    css("SteaneCode", (), {}, 2, 7, 1, 3, 3)
    add("FiveQubitCode", h_qudit, "all operators on 5 qubits", kind="FiveQubitCode", q=2, n=5, k=1, d=3)
    for r, c, q in [(1, 2, 2), (2, 2, 2), (2, 3, 2), (3, 3, 2), (4, 3, 2), (2, 2, 3), (2, 3, 3), (2, 2, 4)] + ([(4, 4, 2)] if thorough else []):
        css("BaconShorCode", (r, c), {**f(q)}, q, r * c, 1, None, None, (r - 1) * (c - 1), cost=r * c * q)
    for args in [(2,), (2, 3), (3, 2), (3,)]:
        a, b = args[0], args[-1]
        na, nb = 2**a - 1, 2**b - 1
        css("SHYPSCode", args, {}, 2, na * nb, a * b, 2 ** (b - 1), 2 ** (a - 1), (na - a) * (nb - b), cost=na * nb)
    for name, rot, dims in [("SurfaceCode", True, [(2, 2), (3, 3), (3, 4), (5, 5), (2, 5), (6, 3)]), ("SurfaceCode", False, [(2, 2), (3, 3), (2, 4)]), ("ToricCode", True, [(2, 2), (2, 4), (4, 4), (6, 4)]), ("ToricCode", False, [(2, 3), (3, 3), (4, 5)])]:
        for r, c in dims:
            for q in (2, 3):
                add(f"lattice-{name}-{r}-{c}-{rot}-q{q}", h_lattice, "all single errors", kind=name, rows=r, cols=c, rotated=rot, q=q)
    for r, c, q in [(2, 2, 2), (3, 3, 2), (2, 3, 2), (3, 4, 2), (2, 2, 3)] + ([(5, 5, 2), (3, 3, 3)] if thorough else []):
        add(f"xzzx-{r}-{c}-q{q}", h_xzzx, f"all operators on {r * c} qudits", rows=r, cols=c, q=q, cost=r * c * q)
    return out


def lattice_edges(size, dim):
    """Number of qudits of the open lattice: one direction with `size` sites along the first axis, rough boundaries elsewhere."""
    s = size
    # chain: first factor (s -> s-1), other factors transposed (s-1 -> s); degree-one cells
    return s * s ** (dim - 1) + (s - 1) * (dim - 1) * (s - 1) * s ** (dim - 2)


def h_bch(ctx, n, k, d):
    judge_classical(ctx, ctx.q.codes.BCHCode(n, k), 2, n, k, d)


def h_rs(ctx, n, k, q):
    judge_classical(ctx, ctx.q.codes.ReedSolomonCode(n, k), q, n, k, n - k + 1)
