"""Exact distances equal the true minimum weight."""
from checks import codegen
from vf import kernels, spec
from vf.harness import Case

ASSUMPTIONS = [
    "numba.vectorize is replaced by elementwise application of the decorated Python function",
    "fully symbolic matrices are small; long rows (more than one machine word, more than 255 ones) have the stated number of symbolic columns",
]
FUNCS = ["codes.distance.*", "codes.common.ClassicalCode.get_distance_exact", "codes.common.QuditCode.get_distance_exact",
         "codes.common.CSSCode.get_distance_exact"]


def _weight(homogeneous):
    return spec.weight if homogeneous else spec.symplectic_weight


def h_kernel(ctx, k, m, n, block, kernel, homogeneous, pattern=None):
    """min weight over all combinations with a nonzero logical part."""
    width = n if homogeneous else 2 * n
    if pattern is None:
        ops = ctx.array("ops", (k + m, width))
    else:
        ops = pattern(ctx, k + m, width)
    logicals, stabs = ops[:k], ops[k:]
    if homogeneous and not m:
        d = ctx.q.codes.get_distance_classical(logicals, block_size=block, use_numba=kernel == "numba")
    else:
        d = ctx.q.codes.get_distance_quantum(logicals, stabs, block_size=block, homogeneous=homogeneous,
                                             use_numba=kernel == "numba")
    ctx.observe("d", d)
    rows = spec.elems(ctx, ops)
    weigh = _weight(homogeneous)
    terms = [(True, weigh(v)) for cs, v in spec.combos(rows) if any(cs[:k])]
    ctx.check(d == spec.minimum(terms, n), "distance = minimum weight over all nontrivial combinations")


def long_rows(n_sym, base):
    """Rows of many bits: a few symbolic columns at the word boundaries, the rest a fixed pattern."""

    def pattern(ctx, rows, width):
        sym = ctx.array("ops", (rows, n_sym))
        out = ctx.np.zeros((rows, width), dtype=int)
        cols = spread(width, n_sym)
        for r in range(rows):
            for c in range(width):
                out[r, c] = base(r, c)
        for j, c in enumerate(cols):
            for r in range(rows):
                out[r, c] = sym[r, j]
        return out

    return pattern


def spread(width, count):
    """Columns next to the word boundaries first."""
    want = [0, 63, 64, width - 1, 127, 128, 65, 62, 31, 32, 1, 2, 3, 5]
    cols = []
    for c in want:
        if 0 <= c < width and c not in cols:
            cols.append(c)
    c = 4
    while len(cols) < count:
        if c not in cols:
            cols.append(c)
        c += 7
    return cols[:count]


def ones(r, c):
    return 1


def mixed(r, c):
    return (c * (r + 2) + r) % 3 == 0


def h_classical(ctx, m, n, q, from_gen):
    H = ctx.field_array("H", (m, n), q)
    code = ctx.q.codes.ClassicalCode.from_generator(H) if from_gen else ctx.q.codes.ClassicalCode(H)
    d = code.get_distance()
    rows = spec.elems(ctx, H, q)
    words = []
    if from_gen:
        words = [(spec.not_(spec.is_zero(w)), w) for _, w in spec.combos(rows, q)]
    else:
        for v in spec.vectors(n, q)[1:]:
            words.append((spec.is_zero(spec.matvec(rows, v, q)), v))
    none = spec.not_(spec.any_of([c for c, _ in words]))
    if isinstance(d, float):  # undefined for codes without nonzero words
        ctx.check(d != d, "undefined distance is nan")
        ctx.check(none, "distance is undefined only without nonzero code words")
        return
    ctx.observe("d", d)
    ctx.check(spec.not_(none), "a nonzero code word exists")
    ctx.check(d == spec.minimum([(c, spec.weight(w)) for c, w in words], n), "distance = least weight of a nonzero word")
    ctx.check(code.get_distance() == d, "asking again gives the same answer")


def h_vector(ctx, m, n, q):
    """Distance of a vector to the code."""
    H = ctx.field_array("H", (m, n), q)
    vector = ctx.array("vector", n, 0, q - 1)
    code = ctx.q.codes.ClassicalCode(H)
    d = code.get_distance(vector=vector)
    ctx.observe("d", d)
    rows = spec.elems(ctx, H, q)
    mine = spec.vec(ctx, vector, q)
    terms = [
        (spec.is_zero(spec.matvec(rows, w, q)), spec.weight([a - b for a, b in zip(mine, w)]))
        for w in spec.vectors(n, q)
    ]
    ctx.check(d == spec.minimum(terms, n), "distance to the nearest code word")


def framed(ctx, name, shape, q, rows):
    """Symbolic rows on top of fixed ones."""
    sym = ctx.field_array(name, shape, q)
    if not len(rows):
        return sym
    out = ctx.np.vstack([sym, ctx.galois.GF(q)(rows)])
    return out.view(ctx.galois.GF(q))


def css_terms(rx, rz, n, q, p):
    """(weight, is a logical operator) for every operator of the given type."""
    mine, others = (rx, rz) if p == "X" else (rz, rx)
    # stabilizers of the opposite type: combinations of the opposite checks commuting with mine
    center = [(spec.all_zero([spec.matvec(mine, w, q)]), w) for _, w in spec.combos(others, q)]
    span = [w for _, w in spec.combos(mine, q)]
    terms = []
    for v in spec.vectors(n, q)[1:]:
        commutes = spec.all_of([spec.implies(c, spec.dot(w, v, q) == 0) for c, w in center])
        logical = spec.all_of([commutes, spec.not_(spec.in_span(v, None, q, span))])
        terms.append((sum(int(x) != 0 for x in v), logical))
    return terms


def stabilizer_terms(rows, n, q):
    span = [w for _, w in spec.combos(rows, q)]
    center = [(spec.all_of([spec.symplectic(w, r, q) == 0 for r in rows]), w) for w in span]
    terms = []
    for v in spec.vectors(2 * n, q)[1:]:
        commutes = spec.all_of([spec.implies(c, spec.symplectic(w, v, q) == 0) for c, w in center])
        logical = spec.all_of([commutes, spec.not_(spec.in_span(v, None, q, span))])
        terms.append((sum(int(v[i]) != 0 or int(v[i + n]) != 0 for i in range(n)), logical))
    return terms


def h_css(ctx, mx, mz, n, q, subsystem, which, frame=((), ())):
    """X/Z distances of a CSS (subsystem) code."""
    Pauli = ctx.q.objects.Pauli
    hx = framed(ctx, "hx", (mx, n), q, frame[0])
    hz = framed(ctx, "hz", (mz, n), q, frame[1])
    rx, rz = spec.elems(ctx, hx, q), spec.elems(ctx, hz, q)
    commute = spec.all_zero(spec.matmul(rx, spec.transpose(rz), q))
    if not subsystem:
        ctx.assume(commute)
    code = ctx.q.codes.CSSCode(hx, hz)
    pauli = Pauli.X if which == "X" else Pauli.Z
    d = code.get_distance(pauli if which != "XZ" else None)
    best = n
    found = False
    for p in which:
        terms = css_terms(rx, rz, n, q, p)
        best = spec.minimum([(True, best)], spec.least(terms, n))
        found = spec.any_of([found] + [c for _, c in terms])
    if isinstance(d, float):
        ctx.check(d != d, "undefined distance is nan")
        ctx.check(spec.not_(found), "distance is undefined only without logical operators")
        return
    ctx.observe("d", d)
    ctx.check(found, "a logical operator exists")
    ctx.check(d == best, "distance = least weight of a (dressed) logical operator")


def h_stabilizer(ctx, m, n, q, subsystem, frame=(), css=False):
    """Distance of a general stabilizer code."""
    if css:  # symbolic rows of X type and of Z type
        zeros = ctx.np.zeros((1, n), dtype=int)
        rows = [ctx.np.hstack([ctx.field_array(f"H{i}", (1, n), q), zeros] if i < m // 2 else [zeros, ctx.field_array(f"H{i}", (1, n), q)]) for i in range(m)]
        H = ctx.np.vstack(rows + [ctx.np.array(frame)]).view(ctx.galois.GF(q))
    else:
        H = framed(ctx, "H", (m, 2 * n), q, frame)
    rows = spec.elems(ctx, H, q)
    commute = spec.all_of([spec.symplectic(a, b, q) == 0 for a in rows for b in rows])
    ctx.assume(commute if not subsystem else spec.not_(commute))
    if subsystem and not css:
        ctx.assume(codegen.std_available(rows, n, q))
    code = ctx.q.codes.QuditCode(H)
    d = code.get_distance()
    terms = stabilizer_terms(rows, n, q)
    found = spec.any_of([c for _, c in terms])
    if isinstance(d, float):
        ctx.check(d != d, "undefined distance is nan")
        ctx.check(spec.not_(found), "distance is undefined only without logical operators")
        return
    ctx.observe("d", d)
    ctx.check(found, "a logical operator exists")
    ctx.check(d == spec.least(terms, n), "distance = least weight of a logical operator")


def agrees(ctx, d, terms, n, what):
    found = spec.any_of([c for _, c in terms])
    if isinstance(d, float):
        ctx.check(spec.all_of([d != d, spec.not_(found)]), what + " is undefined only without logical operators")
    else:
        ctx.check(spec.all_of([found, d == spec.least(terms, n)]), what + " is the least weight of a logical operator")


def h_derived(ctx, how, order, first):
    """Codes made from codes whose distances are known, or promised to be equal."""
    C, Pauli = ctx.q.codes, ctx.q.objects.Pauli
    types = {"X": Pauli.X, "Z": Pauli.Z, "XZ": None}
    h = ctx.field_array("h", (1, 2), 2)
    hx, hz = ctx.field_array("hx", (1, 2), 2), ctx.field_array("hz", (1, 2), 2)
    same = spec.elems(ctx, h, 2)
    ctx.assume(spec.dot(same[0], same[0], 2) == 0)  # a code that is its own dual: both types have equal distances
    ctx.assume(spec.all_zero(spec.matmul(spec.elems(ctx, hx, 2), spec.transpose(spec.elems(ctx, hz, 2)), 2)))
    a = C.CSSCode(h, h) if first == "equal" else C.CSSCode(h, h, promise_equal_distance_xz=True)
    b = C.CSSCode(hx, hz)
    for code in (a, b):
        for key in order:
            code.get_distance(types[key])
    if how == "stack":
        new = C.CSSCode.stack(a, b)
    elif how == "stack-reverse":
        new = C.CSSCode.stack(b, a, inherit_logicals=False)
    elif how == "stack-qudit":
        new = C.QuditCode.stack(a, b)
    elif how == "conjugated":
        new = b.conjugated([1])
    elif how == "deformed":
        new = b.deformed("CX 0 1\nH 1")
    elif how == "copy":
        new = C.QuditCode(b)
    elif how == "copy-css":
        new = C.CSSCode(b.code_x, b.code_z)
    elif how == "swap":
        new = C.CSSCode(b.code_z, b.code_x)
    else:
        assert how == "concatenate"
        if not a.dimension or not b.dimension:
            ctx.assume(False)
        new = C.CSSCode.concatenate(b, C.CSSCode(ctx.galois.GF(2)([[1]]), ctx.galois.GF(2)([[0]]))) if b.dimension == 1 else C.CSSCode.concatenate(b, a)
    n = len(new)
    if isinstance(new, C.CSSCode):
        rx, rz = spec.elems(ctx, new.matrix_x, 2), spec.elems(ctx, new.matrix_z, 2)
        terms = {p: css_terms(rx, rz, n, 2, p) for p in "XZ"}
        terms["XZ"] = terms["X"] + terms["Z"]
        for key in order:
            agrees(ctx, new.get_distance(types[key]), terms[key], n, "the distance " + key)
        agrees(ctx, new.get_distance(), terms["XZ"], n, "the distance")
    else:
        agrees(ctx, new.get_distance(), stabilizer_terms(spec.elems(ctx, new.matrix, 2), n, 2), n, "the distance")
    for code in (a, b):
        rx, rz = spec.elems(ctx, code.matrix_x, 2), spec.elems(ctx, code.matrix_z, 2)
        for p in order:
            if p != "XZ":
                agrees(ctx, code.get_distance(types[p]), css_terms(rx, rz, 2, 2, p), 2, "the distance of the first code")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def kernel(k, m, n, block, kern="numpy", hom=True, pattern=None, tag="", note="", cost=1.0):
        out.append(Case(
            f"kernel-{kern}-{'h' if hom else 's'}-k{k}m{m}n{n}b{block}{tag}", h_kernel, k=k, m=m, n=n, block=block,
            kernel=kern, homogeneous=hom, pattern=pattern, functions=FUNCS, cost=cost, timeout=900 if thorough else 240,
            bounds=f"{k} logical and {m} stabilizer rows on {n} {'bits' if hom else 'qubits'}, block size {block}{note}",
            stubs=kernels.stubs_for(kern), environment=kernels.env_for(kern)))

    for hom in (True, False):
        n = 4 if hom else 2
        for k, m in [(1, 0), (2, 0), (3, 0), (1, 1), (1, 2), (2, 1), (2, 2), (1, 3)]:
            for block in (0, 1, 2, 3, 15):
                if block in (0, 3) and not thorough and (k, m) not in [(2, 2), (1, 2), (2, 0)]:
                    continue
                kernel(k, m, n, block, hom=hom)
        for kern in ("fallback", "numba"):
            for k, m, block in [(2, 1, 1), (2, 2, 2), (1, 2, 15), (2, 0, 15)]:
                kernel(k, m, 3 if hom else 2, block, kern, hom)
        # several machine words
        for kern in ("numpy", "fallback", "numba"):
            for k, m, block in [(2, 1, 1), (1, 2, 2), (2, 1, 15), (1, 1, 3), (2, 2, 1)]:
                kernel(k, m, 66 if hom else 34, block, kern, hom, long_rows(4, mixed), "-2words",
                       ", 4 symbolic columns around the word boundary", cost=5)
        kernel(2, 1, 130 if hom else 66, 1, "numpy", hom, long_rows(4, mixed), "-3words", ", 4 symbolic columns", cost=5)
        kernel(2, 2, 130 if hom else 66, 1, "numpy", hom, long_rows(3, mixed), "-3words", ", 3 symbolic columns", cost=5)
        # more than 255 ones
        for k, m, block in [(1, 0, 15), (1, 1, 15), (2, 0, 15), (1, 1, 4), (1, 1, 5)]:
            for kern in ("numpy", "fallback"):
                kernel(k, m, 260, block, kern, hom, long_rows(4, ones), "-heavy", ", 4 symbolic columns, other columns 1", cost=8)
        kernel(1, 0, 300, 15, "numpy", hom, long_rows(2, ones), "-heavy", ", 2 symbolic columns, other columns 1", cost=8)
    if thorough:
        kernel(3, 2, 5, 2, cost=9)
        kernel(2, 3, 5, 15, cost=9)
        kernel(3, 2, 3, 2, hom=False, cost=9)

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240, **params))

    sizes = [(1, 2, 2), (1, 3, 2), (2, 3, 2), (2, 4, 2), (1, 2, 3), (1, 3, 3), (2, 3, 3), (1, 2, 4)]
    if thorough:
        sizes += [(3, 4, 2), (2, 5, 2), (3, 5, 2), (2, 3, 4), (2, 4, 3)]
    for m, n, q in sizes:
        for from_gen in (False, True):
            add(f"classical-{'G' if from_gen else 'H'}-{m}x{n}-q{q}", h_classical,
                f"all {m}x{n} matrices over GF({q})", cost=m * n * q, m=m, n=n, q=q, from_gen=from_gen)
    for m, n, q in [(1, 2, 2), (1, 3, 2), (2, 3, 2), (1, 2, 3), (2, 2, 3)] + ([(2, 4, 2), (3, 4, 2), (2, 3, 3)] if thorough else []):
        add(f"vector-{m}x{n}-q{q}", h_vector, f"all {m}x{n} matrices over GF({q}), all vectors", cost=m * n * q, m=m, n=n, q=q)
    css = [(1, 1, 2, 2), (1, 1, 3, 2), (2, 1, 3, 2), (1, 2, 3, 2), (1, 1, 2, 3)]
    if thorough:
        css += [(2, 2, 3, 2), (1, 1, 4, 2), (2, 1, 4, 2), (1, 2, 4, 2), (1, 1, 3, 3), (1, 1, 2, 4)]
    for mx, mz, n, q in css:
        for sub in (False, True):
            for which in ("X", "Z", "XZ"):
                if which == "XZ" and (n > 3 or mx + mz > 3):
                    continue
                add(f"css{'-sub' if sub else ''}-{which}-{mx}+{mz}x{n}-q{q}", h_css,
                    f"all {'subsystem' if sub else 'stabilizer'} CSS codes with {mx}+{mz} checks on {n} qudits over GF({q})",
                    cost=(mx + mz) * n * q * 2, mx=mx, mz=mz, n=n, q=q, subsystem=sub, which=which)
    for m, n, q in [(1, 1, 2), (1, 2, 2), (2, 2, 2), (1, 2, 3)] + ([(2, 3, 2), (1, 3, 2)] if thorough else []):
        add(f"stabilizer-{m}x{n}-q{q}", h_stabilizer, f"all stabilizer codes with {m} generators on {n} qudits over GF({q})",
            cost=m * n * q * 3, m=m, n=n, q=q, subsystem=False)
    for m, n, q in [(2, 2, 2), (3, 2, 2), (2, 1, 3)] + ([(2, 3, 2), (2, 2, 3)] if thorough else []):
        add(f"subsystem-{m}x{n}-q{q}", h_stabilizer, f"all subsystem codes with {m} generators on {n} qudits over GF({q})",
            cost=m * n * q * 3, m=m, n=n, q=q, subsystem=True)
    # distances above one need longer codes: fixed checks together with symbolic ones
    ones4 = ((1, 1, 1, 1),)
    four = ((1, 1, 1, 1, 0, 0, 0, 0), (0, 0, 0, 0, 1, 1, 1, 1))
    five = ((1, 0, 0, 1, 0, 0, 1, 1, 0, 0), (0, 1, 0, 0, 1, 0, 0, 1, 1, 0), (1, 0, 1, 0, 0, 0, 0, 0, 1, 1))
    for sub in (False, True):
        for which in ("X", "Z"):
            for mx, mz in [(1, 1), (2, 0), (0, 2)] if sub else [(1, 1), (1, 0)]:
                add(f"css{'-sub' if sub else ''}-{which}-{mx}+{mz}x4-q2-framed", h_css, f"all CSS codes with the checks XXXX and ZZZZ and {mx}+{mz} more checks on 4 qubits",
                    cost=30, mx=mx, mz=mz, n=4, q=2, subsystem=sub, which=which, frame=(ones4, ones4))
    add("subsystem-css-2x4-q2-framed", h_stabilizer, "all codes with the checks XXXX and ZZZZ and one more check of each type", cost=50, m=2, n=4, q=2, subsystem=True, frame=four, css=True)
    add("stabilizer-1x4-q2-framed", h_stabilizer, "all codes with the checks XXXX and ZZZZ and one more check", cost=50, m=1, n=4, q=2, subsystem=False, frame=four)
    add("stabilizer-0x5-q2-framed", h_stabilizer, "a code with three fixed checks on five qubits", cost=5, m=0, n=5, q=2, subsystem=False, frame=five)
    for how in ("stack", "stack-reverse", "stack-qudit", "conjugated", "deformed", "copy", "copy-css", "swap", "concatenate"):
        for order in (("X", "Z"), ("Z", "X", "XZ"), ("XZ",), ()):
            if order in (("XZ",), ()) and "stack" not in how and not thorough:
                continue
            first = "equal" if order == ("X", "Z") else "promised"
            add(f"derived-{how}-{'-'.join(order)}", h_derived, f"codes made by {how} from all CSS codes with one check of each type on two qubits", 20, how=how, order=order, first=first)
    if thorough:
        add("stabilizer-1x5-q2-framed", h_stabilizer, "all codes with three fixed checks on five qubits and one more check", cost=90, m=1, n=5, q=2, subsystem=False, frame=five)
    return out
