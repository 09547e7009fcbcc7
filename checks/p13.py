"""Code transformations keep the promises of the code they produce."""
import itertools

from checks import codegen
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["check matrices, logical operators and decoder answers are symbolic up to the stated sizes; Clifford circuits are fixed per case "
               "(every generating gate occurs) and simulated by the real stim on every path; "
               "general subsystem codes are restricted to gauge groups that have the standard form (finding F01)"]
FUNCS = ["codes.common.QuditCode.conjugated", "codes.common.QuditCode.deformed", "codes.common.*.stack", "codes.common.*.concatenate",
         "codes.common.QuditCode._standardize_concatenation_inputs", "codes.common.*.set_logical_ops*", "codes.common.CSSCode.reduce_logical_op*",
         "codes.common.*.equiv", "codes.common.*.get_logical_ops", "math.symplectic_conjugate", "math.op_to_string"]


def make(ctx, kind, shape, n, q, subsystem, prefix=""):
    """A symbolic code and its rows.  kind: css (shape = (mx, mz)) or qudit (shape = m)."""
    if kind == "css":
        hx = ctx.field_array(prefix + "hx", (shape[0], n), q)
        hz = ctx.field_array(prefix + "hz", (shape[1], n), q)
        rx, rz = spec.elems(ctx, hx, q), spec.elems(ctx, hz, q)
        commutes = spec.all_zero(spec.matmul(rx, spec.transpose(rz), q))
        rows = codegen.embed(rx, rz, n, q)
        build = lambda: ctx.q.codes.CSSCode(hx, hz)  # noqa: E731
    else:
        H = ctx.field_array(prefix + "H", (shape, 2 * n), q)
        rows = spec.elems(ctx, H, q)
        commutes = spec.all_of([spec.symplectic(a, b, q) == 0 for i, a in enumerate(rows) for b in rows[:i]])
        build = lambda: ctx.q.codes.QuditCode(H)  # noqa: E731
    if subsystem is False:
        ctx.assume(commutes)
    elif subsystem is True:
        ctx.assume(spec.not_(commutes))
        if kind != "css":
            ctx.assume(codegen.std_available(rows, n, q))
    return build(), rows


def valid_logicals(ctx, code, rows, n, q, k=None):
    ops = code.get_logical_ops()
    if k is not None:
        ctx.check(ops.shape == (2 * k, 2 * n), "two logical operators per logical qudit")
    ops = spec.elems(ctx, ops, q)
    ctx.check(codegen.commute(ops, rows, q), "logical operators commute with every parity check")
    ctx.check(codegen.canonical_pairs(ops, q), "logical operators form dual pairs and otherwise commute")
    return ops


def same_rows(a, b):
    return spec.all_of([spec.same(x, y) for x, y in zip(a, b)])


# -------------------------------------------------------------------------------- local Fourier transforms

def h_conjugated(ctx, kind, shape, n, q, qudits, subsystem, logicals):
    code, rows = make(ctx, kind, shape, n, q, subsystem)
    old = spec.elems(ctx, code.get_logical_ops(), q) if logicals else None
    new = code.conjugated(qudits)
    ctx.check(tuple(new.matrix.shape) == (len(rows), 2 * n) and type(new.matrix).order == q, "shape and field")
    moved = range(n)[qudits] if isinstance(qudits, slice) else qudits or ()
    mine = spec.elems(ctx, new.matrix, q)

    def swapped(a, b):
        conds = []
        for j in range(n):
            if j in moved:
                conds += [spec.any_of([b[j] == a[n + j], b[j] == -a[n + j]]), spec.any_of([b[n + j] == a[j], b[n + j] == -a[j]])]
            else:
                conds += [b[j] == a[j], b[n + j] == a[n + j]]
        return spec.all_of(conds)

    ctx.check(spec.all_of([swapped(a, b) for a, b in zip(rows, mine)]), "X and Z swap on the chosen qudits only")
    ctx.check(same_rows(codegen.gram(rows, rows, q), codegen.gram(mine, mine, q)), "commutation relations are preserved")
    ctx.check(new.is_subsystem_code == code.is_subsystem_code, "kind of code")
    ctx.check(new.dimension == code.dimension, "number of logical qudits")
    if logicals:
        ops = valid_logicals(ctx, new, mine, n, q, code.dimension)
        ctx.check(spec.all_of([swapped(a, b) for a, b in zip(old, ops)]), "logical operators are transformed along")
        ctx.check(same_rows(spec.elems(ctx, code.get_logical_ops(), q), old), "the original logical operators are not modified")
    ctx.check(same_rows(spec.elems(ctx, code.matrix, q), rows), "the original code is not modified")


# -------------------------------------------------------------------------------- Clifford deformation

GATES = {  # images of X and Z (as sets of (sector, position)) of single-qubit gates, up to sign
    "H": {"X": "Z", "Z": "X"}, "S": {"X": "Y", "Z": "Z"}, "S_DAG": {"X": "Y", "Z": "Z"}, "SQRT_X": {"X": "X", "Z": "Y"},
    "C_XYZ": {"X": "Y", "Z": "X"}, "C_ZYX": {"X": "Z", "Z": "Y"}, "H_YZ": {"X": "X", "Z": "Y"}, "X": {"X": "X", "Z": "Z"}, "Z": {"X": "X", "Z": "Z"},
}
LETTER = {"X": (1, 0), "Z": (0, 1), "Y": (1, 1)}


def act(row, gate, targets, n):
    """Symplectic action of a gate on a Pauli row over GF(2)."""
    row = list(row)
    if gate in GATES:
        (a,) = targets
        x, z = row[a], row[n + a]
        (xx, xz), (zx, zz) = LETTER[GATES[gate]["X"]], LETTER[GATES[gate]["Z"]]
        zero = x - x
        row[a] = (x if xx else zero) + (z if zx else zero)
        row[n + a] = (x if xz else zero) + (z if zz else zero)
    elif gate in ("CX", "CNOT"):
        a, b = targets
        row[b], row[n + a] = row[b] + row[a], row[n + a] + row[n + b]
    elif gate == "CZ":
        a, b = targets
        row[n + a], row[n + b] = row[n + a] + row[b], row[n + b] + row[a]
    elif gate == "SWAP":
        a, b = targets
        row[a], row[b], row[n + a], row[n + b] = row[b], row[a], row[n + b], row[n + a]
    else:
        raise KeyError(gate)
    return row


def h_deformed(ctx, kind, shape, n, circuit, subsystem, logicals, preserve, as_circuit=False):
    code, rows = make(ctx, kind, shape, n, 2, subsystem)
    steps = [(words[0], [int(x) for x in words[1:]]) for words in (line.split() for line in circuit.split("\n") if line)]

    def image(row):
        for gate, targets in steps:
            row = act(row, gate, targets, n)
        return row

    old = spec.elems(ctx, code.get_logical_ops()) if logicals or preserve else None
    want = [image(r) for r in rows]
    argument = circuit
    if as_circuit:
        import stim
        argument = stim.Circuit(circuit)
    if preserve:
        fits = codegen.commute(old, want, 2)
        try:
            new = code.deformed(argument, preserve_logicals=True)
        except ValueError:
            ctx.check(spec.not_(fits), "logical operators that stay valid are preserved")
            return
        ctx.check(fits, "logical operators that become invalid are rejected")
    else:
        new = code.deformed(argument)
    mine = spec.elems(ctx, new.matrix)
    ctx.check(tuple(new.matrix.shape) == (len(rows), 2 * n) and same_rows(mine, want), "parity checks are conjugated by the circuit")
    ctx.check(new.is_subsystem_code == code.is_subsystem_code and new.dimension == code.dimension, "kind and size of the code")
    if preserve:
        ctx.check(same_rows(spec.elems(ctx, new.get_logical_ops()), old), "logical operators are preserved")
    elif logicals:
        ctx.check(same_rows(spec.elems(ctx, new.get_logical_ops()), [image(r) for r in old]), "logical operators are conjugated by the circuit")
    ctx.check(same_rows(spec.elems(ctx, code.matrix), rows), "the original code is not modified")


# -------------------------------------------------------------------------------- stacking

def place(row, n, offset, total, q):
    zero = V.field_info(q).consts[0]
    out = [zero] * (2 * total)
    for j in range(n):
        out[offset + j], out[total + offset + j] = row[j], row[n + j]
    return out


def h_stack(ctx, kind, blocks, q, subsystem, inherit):
    """blocks: (shape, n) per code; kind css / qudit / mixed."""
    made = []
    for i, (shape, n) in enumerate(blocks):
        which = kind if kind != "mixed" else ("css" if isinstance(shape, tuple) else "qudit")
        made.append((*make(ctx, which, shape, n, q, subsystem if i == 0 else False, f"c{i}"), n))
    total = sum(n for _, _, n in made)
    codes = [c for c, _, _ in made]
    logicals = [spec.elems(ctx, c.get_logical_ops(), q) for c in codes] if inherit else None
    cls = ctx.q.codes.CSSCode if kind == "css" else ctx.q.codes.QuditCode
    new = cls.stack(*codes, inherit_logicals=inherit)
    ctx.check(tuple(new.matrix.shape) == (sum(len(r) for _, r, _ in made), 2 * total), "shape")
    want, offset = [], 0
    offsets = []
    for _, rows, n in made:
        want.append([place(r, n, offset, total, q) for r in rows])
        offsets.append(offset)
        offset += n
    if kind == "css":
        order = [r for (shape, _), rows in zip(blocks, want) for r in rows[:shape[0]]] + [r for (shape, _), rows in zip(blocks, want) for r in rows[shape[0]:]]
    else:
        order = [r for rows in want for r in rows]
    mine = spec.elems(ctx, new.matrix, q)
    ctx.check(same_rows(mine, order), "every code acts on its own block")
    ctx.check(new.dimension == sum(c.dimension for c in codes), "logical qudits add up")
    ctx.check(new.is_subsystem_code == any(c.is_subsystem_code for c in codes), "kind of code")
    if not (subsystem and kind != "css" and not inherit):
        ops = valid_logicals(ctx, new, order, total, q, sum(c.dimension for c in codes))
    if inherit:
        xs = [place(r, n, o, total, q) for (_, _, n), o, ops_ in zip(made, offsets, logicals) for r in ops_[: len(ops_) // 2]]
        zs = [place(r, n, o, total, q) for (_, _, n), o, ops_ in zip(made, offsets, logicals) for r in ops_[len(ops_) // 2 :]]
        ctx.check(same_rows(ops, xs + zs), "logical operators are inherited")
    for c, rows, _ in made:
        ctx.check(same_rows(spec.elems(ctx, c.matrix, q), rows), "the stacked codes are not modified")


# -------------------------------------------------------------------------------- concatenation

def h_concatenate(ctx, kind, inner_shape, ni, outer_shape, no, q, k, mapping, inherit, sub_inner=False, sub_outer=False):
    """inner code with k logical qudits, outer code on no qudits, mapping outer physical -> inner logical."""
    inner, irows = make(ctx, kind, inner_shape, ni, q, sub_inner, "i")
    outer, orows = make(ctx, kind, outer_shape, no, q, sub_outer, "o")
    if inner.dimension != k:
        ctx.assume(False)
    L = spec.elems(ctx, inner.get_logical_ops(), q)
    cls = ctx.q.codes.CSSCode if kind == "css" else ctx.q.codes.QuditCode
    if mapping == "bad":
        size = next(s for s in range(1, 50) if s % k or s % no)
        ctx.check_raises(ValueError, lambda: cls.concatenate(inner, outer, list(range(size))), "block counts that do not fit are rejected")
        return
    new = cls.concatenate(inner, outer, mapping, inherit_logicals=inherit)
    if mapping is None:
        size = no * k
        # outer block b, qudit p  ->  inner block p, logical b
        perm = [p * k + b for b in range(k) for p in range(no)]
    else:
        size = len(mapping)
        perm = [mapping[i] for i in range(size)]
    nblocks, oblocks = size // k, size // no
    total = ni * nblocks
    stacked = [place(r, ni, b * ni, total, q) for b in range(nblocks) for r in irows]
    lx = [place(L[j], ni, b * ni, total, q) for b in range(nblocks) for j in range(k)]
    lz = [place(L[k + j], ni, b * ni, total, q) for b in range(nblocks) for j in range(k)]

    def lift(row, block):
        out = [V.field_info(q).consts[0]] * (2 * total)
        for p in range(no):
            target = perm[block * no + p]
            out = spec.add(out, spec.scale(row[p], lx[target]))
            out = spec.add(out, spec.scale(row[no + p], lz[target]))
        return out

    want = stacked + [lift(r, b) for b in range(oblocks) for r in orows]
    mine = spec.elems(ctx, new.matrix, q)
    ctx.check(len(mine) == len(want) and len(new) == total, "shape")
    # the same rows, sector by sector, in any order of the blocks
    if kind == "css":
        def key(rows, counts):
            out, at = [], 0
            for (mx, mz), blocks in counts:
                group = [rows[at + b * (mx + mz): at + (b + 1) * (mx + mz)] for b in range(blocks)]
                at += blocks * (mx + mz)
                out.append(([r for g in group for r in g[:mx]], [r for g in group for r in g[mx:]]))
            return [r for x, _ in out for r in x] + [r for _, z in out for r in z]
        want = key(want, [(inner_shape, nblocks), (outer_shape, oblocks)])
    ctx.check(same_rows(mine, want), "checks of the inner code and lifted checks of the outer code")
    ctx.check(new.dimension == outer.dimension * oblocks, "logical qudits of the outer code")
    ctx.check(new.is_subsystem_code == (inner.is_subsystem_code or outer.is_subsystem_code), "kind of code")
    if inherit or not (new.is_subsystem_code and kind != "css"):
        ops = valid_logicals(ctx, new, want, total, q, outer.dimension * oblocks)
    if inherit:
        M = spec.elems(ctx, outer.get_logical_ops(), q)
        ko = outer.dimension
        expected = [lift(M[j], b) for b in range(oblocks) for j in range(ko)] + [lift(M[ko + j], b) for b in range(oblocks) for j in range(ko)]
        ctx.check(same_rows(ops, expected), "logical operators of the outer code")
    ctx.check(same_rows(spec.elems(ctx, inner.get_logical_ops(), q), L), "the logical operators of the inner code are not modified")
    ctx.check(same_rows(spec.elems(ctx, inner.matrix, q), irows) and same_rows(spec.elems(ctx, outer.matrix, q), orows), "the codes are not modified")


# -------------------------------------------------------------------------------- replacing logical operators

def h_set_logicals(ctx, kind, shape, n, q, k, subsystem):
    code, rows = make(ctx, kind, shape, n, q, subsystem)
    ops = ctx.array("ops", (2 * k, 2 * n), 0, q - 1)
    mine = spec.elems(ctx, ops, q)
    valid = spec.all_of([codegen.commute(mine, rows, q), codegen.canonical_pairs(mine, q)])
    true_k = code.dimension
    try:
        code.set_logical_ops(ops)
    except ValueError:
        ctx.check(spec.not_(spec.all_of([valid, true_k == k])), "valid logical operators are accepted")
        return
    ctx.check(spec.all_of([valid, true_k == k]), "invalid logical operators are rejected")
    ctx.check(same_rows(spec.elems(ctx, code.get_logical_ops(), q), mine), "the logical operators that were set")
    ctx.check(code.dimension == k, "number of logical qudits")


def h_set_logicals_xz(ctx, shape, n, q, k):
    code, rows = make(ctx, "css", shape, n, q, False)
    lx, lz = ctx.array("lx", (k, n), 0, q - 1), ctx.array("lz", (k, n), 0, q - 1)
    zero = V.field_info(q).consts[0]
    mx, mz = spec.elems(ctx, lx, q), spec.elems(ctx, lz, q)
    mine = [r + [zero] * n for r in mx] + [[zero] * n + r for r in mz]
    valid = spec.all_of([codegen.commute(mine, rows, q), codegen.canonical_pairs(mine, q), code.dimension == k])
    try:
        code.set_logical_ops_xz(lx, lz)
    except ValueError:
        ctx.check(spec.not_(valid), "valid logical operators are accepted")
        return
    ctx.check(valid, "invalid logical operators are rejected")
    Pauli = ctx.q.objects.Pauli
    ctx.check(same_rows(spec.elems(ctx, code.get_logical_ops(Pauli.X), q), mx), "X-type operators that were set")
    ctx.check(same_rows(spec.elems(ctx, code.get_logical_ops(Pauli.Z), q), mz), "Z-type operators that were set")


# -------------------------------------------------------------------------------- reducing logical operators

class AnyDecoder:
    """Answers with an arbitrary vector; gives up after a number of attempts."""

    def __init__(self, ctx, n, q, attempts):
        self.ctx, self.n, self.q, self.left, self.count = ctx, n, q, attempts, 0

    def decode(self, syndrome):
        if self.count >= self.left:
            self.ctx.assume(False)
        self.count += 1
        return self.ctx.array(f"answer{self.count}", self.n, 0, self.q - 1)


def h_reduce(ctx, shape, n, q, k, which, subsystem, attempts, shared=False):
    """Whatever the decoder answers, replaced logical operators stay valid."""
    code, rows = make(ctx, "css", shape, n, q, subsystem)
    if code.dimension != k:
        ctx.assume(False)
    Pauli = ctx.q.objects.Pauli
    before = spec.elems(ctx, code.get_logical_ops(), q)
    if shared:  # the caller's own array, and codes that were made from this one
        given = code.get_logical_ops().copy()
        code.set_logical_ops(given, validate=False)
        returned = code.get_logical_ops()
        twin = ctx.q.codes.QuditCode(code)
    decoder = AnyDecoder(ctx, n, q, attempts)
    if which == "all":
        code.reduce_logical_ops(static_decoder=decoder)
    elif which in ("X", "Z"):
        code.reduce_logical_ops(getattr(Pauli, which), static_decoder=decoder)
    else:
        pauli, index = which
        code.reduce_logical_op(getattr(Pauli, pauli), index, static_decoder=decoder)
    after = valid_logicals(ctx, code, rows, n, q, k)
    if shared:
        for what, array in (("the array that was given", given), ("the array returned earlier", returned), ("a code made from this one", twin.get_logical_ops())):
            ctx.check(spec.all_of([spec.same(x, y) for x, y in zip(before, spec.elems(ctx, array, q))]), what + " keeps its logical operators")
    kept = {"all": [], "X": range(k, 2 * k), "Z": range(k)}.get(which) if isinstance(which, str) else [
        j for j in range(2 * k) if j != (which[1] if which[0] == "X" else k + which[1])]
    ctx.check(spec.all_of([spec.same(before[j], after[j]) for j in kept]), "other logical operators are kept")
    ctx.check(spec.all_zero([r[n:] for r in after[:k]] + [r[:n] for r in after[k:]]), "the operators keep their type")


# -------------------------------------------------------------------------------- equivalence

def h_equiv_fields(ctx, m, n, qa, qb):
    """Codes over different fields are never equivalent."""
    C = ctx.q.codes
    values = ctx.array("values", (m, 2 * n), 0, min(qa, qb) - 1)
    for build in (C.QuditCode, C.ClassicalCode, lambda v, q: C.CSSCode(C.ClassicalCode(v, q), C.ClassicalCode.from_generator(v, q))):
        code_a, code_b = build(values, qa), build(values, qb)
        ctx.check(not bool(type(code_a).equiv(code_a, code_b)) and not bool(type(code_a).equiv(code_b, code_a)) and bool(type(code_a).equiv(code_a, code_a)), "codes over different fields are not equivalent")


def h_equiv(ctx, kind, a, b, n, q):
    if kind == "classical":
        Ha, Hb = ctx.field_array("aH", (a, n), q), ctx.field_array("bH", (b, n), q)
        C = ctx.q.codes.ClassicalCode
        ctx.check(spec.iff(C.equiv(C(Ha), C(Hb)), spec.same_span(spec.elems(ctx, Ha, q), spec.elems(ctx, Hb, q), q, n)), "equivalent exactly when the words agree")
        return
    code_a, rows_a = make(ctx, kind, a, n, q, None, "a")
    code_b, rows_b = make(ctx, kind, b, n, q, None, "b")
    cls = ctx.q.codes.CSSCode if kind == "css" else ctx.q.codes.QuditCode
    same = spec.same_span(rows_a, rows_b, q, 2 * n)
    ctx.check(spec.iff(cls.equiv(code_a, code_b), same), "equivalent exactly when the checks generate the same group")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, max_draws=6, **params))

    for kind, shape, n, q, qudits, sub, logs in [
        ("qudit", 2, 2, 2, [0], None, False), ("qudit", 2, 2, 3, [1], None, False), ("qudit", 1, 3, 3, [0, 2], None, False),
        ("qudit", 2, 2, 2, [0, 1], False, True), ("qudit", 1, 2, 3, [0], False, True), ("qudit", 1, 3, 2, slice(0, 2), False, True),
        ("qudit", 1, 2, 2, None, None, False), ("css", (1, 1), 3, 2, [0, 2], False, True), ("css", (1, 1), 2, 3, [1], False, True),
        ("css", (1, 1), 2, 3, slice(None), True, True), ("qudit", 2, 2, 2, [1], True, True), ("css", (1, 1), 2, 4, [0], False, True),
        ("qudit", 1, 2, 3, [], False, True), ("qudit", 1, 1, 5, [0], False, True),
    ] + ([("qudit", 2, 2, 3, [0], False, True), ("qudit", 2, 3, 2, [1, 2], False, True), ("css", (1, 2), 3, 2, [1], True, True)] if thorough else []):
        add(f"conjugated-{kind}-{shape}x{n}-q{q}-{qudits}-{sub}-{logs}".replace(" ", ""), h_conjugated,
            f"all {kind} codes with {shape} checks on {n} qudits over GF({q}), Fourier transforms on {qudits}", 30 * n * q,
            kind=kind, shape=shape, n=n, q=q, qudits=qudits, subsystem=sub, logicals=logs)

    circuits = ["H 0", "S 0\nCX 0 1", "CX 1 0\nH 1", "CZ 0 1\nSQRT_X 1", "C_XYZ 0\nSWAP 0 1", "S 1\nH 1\nCX 0 1\nX 0"]
    for i, circuit in enumerate(circuits):
        for kind, shape, sub, logs, preserve in [("qudit", 1, None, False, False), ("qudit", 1, False, True, False), ("qudit", 1, False, False, True),
                                                 ("css", (1, 1), False, True, False), ("css", (1, 1), True, True, False), ("css", (1, 1), False, False, True)]:
            if not thorough and i % 2 and kind == "css":
                continue
            add(f"deformed-{kind}-{i}-{sub}-{logs}-{preserve}", h_deformed, f"all {kind} codes with {shape} checks on 2 qubits, circuit {circuit!r}", 20,
                kind=kind, shape=shape, n=2, circuit=circuit, subsystem=sub, logicals=logs, preserve=preserve, as_circuit=bool(i % 2))
    for circuit in ["H 0", "CX 0 2\nS 1", "CZ 1 2\nC_ZYX 0"]:
        add(f"deformed-3-{circuit.split()[0]}", h_deformed, f"all qudit codes with 1 check on 3 qubits, circuit {circuit!r}", 40,
            kind="qudit", shape=1, n=3, circuit=circuit, subsystem=None, logicals=False, preserve=False)
    add("deformed-2x2", h_deformed, "all stabilizer codes with 2 checks on 2 qubits", 60, kind="qudit", shape=2, n=2, circuit="H 0\nCX 0 1\nS 1",
        subsystem=False, logicals=True, preserve=False)
    add("deformed-sub", h_deformed, "all subsystem codes with 2 checks on 1 qubit", 10, kind="qudit", shape=2, n=1, circuit="H 0\nS 0",
        subsystem=True, logicals=True, preserve=False)
    add("deformed-partial", h_deformed, "circuits that address fewer qubits than the code", 30, kind="qudit", shape=1, n=3, circuit="H 1",
        subsystem=False, logicals=True, preserve=False)

    for kind, blocks, q, sub, inherit in [
        ("qudit", [(1, 1), (1, 2)], 2, False, True), ("qudit", [(1, 2), (1, 1)], 3, False, True), ("qudit", [(1, 2), (1, 2)], 2, False, False),
        ("css", [((1, 1), 2), ((1, 0), 2)], 2, False, True), ("css", [((1, 1), 2), ((0, 1), 1)], 3, False, True), ("css", [((1, 1), 2), ((1, 1), 2)], 2, False, False),
        ("css", [((1, 1), 2), ((1, 1), 2)], 2, True, True), ("qudit", [(2, 1), (1, 2)], 2, True, True), ("mixed", [((1, 1), 2), (1, 1)], 2, False, True),
        ("css", [((1, 1), 1), ((1, 0), 1), ((0, 1), 2)], 2, None, True), ("qudit", [(1, 1), (1, 1), (1, 1)], 2, False, True), ("qudit", [(1, 2)], 2, False, True),
    ]:
        add(f"stack-{kind}-{blocks}-q{q}-{sub}-{inherit}".replace(" ", ""), h_stack, f"all {kind} codes of sizes {blocks} over GF({q})", 60,
            kind=kind, blocks=blocks, q=q, subsystem=sub, inherit=inherit)

    for kind, ishape, ni, oshape, no, q, k, mapping, inherit, si, so in [
        ("qudit", 1, 2, 1, 2, 2, 1, None, True, False, False), ("qudit", 1, 2, 1, 1, 2, 1, None, True, False, False),
        ("qudit", 1, 2, 1, 2, 2, 1, [1, 0], True, False, False), ("qudit", 1, 3, 1, 2, 2, 2, [1, 0], True, False, False),
        ("qudit", 1, 3, 1, 2, 2, 2, None, True, False, False), ("qudit", 1, 2, 1, 1, 3, 1, None, True, False, False),
        ("qudit", 1, 2, 1, 1, 2, 1, [2, 0, 1], True, False, False), ("qudit", 1, 2, 1, 2, 2, 1, {0: 1, 1: 0}, True, False, False),
        ("qudit", 1, 2, 1, 2, 2, 1, None, False, False, False),
        ("qudit", 1, 2, 1, 2, 2, 1, {1: 1, 0: 0}, True, False, False), ("qudit", 1, 2, 1, 1, 2, 1, {2: 0, 0: 1, 1: 2}, True, False, False),
        ("css", (1, 0), 3, (1, 0), 2, 2, 2, {3: 0, 1: 2, 0: 3, 2: 1}, True, False, False), ("css", (1, 0), 4, (0, 1), 3, 2, 3, None, True, False, False),
        ("css", (1, 0), 4, (0, 1), 2, 2, 3, [4, 2, 0, 5, 3, 1], True, False, False), ("qudit", 1, 4, 1, 2, 2, 3, None, True, False, False),
        ("css", (1, 0), 2, (1, 0), 2, 2, 1, None, True, False, False), ("css", (0, 1), 2, (1, 1), 2, 2, 1, [1, 0], True, False, False),
        ("css", (1, 1), 3, (1, 1), 2, 2, 1, None, True, False, False), ("css", (1, 0), 3, (1, 0), 2, 2, 2, None, True, False, False),
        ("css", (1, 0), 3, (0, 1), 2, 2, 2, [0, 2, 1, 3], True, False, False), ("css", (1, 0), 2, (0, 1), 1, 3, 1, None, True, False, False),
        ("css", (1, 0), 2, (1, 1), 2, 2, 1, None, True, False, True), ("css", (1, 1), 2, (1, 0), 2, 2, 1, None, True, True, False),
        ("css", (0, 1), 2, (1, 1), 2, 2, 1, None, False, False, None), ("css", (1, 0), 3, (1, 1), 4, 2, 2, [3, 0, 2, 1], True, False, False),
        ("qudit", 1, 2, 1, 2, 2, 1, "bad", True, False, False), ("css", (1, 0), 3, (1, 0), 2, 2, 2, "bad", True, False, False),
    ]:
        add(f"concat-{kind}-{ishape}x{ni}-{oshape}x{no}-q{q}-k{k}-{mapping}-{inherit}-{si}-{so}".replace(" ", ""), h_concatenate,
            f"all inner {kind} codes {ishape}x{ni} with {k} logical qudits, all outer codes {oshape}x{no} over GF({q}), mapping {mapping}", 100,
            kind=kind, inner_shape=ishape, ni=ni, outer_shape=oshape, no=no, q=q, k=k, mapping=mapping, inherit=inherit, sub_inner=si, sub_outer=so)

    for kind, shape, n, q, k, sub in [("qudit", 1, 2, 2, 1, False), ("qudit", 1, 1, 2, 1, None), ("qudit", 1, 1, 3, 1, None), ("qudit", 1, 2, 2, 2, None),
                                      ("css", (1, 1), 2, 2, 1, None), ("css", (1, 1), 2, 2, 2, False), ("css", (1, 0), 2, 3, 1, None), ("qudit", 1, 1, 4, 1, False)]:
        add(f"set-{kind}-{shape}x{n}-q{q}-k{k}-{sub}".replace(" ", ""), h_set_logicals, f"all {kind} codes {shape}x{n} over GF({q}) and all sets of {2 * k} operators", 100,
            kind=kind, shape=shape, n=n, q=q, k=k, subsystem=sub)
    for shape, n, q, k in [((1, 1), 2, 2, 1), ((1, 0), 3, 2, 2), ((0, 1), 2, 3, 1), ((1, 1), 3, 2, 1)]:
        add(f"set-xz-{shape}x{n}-q{q}-k{k}".replace(" ", ""), h_set_logicals_xz, f"all CSS codes {shape}x{n} over GF({q}) and all pairs of {k} operators", 60, shape=shape, n=n, q=q, k=k)

    for shape, n, q, k, which, sub, attempts in [((1, 1), 3, 2, 1, ("X", 0), False, 2), ((1, 0), 3, 2, 2, ("Z", 1), False, 1), ((0, 1), 3, 2, 2, ("X", 0), False, 1),
                                                 ((1, 0), 2, 3, 1, ("X", 0), False, 1), ((1, 1), 3, 2, 1, "all", False, 2), ((1, 0), 3, 2, 2, "X", False, 2),
                                                 ((1, 1), 2, 2, 1, ("Z", 0), True, 2), ((1, 1), 3, 2, 2, ("X", 1), True, 1), ((0, 1), 2, 3, 1, "all", False, 2)]:
        add(f"reduce-{shape}x{n}-q{q}-k{k}-{which}-{sub}-{attempts}".replace(" ", "").replace("'", ""), h_reduce,
            f"all CSS codes {shape}x{n} over GF({q}) with k={k}, every sequence of at most {attempts} decoder answers", 60,
            shape=shape, n=n, q=q, k=k, which=which, subsystem=sub, attempts=attempts)
        if attempts == 1:
            add(f"reduce-shared-{shape}x{n}-q{q}-k{k}-{which}-{sub}".replace(" ", "").replace("'", ""), h_reduce,
                f"all CSS codes {shape}x{n} over GF({q}) with k={k} whose operators were set by hand, every decoder answer", 60,
                shape=shape, n=n, q=q, k=k, which=which, subsystem=sub, attempts=attempts, shared=True)

    for kind, a, b, n, q in [("qudit", 1, 1, 2, 2), ("qudit", 2, 1, 2, 2), ("qudit", 2, 2, 1, 3), ("css", (1, 1), (1, 1), 2, 2), ("css", (2, 1), (1, 1), 2, 2), ("css", (1, 0), (1, 1), 2, 3),
                              ("classical", 2, 2, 3, 2), ("classical", 1, 2, 2, 3), ("classical", 2, 1, 2, 4)]:
        add(f"equiv-{kind}-{a}-{b}-x{n}-q{q}".replace(" ", ""), h_equiv, f"all pairs of {kind} codes {a}, {b} on {n} qudits over GF({q})", 40, kind=kind, a=a, b=b, n=n, q=q)
    for qa, qb in [(2, 3), (2, 4), (3, 5), (4, 5)]:
        add(f"equiv-fields-{qa}-{qb}", h_equiv_fields, f"all checks of length 2 with entries below {min(qa, qb)}", 10, m=1, n=1, qa=qa, qb=qb)
    return out
