"""Encoders and logical Clifford circuits do to states what they promise."""
import contextlib
import itertools
import re

import numpy as np

from checks import codegen
from checks.p13 import make
from vf import spec
from vf import stimsym as M
from vf import symnp as S
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["Clifford circuits are fixed per case; the tableau arithmetic of stim (an external C++ library) is modelled with symbolic bits and signs "
               "and compared with the real stim in every validation run; synthesizing a circuit from a tableau is trusted to stim",
               "the automorphism group of a classical code (computed by the external program GAP) is replaced by the group generated by an arbitrary automorphism from a list of candidates",
               "the conversion of an integer vector to a Pauli string is decided on its own and summarized elsewhere",
               "general subsystem codes are restricted to gauge groups that have the standard form (finding F01)"]
FUNCS = ["circuits.*", "math.op_to_string", "codes.common.*.get_logical_ops", "codes.common.*.get_stabilizer_ops", "codes.common.*.get_gauge_ops", "codes.common.QuditCode.deformed"]


# ---------------------------------------------------------------- the environment of the code under test
def stim_of(ctx):
    if ctx.symbolic:
        return M
    import stim
    return stim


def summary(op):
    """op_to_string without a case distinction per entry."""
    flat = list(S.raw(op).reshape(-1)) if isinstance(op, np.ndarray) else list(op)
    n = len(flat) // 2
    bits = [V.blit(x != 0) for x in flat]
    return M.PauliString(M.Pauli.hermitian(bits[:n], bits[n:], V.blit(False)))


@contextlib.contextmanager
def patched(ctx, group=None):
    """Summaries and stand-ins for external programs; undone afterwards."""
    undo = []

    def put(owner, name, value):
        undo.append((owner, name, vars(owner)[name]))
        setattr(owner, name, value)

    try:
        if ctx.symbolic:
            original = getattr(ctx.q.math, "op_to_string", None)
            for module in list(ctx.package.modules.values()):
                if original is not None and vars(module).get("op_to_string") is original:
                    put(module, "op_to_string", summary)
        if group is not None:
            # nothing is read from or written to the cache of the user
            put(ctx.q.cache, "get_disk_cache", lambda *args, **kwargs: {})
            gap = ctx.q.external.gap
            put(gap, "is_installed", lambda: True)
            put(gap, "require_package", lambda *args: None)
            put(gap, "get_output", group)
        yield
    finally:
        for owner, name, value in reversed(undo):
            setattr(owner, name, value)


# ---------------------------------------------------------------- reference arithmetic of Pauli operators
def pauli(row, sign=0):
    """The Hermitian Pauli operator of a row of field elements."""
    n = len(row) // 2
    bits = [x.nonzero_lit() for x in row]
    return M.Pauli.hermitian(bits[:n], bits[n:], sign)


def read(tableau):
    """Images of all X_j and all Z_j as Pauli operators."""
    x2x, x2z, z2x, z2z, sx, sz = [S.raw(a) for a in tableau.to_numpy()]
    lits = lambda values: [V.blit(v) for v in values]  # noqa: E731
    xs = [M.Pauli.hermitian(lits(a), lits(b), V.blit(s)) for a, b, s in zip(x2x, x2z, sx)]
    zs = [M.Pauli.hermitian(lits(a), lits(b), V.blit(s)) for a, b, s in zip(z2x, z2z, sz)]
    return xs, zs


def row_of(p):
    info = V.field_info(2)
    return [info.make([lit]) for lit in [*p.x, *p.z]]


def positive(p):
    return V.mkbool(p.sign_lit() ^ 1)


def equal(p, r):
    d = V._dag()
    return V.mkbool(d.and_all([d.xor_(a, b) ^ 1 for a, b in zip([*p.x, *p.z, *p.phase], [*r.x, *r.z, *r.phase])]))


def one(n):
    return M.Pauli([0] * n, [0] * n, (0, 0))


def image(xs, zs, p):
    """Image of a Pauli operator under the Clifford operation with the given images of X_j, Z_j."""
    out = M.Pauli([0] * len(xs[0].x), [0] * len(xs[0].x), p.phase)
    for k in range(len(xs)):
        out = out.times(xs[k], p.x[k]).times(zs[k], p.z[k])
    return out


def products(ops, n):
    out = [one(n)]
    for p in ops:
        out = out + [w.times(p) for w in out]
    return out


def symplectic_tableau(xs, zs):
    d = V._dag()
    ops, n = [*xs, *zs], len(xs)
    return V.mkbool(d.and_all([a.anticommutes(b) ^ (0 if abs(i - j) == n else 1) for i, a in enumerate(ops) for j, b in enumerate(ops) if i != j]))


def judge_encoder(ctx, code, rows, tableau, n, logicals=None):
    """Returns the operators the encoder is made of: (logical, gauge, stabilizer) operators, k, g."""
    k, g = code.dimension, code.gauge_dimension
    ctx.check(len(tableau) == n, "the encoder acts on all qubits")
    xs, zs = read(tableau)
    ctx.check(symplectic_tableau(xs, zs), "the encoder is a Clifford operation")
    ctx.check(spec.all_of([positive(p) for p in xs[:k] + zs]), "operators of the code are encoded with positive sign")
    mine = spec.elems(ctx, ctx.q.codes.QuditCode.get_logical_ops(code)) if logicals is None else logicals
    ctx.check(len(mine) == 2 * k and spec.all_of([spec.same(row_of(p), r) for p, r in zip(xs[:k] + zs[:k], mine)]), "weight-one operators become logical operators")
    ctx.check(codegen.commute([row_of(p) for p in xs[:k] + zs[:k]], rows, 2), "logical operators commute with all parity checks")
    stabs = [row_of(p) for p in zs[k + g:]]
    ctx.check(codegen.commute(stabs, rows, 2), "stabilizers commute with all parity checks")
    ctx.check(spec.all_of([spec.in_span(row_of(p), rows) for p in zs[k:] + xs[k:k + g]]), "gauge operators and stabilizers are products of parity checks")
    return xs, zs, k, g


def circuits_module(ctx):
    import importlib
    return ctx.package.load("qldpc.circuits") if ctx.symbolic else importlib.import_module("qldpc.circuits")


def new_code(ctx, kind, shape, n, subsystem, own):
    code, rows = make(ctx, kind, shape, n, 2, subsystem)
    if own:
        # logical operators chosen by the user
        k = code.dimension
        ops = ctx.field_array("ops", (2 * k, 2 * n), 2)
        own_rows = spec.elems(ctx, ops)
        ctx.assume(codegen.commute(own_rows, rows, 2))
        ctx.assume(codegen.canonical_pairs(own_rows, 2))
        if kind == "css":
            # the code class separates both kinds of operators
            zero = V.field_info(2).consts[0]
            ctx.assume(spec.all_of([x == 0 for r in own_rows[:k] for x in r[n:]] + [x == 0 for r in own_rows[k:] for x in r[:n]]))
        code.set_logical_ops(ops)
        return code, rows, own_rows
    return code, rows, None


# ---------------------------------------------------------------- harnesses
def h_string(ctx, n, plain):
    """The Pauli string of an integer vector."""
    op = ctx.field_array("op", 2 * n, 2)
    bits = [int(x) for x in op]
    text = str(ctx.q.math.op_to_string(op.view(ctx.np.ndarray) if plain else op))
    ctx.check(text == "+" + "".join("_XZY"[bits[j] + 2 * bits[n + j]] for j in range(n)), "characters of the string")


def h_encode(ctx, kind, shape, n, subsystem, own=False, circuit=False):
    code, rows, own_rows = new_code(ctx, kind, shape, n, subsystem, own)
    with patched(ctx):
        module = circuits_module(ctx)
        tableau = module.get_encoding_circuit(code).to_tableau() if circuit else module.get_encoding_tableau(code)
        if circuit and len(tableau) < n:
            # stim drops idle qubits at the end
            ctx.check(False, "the encoding circuit acts on all qubits")
        judge_encoder(ctx, code, rows, tableau, n, own_rows)
        ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(spec.elems(ctx, code.matrix), rows)]), "the code is not modified")


def judge_logical(ctx, enc, dec, k, g, n, circuit_tableau, logical):
    """The circuit maps every encoded operator as the logical tableau says, up to signed stabilizers of the final code."""
    xs, zs = enc
    cx, cz = read(circuit_tableau)
    stabs = dec[1][k + g:]
    group = products(stabs, n)
    lx, lz = read(logical)
    for j in range(2 * k):
        source = (xs[:k] + zs[:k])[j]
        got = image(cx, cz, source)
        small = (lx + lz)[j]
        # logical operators of the final code
        want = M.Pauli([0] * n, [0] * n, small.phase)
        for i in range(k):
            want = want.times(dec[0][i], small.x[i]).times(dec[1][i], small.z[i])
        ctx.check(spec.any_of([equal(got, want.times(s)) for s in group]), "logical operators are mapped as the logical tableau says")


def preserves(code_rows, cx, cz, new_rows=None):
    """The circuit maps the gauge group into the (new) gauge group, up to phases."""
    target = new_rows if new_rows is not None else code_rows
    return spec.all_of([spec.in_span(row_of(image(cx, cz, pauli(r))), target) for r in code_rows])


def h_logical(ctx, kind, shape, n, subsystem, circuit, own=False):
    """Logical tableau of a physical circuit that preserves the code."""
    code, rows, own_rows = new_code(ctx, kind, shape, n, subsystem, own)
    stim = stim_of(ctx)
    with patched(ctx):
        module = circuits_module(ctx)
        xs, zs, k, g = judge_encoder(ctx, code, rows, module.get_encoding_tableau(code), n, own_rows)
        physical = stim.Circuit(circuit)
        tableau = (physical + stim.Circuit(f"I {n - 1}")).to_tableau()
        ok = preserves(rows, *read(tableau))
        try:
            logical = module.get_logical_tableau(code, physical)
        except (AssertionError, ValueError):
            ctx.check(spec.not_(ok), "circuits that preserve the code are accepted")
            return
        ctx.check(ok, "circuits that do not preserve the code are rejected")
        ctx.check(len(logical) == k and symplectic_tableau(*read(logical)), "a Clifford operation on the logical qubits")
        judge_logical(ctx, (xs, zs), (xs, zs), k, g, n, tableau, logical)


def h_logical_deformed(ctx, kind, shape, n, subsystem, circuit, own=False):
    """Logical tableau of a physical circuit that deforms the code and keeps its logical operators."""
    code, rows, own_rows = new_code(ctx, kind, shape, n, subsystem, own)
    stim = stim_of(ctx)
    with patched(ctx):
        module = circuits_module(ctx)
        xs, zs, k, g = judge_encoder(ctx, code, rows, module.get_encoding_tableau(code), n, own_rows)
        physical = stim.Circuit(circuit)
        tableau = (physical + stim.Circuit(f"I {n - 1}")).to_tableau()
        cx, cz = read(tableau)
        want = [row_of(image(cx, cz, pauli(r))) for r in rows]
        ok = codegen.commute([row_of(p) for p in xs[:k] + zs[:k]], want, 2)
        try:
            encoder, decoder = module.get_encoder_and_decoder(code, physical)
            logical = module.get_logical_tableau(code, physical, deform_code=True)
        except (AssertionError, ValueError):
            ctx.check(spec.not_(ok), "deformations that keep the logical operators valid are accepted")
            return
        ctx.check(ok, "deformations that invalidate the logical operators are rejected")
        ctx.check(spec.all_of([equal(a, b) for a, b in zip([*xs, *zs], [p for part in read(encoder) for p in part])]), "the encoder is that of the code")
        final = read(decoder.inverse())
        ctx.check(symplectic_tableau(*final) and spec.all_of([spec.same(row_of(a), row_of(b)) for a, b in zip(final[0][:k] + final[1][:k], xs[:k] + zs[:k])]), "the deformed code has the same logical operators")
        ctx.check(spec.all_of([spec.in_span(row_of(p), want) for p in final[1][k:]]), "the decoder is that of the deformed code")
        ctx.check(len(logical) == k and symplectic_tableau(*read(logical)), "a Clifford operation on the logical qubits")
        judge_logical(ctx, (xs, zs), final, k, g, n, tableau, logical)


def wreath(n, sectors, columns, locals_):
    """The permutation of columns that permutes qubits and, locally, sectors: column (s, q) -> (locals_[q][s], columns[q])."""
    out = [None] * (n * sectors)
    for q in range(n):
        for s in range(sectors):
            out[s * n + q] = locals_[q][s] * n + columns[q]
    return out


def automorphisms(ctx, choose, seen_codes, twice=False):
    """A stand-in for GAP, which computes automorphism groups of classical codes: the group is generated by one arbitrary automorphism."""

    def get_output(*commands):
        text = "".join(commands).replace(" ", "")
        code = re.search(r"CheckMatCode\(\[(.*)\],GF\(2\)\)", text)
        if code is None:
            raise RuntimeError("unexpected command " + text)
        matrix = [[V.int_to_field(V.field_info(2), V.untoken(x)) for x in row.split(",")] for row in re.findall(r"\[([^\[\]]*)\]", code.group(1))]
        # GAP cannot make a code from an empty list
        ctx.assume(len(matrix) > 0)
        total = len(matrix[0])
        perm = choose(total)
        # the permuted checks are satisfied by the same words
        moved = []
        for row in matrix:
            new = [None] * total
            for j, x in enumerate(row):
                new[perm[j]] = x
            moved.append(new)
        ctx.assume(spec.all_of([spec.in_span(r, matrix) for r in moved]))
        seen_codes.append((matrix, perm))
        cycles, seen = [], set()
        for j in range(total):
            cycle = []
            while j not in seen:
                seen.add(j)
                cycle.append(j + 1)
                j = perm[j]
            if len(cycle) > 1:
                cycles.append("(" + ",".join(map(str, cycle)) + ")")
        return ("".join(cycles) or "()") + "\n" + ("()\n" if twice else "")

    return get_output


def h_transversal(ctx, kind, shape, n, subsystem, gates, columns, locals_, deform=False, keep=True, twice=False):
    """Transversal operations: circuits of the allowed gates that keep the code and act as stated."""
    code, rows, _ = new_code(ctx, kind, shape, n, subsystem, False)
    stim = stim_of(ctx)
    asked = []

    def choose(total):
        sectors = total // n
        ctx.assume(sectors == len(locals_[0]))
        return wreath(n, sectors, columns, locals_)

    with patched(ctx, automorphisms(ctx, choose, asked, twice)):
        module = circuits_module(ctx)
        xs, zs, k, g = judge_encoder(ctx, code, rows, module.get_encoding_tableau(code), n)
        ops = module.get_transversal_ops(code, gates, deform_code=deform, remove_redundancies=not keep)
        ctx.observe("number of operations", len(ops))
        if keep and len(locals_[0]) == 3:
            # every generator of the group is an operation: with the columns of each qubit at distance n, the chosen automorphism is one of them
            matrix, perm = asked[0]
            if bool(spec.all_of([row[j] + row[n + j] + row[2 * n + j] == 0 for row in matrix for j in range(n)])) and perm != sorted(perm):
                ctx.check(any(not is_pauli(physical.to_tableau()) for _, physical in ops), "automorphisms made of allowed gates are found")
        for logical, physical in ops:
            judge_transversal(ctx, module, code, rows, (xs, zs), k, g, n, stim, logical, physical, gates, deform)


def is_pauli(tableau):
    xs, zs = read(tableau)
    return all([v for v in p.x].count(1) + [v for v in p.z].count(1) == 1 and (p.x if part == 0 else p.z)[j] == 1 for part, ops in enumerate((xs, zs)) for j, p in enumerate(ops))


ALLOWED = {"S": {"S", "S_DAG", "SQRT_Z", "SQRT_Z_DAG"}, "H": {"H", "H_XZ"}, "SQRT_X": {"SQRT_X", "SQRT_X_DAG"}, "SWAP": {"SWAP"}}


def judge_transversal(ctx, module, code, rows, enc, k, g, n, stim, logical, physical, gates, deform):
    tableau = physical.to_tableau()
    ctx.check(len(tableau) == n, "the circuit acts on the qubits of the code")
    two = {inst.name for inst in physical if any(len(group) > 1 for group in inst.target_groups())}
    ctx.check(two <= ({"SWAP"} if "SWAP" in gates else set()), "the only entangling gates are allowed swaps")
    names = {inst.name for inst in physical} - {"I", "X", "Y", "Z", "SWAP"}
    local = set(gates) - {"SWAP"}
    ctx.check(bool(local) or not names, "no local gates other than Pauli gates without local gates")
    if len(local) == 1:
        ctx.check(names <= ALLOWED[next(iter(local))], "only the allowed local gate")
    cx, cz = read(tableau)
    xs, zs = enc
    if deform:
        final = read(module.get_encoder_and_decoder(code, physical)[1].inverse())
        want = [row_of(image(cx, cz, pauli(r))) for r in rows]
        ctx.check(spec.all_of([spec.same(row_of(a), row_of(b)) for a, b in zip(final[0][:k] + final[1][:k], xs[:k] + zs[:k])]), "the deformed code has the same logical operators")
        ctx.check(spec.all_of([spec.in_span(row_of(p), want) for p in final[1][k:]]), "final code")
    else:
        final = (xs, zs)
        ctx.check(preserves(rows, cx, cz), "the code is preserved")
    group = products(final[1][k + g:], n)
    ctx.check(spec.all_of([spec.any_of([equal(image(cx, cz, p), s) for s in group]) for p in zs[k + g:]]), "stabilizers keep their signs")
    ctx.check(len(logical) == k and symplectic_tableau(*read(logical)), "a Clifford operation on the logical qubits")
    judge_logical(ctx, enc, final, k, g, n, tableau, logical)


def h_find(ctx, kind, shape, n, subsystem, gates, columns, locals_, targets, deform=False, twice=False):
    """Finding circuits for given logical operations."""
    code, rows, _ = new_code(ctx, kind, shape, n, subsystem, False)
    ctx.assume(code.dimension > 0)
    stim = stim_of(ctx)
    asked = []

    def choose(total):
        sectors = total // n
        ctx.assume(sectors == len(locals_[0]))
        return wreath(n, sectors, columns, locals_)

    with patched(ctx, automorphisms(ctx, choose, asked, twice)):
        module = circuits_module(ctx)
        xs, zs, k, g = judge_encoder(ctx, code, rows, module.get_encoding_tableau(code), n)
        wanted = [stim.Circuit(t) for t in targets]
        ctx.assume(all(c.num_qubits <= k for c in wanted))
        wanted_tableaus = [(c + stim.Circuit(f"I {k - 1}")).to_tableau() for c in wanted]
        found = module.get_transversal_circuits(code, [t if j % 2 else c for j, (c, t) in enumerate(zip(wanted, wanted_tableaus))], gates, deform_code=deform)
        ctx.check(len(found) == len(targets), "one answer per operation")
        everything = module.get_transversal_circuits(code, wanted_tableaus[:1], gates, deform_code=deform)
        ctx.check((everything[0] is None) == (found[0] is None), "operations are found independently of each other")
        for logical, physical in zip(wanted_tableaus, found):
            if physical is None:
                ctx.check(True, "nothing found")
                continue
            judge_transversal(ctx, module, code, rows, (xs, zs), k, g, n, stim, logical, physical, gates, deform)
        # the identity is always possible
        if "I 0" in targets and not deform:
            ctx.check(found[targets.index("I 0")] is not None, "the trivial operation is found")


def h_rejected(ctx, q):
    module = circuits_module(ctx)
    code = ctx.q.codes.SurfaceCode(2, field=q)
    for name, args in [("get_encoding_tableau", ()), ("get_encoding_circuit", ()), ("get_encoder_and_decoder", ()), ("get_transversal_ops", ()), ("get_logical_tableau", (stim_of(ctx).Circuit("H 0"),)),
                       ("get_transversal_automorphism_group", ()), ("get_transversal_circuits", ([stim_of(ctx).Circuit("H 0")],)), ("get_transversal_circuit", (stim_of(ctx).Circuit("H 0"),))]:
        ctx.check_raises(ValueError, lambda: getattr(module, name)(code, *args), f"codes of qudits are rejected by {name}")
    for gates in [["T"], ["S", "CX"], ["SQRT_Y"]]:
        ctx.check_raises(ValueError, lambda: module.get_transversal_automorphism_group(ctx.q.codes.FiveQubitCode(), gates), "unsupported gates are rejected")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", "").replace("'", ""), func, functions=FUNCS, bounds=bounds, cost=cost, stubs=M.stubs, timeout=3000 if thorough else 240, max_paths=60000 if thorough else 8000, **params))

    for n in (1, 2):
        for plain in (False, True):
            add(f"string-{n}-{plain}", h_string, f"all Pauli strings on {n} qubits", n=n, plain=plain)
    for q in (3, 4):
        add(f"rejected-q{q}", h_rejected, f"codes over GF({q})", q=q)
    shapes = [("css", (1, 1), 2, False), ("css", (1, 1), 3, False), ("css", (1, 2), 3, False), ("css", (2, 1), 3, False), ("css", (1, 1), 3, None), ("css", (1, 1), 3, True), ("css", (2, 2), 3, None), ("css", (0, 2), 2, False),
              ("qudit", 1, 2, False), ("qudit", 2, 2, False), ("qudit", 3, 2, False), ("qudit", 2, 3, False), ("qudit", 1, 3, False), ("qudit", 2, 2, True), ("qudit", 3, 2, True), ("qudit", 2, 3, True), ("qudit", 0, 2, False), ("css", (2, 2), 4, False)]
    if thorough:
        shapes += [("qudit", 3, 3, False), ("css", (2, 2), 4, None), ("css", (3, 2), 4, False), ("qudit", 4, 2, True)]
    for kind, shape, n, sub in shapes:
        add(f"encode-{kind}-{shape}-{n}-{sub}", h_encode, f"all codes with {shape} checks on {n} qubits", 40, kind=kind, shape=shape, n=n, subsystem=sub)
    for kind, shape, n, sub in [("css", (1, 1), 3, False), ("qudit", 2, 3, False), ("css", (1, 1), 3, True), ("qudit", 2, 2, True)]:
        add(f"encode-circuit-{kind}-{shape}-{n}-{sub}", h_encode, f"all codes with {shape} checks on {n} qubits", 40, kind=kind, shape=shape, n=n, subsystem=sub, circuit=True)
    for kind, shape, n, sub in [("css", (1, 1), 2, False), ("css", (1, 1), 3, True), ("qudit", 1, 2, False), ("qudit", 2, 2, True), ("qudit", 0, 2, False), ("css", (1, 1), 3, False)]:
        add(f"encode-own-{kind}-{shape}-{n}-{sub}", h_encode, f"all codes with {shape} checks on {n} qubits and all valid choices of logical operators", 60, kind=kind, shape=shape, n=n, subsystem=sub, own=True)
    words = ["H 0", "S 0\nCX 0 1", "SWAP 0 1", "H 0 1\nS 1", "X 0\nZ 1", "CZ 0 1\nSQRT_X 0", "C_XYZ 0 1", "Y 1"]
    for i, circuit in enumerate(words):
        for kind, shape, n, sub in [("css", (1, 1), 2, None), ("qudit", 1, 2, False), ("qudit", 2, 2, True), ("qudit", 2, 3, False), ("css", (1, 1), 3, None)]:
            if n == 3 and i % 2 and not thorough:
                continue
            add(f"logical-{i}-{kind}-{shape}-{n}-{sub}", h_logical, f"all codes with {shape} checks on {n} qubits", 30, kind=kind, shape=shape, n=n, subsystem=sub, circuit=circuit)
        for kind, shape, n, sub in [("css", (1, 1), 2, None), ("qudit", 1, 2, False), ("qudit", 2, 2, True), ("qudit", 2, 3, False)]:
            if n == 3 and not i % 2 and not thorough:
                continue
            add(f"deformed-{i}-{kind}-{shape}-{n}-{sub}", h_logical_deformed, f"all codes with {shape} checks on {n} qubits", 40, kind=kind, shape=shape, n=n, subsystem=sub, circuit=circuit)
    add("logical-own", h_logical, "all codes with 1 check on 2 qubits and all valid logical operators", 40, kind="qudit", shape=1, n=2, subsystem=False, circuit="SWAP 0 1\nH 0 1", own=True)
    S3 = list(itertools.permutations(range(3)))
    S2 = [(0, 1), (1, 0)]
    codes2 = [("qudit", 1, 2, False), ("css", (1, 1), 2, None), ("qudit", 2, 2, False)]
    for gates, sectors in [(("S", "H", "SWAP"), 3), (("H", "SWAP"), 2), (("S", "SWAP"), 2), (("SQRT_X", "SWAP"), 2), (("SWAP",), 2), (("S", "H"), 3), (("SQRT_X", "S"), 3), (("H",), 2)]:
        swaps = "SWAP" in gates
        for kind, shape, n, sub in codes2:
            for columns in ([(0, 1), (1, 0)] if swaps else [(0, 1)]):
                loc = S3 if sectors == 3 else S2
                if gates == ("SWAP",):
                    loc = S2[:1]
                for a, b in itertools.product(loc, loc):
                    if sectors == 3 and not thorough and (S3.index(a) * 5 + S3.index(b) + len(kind)) % 4:
                        continue
                    label = f"{'+'.join(gates)}-{kind}-{shape}-{n}-{columns}-{a}-{b}"
                    add(f"transversal-{label}", h_transversal, f"all codes with {shape} checks on {n} qubits, one automorphism", 10, kind=kind, shape=shape, n=n, subsystem=sub, gates=gates, columns=columns, locals_=[a, b], twice=a == b)
    e, h, s, c = S3[0], (1, 0, 2), (0, 2, 1), (1, 2, 0)
    three = [((1, 0, 2), [e, e, h]), ((1, 2, 0), [e, e, e]), ((0, 1, 2), [h, h, h]), ((0, 1, 2), [c, c, c]), ((2, 0, 1), [h, s, c]), ((0, 1, 2), [s, e, e]), ((1, 2, 0), [c, c, c]), ((0, 2, 1), [e, h, h])]
    for i, (columns, loc) in enumerate(three):
        for kind, shape, n, sub in [("qudit", 1, 3, False), ("css", (1, 1), 3, None)] + ([("qudit", 2, 3, False), ("css", (1, 2), 3, None)] if thorough else []):
            for deform in (False, True):
                add(f"transversal3-{i}-{kind}-{shape}-{deform}", h_transversal, f"all codes with {shape} checks on {n} qubits, one automorphism", 30, kind=kind, shape=shape, n=n, subsystem=sub, gates=("S", "H", "SWAP"), columns=columns, locals_=loc, deform=deform, keep=bool(i % 3))
    for i, (columns, a, b) in enumerate([((0, 1), h, h), ((1, 0), e, e), ((0, 1), s, e), ((1, 0), c, h), ((0, 1), c, c), ((1, 0), s, s)]):
        for kind, shape, n, sub in [("qudit", 1, 2, False), ("css", (1, 1), 2, None), ("qudit", 2, 2, True)]:
            add(f"transversal-deform-{i}-{kind}-{shape}-{sub}", h_transversal, f"all codes with {shape} checks on {n} qubits, one automorphism", 20, kind=kind, shape=shape, n=n, subsystem=sub, gates=("S", "H", "SWAP"), columns=columns, locals_=[a, b], deform=True)
            add(f"find-{i}-{kind}-{shape}-{sub}", h_find, f"all codes with {shape} checks on {n} qubits, one automorphism", 30, kind=kind, shape=shape, n=n, subsystem=sub, gates=("S", "H", "SWAP"), columns=columns, locals_=[a, b],
                targets=["I 0", "H 0", "S_DAG 0\nX 0", "Y 0", "C_XYZ 0\nZ 0", "SQRT_X_DAG 0", "SQRT_Y 0"])
            if i % 2:
                add(f"find-deform-{i}-{kind}-{shape}-{sub}", h_find, f"all codes with {shape} checks on {n} qubits, one automorphism", 30, kind=kind, shape=shape, n=n, subsystem=sub, gates=("S", "H", "SWAP"), columns=columns, locals_=[a, b],
                    targets=["I 0", "H 0\nZ 0", "S 0", "Y 0"], deform=True)
    for columns, a, b in [((0, 1), (1, 0), (1, 0)), ((1, 0), (1, 0), (0, 1)), ((0, 1), (0, 1), (0, 1))]:
        for gates in (("H", "SWAP"), ("S", "SWAP"), ("SQRT_X", "SWAP")):
            add(f"find-{gates[0]}-{columns}-{a}-{b}", h_find, "all codes with 1 check on 2 qubits, one automorphism", 30, kind="qudit", shape=1, n=2, subsystem=False, gates=gates, columns=columns, locals_=[a, b], targets=["I 0", gates[0] + " 0", "X 0\n" + gates[0] + " 0"])
    return out
