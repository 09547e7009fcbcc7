"""Codes, groups, rings: equality, copies, counts and descriptions; incompatible objects are not combined."""
from checks import codegen
from checks.p17 import group_of, members
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = []
FUNCS = ["codes.common.*.__eq__", "codes.common.*.__init__", "codes.common.*.get_weight", "codes.common.*.__len__", "codes.common.*.num_*", "codes.common.*.rank", "codes.common.*.field*",
         "codes.common.*.__str__", "codes.common.*.name", "codes.common.*.is_subsystem_code", "codes.quantum.QTCode.__eq__", "codes.quantum.BBCode.__str__", "abstract.Group.__eq__", "abstract.Group.__hash__", "abstract.GroupRing.__eq__", "abstract.GroupRing.__hash__",
         "abstract.GroupRing.name", "abstract.GroupRing.is_abelian", "abstract.RingArray.__array_*", "abstract.RingArray.__new__", "abstract.RingMember.__eq__", "objects.Node.*", "objects.ChainComplex.__init__"]


def build(ctx, kind, shape, n, q, tag):
    """(code, the rows of all its parity check matrices, the family it is compared in)."""
    C = ctx.q.codes
    if kind in ("classical", "classical family"):
        H = ctx.field_array(tag, (shape, n), q)
        cls = C.ClassicalCode if kind == "classical" else type("Family", (C.ClassicalCode,), {})
        return cls(H), [spec.elems(ctx, H, q)], "classical"
    if kind == "qudit":
        H = ctx.field_array(tag, (shape, 2 * n), q)
        return C.QuditCode(H), [spec.elems(ctx, H, q)], "qudit"
    hx, hz = ctx.field_array(tag + "x", (shape[0], n), q), ctx.field_array(tag + "z", (shape[1], n), q)
    cls = C.CSSCode if kind == "css" else type("Family", (C.CSSCode,), {})
    return cls(hx, hz), [spec.elems(ctx, hx, q), spec.elems(ctx, hz, q)], "css"


def equal_rows(a, b):
    if len(a) != len(b) or any(len(x) != len(y) or any(len(r) != len(s) for r, s in zip(x, y)) for x, y in zip(a, b)):
        return False
    return spec.all_of([spec.same(r, s) for x, y in zip(a, b) for r, s in zip(x, y)])


def h_equal(ctx, first, second):
    a, rows_a, family_a = build(ctx, *first, "a")
    b, rows_b, family_b = build(ctx, *second, "b")
    forward, backward = bool(a == b), bool(b == a)
    ctx.check(forward == backward, "equality is symmetric")
    ctx.check(forward != bool(a != b), "inequality is the opposite of equality")
    ctx.check(bool(a == a) and not bool(a == 5) and not bool(a == "code") and bool(a != None), "codes equal themselves, and nothing that is not a code")  # noqa: E711
    if family_a == family_b:
        want = first[3] == second[3] and equal_rows(rows_a, rows_b)
        ctx.check(spec.iff(forward, want), "codes are equal exactly if their fields and parity checks are")


def h_copy(ctx, kind, shape, n, q, derived):
    code, rows, _ = build(ctx, kind, shape, n, q, "a")
    C = ctx.q.codes
    cls = C.ClassicalCode if kind.startswith("classical") else C.QuditCode
    if derived:
        facts = [code.dimension]
        facts.append(spec.elems(ctx, code.generator if cls is C.ClassicalCode else code.get_logical_ops(), q))
    copy = cls(code)
    ctx.check(equal_rows([spec.elems(ctx, copy.matrix, q)], [spec.elems(ctx, code.matrix, q)]) and copy.field is code.field and len(copy) == n, "copies have the same checks")
    mine = spec.elems(ctx, copy.generator if cls is C.ClassicalCode else copy.get_logical_ops(), q)
    if derived:
        ctx.check(copy.dimension == facts[0] and equal_rows([mine], [facts[1]]), "copies know what the original knows")
    elif cls is C.ClassicalCode:
        ctx.check(spec.all_zero([spec.matvec(rows[0], w, q) for w in mine]), "words of the copy are words of the code")
    if cls is C.QuditCode:
        ctx.check(copy.is_subsystem_code == code.is_subsystem_code, "copies are of the same type")
    same = cls(code, q)
    ctx.check(same.field is code.field, "the field can be repeated")
    for other in (2, 3, 4, 5):
        if other != q:
            ctx.check_raises(ValueError, lambda: cls(code, other), "a code cannot be copied to another field")


def h_counts(ctx, kind, shape, n, q):
    code, rows, family = build(ctx, kind, shape, n, q, "a")
    ctx.check(len(code) == n, "length")
    if family == "classical":
        flat, weight = rows[0], spec.weight
        ctx.check(code.num_bits == n, "number of bits")
    else:
        flat = rows[0] if family == "qudit" else codegen.embed(*rows, n, q)
        weight = spec.symplectic_weight
        ctx.check(code.num_qudits == n, "number of qudits")
        if q == 2:
            ctx.check(code.num_qubits == n, "number of qubits")
        else:
            ctx.check_raises(ValueError, lambda: code.num_qubits, "qudits are not qubits")
        commute = spec.all_of([spec.symplectic(a, b, q) == 0 for i, a in enumerate(flat) for b in flat[:i]])
        ctx.check(spec.iff(code.is_subsystem_code, spec.not_(commute)), "stabilizer codes are those with commuting checks")
    ctx.check(code.num_checks == len(flat), "number of checks")
    if family == "css":
        ctx.check((code.num_checks_x, code.num_checks_z) == tuple(shape), "numbers of checks of each type")
    top = code.get_weight()
    ctx.check(spec.all_of([top >= weight(r) for r in flat] + [spec.any_of([top == weight(r) for r in flat]) if flat else top == 0]), "weight of the heaviest check")
    ctx.check(spec.rank_is(flat, code.rank, q, n if family == "classical" else 2 * n), "rank")
    ctx.check(equal_rows([spec.elems(ctx, code.matrix, q)], [flat]) and type(code.matrix).order == q and code.field.order == q, "parity check matrix and field")


def h_field(ctx, n):
    """The field is the one of the array, the one that was asked for, or GF(2)."""
    C = ctx.q.codes
    values = ctx.array("values", (1, n), 0, 1)
    q = ctx.choice("q", [2, 3, 4, 5, 7, 8, 9])
    names = {2: "GF(2)", 3: "GF(3)", 4: "GF(2^2)", 5: "GF(5)", 7: "GF(7)", 8: "GF(2^3)", 9: "GF(3^2)"}
    lists = [[values[0, i] for i in range(n)]]
    for given in (values, lists):
        for code in [C.ClassicalCode(given, q), C.CSSCode(given, given, q), C.CSSCode(C.ClassicalCode(given, q), given, q), C.QuditCode(ctx.np.array([lists[0] + lists[0]]), q)]:
            ctx.check(code.field.order == q and code.field_name == names[q] and type(code.matrix).order == q, "the field that was asked for")
        ctx.check(C.ClassicalCode(given).field.order == 2 and C.CSSCode(given, given).field.order == 2, "the default field")
    ctx.check(equal_rows([spec.elems(ctx, C.ClassicalCode(lists, q).matrix, q)], [spec.elems(ctx, values, q)]), "numbers are elements of the field")


def h_qt(ctx, group, subsets, shapes, q):
    """Quantum Tanner codes are equal exactly if their generating data are."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    codes = []
    for tag in "ab":
        i, j = ctx.choice(f"i{tag}", list(range(len(subsets)))), ctx.choice(f"j{tag}", list(range(len(subsets))))
        bipartite = bool(ctx.choice(f"k{tag}", [0, 1]))
        sa, sb = [elements[x] for x in subsets[i]], [elements[x] for x in subsets[j]]
        A, B = ctx.field_array(f"A{tag}", (shapes[0], len(sa)), q), ctx.field_array(f"B{tag}", (shapes[1], len(sb)), q)
        try:
            codes.append((ctx.q.codes.QTCode(sa, sb, A, B, bipartite=bipartite), (frozenset(sa), frozenset(sb), bipartite), [spec.elems(ctx, A, q), spec.elems(ctx, B, q)]))
        except ValueError:
            ctx.assume(False)
    (a, data_a, rows_a), (b, data_b, rows_b) = codes
    ctx.check(spec.iff(bool(a == b), data_a == data_b and equal_rows(rows_a, rows_b)), "equal exactly if subsets, seed codes and type are")
    ctx.check(bool(a == b) == bool(b == a) and bool(a == a) and not bool(a == ctx.q.codes.CSSCode(a.matrix_x, a.matrix_z)), "symmetric, reflexive, and different from other codes")


GROUPS = ["C:1", "C:2", "C:3", "C:4", "C:6", "A:2:2", "A:2:3", "A:3:2", "S:3", "D:3", "D:2", "D:4", "Q", "table", "mats", "product"]


def make_group(A, name):
    if name == "table":
        return A.Group.from_table([[0, 1, 2], [1, 2, 0], [2, 0, 1]])
    if name == "mats":
        return A.Group.from_generating_mats([[0, 1], [1, 0]])
    if name == "product":
        return A.CyclicGroup(2) * A.CyclicGroup(3)
    if name == "T":
        return A.TrivialGroup()
    return group_of(A, name)


def h_groups(ctx, q):
    """Groups with the same generators are equal and can be exchanged, and groups with different members are not."""
    A, np = ctx.q.abstract, ctx.np
    first, second = ctx.choice("first", GROUPS), ctx.choice("second", GROUPS)
    qb = ctx.choice("qb", [q, 5])
    g, h = make_group(A, first), make_group(A, second)
    lists = [sorted(tuple(int(i) for i in x.array_form) for x in G.generate()) for G in (g, h)]
    written = [[tuple(int(i) for i in x.array_form) for x in G.generators] for G in (g, h)]
    same = bool(g == h)
    ctx.check(same or (first != second and written[0] != written[1]), "groups with the same generators are equal")
    ctx.check(not same or lists[0] == lists[1], "equal groups have the same members")
    ctx.check((h == g) == same and (g != h) != same, "equality of groups is symmetric")
    if same:
        ctx.check(hash(g) == hash(h), "equal groups have equal hashes")
    R, S = A.GroupRing(g, q), A.GroupRing(h, qb)
    ctx.check((R == S) == (same and qb == q), "group algebras are equal exactly if their groups and fields are")
    ctx.check(R.is_abelian == all(x * y == y * x for x in g.generate() for y in g.generate()) and str(q) in R.name and str(R) == R.name, "type of the group algebra")
    if R == S:
        ctx.check(hash(R) == hash(S), "equal group algebras have equal hashes")
    x = [A.RingArray([[A.RingMember(ring, (c, m)) for m in list(ring.group.generate())[:2]]]) for ring, c in ((R, ctx.integer("c", 0, q - 1)), (S, ctx.integer("d", 0, q - 1)))]
    combine = [lambda: A.RingArray([[x[0][0, 0], x[1][0, 0]]]), lambda: np.vstack([x[0][:, :1], x[1][:, :1]]), lambda: x[0][:, :1] + x[1][:, :1], lambda: x[0][:, :1] @ x[1][:, :1],
               lambda: np.kron(x[0][:, :1], x[1][:, :1])]
    for k, action in enumerate(combine):
        if R == S:
            ctx.check(action().ring == R, f"arrays over equal rings are combined [{k}]")
        else:
            ctx.check_raises(ValueError, action, f"arrays over different rings are not combined [{k}]")
    for k, action in enumerate([lambda: x[0][0, 0] + x[1][0, 0], lambda: x[0][0, 0] * x[1][0, 0], lambda: x[0][0, 0] - x[1][0, 0]]):
        if R == S:
            ctx.check(action().ring == R, f"elements of equal algebras are combined [{k}]")
        else:
            ctx.check_raises(ValueError, action, f"elements of different algebras are not combined [{k}]")
    for name in ("LPCode", "SLPCode"):
        action = lambda: getattr(ctx.q.codes, name)(x[0], x[1])
        if R == S and first == "Q":
            continue  # the quaternion group is lifted to matrices over GF(3)
        if R == S:
            ctx.check(action().field is R.field, f"a code is a product over the ring of its seeds [{name}]")
        else:
            ctx.check_raises(ValueError, action, f"seeds over different rings have no product [{name}]")


def h_incompatible(ctx):
    """Objects of different sizes or fields are not combined."""
    C, G = ctx.q.codes, ctx.galois.GF
    qa, qb = ctx.choice("qa", [2, 3, 4]), ctx.choice("qb", [2, 3, 4])
    na, nb = ctx.choice("na", [2, 3]), ctx.choice("nb", [2, 3])
    va, vb = ctx.field_array("va", (1, na), qa), ctx.field_array("vb", (1, nb), qb)
    a, b = C.ClassicalCode(va), C.ClassicalCode(vb)
    actions = {"css": (lambda: C.CSSCode(a, b), qa == qb and na == nb), "css arrays": (lambda: C.CSSCode(va, vb), qa == qb and na == nb),
               "tensor": (lambda: C.ClassicalCode.tensor_product(a, b), qa == qb), "stack": (lambda: C.ClassicalCode.stack(a, b), qa == qb)}
    ca, cb = C.CSSCode(va, G(qa).Zeros((1, na))), C.CSSCode(vb, G(qb).Zeros((1, nb)))
    actions["stack css"] = (lambda: C.CSSCode.stack(ca, cb), qa == qb)
    actions["stack qudit"] = (lambda: C.QuditCode.stack(C.QuditCode(ca.matrix), C.QuditCode(cb.matrix)), qa == qb)
    actions["hgp"] = (lambda: C.HGPCode(a, b), qa == qb)
    actions["hgp arrays"] = (lambda: C.HGPCode(va, vb), qa == qb)
    actions["shp"] = (lambda: C.SHPCode(a, b), qa == qb)
    actions["concatenate"] = (lambda: C.QuditCode.concatenate(C.QuditCode(G(qa)([[0, 0, 1, 1]])), C.QuditCode(G(qb)([[0, 0, 1, 1]]))), qa == qb)
    actions["chain"] = (lambda: ctx.q.objects.ChainComplex.tensor_product(ctx.q.objects.ChainComplex(va), ctx.q.objects.ChainComplex(vb)), qa == qb)
    for label, (action, fine) in actions.items():
        if fine:
            ctx.check(action() is not None, f"compatible objects are combined [{label}]")
        else:
            ctx.check_raises(ValueError, action, f"incompatible objects are not combined [{label}]")
    ctx.check_raises(TypeError, lambda: C.CSSCode.stack(ca, C.QuditCode(ca.matrix)), "CSS codes are stacked with CSS codes only")


def h_describe(ctx):
    """Descriptions contain the name, the length, the field and all checks."""
    C, G = ctx.q.codes, ctx.galois.GF
    q = ctx.choice("q", [2, 3, 4])
    name = {2: "GF(2)", 3: "GF(3)", 4: "GF(2^2)"}[q]
    A, B = G(q)([[1, 0, 1]]), G(q)([[0, 1, 0], [1, 1, 1]])
    for code, mats, title, unit in [(C.ClassicalCode(B), [B], "ClassicalCode", "bits"), (C.CSSCode(A, B), [A, B], "CSSCode", "qubits"), (C.QuditCode(C.CSSCode(A, B).matrix), [C.CSSCode(A, B).matrix], "QuditCode", "qubits"),
                                   (C.RepetitionCode(3, q), [C.RepetitionCode(3, q).matrix], "RepetitionCode", "bits")]:
        text = str(code)
        ctx.check(code.name == title and title in text and "3" in text and code.field_name == name, "name and length")
        ctx.check(unit in text if q == 2 else name in text, "type of symbols")
        for M in mats:
            ctx.check(all(str(row).strip("[]") in text for row in ctx.np.asarray(M)), "all checks")


def h_elements(ctx, group, q, na, nb):
    """Elements of group algebras, written as any sums of terms, are equal exactly if their coefficients are."""
    A = ctx.q.abstract
    G = group_of(A, group)
    ring, elements = A.GroupRing(G, q), members(G)
    zero = V.field_info(q).consts[0]
    out = []
    for tag, count in (("a", na), ("b", nb)):
        values, places = ctx.field_array(tag, (count,), q), [ctx.choice(f"{tag}{k}", list(range(len(elements)))) for k in range(count)]
        ref = [zero] * len(elements)
        for c, i in zip(spec.vec(ctx, values, q), places):
            ref[i] = ref[i] + c
        out.append((A.RingMember(ring, *[(values[k], elements[i]) for k, i in enumerate(places)]), ref))
    (a, ra), (b, rb) = out
    same = spec.same(ra, rb)
    ctx.check(spec.all_of([spec.iff(bool(a == b), same), spec.iff(bool(b == a), same), spec.iff(bool(a != b), spec.not_(same))]), "equal exactly if all coefficients agree")
    ctx.check(spec.iff(bool(a), spec.not_(spec.is_zero(ra))), "only zero is false")
    ctx.check(bool(a == a) and bool(a == a.copy()) and bool(A.RingArray([[a]]) == A.RingArray([[a]])), "elements equal themselves and their copies")
    other = A.RingMember(A.GroupRing(G, 5 if q != 5 else 3), *[x for x in elements[:1]])
    ctx.check(not bool(a == other) and not bool(a == 1) and not bool(a == elements[0]) and not bool(A.RingMember(A.GroupRing(G, 5)) == ring.zero), "elements of different algebras differ")


def h_nodes(ctx, top):
    """Nodes are ordered like (kind, index), data first; equal nodes have equal hashes."""
    Node = ctx.q.objects.Node
    spots = [(ctx.choice(f"i{k}", list(range(top))), bool(ctx.choice(f"d{k}", [0, 1]))) for k in range(2)]
    a, b = (Node(index=i, is_data=d) for i, d in spots)
    key = [(not d, i) for i, d in spots]
    ctx.check((a == b) == (spots[0] == spots[1]) and (a < b) == (key[0] < key[1]), "order and equality of nodes")
    ctx.check((hash(a) == hash(b)) or spots[0] != spots[1], "equal nodes have equal hashes")
    ctx.check((str(a) == str(b)) == (a == b) and str(a) == ("d" if spots[0][1] else "c") + f"_{spots[0][0]}", "names of nodes")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240, max_paths=70000 if thorough else 6000, **params))

    pairs = [(("classical", m, n, q), ("classical", k, p, r)) for m, n, q, k, p, r in [(2, 3, 2, 2, 3, 2), (1, 2, 2, 1, 2, 3), (2, 2, 3, 2, 2, 3), (1, 2, 4, 1, 2, 4), (1, 2, 2, 2, 2, 2), (1, 2, 2, 1, 3, 2), (0, 2, 2, 0, 2, 2), (1, 2, 4, 1, 2, 2)]]
    pairs += [(("classical", 2, 2, 2), ("classical family", 2, 2, 2)), (("qudit", 2, 2, 2), ("qudit", 2, 2, 2)), (("qudit", 1, 2, 3), ("qudit", 1, 2, 3)), (("qudit", 1, 2, 2), ("qudit", 1, 2, 3)),
              (("css", (1, 1), 2, 2), ("css", (1, 1), 2, 2)), (("css", (1, 2), 2, 2), ("css", (2, 1), 2, 2)), (("css", (1, 1), 2, 3), ("css", (1, 1), 2, 3)), (("css", (1, 1), 2, 2), ("css", (1, 1), 2, 4)),
              (("css", (1, 1), 2, 2), ("css family", (1, 1), 2, 2)), (("css family", (1, 1), 2, 3), ("css", (1, 1), 2, 3)), (("css", (1, 1), 1, 2), ("qudit", 2, 1, 2)), (("classical", 1, 2, 2), ("qudit", 1, 1, 2)),
              (("classical", 1, 2, 2), ("css", (1, 1), 2, 2))]
    for first, second in pairs:
        add(f"equal-{first}-{second}", h_equal, f"all codes {first} and {second}", 10, first=first, second=second)
    for kind, shape, n, q, derived in [("classical", 1, 3, 2, False), ("classical", 1, 3, 2, True), ("classical", 2, 2, 3, True), ("classical", 1, 2, 4, False), ("qudit", 1, 2, 2, False), ("qudit", 1, 2, 2, True), ("qudit", 1, 1, 3, True),
                                       ("css", (1, 1), 2, 2, True), ("css", (1, 1), 2, 3, True)]:
        add(f"copy-{kind}-{shape}x{n}-q{q}-{derived}", h_copy, f"all {kind} codes with {shape} checks on {n} symbols over GF({q})", 10, kind=kind, shape=shape, n=n, q=q, derived=derived)
    for kind, shape, n, q in [("classical", 2, 3, 2), ("classical", 2, 3, 3), ("classical", 1, 3, 4), ("classical", 0, 2, 2), ("qudit", 2, 2, 2), ("qudit", 1, 3, 3), ("qudit", 0, 2, 2), ("qudit", 2, 1, 4), ("qudit", 1, 2, 5),
                              ("css", (1, 1), 3, 2), ("css", (2, 1), 2, 2), ("css", (1, 0), 2, 2), ("css", (0, 1), 2, 3), ("css", (0, 0), 2, 2), ("css", (1, 1), 2, 3), ("css", (1, 1), 2, 4)] + ([("classical", 3, 2, 5), ("classical", 3, 4, 2), ("qudit", 3, 2, 2), ("css", (2, 2), 3, 2)] if thorough else []):
        add(f"counts-{kind}-{shape}x{n}-q{q}", h_counts, f"all {kind} codes with {shape} checks on {n} symbols over GF({q})", 10, kind=kind, shape=shape, n=n, q=q)
    add("field", h_field, "all binary check vectors of length 2, seven fields", 10, n=2)
    for group, subsets, shapes, q in [("C:3", [[1, 2]], (1, 1), 2), ("C:5", [[1, 4], [2, 3]], (0, 1), 2), ("C:4", [[1, 3], [2, 1, 3]], (1, 0), 2), ("C:3", [[1, 2]], (1, 1), 3)]:
        add(f"tanner-{group}-{len(subsets)}-{shapes}-q{q}", h_qt, f"all pairs of quantum Tanner codes on {group} with the subsets {subsets}", 30, group=group, subsets=subsets, shapes=shapes, q=q)
    for q in (2, 3, 4):
        add(f"groups-q{q}", h_groups, f"all pairs of {len(GROUPS)} groups, all coefficients in GF({q})", 60, q=q)
    add("incompatible", h_incompatible, "all check vectors of length 2 and 3 over three fields", 20)
    add("describe", h_describe, "three fields", 1)
    for group, q, na, nb in [("C:3", 2, 1, 2), ("C:3", 2, 2, 1), ("C:3", 3, 0, 2), ("C:2", 4, 1, 2), ("A:2:2", 2, 2, 2), ("S:3", 2, 1, 1), ("C:3", 3, 2, 0)]:
        add(f"elements-{group}-{q}-{na}-{nb}", h_elements, f"all pairs of sums of {na} and {nb} terms over GF({q})", 20, group=group, q=q, na=na, nb=nb)
    add("nodes", h_nodes, "all pairs of nodes with indices below 4", 5, top=4)
    return out
