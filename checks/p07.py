"""Tanner graphs and strings represent a code exactly."""
from checks import codegen
from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["check matrices are symbolic up to the stated sizes; networkx is executed as is on the nodes and edges of every path"]
FUNCS = ["codes.common.*.matrix_to_graph", "codes.common.*.graph_to_matrix", "codes.common.QuditCode.get_strings",
         "codes.common.QuditCode.from_strings", "objects.Pauli.*", "objects.QuditOperator.*", "objects.Node.*",
         "codes.quantum.HGPCode.get_graph_product", "codes.quantum.HGPCode.get_product_node_map", "math.op_to_string"]


def same_matrix(ctx, got, rows, q, shape):
    ctx.check(tuple(got.shape) == shape, "shape of the matrix")
    ctx.check(type(got).order == q, "field of the matrix")
    mine = spec.elems(ctx, got, q)
    ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(mine, rows)]), "the same matrix")


def h_classical(ctx, m, n, q):
    H = ctx.field_array("H", (m, n), q)
    C = ctx.q.codes.ClassicalCode
    code = C(H)
    graph = code.graph
    data = [node for node in graph.nodes if node.is_data]
    ctx.check(sorted(x.index for x in data) == list(range(n)), "one data node per bit")
    ctx.check(sorted(x.index for x in graph.nodes if not x.is_data) == list(range(m)), "one check node per check")
    rows = spec.elems(ctx, H, q)
    Node = ctx.q.objects.Node
    for i in range(m):
        for j in range(n):
            edge = graph.has_edge(Node(i, is_data=False), Node(j, is_data=True))
            ctx.check(spec.iff(edge, rows[i][j] != 0), "an edge exactly where the check addresses the bit")
    same_matrix(ctx, C.graph_to_matrix(graph), rows, q, (m, n))


def h_qudit(ctx, m, n, q):
    H = ctx.field_array("H", (m, 2 * n), q)
    Q = ctx.q.codes.QuditCode
    code = Q(H)
    same_matrix(ctx, Q.graph_to_matrix(code.graph), spec.elems(ctx, H, q), q, (m, 2 * n))


def h_css(ctx, mx, mz, n, q):
    code, rx, rz = codegen.css(ctx, mx, mz, n, q, None)
    Q = ctx.q.codes.QuditCode
    same_matrix(ctx, Q.graph_to_matrix(code.graph), codegen.embed(rx, rz, n, q), q, (mx + mz, 2 * n))


def h_strings(ctx, m, n, q):
    H = ctx.field_array("H", (m, 2 * n), q)
    Q = ctx.q.codes.QuditCode
    code = Q(H)
    strings = code.get_strings()
    ctx.check(len(strings) == m and all(len(s.split()) == n for s in strings), "one operator per qudit")
    rows = spec.elems(ctx, H, q)
    if q == 2:
        for i, s in enumerate(strings):
            for j, op in enumerate(s.split()):
                x, z = rows[i][j] != 0, rows[i][n + j] != 0
                want = {"I": (0, 0), "X": (1, 0), "Z": (0, 1), "Y": (1, 1)}.get(op)
                ctx.check(want is not None and spec.all_of([spec.iff(x, want[0]), spec.iff(z, want[1])]), "Pauli letters")
    same_matrix(ctx, Q.from_strings(*strings, field=q).matrix, rows, q, (m, 2 * n))


LETTERS = ["I", "X", "Y", "Z", "", "x", "XX", "-"]


def h_from_strings(ctx, lengths):
    """Letters (valid or not) chosen freely."""
    Q = ctx.q.codes.QuditCode
    checks = [[ctx.choice(f"c{i}_{j}", LETTERS) for j in range(n)] for i, n in enumerate(lengths)]
    checks = [[c for c in check if c] for check in checks]
    bad = any(c not in "IXYZ" for check in checks for c in check) or len({len(c) for c in checks}) > 1
    bad = bad or any(len(c) > 1 for check in checks for c in check)
    ctx.assume(all(checks))
    try:
        code = Q.from_strings(*[" ".join(c) for c in checks])
    except ValueError:
        ctx.check(bad, "only malformed strings are rejected")
        return
    ctx.check(not bad, "malformed strings are rejected")
    n = len(checks[0])
    for i, check in enumerate(checks):
        for j, c in enumerate(check):
            ctx.check(int(code.matrix[i, j]) == int(c in "XY") and int(code.matrix[i, n + j]) == int(c in "ZY"), "letters to bits")


def h_operator(ctx, top):
    """A qudit operator and its string."""
    Op = ctx.q.objects.QuditOperator
    values = list(range(-3, top + 1))
    x, z = ctx.choice("x", values), ctx.choice("z", values)
    op = Op((x, z))
    text = str(op)
    back = Op.from_string(text)
    ctx.check(tuple(int(v) for v in back.value) == (x, z), "string round trip")
    ctx.check(back == op, "equal operators")
    ctx.check(tuple(int(v) for v in (~op).value) == (z, x), "Fourier transform swaps X and Z")
    ctx.check(tuple(int(v) for v in (-op).value) == (-x, -z), "inverse")


PIECES = ["X(1)", "Z(2)", "Y(1)", "I", "X", "X()", "W(1)", "X(1", "X1)", "X(a)", "*", ""]


def h_bad_operator(ctx, count):
    """Assembled strings are parsed into the operator they spell or rejected."""
    Op = ctx.q.objects.QuditOperator
    pieces = [ctx.choice(f"p{i}", PIECES) for i in range(count)]
    text = "*".join(pieces)
    ctx.assume(text != "" and all(pieces))
    good = {"X(1)": (1, 0), "Z(2)": (0, 2), "Y(1)": (1, 1)}
    if pieces == ["I"]:
        want = (0, 0)
    elif all(p in good for p in pieces) and (count == 1 or sorted(p[0] for p in pieces) == ["X", "Z"]):
        want = tuple(sum(v) for v in zip(*[good[p] for p in pieces]))
    else:
        want = None
    try:
        got = Op.from_string(text).value
    except ValueError:
        ctx.check(want is None, "well-formed operators are accepted")
        return
    ctx.check(want is not None, "malformed operators are rejected")
    if want is not None:
        ctx.check(tuple(got) == want, "the operator that was spelled")


def h_pauli(ctx):
    Pauli = ctx.q.objects.Pauli
    values = [ctx.choice(k, [0, 1]) for k in ("ax", "az", "bx", "bz")]
    a, b = Pauli(tuple(values[:2])), Pauli(tuple(values[2:]))
    ctx.check((a * b).value == (values[0] ^ values[2], values[1] ^ values[3]), "product of Pauli operators")
    ctx.check((~a).value == (values[1], values[0]), "Hadamard transform")
    ctx.check(Pauli.from_string(str(a)) is a, "string round trip")
    ctx.check(str(a) == {(0, 0): "I", (1, 0): "X", (0, 1): "Z", (1, 1): "Y"}[a.value], "letter")


def h_op_string(ctx, n):
    op = ctx.array("op", 2 * n)
    text = str(ctx.q.math.op_to_string(op))
    ctx.check(len(text) == n + 1 and text[0] == "+", "one letter per qubit, positive sign")
    for j, c in enumerate(text[1:]):
        ctx.check(spec.all_of([spec.iff(op[j] == 1, c in "XY"), spec.iff(op[n + j] == 1, c in "ZY")]), "letters of the Pauli string")


def h_graph_product(ctx, a, b, q):
    A, B = ctx.field_array("A", a, q), ctx.field_array("B", b, q)
    codes = ctx.q.codes
    ca, cb = codes.ClassicalCode(A), codes.ClassicalCode(B)
    graph = codes.HGPCode.get_graph_product(ca.graph, cb.graph)
    code = codes.HGPCode(A, B)
    want = spec.elems(ctx, code.matrix, q)
    same_matrix(ctx, codes.QuditCode.graph_to_matrix(graph), want, q, (len(want), 2 * len(code)))


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240,
                        max_paths=70000 if thorough else 6000, **params))

    for m, n, q in [(1, 1, 2), (2, 2, 2), (2, 3, 2), (3, 2, 2), (2, 2, 3), (2, 3, 3), (1, 3, 4), (2, 2, 4), (1, 2, 5)] + ([(3, 3, 2), (3, 4, 2), (2, 3, 4)] if thorough else []):
        add(f"classical-{m}x{n}-q{q}", h_classical, f"all {m}x{n} matrices over GF({q})", 2**(m * n), m=m, n=n, q=q)
    for m, n, q in [(1, 1, 2), (1, 2, 2), (2, 1, 2), (2, 2, 2), (1, 3, 2), (1, 2, 3), (2, 1, 3), (1, 2, 4), (1, 1, 5)] + ([(2, 3, 2), (3, 2, 2), (2, 2, 3)] if thorough else []):
        add(f"qudit-{m}x{n}-q{q}", h_qudit, f"all {m}x{2 * n} matrices over GF({q})", 2**(2 * m * n), m=m, n=n, q=q)
        if m * n <= 4 and q ** (2 * m * n) < 300 or thorough and q ** (2 * m * n) < 5000:
            add(f"strings-{m}x{n}-q{q}", h_strings, f"all {m}x{2 * n} matrices over GF({q})", q**(2 * m * n), m=m, n=n, q=q)
    for mx, mz, n, q in [(1, 1, 2, 2), (2, 1, 2, 2), (1, 2, 2, 2), (1, 1, 3, 2), (1, 1, 2, 3)]:
        add(f"css-{mx}+{mz}x{n}-q{q}", h_css, f"all CSS codes with {mx}+{mz} checks on {n} qudits over GF({q})", 50, mx=mx, mz=mz, n=n, q=q)
    add("from_strings", h_from_strings, "all strings of 2+2 letters from a pool of valid and invalid ones", 50, lengths=(2, 1))
    add("operator", h_operator, "all operators X(x)Z(z) with x, z in -3..12", 50, top=12)
    add("operator-text-1", h_bad_operator, "one factor from a pool of valid and malformed ones", count=1)
    add("operator-text-2", h_bad_operator, "two factors from a pool of valid and malformed ones", 10, count=2)
    add("pauli", h_pauli, "all pairs of Pauli operators")
    for n in (1, 2, 3):
        add(f"op_to_string-{n}", h_op_string, f"all Pauli strings on {n} qubits", 4**n, n=n)
    for a, b, q in [((1, 1), (1, 2), 2), ((1, 2), (1, 2), 2), ((2, 2), (1, 2), 2), ((1, 2), (1, 2), 3), ((1, 1), (1, 2), 4), ((2, 1), (1, 2), 3)] + ([((2, 2), (2, 2), 2), ((2, 2), (1, 2), 3)] if thorough else []):
        add(f"hgp-graph-{a[0]}x{a[1]}-{b[0]}x{b[1]}-q{q}", h_graph_product, f"all {a} and {b} matrices over GF({q})", 40, a=a, b=b, q=q)
    return out
