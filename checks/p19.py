"""Quasi-cyclic codes: matrices from polynomials, layouts of bivariate bicycle codes."""
import itertools
import math

from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["supports of polynomials are fixed per case (or chosen from the stated ranges), their nonzero coefficients are symbolic; sympy rewrites polynomials with named placeholders for coefficients",
               "coefficients are numbers 1 to q - 1"]
FUNCS = ["codes.quantum.QCCode.*", "codes.quantum.BBCode.*", "codes.quantum.TBCode.__init__", "abstract.AbelianGroup.*", "abstract.RingMember.*"]


def letters(count):
    import sympy
    return sympy.symbols("x y z w")[:count]


def coefficient(ctx, value):
    """A sympy number standing for a possibly symbolic coefficient."""
    import sympy
    return sympy.Integer(int(V.token(value))) if ctx.symbolic and isinstance(value, V.SymInt) else sympy.Integer(int(value))


def polynomial(ctx, name, terms, symbols, q, fixed=False):
    """sympy expression and {exponents: coefficient}."""
    import sympy
    values = [1] * len(terms) if fixed or q == 2 else ctx.ints(name, len(terms), 1, q - 1)
    expr = sympy.Integer(0)
    table = {}
    for exps, value in zip(terms, values):
        term = coefficient(ctx, value)
        for s, e in zip(symbols, exps):
            term *= s**e
        expr += term
        table[tuple(exps)] = value
    return expr, table


def reduced(table, orders, q):
    """Coefficients by group element, as field elements (terms may coincide modulo the orders)."""
    info = V.field_info(q)
    out = {}
    for exps, value in table.items():
        key = tuple(e % o for e, o in zip(exps, orders))
        out[key] = out.get(key, info.consts[0]) + V.int_to_field(info, value)
    return out


def elements(orders):
    return list(itertools.product(*[range(o) for o in orders]))


def shift(a, b, orders, sign=1):
    return tuple((x + sign * y) % o for x, y, o in zip(a, b, orders))


def judge_matrices(ctx, code, orders, ta, tb, q):
    """Check (X, g) touches (L, g + i) with A_i and (R, g + i) with B_i; check (Z, g) touches (R, g - i) with -A_i and (L, g - i) with B_i."""
    info = V.field_info(q)
    zero = info.consts[0]
    group = elements(orders)
    size = len(group)
    index = {g: i for i, g in enumerate(group)}
    hx, hz = spec.elems(ctx, code.matrix_x, q), spec.elems(ctx, code.matrix_z, q)
    ctx.check(len(code) == 2 * size and len(hx) == size and len(hz) == size and code.field.order == q, "sizes and field")
    a, b = reduced(ta, orders, q), reduced(tb, orders, q)
    good = []
    for g in group:
        want_x, want_z = [zero] * (2 * size), [zero] * (2 * size)
        for i, value in a.items():
            want_x[index[shift(g, i, orders)]] = value
            want_z[size + index[shift(g, i, orders, -1)]] = -value
        for i, value in b.items():
            want_x[size + index[shift(g, i, orders)]] = value
            want_z[index[shift(g, i, orders, -1)]] = value
        good += [spec.same(hx[index[g]], want_x), spec.same(hz[index[g]], want_z)]
    ctx.check(spec.all_of(good), "checks address the qudits that the polynomials say")
    ctx.check(spec.all_zero(spec.matmul(hx, spec.transpose(hz), q)), "X-type and Z-type checks commute")


def h_code(ctx, kind, orders, terms_a, terms_b, q, named=None):
    symbols = letters(len(terms_a[0]))
    pa, ta = polynomial(ctx, "a", terms_a, symbols, q)
    pb, tb = polynomial(ctx, "b", terms_b, symbols, q)
    argument = {symbols[i]: orders[i] for i in named} if named is not None else orders
    code = getattr(ctx.q.codes, kind)(argument, pa, pb, *(() if q == 2 else (q,)))
    if named is not None:
        # the order of the dictionary is the order of the axes
        orders = [orders[i] for i in named]
        ta, tb = [{tuple(k[i] for i in named): v for k, v in t.items()} for t in (ta, tb)]
    ctx.check(tuple(code.orders) == tuple(orders), "orders are kept")
    full = len(orders)
    ta, tb = [{k + (0,) * (full - len(k)): v for k, v in t.items()} for t in (ta, tb)]
    judge_matrices(ctx, code, orders, ta, tb, q)


def h_exponents(ctx, orders, low, high):
    """Arbitrary exponents, also negative ones and ones that exceed the orders."""
    symbols = letters(2)
    e = ctx.ints("e", 4, low, high)
    e = [int(x) for x in e]
    import sympy
    pa = symbols[0] ** 1 + symbols[0] ** e[0] * symbols[1] ** e[1]
    pb = symbols[1] ** 1 + symbols[0] ** e[2] * symbols[1] ** e[3]
    ctx.assume({s for s in pa.free_symbols | pb.free_symbols} == set(symbols) and all(isinstance(p, sympy.Add) for p in (pa, pb)))
    ctx.assume((e[0] % orders[0], e[1] % orders[1]) != (1 % orders[0], 0) and (e[2] % orders[0], e[3] % orders[1]) != (0, 1 % orders[1]))
    code = ctx.q.codes.BBCode(orders, pa, pb)
    judge_matrices(ctx, code, orders, add_terms([(1, 0), (e[0], e[1])]), add_terms([(0, 1), (e[2], e[3])]), 2)
    for poly, terms in [(pa, [(1, 0), (e[0], e[1])]), (pb, [(0, 1), (e[2], e[3])])]:
        judge_canonical(ctx, code, poly, add_terms(terms), orders, 2, symbols)


def add_terms(terms):
    out = {}
    for t in terms:
        out[t] = out.get(t, 0) + 1
    return out


def judge_canonical(ctx, code, poly, table, orders, q, symbols, *args):
    new = code.get_canonical_form(poly, *args)
    import sympy
    got = {}
    ok = True
    expr = new.as_expr() if hasattr(new, "as_expr") else new
    for term in sympy.Add.make_args(sympy.expand(expr)):
        coeff, exps = parse(ctx, term, symbols)
        ok &= all(-o / 2 < e <= o / 2 for e, o in zip(exps, orders))
        got[exps] = coeff
    ctx.check(ok, "exponents lie between minus and plus half the orders")
    mine, want = reduced(got, orders, q), reduced(table, orders, q)
    zero = V.field_info(q).consts[0]
    ctx.check(spec.all_of([spec.same([mine.get(k, zero)], [want.get(k, zero)]) for k in elements(orders)]), "the canonical form is the same polynomial modulo the orders")


def parse(ctx, term, symbols):
    coeff, monomial = term.as_coeff_Mul()
    powers = monomial.as_powers_dict()
    exps = tuple(int(powers.get(s, 0)) for s in symbols)
    return untoken(ctx, coeff), exps


def untoken(ctx, number):
    return V.untoken(str(number)) if ctx.symbolic else int(number)


def h_canonical(ctx, orders, terms, q, other=None, as_poly=False):
    symbols = letters(len(orders))
    poly, table = polynomial(ctx, "a", terms, symbols, q)
    base = sum(symbols, 1)
    code = ctx.q.codes.QCCode(orders, base, base, *(() if q == 2 else (q,)))
    import sympy
    argument = poly if not as_poly else sympy.Poly(poly) if poly.free_symbols else sympy.Poly(poly, *symbols)
    judge_canonical(ctx, code, argument, table, other or orders, q, symbols, *([other] if other else []))
    # evaluation in the group algebra
    element = code.eval(argument)
    want = reduced(table, orders, q)
    info = V.field_info(q)
    zero = info.consts[0]
    got = {}
    for coeff, member in element:
        for g in elements(orders):
            power = code.group.identity
            for s, e in zip(code.symbols, g):
                power = power * code.symbol_gens[s] ** e
            if power == member:
                got[g] = got.get(g, zero) + V.int_to_field(info, coeff)
    ctx.check(spec.all_of([spec.same([got.get(k, zero)], [want.get(k, zero)]) for k in elements(orders)]), "polynomials are evaluated in the group algebra")


# ---------------------------------------------------------------- layouts
def any_bb(ctx, orders, q=2):
    x, y = letters(2)
    return ctx.q.codes.BBCode({x: orders[0], y: orders[1]}, 1 + x, 1 + y, *(() if q == 2 else (q,)))


def h_labels(ctx, orders, count):
    """Labels and positions of one qubit, or of a pair of qubits."""
    code = any_bb(ctx, orders)
    rx, ry = orders
    total = 2 * rx * ry
    kinds = [bool(ctx.boolean(f"data{i}")) for i in range(count)]
    indices = ctx.ints("index", count, 0, total - 1)
    nodes = [ctx.q.objects.Node(i, is_data=k) for i, k in zip(indices, kinds)]
    labels = [code.get_node_label(node) for node in nodes]
    for (s, a, b), i, k in zip(labels, indices, kinds):
        ctx.check(s in (("L", "R") if k else ("X", "Z")), "sectors of data and check qubits")
        half = 1 if s in ("R", "Z") else 0
        ctx.check(spec.all_of([0 <= a, a < rx, 0 <= b, b < ry, i == (half * rx + a) * ry + b]), "labels are unraveled indices")
    for folded in (False, True):
        places = [code.get_qubit_pos(label, folded) for label in labels]
        for node, p, (s, a, b) in zip(nodes, places, labels):
            ctx.check(spec.all_of([0 <= p[0], p[0] < 2 * rx, 0 <= p[1], p[1] < 2 * ry]), "positions lie in the array")
            if count == 1:
                r = code.get_qubit_pos(node, folded)
                ctx.check(spec.all_of([p[0] == r[0], p[1] == r[1]]), "nodes and labels have the same position")
            if not folded:
                # plaquettes: L X above Z R
                ctx.check(spec.all_of([p[0] == 2 * a + (1 if s in "RX" else 0), p[1] == 2 * b + (1 if s in "LX" else 0)]), "places within the plaquette")
                plain = places if count == 2 else None
        if count == 2:
            same = spec.all_of([indices[0] == indices[1], kinds[0] == kinds[1]])
            ctx.check(spec.implies(spec.all_of([places[0][0] == places[1][0], places[0][1] == places[1][1]]), same), "different qubits have different positions")
            if folded:
                for axis, size in ((0, 2 * rx), (1, 2 * ry)):
                    near = spec.any_of([plain[0][axis] - plain[1][axis] == d for d in (1, -1, size - 1, 1 - size)])
                    gap = places[0][axis] - places[1][axis]
                    ctx.check(spec.implies(near, spec.all_of([gap <= 2, gap >= -2])), "neighbours on the torus stay near each other when folded")


def h_bad_label(ctx, orders):
    code = any_bb(ctx, orders)
    index = ctx.integer("index", 2 * orders[0] * orders[1], 2 * orders[0] * orders[1] + 3)
    ctx.check_raises(ValueError, lambda: code.get_node_label(ctx.q.objects.Node(index)), "nodes outside of the code are rejected")


def h_order(ctx, orders, reach):
    code = any_bb(ctx, orders)
    v = ctx.ints("v", 2, -reach, reach)
    got = code.get_order(tuple(v))
    hits = lambda m: spec.all_of([(m * v[0]) % orders[0] == 0, (m * v[1]) % orders[1] == 0])  # noqa: E731
    top = math.lcm(*orders)
    ctx.check(spec.all_of([got >= 1, got <= top]), "orders divide the exponent of the group")
    ctx.check(spec.all_of([spec.iff(got == m, spec.all_of([hits(m)] + [spec.not_(hits(k)) for k in range(1, m)])) for m in range(1, top + 1)]), "the least multiple that returns to the origin")


def h_basis(ctx, orders, reach):
    code = any_bb(ctx, orders)
    g, h = ctx.ints("g", 2, -reach, reach), ctx.ints("h", 2, -reach, reach)
    got = bool(code.is_valid_basis(tuple(g), tuple(h)))
    g, h = [int(x) for x in g], [int(x) for x in h]
    order = lambda v: next(m for m in range(1, math.lcm(*orders) + 1) if all(m * x % o == 0 for x, o in zip(v, orders)))  # noqa: E731
    points = [tuple((i * a + j * b) % o for a, b, o in zip(g, h, orders)) for i in range(order(g)) for j in range(order(h))]
    want = len(set(points)) == len(points) == orders[0] * orders[1]
    ctx.check(got == want, "bases reach every plaquette once")


def h_inverse(ctx, orders, g, h, reach):
    code = any_bb(ctx, orders)
    a, b = ctx.ints("t", 2, -reach, reach)
    solvable = spec.any_of([spec.all_of([(i * g[0] + j * h[0] - a) % orders[0] == 0, (i * g[1] + j * h[1] - b) % orders[1] == 0]) for i in range(math.lcm(*orders)) for j in range(math.lcm(*orders))])
    try:
        i, j = code.modular_inverse((g, h), a, b)
    except ValueError:
        ctx.check(spec.not_(solvable), "solvable systems are solved")
        return
    ctx.check(spec.all_of([(i * g[0] + j * h[0] - a) % orders[0] == 0, (i * g[1] + j * h[1] - b) % orders[1] == 0]), "solutions solve the system")


def h_toric(ctx, orders, terms_a, terms_b, q):
    """Codes with a toric layout are the same code up to a relabelling of the group, shifts of both polynomials, and exchanging the blocks."""
    symbols = letters(2)
    pa, ta = polynomial(ctx, "a", terms_a, symbols, q)
    pb, tb = polynomial(ctx, "b", terms_b, symbols, q)
    code = ctx.q.codes.BBCode(orders, pa, pb, *(() if q == 2 else (q,)))
    a, b = reduced(ta, orders, q), reduced(tb, orders, q)
    group = elements(orders)
    data = code.get_equivalent_toric_layout_code_data()
    # which pairs of differences of exponents generate the group as a direct product
    pairs = [(g, h) for g in differences(terms_a, orders) for h in differences(terms_b, orders) if direct(g, h, orders)]
    connected = generated(terms_a, terms_b, orders)
    ctx.check(bool(data) == bool(pairs and connected), "toric layouts are found if there are any")
    shapes, steps, equivalent = [], [], []
    for new_orders, qa, qb in data:
        shapes.append(new_orders[0] * new_orders[1] == orders[0] * orders[1] and new_orders[0] >= new_orders[1])
        na, nb = [tabulate(ctx, p, symbols) for p in (qa, qb)]
        na, nb = reduced(na, new_orders, q), reduced(nb, new_orders, q)
        one = lambda t: {k for k in t}  # noqa: E731
        zero2, x1, y1 = (0, 0), (1 % new_orders[0], 0), (0, 1 % new_orders[1])
        steps.append({zero2, x1} <= one(na) and {zero2, y1} <= one(nb))
        found = []
        for g, h in itertools.product(group, repeat=2):
            if not direct(g, h, orders) or order_of(g, orders) != new_orders[0] or order_of(h, orders) != new_orders[1]:
                continue
            image = lambda t: {tuple((k[0] * u + k[1] * v) % o for u, v, o in zip(g, h, orders)): value for k, value in t.items()}  # noqa: E731
            ma, mb = image(na), image(nb)
            for old_a, old_b in ((a, b), (b, a)):
                for s in group:
                    moved_a = {shift(k, s, orders): v for k, v in ma.items()}
                    if set(moved_a) != set(old_a):
                        continue
                    for t in group:
                        moved_b = {shift(k, t, orders): v for k, v in mb.items()}
                        if set(moved_b) == set(old_b):
                            found.append(spec.all_of([spec.same([moved_a[k]], [old_a[k]]) for k in old_a] + [spec.same([moved_b[k]], [old_b[k]]) for k in old_b]))
        equivalent.append(spec.any_of(found))
    ctx.check(all(shapes), "orders of the layout")
    ctx.check(all(steps), "the polynomials contain the steps of the torus")
    ctx.check(spec.all_of(equivalent), "codes with a toric layout are equivalent to the original code")
    if q == 2 and data:
        new_orders, qa, qb = data[0]
        x, y = symbols
        ctx.check(ctx.q.codes.BBCode({x: new_orders[0], y: new_orders[1]}, qa, qb).dimension == code.dimension, "equivalent codes have the same dimension")


def order_of(v, orders):
    return next(m for m in range(1, math.lcm(*orders) + 1) if all(m * x % o == 0 for x, o in zip(v, orders)))


def direct(g, h, orders):
    points = {tuple((i * a + j * b) % o for a, b, o in zip(g, h, orders)) for i in range(order_of(g, orders)) for j in range(order_of(h, orders))}
    return len(points) == order_of(g, orders) * order_of(h, orders) == math.prod(orders)


def differences(terms, orders):
    return {shift(s, t, orders, -1) for s in terms for t in terms if s != t}


def generated(terms_a, terms_b, orders):
    """The Tanner graph is connected."""
    gens = differences(terms_a, orders) | differences(terms_b, orders)
    seen, todo = {(0,) * len(orders)}, [(0,) * len(orders)]
    while todo:
        p = todo.pop()
        for g in gens:
            r = shift(p, g, orders)
            if r not in seen:
                seen.add(r)
                todo.append(r)
    return len(seen) == math.prod(orders)


def tabulate(ctx, poly, symbols):
    import sympy
    expr = poly.as_expr() if hasattr(poly, "as_expr") else poly
    out = {}
    for term in sympy.Add.make_args(sympy.expand(expr)):
        coeff, exps = parse(ctx, term, symbols)
        out[exps] = coeff
    return out


def h_placeholders(ctx, orders, q):
    """More orders than variables: the polynomials do not depend on the others."""
    x, = letters(1)
    pa, ta = polynomial(ctx, "a", [(0,), (1,)], (x,), q)
    pb, tb = polynomial(ctx, "b", [(0,), (2,)], (x,), q)
    code = ctx.q.codes.QCCode(orders, pa, pb, *(() if q == 2 else (q,)))
    ctx.check(tuple(code.orders) == tuple(orders) and len(set(code.symbols)) == len(orders), "every order has its own variable")
    pad = (0,) * (len(orders) - 1)
    judge_matrices(ctx, code, orders, {k + pad: v for k, v in ta.items()}, {k + pad: v for k, v in tb.items()}, q)


def h_rejected(ctx):
    x, y, z = letters(3)
    Q = ctx.q.codes
    for args in [((3,), 1 + x, 1 + y), ((3, 3), 1 + x + y, 1 + z), ({x: 3}, 1 + x + y, 1 + y)]:
        ctx.check_raises(ValueError, lambda: Q.QCCode(*args), "every variable needs an order")
    for args in [((3, 3, 3), 1 + x, 1 + y), ((3, 3), 1 + x, 1 + x**2), ((3, 3), 1 + x + y, 1 + z), ((3,), 1 + x, 1 + x)]:
        ctx.check_raises(ValueError, lambda: Q.BBCode(*args), "bivariate codes have two variables")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", "").replace("'", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=3000 if thorough else 240, max_paths=60000 if thorough else 8000, **params))

    two = [("QCCode", (5,), [(0,), (1,), (3,)], [(0,), (2,)]), ("QCCode", (4,), [(1,), (2,)], [(-1,), (5,), (0,)]), ("BBCode", (3, 4), [(0, 0), (1, 0), (1, 1)], [(0, 0), (0, 1), (2, 3)]), ("BBCode", (2, 3), [(1, 2)], [(0, 1), (1, 0)]),
           ("BBCode", (3, 2), [(-1, 0), (2, 1)], [(0, -1), (0, 1), (1, -2)]), ("QCCode", (2, 3, 2), [(0, 0, 0), (1, 1, 1)], [(1, 0, 0), (0, 2, 0), (0, 0, 1)]), ("BBCode", (1, 4), [(1, 0), (0, 1)], [(0, 2), (1, 1)]), ("QCCode", (2, 2), [(0, 1), (1, 0)], [(1, 1), (0, 0)])]
    for kind, orders, a, b in two:
        for q in (2, 3, 4, 5):
            add(f"code-{kind}-{orders}-{a}-{b}-q{q}", h_code, f"all nonzero coefficients over GF({q})", 5, kind=kind, orders=orders, terms_a=a, terms_b=b, q=q)
    for named in [(0, 1), (1, 0)]:
        for q in (2, 3):
            add(f"named-{named}-q{q}", h_code, f"all nonzero coefficients over GF({q})", 5, kind="BBCode", orders=(3, 2), terms_a=[(0, 0), (1, 0), (2, 1)], terms_b=[(0, 1), (1, 0)], q=q, named=named)
    add("named-3", h_code, "all nonzero coefficients over GF(3)", 5, kind="QCCode", orders=(2, 3, 2), terms_a=[(0, 0, 0), (1, 1, 1)], terms_b=[(1, 0, 0), (0, 2, 0), (0, 0, 1)], q=3, named=(2, 0, 1))
    for orders, low, high in [((2, 3), -2, 3)] + ([((3, 3), -3, 3), ((4, 2), -1, 4)] if thorough else [((3, 2), -1, 2)]):
        add(f"exponents-{orders}", h_exponents, f"all exponents from {low} to {high}", 60, orders=orders, low=low, high=high)
    for orders, terms, q, other in [((4, 3), [(0, 0), (3, 2), (-1, 4)], 3, None), ((5, 2), [(3, 1), (1, 1), (0, 0), (7, 0)], 4, None), ((4, 4), [(2, -2), (3, 1)], 5, (2, 8)), ((4,), [(3,), (2,), (0,)], 3, None), ((3, 3), [(2, 2)], 3, None), ((3, 3), [(0, 0)], 5, None), ((2, 2, 3), [(1, 1, 2), (0, 1, 1)], 3, None), ((3, 3), [(2, 2), (0, 1)], 2, None)]:
        for as_poly in (False, True):
            add(f"canonical-{orders}-{terms}-q{q}-{as_poly}", h_canonical, f"all nonzero coefficients over GF({q})", 3, orders=orders, terms=terms, q=q, other=other, as_poly=as_poly)
    for orders in [(3, 4), (4, 3), (1, 2), (6, 6), (12, 6), (5, 7)] + ([(30, 6), (21, 18)] if thorough else []):
        add(f"labels-{orders}", h_labels, f"all qubits of codes with orders {orders}", 20, orders=orders, count=1)
        add(f"bad-label-{orders}", h_bad_label, "indices beyond the number of qubits", 1, orders=orders)
    for orders in [(2, 2), (1, 3), (3, 2), (2, 4)] + ([(5, 7), (6, 6), (12, 6)] if thorough else []):
        add(f"pairs-{orders}", h_labels, f"all pairs of qubits of codes with orders {orders}", 20, orders=orders, count=2)
    for orders, reach in [((4, 6), 13), ((3, 5), 11), ((6, 2), 8), ((1, 4), 6), ((5, 5), 7)] + ([((8, 9), 10), ((12, 6), 20)] if thorough else []):
        add(f"order-{orders}", h_order, f"all vectors with entries up to {reach}", 10, orders=orders, reach=reach)
    for orders, reach in [((2, 2), 2), ((3, 2), 2), ((4, 2), 1), ((3, 3), 1)] + ([((4, 4), 3), ((6, 2), 4), ((3, 3), 2), ((4, 2), 2)] if thorough else []):
        add(f"basis-{orders}-{reach}", h_basis, f"all pairs of vectors with entries up to {reach}", 60, orders=orders, reach=reach)
    for orders, g, h in [((3, 4), (1, 0), (0, 1)), ((3, 4), (1, 1), (2, 1)), ((4, 4), (1, 3), (0, 2)), ((6, 2), (5, 1), (3, 0)), ((2, 3), (-1, 2), (1, -4)), ((6, 6), (1, 2), (0, 1))]:
        add(f"inverse-{orders}-{g}-{h}", h_inverse, "all right-hand sides with entries from -7 to 7", 20, orders=orders, g=g, h=h, reach=7)
    toric = [((3, 3), [(0, 0), (1, 0), (1, 1)], [(0, 0), (0, 1), (1, 0)]), ((2, 3), [(0, 0), (1, 0)], [(0, 0), (0, 1), (1, 1)]), ((4, 2), [(1, 0), (2, 1)], [(0, 1), (0, 0)]), ((6, 1), [(0, 0), (2, 1)], [(0, 0), (3, 0)]), ((2, 2), [(0, 0), (1, 1)], [(1, 0), (1, 1)]),
             ((4, 4), [(0, 0), (2, 0)], [(0, 0), (0, 1)]), ((3, 4), [(1, 1)], [(0, 0), (1, 0), (0, 1)]), ((5, 2), [(2, 0), (1, 1), (0, 0)], [(0, 1), (3, 0)])]
    for orders, a, b in toric:
        for q in (2, 3, 5):
            if q == 5 and (orders == (3, 3) or len(a) * len(b) > 4) and not thorough:
                continue
            add(f"toric-{orders}-{a}-{b}-q{q}", h_toric, f"all nonzero coefficients over GF({q})", 30, orders=orders, terms_a=a, terms_b=b, q=q)
    for orders in [(3,), (3, 2), (3, 2, 2), (4, 1, 2), (2, 2, 2, 2)]:
        for q in (2, 3):
            add(f"placeholders-{orders}-q{q}", h_placeholders, f"all nonzero coefficients over GF({q})", 3, orders=orders, q=q)
    add("rejected", h_rejected, "fixed examples")
    return out
