"""Tanner codes, Cayley complexes and quantum Tanner codes."""
import contextlib
import itertools
import os
import shutil
import tempfile

from vf import spec
from vf.harness import Case

ASSUMPTIONS = ["groups are fixed per case and multiplied by the real sympy; subsets are chosen by symbolic booleans (decided by forking); seed codes and operators are symbolic",
               "files are written to a scratch directory"]
FUNCS = ["codes.classical.TannerCode.*", "objects.CayleyComplex.*", "codes.quantum.QTCode.*", "abstract.Group.random_symmetric_subset", "codes.common.ClassicalCode.tensor_product", "codes.common.ClassicalCode.__invert__"]


# ---------------------------------------------------------------- classical Tanner codes
GRAPHS = {  # directed edges (source, sink)
    "pair": [(0, "a"), (0, "b"), (1, "b"), (1, "a")],
    "ring": [(0, "a"), (0, "b"), (1, "b"), (1, "c"), (2, "c"), (2, "a")],
    "dense": [(0, "a"), (0, "b"), (0, "c"), (1, "b"), (1, "c"), (1, "d"), (2, "d"), (2, "a"), (2, "c")],
    "one": [(0, "c"), (0, "a"), (0, "b")],
}


def h_tanner(ctx, graph, m, q, sort):
    """Words are exactly the strings whose local views are words of the subcode."""
    import networkx as nx

    edges = GRAPHS[graph]
    sources, sinks = sorted({a for a, _ in edges}), sorted({b for _, b in edges})
    degree = len(edges) // len(sources)
    C = ctx.field_array("C", (m, degree), q)
    sub = ctx.q.codes.ClassicalCode(C)
    g = nx.DiGraph()
    views = {}
    for s in sources:
        mine = [b for a, b in edges if a == s]
        if sort:  # an arbitrary order of the edges of every source
            order = ctx.permutation(f"order{s}", degree) if s < sort else list(range(degree))
            for rank, b in zip(order, mine):
                g.add_edge(s, b, sort=rank)
            views[s] = [b for _, b in sorted(zip(order, mine))]
        else:
            for b in mine:
                g.add_edge(s, b)
            views[s] = sorted(mine)
    code = ctx.q.codes.TannerCode(g, sub)
    ctx.check(tuple(code.matrix.shape) == (len(sources) * m, len(sinks)) and type(code.matrix).order == q, "shape and field")
    v = spec.vec(ctx, ctx.field_array("v", len(sinks), q), q)
    rows, local = spec.elems(ctx, code.matrix, q), spec.elems(ctx, C, q)
    at = dict(zip(sinks, v))
    ctx.check(spec.iff(spec.is_zero(spec.matvec(rows, v, q)), spec.all_zero([spec.matvec(local, [at[b] for b in views[s]], q) for s in sources])),
              "words are the strings whose local views are words of the subcode")
    again = spec.elems(ctx, ctx.q.codes.TannerCode(g, sub).matrix, q)
    ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(rows, again)]), "building the code again gives the same code")


def h_tanner_undirected(ctx, edges, m, q):
    """Bits live on edges, checks on nodes, in the order given by the edge labels."""
    import networkx as nx

    nodes = sorted({x for e in edges for x in e})
    degree = sum(nodes[0] in e for e in edges)
    C = ctx.field_array("C", (m, degree), q)
    sub = ctx.q.codes.ClassicalCode(C)
    labels = {}
    for x in nodes:
        mine = [e for e in edges if x in e]
        order = ctx.permutation(f"order{x}", degree) if x < 2 else list(range(degree))
        labels[x] = dict(zip(mine, order))
    def build():
        g = nx.Graph()
        for a, b in edges:
            g.add_edge(a, b, sort={a: labels[a][a, b], b: labels[b][a, b]})
        return g
    g = build()
    code = ctx.q.codes.TannerCode(g, sub)
    rows, local = spec.elems(ctx, code.matrix, q), spec.elems(ctx, C, q)
    ctx.check(tuple(code.matrix.shape) == (len(nodes) * m, len(edges)), "shape")
    v = spec.vec(ctx, ctx.field_array("v", len(edges), q), q)
    at = dict(zip(edges, v))
    want = spec.all_zero([spec.matvec(local, [at[e] for e in sorted(labels[x], key=labels[x].get)], q) for x in nodes])
    # bits may be listed in any fixed order: a subcode that checks every single bit reveals which edge each bit is
    probe = ctx.q.codes.TannerCode(build(), ctx.q.codes.ClassicalCode(ctx.np.identity(degree, dtype=int), q)).matrix
    ends = [[nodes[row // degree] for row in range(len(nodes) * degree) if int(probe[row, bit])] for bit in range(len(edges))]
    ctx.check(sorted(map(sorted, ends)) == sorted(map(sorted, edges)), "bits are the edges of the graph")
    mine = [at[next(e for e in edges if sorted(e) == sorted(x))] for x in ends]
    ctx.check(spec.iff(spec.is_zero(spec.matvec(rows, mine, q)), want), "words are the edge labellings whose local views are words of the subcode")
    ctx.check(all(g.edges[e] == build().edges[e] for e in edges), "the graph is left as it was")
    again = spec.elems(ctx, ctx.q.codes.TannerCode(g, sub).matrix, q)
    ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(rows, again)]), "building the code again gives the same code")


# ---------------------------------------------------------------- groups
def group_of(A, name):
    kind, *args = name.split(":")
    if kind == "C":
        return A.CyclicGroup(int(args[0]))
    if kind == "D":
        return A.DihedralGroup(int(args[0]))
    if kind == "S":
        return A.SymmetricGroup(int(args[0]))
    if kind == "Q":
        return A.QuaternionGroup()
    return A.AbelianGroup(*map(int, args))


def members(group):
    return list(group.generate())


def pick(ctx, name, elements):
    """A subset of the group members, chosen by symbolic booleans."""
    return [x for i, x in enumerate(elements) if bool(ctx.integer(f"{name}{i}", 0, 1) == 1)]


def orbits(elements):
    out = []
    for x in elements:
        if not any(x in o for o in out):
            out.append([x] if x == ~x else [x, ~x])
    return out


def pick_symmetric(ctx, name, elements, most):
    out = []
    for i, o in enumerate(orbits(elements)):
        if bool(ctx.integer(f"{name}{i}", 0, 1) == 1):
            out += o
    ctx.assume(0 < len(out) <= most)
    return out


def closure(gens, identity):
    seen, todo = {identity}, [identity]
    while todo:
        x = todo.pop()
        for y in gens:
            if x * y not in seen:
                seen.add(x * y)
                todo.append(x * y)
    return seen


# ---------------------------------------------------------------- Cayley complexes
def h_complex_valid(ctx, group, bipartite):
    """Which subsets are accepted."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    a, b = pick(ctx, "a", elements), pick(ctx, "b", elements)
    ctx.assume(len(a) > 0 and len(b) > 0)
    symmetric = all(~x in a for x in a) and all(~x in b for x in b)
    gens = closure(a + b, G.identity)
    conjugate = any(x * g == g * y for g in gens for x in a for y in b)
    ctx.check(ctx.q.objects.CayleyComplex.satisfies_total_no_conjugacy(a, b) == (not conjugate), "total no-conjugacy")
    build = lambda: ctx.q.objects.CayleyComplex(a, b, bipartite=bipartite)  # noqa: E731
    if symmetric and not (bipartite and conjugate):
        cx = build()
        ctx.check(cx.subset_a == set(a) and cx.subset_b == set(b) and cx.bipartite == bipartite, "subsets are kept")
    else:
        ctx.check_raises(ValueError, build, "invalid subsets are rejected")


def h_cayley_graph(ctx, group, most, right):
    """The graph of left and right steps, also when the same members act from both sides."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    a = pick_symmetric(ctx, "a", elements, most)
    b = pick_symmetric(ctx, "b", elements, most) if right else []
    build = ctx.q.objects.CayleyComplex.build_cayley_graph
    graph = build(a, b) if right else build(a)
    nodes, todo = {G.identity}, [G.identity]
    while todo:
        x = todo.pop()
        for y in [s * x for s in a] + [x * s for s in b]:
            if y not in nodes:
                nodes.add(y)
                todo.append(y)
    left = {frozenset([x, s * x]) for x in nodes for s in a}
    right = {frozenset([x, x * s]) for x in nodes for s in b}
    ctx.check(set(graph.nodes) == nodes and {frozenset(e) for e in graph.edges} == left | right, "nodes and edges")
    ctx.check(all(frozenset([x, y]) in {"L": left, "R": right}[d["type"]] for x, y, d in graph.edges(data=True)), "types of edges")


def h_complex_graph(ctx, group, bipartite, most):
    """Graph and faces of the complex."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    a, b = pick_symmetric(ctx, "a", elements, most), pick_symmetric(ctx, "b", elements, most)
    gens = closure(a + b, G.identity)
    if bipartite:
        ctx.assume(not any(x * g == g * y for g in gens for x in a for y in b))
    cx = ctx.q.objects.CayleyComplex(a, b, bipartite=bipartite)
    ca, cb = cx.cover_subset_a, cx.cover_subset_b
    ctx.check(len(ca) == len(a) and len(cb) == len(b) and all(~x in ca for x in ca) and all(~x in cb for x in cb), "covers of the subsets")
    graph = cx.graph
    one = next(iter(ca)) * ~next(iter(ca))
    # reference: breadth-first over (left, right) products
    nodes, todo = {one}, [one]
    while todo:
        x = todo.pop()
        for y in [s * x for s in ca] + [x * s for s in cb]:
            if y not in nodes:
                nodes.add(y)
                todo.append(y)
    edges = {frozenset([x, s * x]) for x in nodes for s in ca} | {frozenset([x, x * s]) for x in nodes for s in cb}
    ctx.check(set(graph.nodes) == nodes and {frozenset(e) for e in graph.edges} == edges, "nodes and edges")
    color = {one: 0}
    todo = [one]
    good = True
    while todo:
        x = todo.pop()
        for y in graph.neighbors(x):
            if y not in color:
                color[y] = 1 - color[x]
                todo.append(y)
            elif color[y] == color[x]:
                good = False
    ctx.check(good, "the graph is bipartite")
    faces = {frozenset([x, s * x, x * t, s * x * t]) for x in nodes for s in ca for t in cb if color[x] == 0}
    ctx.check(all(len(f) == 4 for f in faces), "faces have four corners")
    gx, gz = ctx.q.codes.QTCode.get_subgraphs(cx)
    ctx.check({n for n in gx if gx.in_degree(n) == 0 and gx.out_degree(n)} == {x for x in nodes if color[x] == 0}
              and {n for n in gz if gz.in_degree(n) == 0 and gz.out_degree(n)} == {x for x in nodes if color[x] == 1}, "sources of the subgraphs")
    ctx.check({n for n in gx if gx.out_degree(n) == 0} == faces == {n for n in gz if gz.out_degree(n) == 0}, "sinks of the subgraphs are the faces")
    ctx.check(all(x in f and gx.out_degree(x) == len(a) * len(b) for x, f in gx.edges) and all(x in f and gz.out_degree(x) == len(a) * len(b) for x, f in gz.edges), "every node sees one face per pair of generators")
    labels = all(frozenset([x, s * x, x * t, s * x * t]) == f for g in (gx, gz) for x, f, d in g.edges(data=True) for s, t in [d["sort"]])
    ctx.check(labels, "edge labels are the generators of the face")


# ---------------------------------------------------------------- quantum Tanner codes
def h_qt(ctx, group, a, b, ra, rb, q, bipartite, default):
    """Checks commute and local views are the right product codes, for all seed codes."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    sa, sb = [elements[i] for i in a], [elements[i] for i in b]
    A = ctx.field_array("A", (ra, len(sa)), q)
    ha = spec.elems(ctx, A, q)
    if default:
        code = ctx.q.codes.QTCode(sa, sb, A, bipartite=bipartite)
        hb = spec.elems(ctx, (~ctx.q.codes.ClassicalCode(A)).matrix, q)
    else:
        B = ctx.field_array("B", (rb, len(sb)), q)
        hb = spec.elems(ctx, B, q)
        code = ctx.q.codes.QTCode(sa, sb, A, B, bipartite=bipartite)
    cx = code.complex
    gx, gz = ctx.q.codes.QTCode.get_subgraphs(cx)
    n = sum(1 for x in gx if gx.out_degree(x) == 0)
    hx, hz = spec.elems(ctx, code.matrix_x, q), spec.elems(ctx, code.matrix_z, q)
    ctx.check(len(code) == n and all(len(r) == n for r in hx + hz) and type(code.matrix).order == q, "one qudit per face")
    ctx.check(spec.all_zero(spec.matmul(hx, spec.transpose(hz, n), q)), "X-type and Z-type checks commute")
    ctx.check(not code.is_subsystem_code, "stabilizer code")
    # local views of one operator
    v = spec.vec(ctx, ctx.field_array("v", n, q), q)
    faces = [f for f in gx if gx.out_degree(f) == 0]
    at = dict(zip(faces, v))
    ka, kb = dual_basis(ctx, A, q), (dual_basis(ctx, B, q) if not default else spec.elems(ctx, A, q))
    for rows, g, left, right, label in [(hx, gx, ka, kb, "X"), (hz, gz, ha, hb, "Z")]:
        local = []
        for x in g:
            if not g.out_degree(x):
                continue
            view = {g[x][f]["sort"]: at[f] for f in g[x]}
            ga, gb = sorted(cx.cover_subset_a), sorted(cx.cover_subset_b)
            M = [[view[s, t] for t in gb] for s in ga]
            # orthogonal to every product of a row of `left` and a row of `right`
            half = [spec.matvec(left, list(c), q) for c in zip(*M)]
            local += [spec.matvec(right, list(c), q) for c in zip(*half)] if left else []
        ctx.check(spec.iff(spec.is_zero(spec.matvec(rows, v, q)), spec.all_zero(local)), f"{label}-type checks are the products of local words")


def dual_basis(ctx, matrix, q):
    """Generator matrix of a code (correct by the checks of classical codes)."""
    return spec.elems(ctx, ctx.q.codes.ClassicalCode(matrix).generator, q)


def h_qt_save(ctx, group, a, b, ra, rb, q, bipartite, headers):
    """Loading a saved code gives the same code."""
    G = group_of(ctx.q.abstract, group)
    elements = members(G)
    A, B = ctx.field_array("A", (ra, len(a)), q), ctx.field_array("B", (rb, len(b)), q)
    code = ctx.q.codes.QTCode([elements[i] for i in a], [elements[i] for i in b], A, B, bipartite=bipartite)
    scratch = tempfile.mkdtemp(prefix="vf_qt_")
    try:
        path = os.path.join(scratch, "sub", "code.txt")
        code.save(path, *headers)
        new = ctx.q.codes.QTCode.load(path)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    ctx.check(new.field.order == q and new.complex.bipartite == bipartite, "field and kind of complex")
    ctx.check(new.complex.subset_a == code.complex.subset_a and new.complex.subset_b == code.complex.subset_b, "subsets")
    for mine, theirs in [(A, new.code_a.matrix), (B, new.code_b.matrix)]:
        x, y = spec.elems(ctx, mine, q), spec.elems(ctx, theirs, q)
        ctx.check(tuple(mine.shape) == tuple(theirs.shape) and spec.all_of([spec.same(r, s) for r, s in zip(x, y)]), "seed codes")
    ctx.check(code == new, "the loaded code equals the saved one")


@contextlib.contextmanager
def arbitrary_draws(ctx, G, most):
    """Random group members and integers are arbitrary, up to a number of draws."""
    import sympy
    from sympy.combinatorics.perm_groups import PermutationGroup

    state = {"n": 0}
    elements = [m.to_sympy() if hasattr(m, "to_sympy") else m for m in members(G)]

    def count():
        state["n"] += 1
        if state["n"] > most:
            ctx.assume(False)
        return f"draw{state['n']}"

    saved = PermutationGroup.random, sympy.core.random.randint
    PermutationGroup.random = lambda self, af=False: ctx.choice(count(), elements)
    sympy.core.random.randint = lambda low, high: int(ctx.integer(count(), low, high))
    try:
        yield
    finally:
        PermutationGroup.random, sympy.core.random.randint = saved


def h_random_subset(ctx, group, size, exclude, most):
    G = group_of(ctx.q.abstract, group)
    with arbitrary_draws(ctx, G, most):
        out = G.random_symmetric_subset(size, exclude_identity=exclude)
    ctx.check(len(out) == size and all(~x in out for x in out), "symmetric subset of the requested size")
    ctx.check(all(x in members(G) for x in out) and not (exclude and G.identity in out), "members of the group, without the identity if asked")


def h_qt_random(ctx, group, na, nb, q, bipartite, one, most):
    """Random quantum Tanner codes are the ones of symmetric subsets of the right sizes."""
    C = ctx.q.codes
    G = group_of(ctx.q.abstract, group)
    A = ctx.field_array("A", (1, na), q)
    B = ctx.field_array("B", (1, nb), q) if nb else None
    with arbitrary_draws(ctx, G, most):
        try:
            code = C.QTCode.random(G, A, B, bipartite=bipartite, one_subset=one)
        except ValueError:  # the subsets that were drawn do not generate a complex
            ctx.assume(False)
    cx = code.complex
    for subset, size in ((cx.subset_a, na), (cx.subset_b, nb or na)):
        ctx.check(len(subset) == size and all(~x in subset for x in subset) and all(x in members(G) for x in subset), "symmetric subsets with as many members as the seed codes have bits")
    ctx.check(not one or cx.subset_a == cx.subset_b, "one subset, if asked")
    ctx.check(cx.bipartite == bipartite, "kind of complex")
    want = spec.elems(ctx, B, q) if nb else spec.elems(ctx, (~C.ClassicalCode(A)).matrix, q)
    for mine, theirs in [(spec.elems(ctx, code.code_a.matrix, q), spec.elems(ctx, A, q)), (spec.elems(ctx, code.code_b.matrix, q), want)]:
        ctx.check(len(mine) == len(theirs) and spec.all_of([spec.same(r, s) for r, s in zip(mine, theirs)]), "seed codes")
    again = C.QTCode(cx.subset_a, cx.subset_b, code.code_a, code.code_b, bipartite=bipartite)
    for x, y in ((code.matrix_x, again.matrix_x), (code.matrix_z, again.matrix_z)):
        x, y = spec.elems(ctx, x, q), spec.elems(ctx, y, q)
        ctx.check(len(x) == len(y) and spec.all_of([spec.same(r, s) for r, s in zip(x, y)]), "the code of the subsets and seed codes")


def h_random_subset_invalid(ctx, group, size):
    G = group_of(ctx.q.abstract, group)
    ctx.check_raises(ValueError, lambda: G.random_symmetric_subset(size), "impossible sizes are rejected")


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name.replace(" ", "").replace("'", ""), func, functions=FUNCS, bounds=bounds, cost=cost, timeout=2000 if thorough else 240, max_paths=60000 if thorough else 8000, **params))

    for graph, m, q, sort in [("pair", 1, 2, 0), ("pair", 1, 3, 2), ("ring", 1, 2, 2), ("ring", 2, 2, 0), ("dense", 1, 2, 1), ("dense", 2, 2, 0), ("one", 2, 3, 1), ("ring", 1, 4, 1), ("dense", 1, 3, 0), ("ring", 1, 5, 3)]:
        add(f"tanner-{graph}-{m}-q{q}-{sort}", h_tanner, f"all subcodes with {m} checks and strings over GF({q}), all edge orders of {sort} nodes", 10, graph=graph, m=m, q=q, sort=sort)
    triangle, k4, pairs = [(0, 1), (0, 2), (1, 2)], [(0, 1), (0, 2), (0, 3), (1, 2), (1, 3), (2, 3)], [(0, 1), (2, 3)]
    for edges, m, q in [(triangle, 1, 2), (triangle, 2, 2), (k4, 1, 2), (triangle, 1, 3), (pairs, 1, 4), (k4, 2, 2), ([(0, 1), (1, 2), (2, 3), (0, 3)], 1, 2)]:
        add(f"tanner-undirected-{len(edges)}-{m}-q{q}", h_tanner_undirected, f"all subcodes with {m} checks and edge labellings over GF({q}), all edge orders of two nodes", 10, edges=edges, m=m, q=q)
    for group, bip in [("C:2", False), ("C:3", False), ("C:3", True), ("C:4", True), ("A:2:2", False), ("A:2:2", True), ("C:4", False)] + ([("S:3", True)] if thorough else []):
        add(f"complex-valid-{group}-{bip}", h_complex_valid, f"all pairs of nonempty subsets of {group}", 40, group=group, bipartite=bip)
    for group, bip, most in [("C:3", False, 3), ("C:4", False, 2), ("C:5", True, 2), ("C:6", True, 2), ("S:3", False, 2), ("S:3", True, 2), ("A:2:2", True, 2), ("D:4", True, 1)] + ([("D:4", True, 2), ("Q:8", True, 2), ("D:4", False, 2)] if thorough else []):
        add(f"complex-graph-{group}-{bip}", h_complex_graph, f"all symmetric subsets of {group} with at most {most} members", 60, group=group, bipartite=bip, most=most)
    for group, most, right in [("S:3", 2, True), ("C:4", 2, True), ("S:3", 3, False), ("A:2:2", 2, True)] + ([("D:4", 2, True), ("Q:8", 2, True)] if thorough else []):
        add(f"cayley-graph-{group}-{right}", h_cayley_graph, f"all symmetric subsets of {group} with at most {most} members", 60, group=group, most=most, right=right)
    for group, a, b, ra, rb, q, bip, default in [
        ("C:3", (1, 2), (1, 2), 1, 1, 2, False, False), ("C:3", (1, 2), (1, 2), 1, None, 2, False, True), ("C:2", (1,), (0, 1), 1, 1, 2, False, False), ("C:5", (1, 4), (2, 3), 1, 1, 2, True, False),
        ("C:4", (1, 3), (2,), 1, 1, 2, True, False), ("C:3", (1, 2), (1, 2), 1, 1, 3, False, False), ("C:2", (0, 1), (0, 1), 1, 1, 4, False, False), ("C:3", (0, 1, 2), (1, 2), 1, 1, 2, False, False),
        ("C:3", (0, 1, 2), (1, 2), 2, 1, 2, False, False), ("S:3", "S", (1,), 1, 1, 2, False, False), ("C:3", (1, 2), (1, 2), 1, None, 3, False, True), ("C:2", (0, 1), (0, 1), 2, 1, 2, False, False),
    ]:
        if a == "S":
            continue
        add(f"qt-{group}-{a}-{b}-{ra}-{rb}-q{q}-{bip}", h_qt, f"all seed codes ({ra} and {rb} checks) over GF({q}), all operators", 60, group=group, a=a, b=b, ra=ra, rb=rb, q=q, bipartite=bip, default=default)
    for group, a, b, ra, rb, q, bip, headers in [("C:3", (1, 2), (1, 2), 1, 1, 2, False, ()), ("C:3", (1, 2), (0, 1, 2), 1, 1, 2, False, ("a header", "x\ny")), ("C:5", (1, 4), (2, 3), 1, 2, 2, True, ()), ("C:2", (1,), (1,), 1, 2, 3, False, ("subset_a:",)),
                                                 ("C:3", (1, 2), (1, 2), 0, 1, 2, False, ()), ("C:3", (1, 2), (1, 2), 1, 0, 3, False, ("h",)), ("C:2", (1,), (0, 1), 2, 1, 2, False, ()),
                                                 ("C:2", (1,), (0, 1), 1, 1, 4, False, ("base field: 2",)), ("C:3", (1, 2), (1, 2), 0, 1, 4, False, ()), ("C:2", (1,), (1,), 1, 1, 9, False, ())]:
        add(f"save-{group}-{a}-{b}-{ra}-{rb}-q{q}-{bip}", h_qt_save, f"all seed codes ({ra} and {rb} checks) over GF({q})", 40, group=group, a=a, b=b, ra=ra, rb=rb, q=q, bipartite=bip, headers=headers)
    for group, size, exclude, most in [("C:3", 2, False, 4), ("C:4", 3, True, 4), ("C:4", 2, False, 4), ("S:3", 3, False, 4), ("S:3", 2, True, 4), ("A:2:2", 2, True, 4), ("C:5", 1, False, 3), ("C:5", 4, True, 5), ("C:6", 3, False, 4)]:
        add(f"random-subset-{group}-{size}-{exclude}", h_random_subset, f"all sequences of at most {most} random draws", 20, group=group, size=size, exclude=exclude, most=most)
    for group, na, nb, q, bip, one, most in [("C:3", 2, 2, 2, False, True, 3), ("C:3", 2, None, 2, False, True, 3), ("C:5", 2, 2, 2, True, False, 4), ("C:3", 2, None, 3, False, False, 4), ("S:3", 1, 2, 2, True, False, 4)]:
        add(f"random-{group}-{na}-{nb}-q{q}-{bip}-{one}", h_qt_random, f"all seed codes with one check, all sequences of at most {most} random draws", 20, group=group, na=na, nb=nb, q=q, bipartite=bip, one=one, most=most)
    for group, size in [("C:3", 0), ("C:3", 4), ("S:3", -1), ("S:3", 7)]:
        add(f"random-subset-invalid-{group}-{size}", h_random_subset_invalid, f"size {size}", group=group, size=size)
    return out
