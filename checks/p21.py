"""Answers of external programs and web pages are read exactly, and remembered faithfully."""
import ast
import contextlib
import itertools
import re
import types
import urllib.error
import urllib.request

import diskcache
import galois

from vf import spec
from vf import values as V
from vf.harness import Case

ASSUMPTIONS = ["GAP, GroupNames.org and the disk are replaced by stand-ins that answer in the format of GAP 4.12 and GroupNames.org",
               "numbers inside answers are symbolic; their layout (shapes, cycle lengths, blank lines) is fixed per case or path"]
FUNCS = ["external.codes.*", "external.groups.*", "cache.*", "codes.common.ClassicalCode.from_name", "abstract.Group.from_name", "abstract.GroupRing.get_primitive_central_idempotents", "abstract.SmallGroup.*"]


def text(x):
    """A number inside an answer."""
    return V.token(x) if isinstance(x, V.SymInt) else str(int(x))


def numbers(x):
    """Numbers read from an answer by Python itself."""
    if isinstance(x, (list, tuple)):
        return type(x)(numbers(y) for y in x)
    return V.untoken(str(x)) if isinstance(x, int) and not isinstance(x, bool) else x


def stubs():
    fake = types.ModuleType("ast")
    fake.__dict__.update(ast.__dict__)
    fake.literal_eval = lambda line: numbers(ast.literal_eval(line))
    return {"ast": fake}


@contextlib.contextmanager
def outside(ctx, answers=None, pages=None, store=None):
    """Stand-ins for GAP (None: not installed), the web (None: unreachable) and the disk.

    `answers` and `pages` map a text contained in the request to the answer.
    """
    q, undo = ctx.q, []
    store = {} if store is None else store

    def put(owner, name, value):
        undo.append((owner, name, getattr(owner, name)))
        setattr(owner, name, value)

    def get_output(*commands):
        found = [v for k, v in answers.items() if k in " ".join(commands).replace(" ", "")]
        assert len(found) == 1, (commands, list(answers))
        return found[0]

    class Page:
        def __init__(self, content):
            self.content = content

        def read(self):
            return self.content.encode("utf-8")

    def urlopen(url, *args, **kwargs):
        if pages is None:
            raise urllib.error.URLError("unreachable")
        for k, v in pages.items():
            if url.endswith(k):
                return Page(v)
        raise urllib.error.HTTPError(url, 404, "not found", {}, None)

    def cache(directory=None, *args, **kwargs):
        return store.setdefault(str(directory), {})

    put(q.external.gap, "is_installed", lambda: answers is not None)
    put(q.external.gap, "get_output", get_output)
    put(q.external.gap, "require_package", lambda name: None)
    put(urllib.request, "urlopen", urlopen)
    put(diskcache, "Cache", cache)
    try:
        yield store
    finally:
        for owner, name, value in reversed(undo):
            setattr(owner, name, value)


# ---------------------------------------------------------------- codes
def h_code(ctx, r, n, q, printed, layout):
    """The parity checks and the field of a named code."""
    rows = [ctx.ints(f"r{i}", n, 0, q - 1) for i in range(r)]
    other = [ctx.ints("o", n + 1, 0, q - 1)]

    def answer(matrix):
        lines = [("[ " + ", ".join(map(text, row)) + " ]") if layout % 2 == 0 else ("[" + ",".join(map(text, row)) + "]") for row in matrix]
        field = [f"GF({printed})"] if printed else []
        lines = lines + field if layout >= 2 else field + lines
        return "\n".join([""] * (layout // 2) + lines + [""])

    name = ctx.choice("name", ["FirstCode(3,GF(2))", " FirstCode( 3, GF(2) ) "])
    with outside(ctx, {"FirstCode(3,GF(2))": answer(rows), "OtherCode(7)": answer(other)}) as store:
        for _ in range(2):  # the second answer is remembered
            checks, field = ctx.q.external.codes.get_code(name.replace(" ", ""))
            ctx.check(field == (q if printed else None), "the field")
            ctx.check(len(checks) == r and all(len(a) == n for a in checks) and spec.all_of([x == y for a, b in zip(checks, rows) for x, y in zip(a, b)]), "the parity checks are those in the answer")
        code = ctx.q.codes.ClassicalCode.from_name(name)
        ctx.check(code.field.order == q and tuple(code.matrix.shape) == (r, n), "shape and field of a named code")
        ctx.check(spec.all_of([spec.same(a, b) for a, b in zip(spec.elems(ctx, code.matrix, q), spec.elems(ctx, rows, q))]), "checks of a named code")
        checks, field = ctx.q.external.codes.get_code("OtherCode(7)")
        ctx.check(len(checks) == 1 and spec.all_of([x == y for x, y in zip(checks[0], other[0])]), "answers of different codes are not mixed up")
    with outside(ctx, None, store=store):
        checks, field = ctx.q.external.codes.get_code("FirstCode(3,GF(2))")
        ctx.check(field == (q if printed else None) and spec.all_of([x == y for a, b in zip(checks, rows) for x, y in zip(a, b)]), "remembered when the program is gone")
        ctx.check_raises(ValueError, lambda: ctx.q.external.codes.get_code("ThirdCode()"), "unknown codes are an error")
    with outside(ctx, {"Empty": "\n" + (f"GF({printed})\n" if printed else "")}):
        ctx.check_raises(ValueError, lambda: ctx.q.external.codes.get_code("Empty"), "codes without checks are an error")


# ---------------------------------------------------------------- generators
def cycle_text(cycles, separator):
    return "".join("(" + separator.join(map(text, c)) + ")" for c in cycles) or "()"


def group_page(generators, index):
    gens = "<br>\n".join(cycle_text(g, " ") for g in generators)
    return (f"<b><a href='https://en.wikipedia.org/wiki/Group actions'>Permutation representations of G</a></b><br><a id='shl1' href=\"javascript:showhide('Regular action on {index} points');\">"
            f"Regular action</a> - transitive group <a href=\"../T15.html#2t1\">2T1</a><div id='shs1'>Generators in S<sub>2</sub><br><pre class='pre' id='textgn1'>{gens}</pre>&emsp;"
            "<button class='copytext' id='copygn1'>Copy</button><br><pre class='pre' id='textgn2'>(1 9)(3 7)</pre>&emsp;<button class='copytext' id='copygn2'>Copy</button>")


def index_page(entries):
    rows = "".join(f'<tr><td id="x"><a href="{link}">G</a></td><td><a href="cyclic.html">Cyclic</a> group</td><td><a href="T15.html#c2">2</a></td><td>{order},{text(index)}</td></tr>\n' for order, index, link in entries)
    return f'<table class="gptable" columns="6">\n<tr><th>d</th></tr>\n{rows}</table>'


def points(ctx, name, shapes, high):
    return [[tuple(ctx.ints(f"{name}{i}_{j}", k, 1, high)) for j, k in enumerate(shape)] for i, shape in enumerate(shapes)]


def read_back(got, wanted):
    ok = len(got) == len(wanted) and all([len(c) for c in g if len(c)] == [len(c) for c in w] for g, w in zip(got, wanted))
    return ok and spec.all_of([x == y - 1 for g, w in zip(got, wanted) for c, d in zip([c for c in g if len(c)], w) for x, y in zip(c, d)])


def h_generators(ctx, shapes, high):
    """Generators of groups, from GAP or from GroupNames.org."""
    gens = points(ctx, "p", shapes, high)
    other = points(ctx, "o", [[2], [3, 2]], high)
    groups = ctx.q.external.groups
    name = "SmallGroup(16,3)"
    with outside(ctx, {name: "\n" + "\n".join(cycle_text(g, ",") for g in gens) + "\n\n", "SmallGroup(16,13)": cycle_text(other[0], ",") + "\n" + cycle_text(other[1], ",") + "\n"}) as store:
        ctx.check(read_back(groups.get_generators(name), gens), "generators reported by the program")
        ctx.check(read_back(groups.get_generators("SmallGroup(16,13)"), other), "generators of another group")
    with outside(ctx, None, store=store):
        ctx.check(read_back(groups.get_generators(name), gens), "generators are remembered")
    pages = {"index500.html": index_page([(16, 3, "b/16-3.html"), (161, 3, "b/161-3.html")]), "GroupNames/": index_page([(16, 13, "1/16-13.html"), (6, 3, "1/6-3.html"), (16, 3, "1/16-3.html")]),
             "GroupNames/1/16-3.html": group_page(gens, 16), "GroupNames/1/16-13.html": group_page(other, 16), "GroupNames/1/6-3.html": group_page(other[:1], 6), "GroupNames/b/161-3.html": group_page(other[1:], 6)}
    with outside(ctx, None, pages):
        ctx.check(read_back(groups.get_generators(name), gens), "generators found on the web")
        ctx.check(read_back(groups.get_generators("SmallGroup(16,13)"), other), "generators of another group on the web")
        ctx.check(read_back(groups.get_generators("SmallGroup(161,3)"), other[1:]), "generators of a large group on the web")
        ctx.check_raises(ValueError, lambda: groups.get_generators("SmallGroup(16,4)"), "unlisted groups are an error")
        ctx.check_raises(ValueError, lambda: groups.get_generators("CyclicGroup(4)"), "groups of other names are not on the web")
    with outside(ctx, None, None):
        ctx.check_raises(ValueError, lambda: groups.get_generators(name), "no source of generators is an error")


def cycles_of(perm):
    out, seen = [], set()
    for i in range(len(perm)):
        cycle = []
        while i not in seen:
            seen.add(i)
            cycle.append(i + 1)
            i = perm[i]
        if len(cycle) > 1:
            out.append(tuple(cycle))
    return out


def h_group(ctx, n, count):
    """Named groups are generated by the permutations in the answer."""
    perms = [ctx.permutation(f"p{k}", n) for k in range(count)]
    name = "NamedGroup(3)"
    source = ctx.choice("source", ["gap", "web"])
    if source == "web":
        ctx.assume(all(cycles_of(p) for p in perms))  # the page of the trivial group is never read
        name = "SmallGroup(8,2)"
    answers = {name: "\n".join(cycle_text(cycles_of(p), ",") for p in perms) + "\n"}
    pages = {"GroupNames/": index_page([(8, 2, "1/x.html")]), "1/x.html": group_page([cycles_of(p) for p in perms], 8)}
    with outside(ctx, answers if source == "gap" else None, pages):
        G = ctx.q.abstract.Group.from_name(f" {name[:-2]} {name[-2:]}")
    size = max([0] + [x for p in perms for c in cycles_of(p) for x in c])
    seen, todo = {tuple(range(size))}, [list(range(size))]
    while todo:
        x = todo.pop()
        for p in perms:
            y = tuple(p[i] for i in x)
            if y not in seen:
                seen.add(y)
                todo.append(list(y))
    ctx.check({tuple(g.array_form) for g in G.generate()} == seen and G.order == len(seen), "the group is generated by these permutations")
    ctx.check(str(G) == name, "the name of the group")


# ---------------------------------------------------------------- small groups
def h_number(ctx, order, others):
    """How many groups of an order there are."""
    groups = ctx.q.external.groups
    n = ctx.integer("n", 1, 300)
    with outside(ctx, {f"NumberSmallGroups({order})": text(n) + "\n", f"NumberSmallGroups({order}1)": "7"}) as store:
        ctx.check(groups.get_small_group_number(order) == n, "the number reported by the program")
        ctx.check(groups.get_small_group_number(int(f"{order}1")) == 7, "the number for another order")
    with outside(ctx, None, store=store):
        ctx.check(groups.get_small_group_number(order) == n, "the number is remembered")
    indices = ctx.ints("i", 3, 1, 30)
    page = index_page([(order, i, "1/a.html") for i in indices] + [(o, 50, "1/b.html") for o in others])
    small = page if order <= 60 else index_page([(o, 40, "1/b.html") for o in others])
    with outside(ctx, None, {"index500.html": page, "GroupNames/": small}):
        got = groups.get_small_group_number(order)
        ctx.check(spec.all_of([got >= i for i in indices]) and spec.any_of([got == i for i in indices]), "the largest index on the web")
    with outside(ctx, None, None):
        ctx.check_raises(ValueError, lambda: groups.get_small_group_number(order), "no source of numbers is an error")


def h_structure(ctx, length):
    """Descriptions of groups, in any order of requests, while the program comes and goes."""
    groups = ctx.q.external.groups
    names = {(8, 3): "D8", (8, 33): "C4 x C2", (83, 3): "C7 : C3", (1, 1): "1"}
    store, known = {}, set()
    for k in range(length):
        key = ctx.choice(f"key{k}", list(names))
        installed = ctx.choice(f"installed{k}", [True, False])
        answers = {f"SmallGroup({a},{b})": s + "\n" for (a, b), s in names.items()} if installed else None
        with outside(ctx, answers, store=store):
            got = groups.get_small_group_structure(*key)
        if installed:
            known.add(key)
        ctx.check(got == (names[key] if key in known else f"SmallGroup({key[0]},{key[1]})"), "the description of the group")
    with outside(ctx, {"SmallGroup": "\n"}):
        ctx.check_raises(ValueError, lambda: groups.get_small_group_structure(5, 1), "unknown groups are an error")


# ---------------------------------------------------------------- idempotents
def h_idempotents(ctx, p, degree, subs, shapes):
    """Idempotents of a group algebra: coefficients in a field and its subfields, and permutations."""
    q = p**degree
    groups = ctx.q.external.groups
    info = V.field_info(q)
    real = galois.GF(q)
    members, k = [], 0
    for i, shape in enumerate(shapes):
        terms = []
        for j, cycles in enumerate(shape):
            sub = subs[k % len(subs)]
            k += 1
            exponent = ctx.integer(f"e{i}_{j}", 0, p**sub - 2)
            terms.append((sub, exponent, [tuple(ctx.ints(f"c{i}_{j}_{m}", length, 1, 12)) for m, length in enumerate(cycles)]))
        members.append(terms)

    def coefficient(sub, exponent):
        base = f"Z({p})" if sub == 1 else f"Z({p}^{sub})"
        form = ctx.choice(f"form{len(forms)}", [0, 1])
        forms.append(form)
        if form and bool(exponent == 1):
            return f"({base})"
        return f"({base}^{text(exponent)})"

    forms = []
    answer = "[ " + ", ".join("+".join(f"{coefficient(s, e)}*{cycle_text(c, ',')}" for s, e, c in terms) for terms in members) + " ]\n"
    with outside(ctx, {"Group((1,2,3))": answer}):
        got = groups.get_primitive_central_idempotents("Group((1,2,3))", q)
    ctx.check(len(got) == len(members) and all(len(a) == len(b) for a, b in zip(got, members)), "the number of idempotents and terms")
    for a, b in zip(got, members):
        for (value, cycles), (sub, exponent, want) in zip(a, b):
            root = real.primitive_element ** ((q - 1) // (p**sub - 1))  # the generator of the subfield that GAP uses
            assert galois.Poly([int(c) for c in galois.conway_poly(p, sub).coeffs], field=real)(root) == 0 if sub > 1 else int(root) == int(galois.GF(p).primitive_element)
            power = pick([int(root**m) for m in range(p**sub - 1)], exponent)
            ctx.check(value == power, "coefficients")
            cycles = [c for c in cycles if len(c)]
            ctx.check(len(cycles) == len(want) and spec.all_of([x == y - 1 for c, d in zip(cycles, want) for x, y in zip(c, d)]), "permutations")
    with outside(ctx, None):
        ctx.check_raises(ValueError, lambda: groups.get_primitive_central_idempotents("Group((1,2))", q), "the program is needed")


def pick(options, index):
    out = options[0]
    for k, v in enumerate(options):
        out = V.ite(index == k, v, out)
    return out


def h_ring(ctx, p, degree):
    """Idempotents of a group algebra as members of the algebra."""
    q = p**degree
    A = ctx.q.abstract
    G = A.SymmetricGroup(3) if p > 3 else A.CyclicGroup(3) if p == 2 else A.AbelianGroup(2, 2)
    ring = A.GroupRing(G, q)
    members = list(G.generate())
    info = V.field_info(q)
    exponents, chosen = ctx.ints("e", 2, 0, q - 2), [ctx.choice(f"g{k}", range(len(members))) for k in range(2)]
    ctx.assume(chosen[0] < chosen[1])
    base = f"Z({p}^{degree})" if degree > 1 else f"Z({p})"
    answer = "[ " + "+".join(f"({base}^{text(e)})*{cycle_text(cycles_of(members[g].array_form), ',')}" for e, g in zip(exponents, chosen)) + " ]"
    gap = G.to_gap_group().replace(" ", "")
    with outside(ctx, {gap: answer}):
        got = ring.get_primitive_central_idempotents()
    root = galois.GF(q).primitive_element
    ctx.check(len(got) == 1 and isinstance(got[0], A.RingMember) and got[0].ring == ring, "one member of the algebra")
    vector = spec.vec(ctx, got[0].to_vector(), q)
    want = [info.consts[0]] * len(members)
    for e, g in zip(exponents, chosen):
        want[g] = V.int_to_field(info, pick([int(root**m) for m in range(q - 1)], e))
    ctx.check(spec.same(vector, want), "coefficients of the idempotent")
    modular = A.GroupRing(G, {2: 3, 3: 2}.get(p, 3))
    with outside(ctx, {"Group": "[ ]"}):
        ctx.check_raises(ValueError, modular.get_primitive_central_idempotents, "algebras that are not semisimple are rejected")


# ---------------------------------------------------------------- remembering
def h_cache(ctx, length, keyed):
    """Any sequence of calls: the answers are those of the function, which is called once per question."""
    cache = ctx.q.cache
    calls = []
    store = {}

    def original(*args, **kwargs):
        """A question."""
        calls.append((args, tuple(kwargs.items())))
        if args[:1] == ("broken",) and len(calls) % 2:
            raise ValueError("no answer")
        return None if args == ("nothing",) else ("answer", args, tuple(kwargs.items()))

    def second(*args, **kwargs):
        return ("other answer", args)

    questions = [(("a",), {}), (("a", 1), {}), (("b",), {}), (("nothing",), {}), (("broken",), {}), (("a",), {"n": 1}), ((1,), {}), ((2,), {"n": 1}), (("a",), {"n": 2}), (("a",), {"k": 1})]
    with outside(ctx, None, store=store):
        key = {"key_func": lambda *args, **kwargs: (len(args), args, tuple(kwargs.items()))} if keyed else {}
        ask = cache.use_disk_cache("first", **key)(original)
        another = cache.use_disk_cache("second", **key)(second)
        place = cache.use_disk_cache("first", cache_dir="elsewhere", **key)(second)
        ctx.check(ask.__name__ == "original" and ask.__doc__ == original.__doc__, "name and documentation")
        answered = set()
        for k in range(length):
            args, kwargs = ctx.choice(f"q{k}", questions)
            who = ctx.choice(f"who{k}", [0, 1, 2]) if k + 1 == length else 0
            if who:
                ctx.check((another if who == 1 else place)(*args, **kwargs) == ("other answer", args), "caches of different functions are separate")
                continue
            before = len(calls)
            try:
                got = ask(*args, **kwargs)
            except ValueError:
                ctx.check(len(calls) == before + 1 and args == ("broken",), "only errors of the function are passed on")
                continue
            want = None if args == ("nothing",) else ("answer", args, tuple(kwargs.items()))
            ctx.check(got == want, "the answer is that of the function")
            question = (args, tuple(kwargs.items()))
            ctx.check(len(calls) == before + (question not in answered), "the function is called once per question")
            answered.add(question)
        # a new program run: the answers are still there
        again = cache.use_disk_cache("first", **key)(lambda *args, **kwargs: "changed")
        for args, items in sorted(answered, key=str):
            want = None if args == ("nothing",) else ("answer", args, items)
            if ("broken",) != args:
                ctx.check(again(*args, **dict(items)) == want, "answers survive a restart")


# ---------------------------------------------------------------- built-in answers
KNOWN = [
    "[[1,0,0,0,1,1,1,0,1,1],[0,1,0,0,1,0,0,1,1,0],[0,0,1,0,1,1,1,0,0,0],[0,0,0,1,1,1,0,1,1,1]]",
    "[[1,0,0,0,1,0,1,0,1,0],[0,1,0,0,1,0,1,1,1,1],[0,0,1,0,1,1,1,1,0,1],[0,0,0,1,1,1,0,1,0,0]]",
    "[[1,0,0,0,1,1,1,0,1,1,0,1,0,1,0],[0,1,0,0,1,0,0,1,1,0,0,1,1,1,1],[0,0,1,0,1,1,1,0,0,0,1,1,1,0,1],[0,0,0,1,1,1,0,1,1,1,1,0,1,0,0]]",
    "[[1,1,1,1,0,0,0,0,1,1,1,1],[0,0,0,0,1,1,1,1,1,1,1,1]]",
]


def h_known(ctx, k):
    """Automorphisms that the package knows by heart map every word of the code to a word."""
    matrix = ast.literal_eval(KNOWN[k])
    n = len(matrix[0])
    word = spec.vec(ctx, ctx.field_array("w", n, 2), 2)
    inside = spec.is_zero(spec.matvec(spec.elems(ctx, matrix, 2), word, 2))
    with outside(ctx, None):
        try:
            gens = ctx.q.external.groups.get_generators(f"AutomorphismGroup(CheckMatCode({KNOWN[k]},GF(2)))")
        except ValueError:
            gens = []  # not known by heart
    for cycles in gens:
        image = list(range(n))
        for c in cycles:
            for x, y in zip(c, c[1:] + c[:1]):
                image[x] = y
        assert sorted(image) == list(range(n))
        moved = [None] * n
        for i, j in enumerate(image):
            moved[j] = word[i]
        ctx.check(spec.implies(inside, spec.is_zero(spec.matvec(spec.elems(ctx, matrix, 2), moved, 2))), "automorphisms keep the code")
    ctx.check(True, "known groups")


# ---------------------------------------------------------------- the program itself
def h_process(ctx):
    """Talking to the program: its output comes back unchanged, and errors are raised."""
    import subprocess

    gap = ctx.q.external.gap
    out = ctx.choice("out", ["", "5\n", "\nGF(2)\n[ 1 ]\n", "fail"])
    err = ctx.choice("err", ["", "Error, no method found"])
    seen = []

    def run(command, *args, **kwargs):
        seen.append(command)
        return types.SimpleNamespace(stdout=out, stderr=err, returncode=0)

    saved = subprocess.run
    subprocess.run = run
    try:
        commands = ['LoadPackage("guava");', 'Print(NumberSmallGroups(4), "\\n");']
        if err:
            ctx.check_raises(ValueError, lambda: gap.get_output(*commands), "errors of the program are raised")
        else:
            ctx.check(gap.get_output(*commands) == out, "the output of the program")
        sent = " ".join(map(str, seen[0]))
        ctx.check("NumberSmallGroups(4)" in sent and 'LoadPackage("guava");' in sent and sent.index("LoadPackage") < sent.index("NumberSmallGroups") < sent.index("QUIT;"), "all commands are sent in order, and the program ends")
        ctx.check(not re.search(r"(?<!\w)Print\(", sent), "nothing is printed with line breaks")
    finally:
        subprocess.run = saved


def cases(tier):
    out = []
    thorough = tier == "thorough"

    def add(name, func, bounds, cost=1.0, **params):
        out.append(Case(name, func, functions=FUNCS, bounds=bounds, cost=cost, timeout=1500 if thorough else 240, max_paths=60000 if thorough else 8000, stubs=stubs, **params))

    codes = [(1, 3, 2, "2"), (2, 3, 2, "2"), (3, 4, 3, "3"), (2, 2, 4, "2^2"), (1, 4, 2, ""), (2, 3, 9, "3^2"), (2, 3, 5, "5"), (1, 3, 8, "2^3"), (1, 1, 2, "2")]
    for (r, n, q, printed), layout in itertools.product(codes, range(4)):
        if thorough or (layout + r) % 2 or q == 3:
            add(f"code-{r}x{n}-q{q}-{bool(printed)}-layout{layout}", h_code, f"all {r} by {n} matrices over GF({q})", 10, r=r, n=n, q=q, printed=printed, layout=layout)
    for k, shapes in enumerate([[[2]], [[2, 3], [2]], [[4], [], [2, 2]], [[]], [[3], [3, 3, 2], [2], [5]]]):
        add(f"generators-{k}", h_generators, f"cycles of lengths {shapes} on points up to 120", 10, shapes=shapes, high=120)
    for n, count in [(2, 1), (3, 1), (3, 2)] + ([(4, 1), (4, 2)] if thorough else [(4, 1)]):
        add(f"group-{n}-{count}", h_group, f"all {count} permutations of {n} points", 20, n=n, count=count)
    for order, others in [(2, [12, 22, 20]), (60, [6, 61, 160]), (61, [60, 6, 161]), (16, [8, 32, 116])]:
        add(f"number-{order}", h_number, "all numbers up to 300, all indices up to 30", 10, order=order, others=others)
    for length in (1, 2, 3) + ((4,) if thorough else ()):
        add(f"structure-{length}", h_structure, f"all sequences of {length} requests", 10, length=length)
    for p, degree, subs in [(2, 1, [1]), (2, 2, [1, 2]), (2, 3, [3, 1]), (2, 4, [2, 4, 1]), (3, 1, [1]), (3, 2, [2, 1]), (5, 1, [1]), (7, 1, [1]), (2, 6, [3, 2, 6])]:
        for k, shapes in enumerate([[[[], [3]]], [[[2]], [[2, 2], [3, 4]]]]):
            if k and p**degree > 16:
                continue
            add(f"idempotents-{p}^{degree}-{k}", h_idempotents, f"all coefficients in subfields of GF({p**degree}), permutations of points up to 12 with cycle lengths {shapes}", 10, p=p, degree=degree, subs=subs, shapes=shapes)
    for p, degree in [(2, 1), (2, 2), (3, 1), (5, 1), (2, 4)]:
        add(f"ring-{p}^{degree}", h_ring, "all coefficients and pairs of group members", 10, p=p, degree=degree)
    for length in (2, 3) + ((4,) if thorough else ()):
        for keyed in (False, True):
            add(f"cache-{length}-{keyed}", h_cache, f"all sequences of {length} questions out of 10", 20, length=length, keyed=keyed)
    for k in range(len(KNOWN)):
        add(f"known-{k}", h_known, "all words of the code", 5, k=k)
    add("process", h_process, "four outputs, with and without an error", 1)
    return out
