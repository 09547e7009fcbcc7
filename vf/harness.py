"""Harness contexts: the same harness function runs symbolically (on the symbolic copy of the code)
and concretely (on the real package, with the inputs of a solver model)."""
from __future__ import annotations

import contextlib
import functools
import itertools
import os
import random as _pyrandom
import time
import traceback
import warnings

import numpy as np

from . import engine as _e
from . import symnp as S
from . import values as V
from .dag import SolverUnknown
from .engine import Budget, Engine, EngineGap, PathEnd

_ACTIVE = None


def active():
    if _ACTIVE is None:
        raise EngineGap("no harness is active")
    return _ACTIVE


class CheckFailed(Exception):
    """A property assertion failed in a concrete run."""

    def __init__(self, label: str) -> None:
        super().__init__(label)
        self.label = label


class AssumeFailed(BaseException):
    """A concrete run left the assumed domain."""


class Mismatch(Exception):
    """The real code and the symbolic run disagree."""


class BaseCtx:
    """Shared parts of both contexts."""

    symbolic = False
    random_retries = 2

    def __init__(self) -> None:
        self.draws = 0
        self.random_log: list = []
        self.observations: list = []
        self.flags: set[str] = set()

    def gf(self, order: int = 2):
        return self.galois.GF(order)

    # -- convenience checks --
    def check_zero(self, array, label: str) -> None:
        self.check(~_b(self.np.any(array)), label)

    def check_equal(self, a, b, label: str) -> None:
        self.check(self.np.array_equal(a, b), label)

    def exists_vector(self, n: int, order: int, cond) -> bool:
        """Does some vector over GF(order) satisfy cond(vector)?  Decided by the solver, in concrete runs too.

        Everything else that the condition mentions must be concrete.
        """
        dag = _e.current().dag
        info = V.field_info(order)
        self.witnesses = getattr(self, "witnesses", 0) + 1
        vec, lits = [], []
        for i in range(n):
            bits = [dag.var(f"witness{self.witnesses}[{i}].{j}") for j in range(info.nbits)]
            lits.append(info.valid_lit(bits))
            vec.append(info.make(bits))
        lit = dag.and_all(lits + [V.blit(cond(vec))])
        return lit == 1 or lit != 0 and dag.solve([lit]) is not None

    def check_raises(self, exc, func, label: str) -> None:
        try:
            func()
        except exc:
            self.check(True, label)
        else:
            self.check(False, label)


def _b(x):
    """Truth value supporting ~, & and | without forking."""
    return x if isinstance(x, V.SymBool) else np.bool_(bool(x))


class SymCtx(BaseCtx):
    """Symbolic execution context of one path."""

    symbolic = True

    def __init__(self, engine: Engine, package, case) -> None:
        super().__init__()
        self.engine = engine
        self.package = package
        self.np = package.np
        self.galois = package.galois
        self.case = case
        self.inputs: dict[str, list] = {}  # name -> flat list of ints / symbolic ints
        self.checks: list[tuple[str, int]] = []
        self.num_checks = 0
        self.failures: list[tuple[str, dict]] = []
        self.random_retries = case.random_retries

    @property
    def q(self):
        return self.package.load("qldpc")

    # -- inputs --
    def _bits(self, name: str, count: int):
        return [self.engine.dag.var(f"{name}.{i}") for i in range(count)]

    def _record(self, name: str, values) -> None:
        if name in self.inputs:
            raise RuntimeError(f"duplicate input {name}")
        self.inputs[name] = list(values)

    def ints(self, name: str, count: int, low: int, high: int) -> list:
        """Arbitrary integers with low <= x <= high."""
        span = high - low
        nbits = span.bit_length()
        out = []
        for i in range(count):
            value = V.mkint(self._bits(f"{name}[{i}]", nbits) + [0])
            if span != 2**nbits - 1:
                self.engine.assume(V.blit(value <= span))
                value = V.mkint(V.int_bits(value))
            out.append(value + low)
        self._record(name, out)
        return out

    def integer(self, name: str, low: int, high: int):
        return self.ints(name, 1, low, high)[0]

    def boolean(self, name: str):
        return V.mkbool(V.blit(self.integer(name, 0, 1)))

    def array(self, name: str, shape, low: int = 0, high: int = 1):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = self.ints(name, int(np.prod(shape, dtype=int)), low, high)
        return S.wrap(S.obj_array(vals, shape))

    def words(self, name: str, shape):
        """Arbitrary 64-bit unsigned words."""
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = [V.SymWord(self._bits(f"{name}[{i}]", 64)) for i in range(int(np.prod(shape, dtype=int)))]
        self._record(name, vals)
        return S.wrap(S.obj_array(vals, shape))

    def field_array(self, name: str, shape, order: int = 2):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        cls = S.field_class(order)
        vals = []
        for i in range(int(np.prod(shape, dtype=int))):
            bits = self._bits(f"{name}[{i}]", cls.info.nbits)
            self.engine.assume(cls.info.valid_lit(bits))
            vals.append(cls.info.make(bits))
        self._record(name, vals)
        return S.wrap(S.obj_array(vals, shape), cls)

    def choice(self, name: str, options):
        """An arbitrary element of a concrete list (decided by forking)."""
        options = list(options)
        return options[int(self.integer(name, 0, len(options) - 1))]

    # -- obligations --
    def assume(self, cond) -> None:
        self.flush()
        self.engine.assume(V.blit(cond))

    def prefer(self, cond) -> None:
        pass

    def check(self, cond, label: str) -> None:
        self.num_checks += 1
        lit = V.blit(cond)
        if lit != 1:
            self.checks.append((label, lit))

    def flush(self) -> None:
        """Ask the solver whether any pending assertion can fail on this path."""
        checks, self.checks = self.checks, []
        if not checks:
            return
        d = self.engine.dag
        bad = d.or_all([lit ^ 1 for _, lit in checks])
        model = self.engine.find(bad)
        if model is None:
            return
        memo: dict[int, bool] = {}
        label = next(label for label, lit in checks if not d.evaluate(lit, model, memo))
        self.failures.append((label, self.model_inputs(model)))
        raise PathFailed

    def observe(self, label: str, value) -> None:
        self.observations.append((label, value))

    # -- models --
    def value_of(self, x, model, memo):
        """Concrete value of a symbolic value under a model."""
        d = self.engine.dag
        if isinstance(x, V.SymBool):
            return d.evaluate(x.lit, model, memo)
        if isinstance(x, V.SymInt):
            bits = [int(d.evaluate(b, model, memo)) for b in x.bits]
            return sum(b << i for i, b in enumerate(bits[:-1])) - (bits[-1] << (len(bits) - 1))
        if isinstance(x, (V.SymWord, V.GFElem)):
            return sum(int(d.evaluate(b, model, memo)) << i for i, b in enumerate(x.bits))
        if isinstance(x, np.ndarray):
            return [self.value_of(v, model, memo) for v in S.raw(x)] if x.ndim else self.value_of(
                S.raw(x)[()], model, memo
            )
        if isinstance(x, (list, tuple)):
            return [self.value_of(v, model, memo) for v in x]
        if isinstance(x, dict):
            return {str(k): self.value_of(v, model, memo) for k, v in x.items()}
        if isinstance(x, (np.bool_, bool)):
            return bool(x)
        if isinstance(x, np.integer):
            return int(x)
        if isinstance(x, np.floating):
            return float(x)
        return x if isinstance(x, (int, float, str)) or x is None else str(x)

    def model_inputs(self, model) -> dict:
        memo: dict[int, bool] = {}
        out = {}
        for name, values in self.inputs.items():
            out[name] = [int(self.value_of(v, model, memo)) for v in values]
        return out

    # -- nondeterministic stubs --
    def _draw(self) -> str:
        self.draws += 1
        if self.draws > self.case.max_draws:
            self.flags.add("random-draw bound reached")
            self.flush()
            raise PathEnd
        return f"rnd{self.draws}"

    def random_field_array(self, cls, shape):
        name = self._draw()
        if isinstance(shape, int):
            shape = (shape,)
        return self.field_array(name, shape, cls.info.order)

    def random_function(self, name: str, real):
        if name.endswith((".seed", ".set_state")):
            return lambda *a, **k: None
        if name.endswith(".get_state"):
            return lambda *a, **k: ("symbolic", None)
        if name in ("np.random.randint",):
            def randint(low, high=None, size=None, dtype=int):
                low, high = (0, low) if high is None else (low, high)
                if size is None:
                    return self.integer(self._draw(), int(low), int(high) - 1)
                return self.array(self._draw(), size, int(low), int(high) - 1)
            return randint
        if name in ("np.random.permutation",):
            def permutation(x):
                items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
                perm = self.permutation(self._draw(), len(items))
                out = [items[i] for i in perm]
                return np.array(out) if isinstance(x, (int, np.integer)) else S.asarray(out)
            return permutation
        if name == "random.choice":
            return lambda seq: self.choice(self._draw(), list(seq))
        if name == "np.random.choice":
            return lambda *a, **k: S.asarray(out) if isinstance(out := random_picks(self, *a, **k), list) else out
        if name == "random.sample":
            return lambda population, k: random_picks(self, list(population), int(k), False)
        raise EngineGap(f"unmodelled random function {name}")

    def permutation(self, name: str, n: int) -> list[int]:
        import math

        perms = list(itertools.permutations(range(n)))
        assert len(perms) == math.factorial(n)
        return list(self.choice(name, perms))


def pick_item(index, items):
    out = items[-1]
    for i, item in enumerate(items[:-1]):
        out = V.ite(index == i, item, out) if V.is_sym(index) else item if index == i else out
    return out


def random_picks(ctx, a, size=None, replace=True, p=None):
    """Arbitrary picks from a list, from its entries of nonzero probability."""
    items = list(range(a)) if isinstance(a, (int, np.integer)) else [int(x) for x in a]
    if p is not None:
        if abs(sum(float(x) for x in p) - 1) > 1e-8 or len(p) != len(items):
            raise ValueError("probabilities do not sum to 1")
        items = [x for x, prob in zip(items, p) if prob > 0]
    count = 1 if size is None else int(size)
    if count and not items:
        raise ValueError("a cannot be empty unless no samples are taken")
    if not replace:
        if count > len(items):
            raise ValueError("Cannot take a larger sample than population when replace is False")
    picks = ctx.ints(ctx._draw(), count, 0, len(items) - 1) if count else []
    if not replace:
        for i, j in itertools.combinations(range(count), 2):
            ctx.assume(_b(picks[i] != picks[j]))
    steps = {y - x for x, y in zip(items, items[1:])}
    if len(items) > 1 and len(steps) > 1:
        picks = [pick_item(i, items) for i in picks]
    else:
        picks = [items[0] + i * (steps.copy().pop() if steps else 1) for i in picks]
    return picks if size is not None else picks[0]


class PathFailed(BaseException):
    """The current path has a counterexample."""


class ConcCtx(BaseCtx):
    """Concrete context: the real package on given inputs."""

    def __init__(self, inputs: dict, case) -> None:
        super().__init__()
        import galois

        self.np = np
        self.galois = galois
        self.given = inputs
        self.case = case
        self.num_checks = 0

    @property
    def q(self):
        import qldpc

        return qldpc

    def ints(self, name, count, low, high):
        vals = self.given.get(name)
        if vals is None:
            vals = [low] * count
        if len(vals) != count or any(not low <= v <= high for v in vals):
            raise Mismatch(f"input {name} has {len(vals)} values; {count} in [{low}, {high}] needed")
        return [int(v) for v in vals]

    def integer(self, name, low, high):
        return self.ints(name, 1, low, high)[0]

    def boolean(self, name):
        return bool(self.integer(name, 0, 1))

    def array(self, name, shape, low=0, high=1):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        return np.array(self.ints(name, int(np.prod(shape, dtype=int)), low, high), dtype=int).reshape(shape)

    def words(self, name, shape):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        vals = self.ints(name, int(np.prod(shape, dtype=int)), 0, 2**64 - 1)
        return np.array(vals, dtype=np.uint64).reshape(shape)

    def field_array(self, name, shape, order=2):
        return self.array(name, shape, 0, order - 1).view(self.galois.GF(order))

    def choice(self, name, options):
        options = list(options)
        return options[self.integer(name, 0, len(options) - 1)]

    def permutation(self, name, n):
        return list(self.choice(name, list(itertools.permutations(range(n)))))

    def assume(self, cond) -> None:
        if not bool(cond):
            raise AssumeFailed

    def check(self, cond, label: str) -> None:
        self.num_checks += 1
        if not bool(cond):
            raise CheckFailed(label)

    def observe(self, label, value) -> None:
        self.observations.append((label, _plain(value)))

    # -- recorded randomness --
    def _draw(self) -> str:
        self.draws += 1
        if f"rnd{self.draws}" not in self.given:
            raise AssumeFailed  # more draws than the recorded run made
        return f"rnd{self.draws}"


class SplitCtx(ConcCtx):
    """Fallback: every input is decided by the solver before the real code runs on it."""

    def __init__(self, engine, case) -> None:
        super().__init__({}, case)
        self.engine = engine
        self.inputs: dict[str, list[int]] = {}

    def ints(self, name, count, low, high):
        span = high - low
        out = []
        for i in range(count):
            bits = [self.engine.dag.var(f"{name}[{i}].{j}") for j in range(span.bit_length())]
            value = V.mkint(bits + [0])
            self.engine.assume(V.blit(value <= span))
            out.append(int(value) + low)
        self.inputs[name] = self.given[name] = out
        return list(out)

    def _draw(self) -> str:
        self.draws += 1
        if self.draws > self.case.max_draws:
            raise AssumeFailed
        return f"rnd{self.draws}"


class Exhausted(BaseException):
    """Every continuation of the inputs decided so far has been run."""


class EnumCtx(ConcCtx):
    """Concrete run on inputs of a path; inputs that the path did not reach are decided by the solver on demand."""

    def __init__(self, inputs, case, engine, block, fixed) -> None:
        super().__init__(dict(inputs), case)
        self.engine, self.block, self.fixed = engine, block, fixed

    def ints(self, name, count, low, high):
        if name not in self.given:
            d, span = self.engine.dag, high - low
            rows = [[d.var(f"{name}[{i}].{j}") for j in range(span.bit_length())] for i in range(count)]
            _e.CURRENT, current = self.engine, _e.CURRENT
            try:
                ranges = [V.blit(V.mkint(bits + [0]) <= span) for bits in rows]
            finally:
                _e.CURRENT = current
            model = d.solve(self.engine.pc + self.block + self.fixed + ranges)
            if model is None:
                raise Exhausted
            values = [[bool(model.get(b >> 1, False)) for b in bits] for bits in rows]
            self.given[name] = [low + sum(v << j for j, v in enumerate(bits)) for bits in values]
            self.fixed += [b ^ (not v) for bits, vs in zip(rows, values) for b, v in zip(bits, vs)]
        return super().ints(name, count, low, high)

    def _draw(self) -> str:
        self.draws += 1
        if self.draws > self.case.max_draws:
            raise AssumeFailed
        return f"rnd{self.draws}"


def _plain(x):
    if isinstance(x, np.ndarray):
        return x.tolist()
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return float(x)
    return x if isinstance(x, (int, float, str)) or x is None else str(x)


@contextlib.contextmanager
def patched_randomness(ctx: ConcCtx):
    """Replace the random sources of the real libraries by the recorded draws."""
    import galois

    saved = []

    def patch(obj, name, new):
        saved.append((obj, name, obj.__dict__.get(name, None), name in obj.__dict__))
        setattr(obj, name, new)

    def field_random(cls, shape=(), low=0, high=None, seed=None, dtype=None):
        return ctx.field_array(ctx._draw(), shape, cls.order)

    base = galois.FieldArray
    owner = next(c for c in base.__mro__ if "Random" in c.__dict__)
    patch(owner, "Random", classmethod(field_random))

    def randint(low, high=None, size=None, dtype=int):
        low, high = (0, low) if high is None else (low, high)
        if size is None:
            return ctx.integer(ctx._draw(), int(low), int(high) - 1)
        return ctx.array(ctx._draw(), size, int(low), int(high) - 1)

    def permutation(x):
        items = list(range(x)) if isinstance(x, (int, np.integer)) else list(x)
        perm = ctx.permutation(ctx._draw(), len(items))
        return np.array([items[i] for i in perm])

    patch(np.random, "randint", randint)
    patch(np.random, "permutation", permutation)
    patch(np.random, "seed", lambda *a, **k: None)
    patch(np.random, "get_state", lambda *a, **k: ())
    patch(np.random, "set_state", lambda *a, **k: None)
    patch(np.random, "choice", lambda *a, **k: np.array(out, dtype=int) if isinstance(out := random_picks(ctx, *a, **k), list) else out)
    patch(_pyrandom, "sample", lambda population, k: random_picks(ctx, list(population), int(k), False))
    patch(_pyrandom, "choice", lambda seq: ctx.choice(ctx._draw(), list(seq)))
    try:
        yield
    finally:
        for obj, name, old, had in reversed(saved):
            if had:
                setattr(obj, name, old)
            else:
                delattr(obj, name)


def run_concrete(case, inputs: dict, ctx=None):
    """Run a harness on the real package.  Returns (status, detail, ctx)."""
    global _ACTIVE
    ctx = ctx or ConcCtx(inputs, case)
    previous, _ACTIVE = _ACTIVE, None
    engine, _e.CURRENT = _e.CURRENT, _concrete_engine()
    try:
        with warnings.catch_warnings(), patched_randomness(ctx), case.environment(False):
            warnings.simplefilter("ignore")
            case.func(ctx, **case.params)
    except CheckFailed as failure:
        return "violation", failure.label, ctx
    except AssumeFailed:
        return "assumed-away", "", ctx
    except Mismatch as mismatch:
        return "mismatch", str(mismatch), ctx
    except Exception as error:  # noqa: BLE001
        return "exception", "".join(traceback.format_exception_only(error)).strip() + " @ " + _where(error), ctx
    finally:
        _ACTIVE = previous
        _e.CURRENT = engine
    return "ok", "", ctx


@functools.cache
def _concrete_engine():
    """Constant folding for reference computations in concrete runs (no symbols, no queries)."""
    return Engine()


def _where(error) -> str:
    frames = traceback.extract_tb(error.__traceback__)
    inner = [f for f in frames if "/qldpc/" in f.filename] or frames
    return f"{os.path.basename(inner[-1].filename)}:{inner[-1].name}" if inner else "?"


class Case:
    """One harness with concrete parameters and exploration limits."""

    def __init__(self, name, func, *, functions=(), bounds="", max_paths=20000, max_draws=3,
                 enumerate_cap=1500, validate=40, timeout=240.0, query_timeout=120.0, stubs=None,
                 environment=None, cost=1.0, **params) -> None:
        self.name = name
        self.func = func
        self.params = params
        self.functions = list(functions)
        self.bounds = bounds
        self.max_paths = max_paths
        self.max_draws = max_draws
        self.random_retries = max_draws
        self.enumerate_cap = enumerate_cap
        self.validate = validate
        self.timeout = timeout
        self.query_timeout = query_timeout
        self.stubs = stubs
        self.env = environment
        self.cost = cost

    @contextlib.contextmanager
    def environment(self, symbolic: bool):
        if self.env is None:
            yield
        else:
            with self.env(symbolic):
                yield


def same(a, b) -> bool:
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def explore(case, package_factory) -> dict:
    """Run a case to completion; returns a summary dictionary."""
    global _ACTIVE
    start = time.monotonic()
    engine = Engine(max_paths=case.max_paths, deadline=start + case.timeout,
                    timeout_ms=int(case.query_timeout * 1000))
    result = dict(
        case=case.name, bounds=case.bounds, functions=case.functions, paths=0, pruned=0, branches=0,
        queries=0, solver_s=0.0, checks=0, validated=0, gaps=[], enumerated=0, incomplete=[],
        violations=[], flags=[], samples=[],
    )
    flags: set[str] = set()
    spent = [0.0]  # time spent on enumeration
    _e.set_current(engine)

    def violation(label, inputs, detail=""):
        result["violations"].append(dict(case=case.name, label=label, inputs=inputs, detail=detail))

    def replay(label, inputs) -> bool:
        status, detail, _ = run_concrete(case, inputs)
        if status in ("violation", "exception"):
            violation(detail if status == "violation" else "exception: " + detail, inputs, label)
            return True
        return False

    def enumerate_path(ctx, reason) -> None:
        """Complete solver-driven splitting of the path's inputs over the real code."""
        if len(result["gaps"]) < 20:
            result["gaps"].append(reason)
        d = engine.dag
        nodes = sorted(v >> 1 for v in d.vars.values())
        block: list[int] = []
        began = time.monotonic()
        for _ in range(case.enumerate_cap):
            now = time.monotonic()
            if now > start + case.timeout or spent[0] + now - began > case.timeout / 3:
                spent[0] += now - began
                result["incomplete"].append("time budget during enumeration of: " + reason)
                return
            model = d.solve(engine.pc + block)
            if model is None:
                spent[0] += time.monotonic() - began
                return
            names = set(ctx.inputs)
            fixed = [2 * n + int(not model.get(n, False)) for n in nodes if d.names[n].split("[")[0].split(".")[0] in names]
            run = EnumCtx(ctx.model_inputs(model), case, engine, block, fixed)
            result["enumerated"] += 1
            try:
                status, detail, _ = run_concrete(case, {}, run)
            except Exhausted:
                status = "exhausted"
            result["checks"] += run.num_checks
            if status in ("violation", "exception"):
                violation(detail if status == "violation" else "exception: " + detail, run.given, reason)
                raise Done
            block.append(d.or_all([lit ^ 1 for lit in run.fixed]))
        result["incomplete"].append("enumeration cap reached for: " + reason)

    package = None
    try:
        package = package_factory(case)
        package.load("qldpc")
        load_error = None
    except Exception as error:  # noqa: BLE001
        load_error = error
        result["gaps"].append(f"the symbolic copy does not load: {error!r}"[:300])

    def split_body():
        """Used when the current source cannot be executed symbolically at all."""
        ctx = SplitCtx(engine, case)
        result["enumerated"] += 1
        if result["enumerated"] > 4 * case.enumerate_cap:
            raise Budget("enumeration cap")
        _e.CURRENT = engine
        try:
            with warnings.catch_warnings(), patched_randomness(ctx), case.environment(False):
                warnings.simplefilter("ignore")
                case.func(ctx, **case.params)
            status, detail = "ok", ""
        except CheckFailed as failure:
            status, detail = "violation", failure.label
        except AssumeFailed:
            status, detail = "assumed-away", ""
        except (PathEnd, Budget, SolverUnknown):
            raise
        except Exception as error:  # noqa: BLE001
            status, detail = "violation", f"exception: {error!r} @ {_where(error)}"
        result["checks"] += ctx.num_checks
        if status == "violation":
            violation(detail, ctx.inputs)
            raise Done
        return ctx, ("split", "")

    def body():
        global _ACTIVE
        if load_error is not None:
            return split_body()
        ctx = SymCtx(engine, package, case)
        _ACTIVE = ctx
        outcome = ("ok", "")
        try:
            with warnings.catch_warnings(), case.environment(True):
                warnings.simplefilter("ignore")
                case.func(ctx, **case.params)
            ctx.flush()
        except PathFailed:
            outcome = ("failed", "")
        except PathEnd:
            result["checks"] += ctx.num_checks
            flags.update(ctx.flags)
            raise
        except (Budget, SolverUnknown):
            raise
        except Exception as error:  # noqa: BLE001
            try:
                ctx.flush()
                outcome = ("exception", f"{type(error).__name__}: {error} @ {_where(error)}")
                if os.environ.get("VF_DEBUG"):
                    traceback.print_exc()
            except PathFailed:
                outcome = ("failed", "")
        finally:
            _ACTIVE = None
        return ctx, outcome

    def on_end(pair) -> None:
        ctx, (status, detail) = pair
        if status == "split":
            return
        result["checks"] += ctx.num_checks
        flags.update(ctx.flags)
        if status == "failed":
            label, inputs = ctx.failures[-1]
            if replay(label, inputs):
                raise Done
            enumerate_path(ctx, f"counterexample to '{label}' did not reproduce")
            return
        if status == "exception":
            model = engine.find(1)
            if model is not None and replay(detail, ctx.model_inputs(model)):
                raise Done
            enumerate_path(ctx, detail)
            return
        if result["validated"] < case.validate or engine.paths % 25 == 0:
            model = dict(engine.model)
            inputs = ctx.model_inputs(model)
            cstatus, cdetail, cctx = run_concrete(case, inputs)
            if cstatus in ("violation", "exception"):
                violation(cdetail if cstatus == "violation" else "exception: " + cdetail, inputs,
                          "found while validating a path on the real code")
                raise Done
            memo: dict[int, bool] = {}
            mine = [(l, ctx.value_of(v, model, memo)) for l, v in ctx.observations]
            if cstatus != "ok" or not same(mine, cctx.observations) or ctx.num_checks != cctx.num_checks:
                diff = next((f"{a} != {b}" for a, b in zip(mine, cctx.observations) if not same(a, b)), "")
                if cstatus == "ok" and not diff:
                    diff = f"{len(mine)}/{len(cctx.observations)} observations, {ctx.num_checks}/{cctx.num_checks} checks"
                enumerate_path(ctx, f"encoding mismatch: {cstatus} {cdetail} {diff}"[:400])
                return
            result["validated"] += 1
            if len(result["samples"]) < 2:
                result["samples"].append({"inputs": _short(inputs), "observed": _short(mine)})

    try:
        engine.run(body, on_end)
    except Done:
        pass
    except Budget as reason:
        result["incomplete"].append(str(reason))
    except SolverUnknown as reason:
        result["incomplete"].append(f"solver: {reason}")
    finally:
        _e.set_current(None)
        _ACTIVE = None
    result.update(
        paths=engine.paths, pruned=engine.pruned, branches=engine.branches, queries=engine.dag.queries,
        solver_s=round(engine.dag.solver_time, 3), wall_s=round(time.monotonic() - start, 3),
        flags=sorted(flags), nodes=len(engine.dag.kind),
    )
    return result


def _short(x, limit=400):
    text = str(x)
    return text if len(text) <= limit else text[:limit] + "..."


class Done(BaseException):
    """Stop exploring a case (a violation was found)."""
