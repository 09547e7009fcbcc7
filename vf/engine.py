"""Path exploration by re-execution with solver-decided branches."""
from __future__ import annotations

import time

from .dag import Dag, SolverUnknown  # noqa: F401


class PathEnd(BaseException):
    """Raised to abandon the current path (infeasible or outside the stated bounds)."""


class EngineGap(Exception):
    """The code performed an operation that the symbolic value layer does not model."""


class Budget(BaseException):
    """The path/time budget of a case was exhausted."""


class Engine:
    """Explores all feasible paths of a harness."""

    def __init__(self, *, max_paths: int = 100_000, deadline: float | None = None,
                 timeout_ms: int = 120_000) -> None:
        self.dag = Dag(timeout_ms)
        self.max_paths = max_paths
        self.deadline = deadline
        self.paths = 0
        self.pruned = 0
        self.branches = 0
        self.reset_threshold = int(__import__("os").environ.get("VF_RESET", "2000"))
        # per-path state
        self.prefix: list[tuple[int, bool]] = []
        self.trace: list[tuple[int, bool]] = []
        self.pc: list[int] = []
        self.known: dict[int, bool] = {}
        self.model: dict[int, bool] = {}
        self.memo: dict[int, bool] = {}
        self.pending: list[tuple[list[tuple[int, bool]], dict[int, bool] | None]] = []

    # ---- path state ----
    def start(self, prefix, model) -> None:
        if len(self.dag.encoded) > self.reset_threshold:
            self.dag.reset_solver()
        self.prefix = prefix
        self.trace = []
        self.pc = []
        self.known = {}
        self.tokens = {}
        self.fresh_count = {}
        self.model = model if model is not None else {}
        self.memo = {}

    def _learn(self, lit: int, value: bool) -> None:
        self.known[lit >> 1] = value ^ bool(lit & 1)

    def add_pc(self, lit: int) -> None:
        self.pc.append(lit)
        self._learn(lit, True)
        # conjunctions: learn the conjuncts as well
        stack = [lit]
        kind, args = self.dag.kind, self.dag.args
        while stack:
            x = stack.pop()
            if not x & 1 and kind[x >> 1] == 2:
                for y in args[x >> 1]:
                    if y >> 1 not in self.known:
                        self._learn(y, True)
                        stack.append(y)

    def value(self, lit: int) -> bool:
        """Value of a literal under the current model of the path condition."""
        return self.dag.evaluate(lit, self.model, self.memo)

    def set_model(self, model: dict[int, bool]) -> None:
        self.model = model
        self.memo = {}

    def check_time(self) -> None:
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget("time budget exhausted")

    def decide(self, lit: int) -> bool:
        """Fork on a literal; returns the branch taken on this path."""
        if lit < 2:
            return bool(lit)
        known = self.known.get(lit >> 1)
        if known is not None:
            return known ^ bool(lit & 1)
        index = len(self.trace)
        if index < len(self.prefix):
            plit, value = self.prefix[index]
            if plit != lit:
                raise RuntimeError("non-deterministic re-execution")
            self.trace.append((lit, value))
            self.add_pc(lit if value else lit ^ 1)
            return value
        self.check_time()
        value = self.value(lit)
        other = lit ^ 1 if value else lit
        model = self.dag.solve(self.pc + [other])
        if model is not None:
            self.branches += 1
            self.pending.append((self.trace + [(lit, not value)], model))
        self.trace.append((lit, value))
        self.add_pc(lit if value else lit ^ 1)
        return value

    def assume(self, lit: int) -> None:
        """Restrict the current path to assignments satisfying the literal."""
        if lit == 1 or self.known.get(lit >> 1) == (not lit & 1):
            return
        if lit == 0 or self.known.get(lit >> 1) is not None:
            raise PathEnd
        if not self.value(lit):
            model = self.dag.solve(self.pc + [lit])
            if model is None:
                raise PathEnd
            self.set_model(model)
        self.add_pc(lit)

    def find(self, lit: int) -> dict[int, bool] | None:
        """A model of (path condition and literal), or None if there is none."""
        if lit == 0:
            return None
        if self.value(lit):
            return dict(self.model)
        self.check_time()
        return self.dag.solve(self.pc + [lit])

    def implied(self, lit: int) -> bool:
        return self.find(lit ^ 1) is None

    def run(self, func, on_end) -> None:
        """Run func() on every feasible path; call on_end(outcome) at the end of each."""
        self.pending = [([], None)]
        while self.pending:
            self.check_time()
            if self.paths >= self.max_paths:
                raise Budget(f"more than {self.max_paths} paths")
            prefix, model = self.pending.pop()
            self.start(prefix, model)
            try:
                outcome = func()
            except PathEnd:
                self.pruned += 1
                continue
            self.paths += 1
            on_end(outcome)


CURRENT: Engine | None = None


def current() -> Engine:
    assert CURRENT is not None, "no symbolic engine is active"
    return CURRENT


def set_current(engine: Engine | None) -> None:
    global CURRENT
    CURRENT = engine
