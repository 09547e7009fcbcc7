"""Hash-consed boolean DAG (AND/XOR/ITE with inverted edges) and its solver bridge.

A literal is an int 2*node+sign.  Node 0 is the constant FALSE, so literals 0/1 are FALSE/TRUE.
"""
from __future__ import annotations

import time

from .zz import z3

FALSE, TRUE = 0, 1
_VAR, _AND, _XOR, _ITE = 1, 2, 3, 4


class SolverUnknown(Exception):
    """The solver gave up on a query."""


class Dag:
    def __init__(self, timeout_ms: int = 120_000) -> None:
        self.kind = [0]
        self.args: list[tuple[int, ...]] = [()]
        self.names: list[str | None] = [None]
        self.table: dict[tuple, int] = {}
        self.vars: dict[str, int] = {}
        self.timeout_ms = timeout_ms
        self.z3lits: list = [None]
        self.reset_solver()
        self.queries = 0
        self.solver_time = 0.0

    def reset_solver(self) -> None:
        """Forget the encoded formulas (the solver assigns everything it has ever been given)."""
        self.solver = z3.SolverFor("QF_FD")
        self.solver.set("timeout", self.timeout_ms)
        self.encoded: set[int] = {0}

    # ---- construction ----
    def var(self, name: str) -> int:
        if name in self.vars:
            return self.vars[name]
        node = self._new(_VAR, (), name)
        self.vars[name] = 2 * node
        return 2 * node

    def _new(self, kind: int, args: tuple[int, ...], name: str | None = None) -> int:
        node = len(self.kind)
        self.kind.append(kind)
        self.args.append(args)
        self.names.append(name)
        self.z3lits.append(None)
        return node

    def _mk(self, kind: int, args: tuple[int, ...]) -> int:
        key = (kind, args)
        node = self.table.get(key)
        if node is None:
            node = self.table[key] = self._new(kind, args)
        return 2 * node

    def and_(self, a: int, b: int) -> int:
        if a == b:
            return a
        if a ^ b == 1 or a == 0 or b == 0:
            return 0
        if a == 1:
            return b
        if b == 1:
            return a
        if a > b:
            a, b = b, a
        # one-level absorption
        for x, y in ((a, b), (b, a)):
            if not y & 1 and self.kind[y >> 1] == _AND:
                p, q = self.args[y >> 1]
                if x == p or x == q:
                    return y
                if x ^ 1 == p or x ^ 1 == q:
                    return 0
            elif y & 1 and self.kind[y >> 1] == _AND:
                p, q = self.args[y >> 1]
                if x ^ 1 == p or x ^ 1 == q:
                    return x
        return self._mk(_AND, (a, b))

    def or_(self, a: int, b: int) -> int:
        return self.and_(a ^ 1, b ^ 1) ^ 1

    def xor_(self, a: int, b: int) -> int:
        sign = (a ^ b) & 1
        a &= ~1
        b &= ~1
        if a == b:
            return sign
        if a == 0:
            return b ^ sign
        if b == 0:
            return a ^ sign
        if a > b:
            a, b = b, a
        # x ^ (x ^ y) -> y
        for x, y in ((a, b), (b, a)):
            if self.kind[y >> 1] == _XOR:
                p, q = self.args[y >> 1]
                if x == p:
                    return q ^ sign
                if x == q:
                    return p ^ sign
        return self._mk(_XOR, (a, b)) ^ sign

    def ite(self, c: int, t: int, e: int) -> int:
        if c == 1 or t == e:
            return t
        if c == 0:
            return e
        if c & 1:
            c, t, e = c ^ 1, e, t
        if t == 1:
            return self.or_(c, e)
        if t == 0:
            return self.and_(c ^ 1, e)
        if e == 0:
            return self.and_(c, t)
        if e == 1:
            return self.or_(c ^ 1, t)
        if t == c:
            return self.or_(c, e)
        if t == c ^ 1:
            return self.and_(c ^ 1, e)
        if e == c:
            return self.and_(c, t)
        if e == c ^ 1:
            return self.or_(c ^ 1, t)
        if t ^ e == 1:
            return self.xor_(c, e)
        if t & 1:
            return self._mk(_ITE, (c, t ^ 1, e ^ 1)) ^ 1
        return self._mk(_ITE, (c, t, e))

    def and_all(self, lits) -> int:
        lits = list(lits)
        if not lits:
            return 1
        while len(lits) > 1:
            lits = [
                self.and_(lits[i], lits[i + 1]) if i + 1 < len(lits) else lits[i]
                for i in range(0, len(lits), 2)
            ]
        return lits[0]

    def or_all(self, lits) -> int:
        return self.and_all([x ^ 1 for x in lits]) ^ 1

    # ---- evaluation ----
    def evaluate(self, lit: int, model: dict[int, bool], memo: dict[int, bool]) -> bool:
        """Evaluate a literal; model maps VAR nodes to values (default False)."""
        root = lit >> 1
        if root not in memo:
            stack = [root]
            kind, args = self.kind, self.args
            while stack:
                node = stack[-1]
                if node in memo:
                    stack.pop()
                    continue
                kk = kind[node]
                if kk == 0:
                    memo[node] = False
                elif kk == _VAR:
                    memo[node] = model.get(node, False)
                else:
                    missing = [a >> 1 for a in args[node] if (a >> 1) not in memo]
                    if missing:
                        stack.extend(missing)
                        continue
                    vals = [memo[a >> 1] ^ bool(a & 1) for a in args[node]]
                    if kk == _AND:
                        memo[node] = vals[0] and vals[1]
                    elif kk == _XOR:
                        memo[node] = vals[0] != vals[1]
                    else:
                        memo[node] = vals[1] if vals[0] else vals[2]
                stack.pop()
        return memo[root] ^ bool(lit & 1)

    # ---- solving ----
    def z3lit(self, lit: int):
        node = lit >> 1
        if node == 0:
            return z3.BoolVal(bool(lit & 1))
        self._encode(node)
        expr = self.z3lits[node]
        return z3.Not(expr) if lit & 1 else expr

    def _encode(self, root: int) -> None:
        if root in self.encoded:
            return
        stack = [root]
        while stack:
            node = stack[-1]
            if node in self.encoded:
                stack.pop()
                continue
            if self.kind[node] == _VAR:
                self.z3lits[node] = z3.Bool(f"v{node}")
                self.encoded.add(node)
                stack.pop()
                continue
            missing = [a >> 1 for a in self.args[node] if (a >> 1) not in self.encoded]
            if missing:
                stack.extend(missing)
                continue
            me = z3.Bool(f"n{node}")
            ops = [self._signed(a) for a in self.args[node]]
            if self.kind[node] == _AND:
                self.solver.add(me == z3.And(*ops))
            elif self.kind[node] == _XOR:
                self.solver.add(me == z3.Xor(*ops))
            else:
                self.solver.add(me == z3.If(*ops))
            self.z3lits[node] = me
            self.encoded.add(node)
            stack.pop()

    def _signed(self, lit: int):
        expr = self.z3lits[lit >> 1]
        return z3.Not(expr) if lit & 1 else expr

    def solve(self, lits) -> dict[int, bool] | None:
        """Return a model of the conjunction of the given literals, or None if unsatisfiable."""
        assumptions = []
        for lit in lits:
            if lit == 0:
                return None
            if lit != 1:
                assumptions.append(self.z3lit(lit))
        start = time.perf_counter()
        result = self.solver.check(*assumptions)
        self.solver_time += time.perf_counter() - start
        self.queries += 1
        if result == z3.unsat:
            return None
        if result != z3.sat:
            raise SolverUnknown(self.solver.reason_unknown())
        z3model = self.solver.model()
        model = {}
        for node in self.vars.values():
            node >>= 1
            if node in self.encoded:
                model[node] = z3.is_true(z3model.eval(self.z3lits[node], model_completion=False))
        return model
