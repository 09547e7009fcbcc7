"""Symbolic model of the stim classes the code uses: Pauli strings and Clifford tableaus with symbolic bits and signs.

A Pauli string is i^p * prod_j X_j^(x_j) Z_j^(z_j) with symbolic bits; a tableau holds the images of X_j and Z_j.
Circuits are real stim circuits: only what they do (their tableau) is symbolic arithmetic from here on.
The model is compared with the real stim in every concrete validation of a path.
"""
from __future__ import annotations

import types

import numpy as np

from . import symnp as S
from . import values as V
from .engine import EngineGap

FALSE = 0


def _d():
    return V._dag()


def _lit(x) -> int:
    if isinstance(x, (bool, np.bool_, V.SymBool)):
        return V.blit(x)
    if isinstance(x, V.GFElem):
        return x.nonzero_lit()
    return V.blit(x != 0)


def _add_phase(a, b):
    d = _d()
    return d.xor_(d.xor_(a[0], b[0]), d.and_(a[1], b[1])), d.xor_(a[1], b[1])


def _parity(lits):
    d = _d()
    total = V.blit(False)
    for lit in lits:
        total = d.xor_(total, lit)
    return total


class Pauli:
    """Low-level Pauli operator: phase (hi, lo) lits, x lits, z lits."""

    def __init__(self, x, z, phase):
        self.x, self.z, self.phase = list(x), list(z), phase

    @classmethod
    def hermitian(cls, x, z, sign):
        """+-1 times the tensor product of I, X, Y, Z."""
        d = _d()
        phase = (sign, V.blit(False))
        for a, b in zip(x, z):
            phase = _add_phase(phase, (V.blit(False), d.and_(a, b)))
        return cls(x, z, phase)

    def times(self, other, cond=None):
        """self * other (if the condition holds)."""
        d = _d()
        gate = (lambda v: v) if cond is None else (lambda v: d.and_(cond, v))
        swap = gate(_parity(d.and_(a, b) for a, b in zip(self.z, other.x)))
        phase = _add_phase(self.phase, (gate(other.phase[0]), gate(other.phase[1])))
        phase = (d.xor_(phase[0], swap), phase[1])
        return Pauli([d.xor_(a, gate(b)) for a, b in zip(self.x, other.x)], [d.xor_(a, gate(b)) for a, b in zip(self.z, other.z)], phase)

    def sign_lit(self):
        """Sign bit relative to the tensor product of I, X, Y, Z (for Hermitian operators)."""
        d = _d()
        ys = (V.blit(False), V.blit(False))
        for a, b in zip(self.x, self.z):
            ys = _add_phase(ys, (V.blit(False), d.and_(a, b)))
        # phase - ys is 0 or 2
        return d.xor_(self.phase[0], ys[0])

    def anticommutes(self, other):
        d = _d()
        return d.xor_(_parity(d.and_(a, b) for a, b in zip(self.x, other.z)), _parity(d.and_(a, b) for a, b in zip(self.z, other.x)))


_CHARS = {"_": (0, 0), "I": (0, 0), "X": (1, 0), "Y": (1, 1), "Z": (0, 1)}


class PauliString:
    def __init__(self, source=0, *more):
        if more:
            raise EngineGap("unsupported PauliString arguments")
        if isinstance(source, PauliString):
            self.pauli = source.pauli
            return
        if isinstance(source, Pauli):
            self.pauli = source
            return
        if isinstance(source, (int, np.integer)):
            source = "_" * int(source)
        source = "".join(str(c) if not isinstance(c, (int, np.integer)) else "_XYZ"[int(c)] for c in source) if not isinstance(source, str) else source
        sign = False
        if source[:1] in "+-" and source[:1]:
            sign, source = source[0] == "-", source[1:]
        self.pauli = Pauli.hermitian([V.blit(bool(_CHARS[c][0])) for c in source], [V.blit(bool(_CHARS[c][1])) for c in source], V.blit(sign))

    @classmethod
    def from_numpy(cls, *, xs, zs, sign=1, num_qubits=None):
        xs, zs = [_lit(v) for v in S.raw(xs).reshape(-1)], [_lit(v) for v in S.raw(zs).reshape(-1)]
        return cls(Pauli.hermitian(xs, zs, V.blit(sign == -1)))

    def to_numpy(self, *, bit_packed=False):
        return _bools(self.pauli.x), _bools(self.pauli.z)

    def __len__(self):
        return len(self.pauli.x)

    @property
    def sign(self):
        return V.ite(V.mkbool(self.pauli.sign_lit()), -1, 1)

    def __getitem__(self, k):
        if isinstance(k, slice):
            return PauliString(Pauli.hermitian(self.pauli.x[k], self.pauli.z[k], V.blit(False)))
        x, z = bool(V.mkbool(self.pauli.x[k])), bool(V.mkbool(self.pauli.z[k]))
        return [[0, 3], [1, 2]][x][z]

    def __iter__(self):
        return (self[k] for k in range(len(self)))

    def pauli_indices(self, included="XYZ"):
        return [k for k in range(len(self)) if "IXYZ"[self[k]] in included.upper()]

    @property
    def weight(self):
        return len(self.pauli_indices())

    def __mul__(self, other):
        if isinstance(other, PauliString):
            return PauliString(self.pauli.times(other.pauli))
        if isinstance(other, int) and other in (1, -1):
            p = self.pauli
            return PauliString(Pauli(p.x, p.z, (p.phase[0] ^ (1 if other == -1 else 0), p.phase[1])))
        return NotImplemented

    __rmul__ = __mul__

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def commutes(self, other):
        return V.mkbool(self.pauli.anticommutes(other.pauli) ^ 1)

    def __eq__(self, other):
        if not isinstance(other, PauliString) or len(self) != len(other):
            return False
        d = _d()
        return V.mkbool(d.and_all([d.xor_(a, b) ^ 1 for a, b in zip([*self.pauli.x, *self.pauli.z, *self.pauli.phase], [*other.pauli.x, *other.pauli.z, *other.pauli.phase])]))

    def __ne__(self, other):
        return V.mkbool(V.blit(self == other) ^ 1)

    __hash__ = None

    def copy(self):
        return PauliString(self.pauli)

    def __str__(self):
        return ("-" if bool(self.sign == -1) else "+") + "".join("_XYZ"[k] for k in self)


def _bools(lits):
    return S.normalize_bools(S.obj_array([V.mkbool(x) for x in lits]))


class Tableau:
    def __init__(self, num_qubits):
        n = int(num_qubits)
        one, zero = V.blit(True), V.blit(False)
        unit = lambda k: [one if j == k else zero for j in range(n)]  # noqa: E731
        self.xs = [Pauli(unit(k), [zero] * n, (zero, zero)) for k in range(n)]
        self.zs = [Pauli([zero] * n, unit(k), (zero, zero)) for k in range(n)]

    @classmethod
    def _make(cls, xs, zs):
        self = cls(0)
        self.xs, self.zs = list(xs), list(zs)
        return self

    @classmethod
    def from_stim(cls, real):
        n = len(real)
        def convert(p):
            x, z = p.to_numpy()
            return Pauli.hermitian([V.blit(bool(v)) for v in x], [V.blit(bool(v)) for v in z], V.blit(p.sign == -1))
        return cls._make([convert(real.x_output(k)) for k in range(n)], [convert(real.z_output(k)) for k in range(n)])

    def _valid(self):
        d = _d()
        ops = [*self.xs, *self.zs]
        n = len(self.xs)
        if len(self.zs) != n or any(len(p.x) != n for p in ops):
            return False
        good = []
        for i, a in enumerate(ops):
            for j in range(i):
                good.append(a.anticommutes(ops[j]) ^ (0 if i - j == n else 1))
        return bool(V.mkbool(d.and_all(good)))

    @classmethod
    def from_conjugated_generators(cls, *, xs, zs):
        xs, zs = list(xs), list(zs)
        self = cls._make([p.pauli for p in xs], [p.pauli for p in zs])
        if len(xs) != len(zs):
            raise ValueError("len(xs) != len(zs)")
        if not self._valid():
            raise ValueError("The given generator outputs do not describe a valid Clifford operation.")
        return self

    @classmethod
    def from_numpy(cls, *, x2x, x2z, z2x, z2z, x_signs=None, z_signs=None):
        def rows(left, right, signs):
            left, right = S.raw(left), S.raw(right)
            out = []
            for k in range(left.shape[0]):
                sign = V.blit(False) if signs is None else _lit(S.raw(signs)[k])
                out.append(Pauli.hermitian([_lit(v) for v in left[k]], [_lit(v) for v in right[k]], sign))
            return out
        self = cls._make(rows(x2x, x2z, x_signs), rows(z2x, z2z, z_signs))
        if not self._valid():
            raise ValueError("The given tableau data don't describe a valid Clifford operation.")
        return self

    def to_numpy(self, *, bit_packed=False):
        n = len(self)
        def grid(ops, part):
            return S.normalize_bools(S.obj_array([V.mkbool(v) for p in ops for v in getattr(p, part)], (n, n)))
        return (grid(self.xs, "x"), grid(self.xs, "z"), grid(self.zs, "x"), grid(self.zs, "z"),
                _bools([p.sign_lit() for p in self.xs]), _bools([p.sign_lit() for p in self.zs]))

    def __len__(self):
        return len(self.xs)

    def _image(self, pauli):
        zero = V.blit(False)
        out = Pauli([zero] * len(self), [zero] * len(self), pauli.phase)
        for k in range(len(self)):
            out = out.times(self.xs[k], pauli.x[k])
            out = out.times(self.zs[k], pauli.z[k])
        return out

    def __call__(self, string):
        if len(string) != len(self):
            raise ValueError("len(pauli_string) != len(tableau)")
        return PauliString(self._image(string.pauli))

    def x_output(self, k):
        return PauliString(self.xs[k])

    def z_output(self, k):
        return PauliString(self.zs[k])

    def then(self, second):
        if len(self) != len(second):
            raise ValueError("len(self) != len(second)")
        return Tableau._make([second._image(p) for p in self.xs], [second._image(p) for p in self.zs])

    def __mul__(self, other):
        return other.then(self)

    def inverse(self, *, unsigned=False):
        n = len(self)
        zero = V.blit(False)
        def row(x, z):
            guess = Pauli.hermitian(x, z, zero)
            if unsigned:
                return guess
            # the image of the guess is +-1 times the generator: move the sign to the guess
            sign = self._image(guess).sign_lit()
            return Pauli.hermitian(x, z, sign)
        xs = [row([self.zs[j].z[k] for j in range(n)], [self.xs[j].z[k] for j in range(n)]) for k in range(n)]
        zs = [row([self.zs[j].x[k] for j in range(n)], [self.xs[j].x[k] for j in range(n)]) for k in range(n)]
        return Tableau._make(xs, zs)

    def __eq__(self, other):
        if not isinstance(other, Tableau) or len(self) != len(other):
            return False
        d = _d()
        return V.mkbool(d.and_all([V.blit(PauliString(a) == PauliString(b)) for a, b in zip([*self.xs, *self.zs], [*other.xs, *other.zs])]))

    def __ne__(self, other):
        return V.mkbool(V.blit(self == other) ^ 1)

    __hash__ = None

    def copy(self):
        return Tableau._make(self.xs, self.zs)

    def to_circuit(self, *args, **kwargs):
        return Circuit._of_tableau(self)

    def to_pauli_string(self):
        raise EngineGap("Tableau.to_pauli_string")


class Circuit:
    """A real circuit, or an opaque one known by its tableau."""

    def __init__(self, source=""):
        import stim

        self.tableau = None
        if isinstance(source, Circuit):
            self.real, self.tableau = source.real.copy(), source.tableau
        else:
            self.real = source.copy() if isinstance(source, stim.Circuit) else stim.Circuit(source)

    @classmethod
    def _of_tableau(cls, tableau):
        self = cls()
        self.tableau = tableau
        return self

    def _known(self):
        if self.tableau is not None:
            raise EngineGap("gates of a synthesized circuit")
        return self.real

    @staticmethod
    def _real(other):
        return other._known() if isinstance(other, Circuit) else other

    @property
    def num_qubits(self):
        return len(self.tableau) if self.tableau is not None else self.real.num_qubits

    def __add__(self, other):
        return Circuit(self._known() + self._real(other))

    def __radd__(self, other):
        return Circuit(self._real(other) + self._known())

    def __iadd__(self, other):
        self.real = self._known() + self._real(other)
        return self

    def __mul__(self, times):
        return Circuit(self._known() * times)

    __rmul__ = __mul__

    def append(self, name, targets=(), arg=()):
        targets = [int(t) for t in targets] if isinstance(targets, (list, tuple, np.ndarray, range, set, frozenset)) else int(targets)
        self._known().append(name, targets, arg)

    def to_tableau(self, **kwargs):
        return self.tableau if self.tableau is not None else Tableau.from_stim(self.real.to_tableau(**kwargs))

    def copy(self):
        return Circuit(self)

    def inverse(self):
        return Circuit._of_tableau(self.tableau.inverse()) if self.tableau is not None else Circuit(self.real.inverse())

    def __eq__(self, other):
        return isinstance(other, Circuit) and self._known() == other._known()

    __hash__ = None

    def __len__(self):
        return len(self._known())

    def __iter__(self):
        return iter(self._known())

    def __str__(self):
        return str(self._known())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self._known(), name)


def stubs():
    import stim

    module = types.ModuleType("stim")
    module.__getattr__ = lambda name: getattr(stim, name)
    module.PauliString, module.Tableau, module.Circuit = PauliString, Tableau, Circuit
    return {"stim": module}
