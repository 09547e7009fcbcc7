"""Symbolic scalars: booleans, unbounded integers, 64-bit words and finite-field elements."""
from __future__ import annotations

import functools
import numbers

import numpy as np

from . import engine as _e
from .engine import EngineGap


def _dag():
    return _e.CURRENT.dag


def is_conc_int(x) -> bool:
    return isinstance(x, (int, np.integer, np.bool_))


# ---------------------------------------------------------------- booleans
def mkbool(lit: int):
    if lit < 2:
        return bool(lit)
    known = _e.CURRENT.known.get(lit >> 1)
    if known is not None:
        return known ^ bool(lit & 1)
    return SymBool(lit)


def blit(x) -> int:
    """Literal of a truth value (without forking)."""
    if isinstance(x, SymBool):
        return x.lit
    if isinstance(x, SymInt):
        return _dag().or_all(x.bits)
    if isinstance(x, SymWord):
        return _dag().or_all(x.bits)
    if isinstance(x, GFElem):
        return x.nonzero_lit()
    if isinstance(x, np.ndarray):
        if x.size != 1:
            raise ValueError("The truth value of an array with more than one element is ambiguous")
        return blit(x.reshape(-1).view(np.ndarray)[0] if x.dtype == object else x.item())
    return int(bool(x))


class SymBool:
    __slots__ = ("lit",)
    __array_priority__ = -100

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, lit: int) -> None:
        self.lit = lit

    def __bool__(self) -> bool:
        return _e.CURRENT.decide(self.lit)

    def __invert__(self):
        return mkbool(self.lit ^ 1)

    logical_not = __invert__

    def _bin(self, other, op):
        if isinstance(other, (bool, np.bool_, SymBool)):
            return mkbool(op(self.lit, blit(other)))
        return NotImplemented

    def __and__(self, other):
        r = self._bin(other, _dag().and_)
        return to_int(self) & other if r is NotImplemented else r

    __rand__ = __and__

    def __or__(self, other):
        r = self._bin(other, _dag().or_)
        return to_int(self) | other if r is NotImplemented else r

    __ror__ = __or__

    def __xor__(self, other):
        r = self._bin(other, _dag().xor_)
        return to_int(self) ^ other if r is NotImplemented else r

    __rxor__ = __xor__

    def logical_and(self, other):
        return mkbool(_dag().and_(self.lit, blit(other)))

    def logical_or(self, other):
        return mkbool(_dag().or_(self.lit, blit(other)))

    def __eq__(self, other):
        if isinstance(other, (bool, np.bool_, SymBool)):
            return mkbool(_dag().xor_(self.lit, blit(other)) ^ 1)
        return to_int(self) == other

    def __ne__(self, other):
        r = self.__eq__(other)
        return (not r) if isinstance(r, bool) else ~r

    def __hash__(self) -> int:
        return hash(bool(self))

    def __int__(self) -> int:
        return int(bool(self))

    __index__ = __int__

    def __str__(self) -> str:
        return str(bool(self))

    __repr__ = __str__

    def __add__(self, other):
        return to_int(self) + other

    __radd__ = __add__

    def __sub__(self, other):
        return to_int(self) - other

    def __rsub__(self, other):
        return other - to_int(self)

    def __mul__(self, other):
        return to_int(self) * other

    __rmul__ = __mul__

    def __mod__(self, other):
        return to_int(self) % other

    def __lt__(self, other):
        return to_int(self) < other

    def __le__(self, other):
        return to_int(self) <= other

    def __gt__(self, other):
        return to_int(self) > other

    def __ge__(self, other):
        return to_int(self) >= other


# ---------------------------------------------------------------- integers
def const_bits(value: int) -> list[int]:
    value = int(value)
    width = value.bit_length() + 1 if value >= 0 else (value + 1).bit_length() + 1
    return [(value >> i) & 1 for i in range(width)]


def mkint(bits):
    """Two's-complement bits (sign last) -> python int or SymInt."""
    bits = list(bits)
    known = _e.CURRENT.known
    for i, b in enumerate(bits):
        if b > 1:
            k = known.get(b >> 1)
            if k is not None:
                bits[i] = int(k ^ bool(b & 1))
    while len(bits) > 1 and bits[-1] == bits[-2]:
        bits.pop()
    if all(b < 2 for b in bits):
        value = sum(b << i for i, b in enumerate(bits[:-1]))
        return value - (bits[-1] << (len(bits) - 1))
    return SymInt(bits)


def int_bits(x) -> list[int]:
    if isinstance(x, SymInt):
        return x.bits
    if isinstance(x, SymBool):
        return [x.lit, 0]
    if isinstance(x, (GFElem, SymWord)):
        return list(x.bits) + [0]
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return int_bits(x[()] if x.dtype != object else x.view(np.ndarray)[()])
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return const_bits(int(x))
    return const_bits(int(x))


def to_int(x):
    """Integer view of any scalar (without forking)."""
    if isinstance(x, (SymInt, int)) and not isinstance(x, bool):
        return x
    if isinstance(x, (SymBool, GFElem, SymWord)):
        return mkint(int_bits(x))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return to_int(x.view(np.ndarray)[()])
    if isinstance(x, str):
        return untoken(x)
    return int(x)


def _ext(bits, width):
    return bits + [bits[-1]] * (width - len(bits))


def add_bits(a, b, carry: int = 0):
    width = max(len(a), len(b)) + 1
    a, b = _ext(list(a), width), _ext(list(b), width)
    return add_fixed(a, b, carry)


def add_fixed(a, b, carry: int = 0):
    d = _dag()
    out = []
    for x, y in zip(a, b):
        xy = d.xor_(x, y)
        out.append(d.xor_(xy, carry))
        carry = d.or_(d.and_(x, y), d.and_(carry, xy))
    return out


def neg_bits(a):
    a = _ext(list(a), len(a) + 1)
    return add_fixed([x ^ 1 for x in a], [0] * len(a), 1)


def mux_bits(c: int, a, b):
    width = max(len(a), len(b))
    d = _dag()
    return [d.ite(c, x, y) for x, y in zip(_ext(list(a), width), _ext(list(b), width))]


_NUM = (int, np.integer, np.bool_, SymBool)


def _coerce(x):
    """Bits of an integer-like operand or None."""
    if isinstance(x, SymInt):
        return x.bits
    if isinstance(x, SymBool):
        return [x.lit, 0]
    if isinstance(x, (int, np.integer, np.bool_)):
        return const_bits(int(x))
    if isinstance(x, (float, np.floating)) and float(x).is_integer():
        return const_bits(int(x))
    return None


class SymInt:
    """Unbounded signed integer as two's-complement bit literals."""

    __slots__ = ("bits",)
    __array_priority__ = -100

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, bits) -> None:
        self.bits = bits

    # -- escape hatches: decide the value by forking --
    def concretize(self) -> int:
        eng = _e.CURRENT
        bits = [int(eng.decide(b)) for b in reversed(self.bits)][::-1]
        return sum(b << i for i, b in enumerate(bits[:-1])) - (bits[-1] << (len(bits) - 1))

    __int__ = concretize
    __index__ = concretize

    def __float__(self) -> float:
        return float(self.concretize())

    def __hash__(self) -> int:
        return hash(self.concretize())

    def __bool__(self) -> bool:
        return _e.CURRENT.decide(_dag().or_all(self.bits))

    def __str__(self) -> str:
        return token(self)

    __repr__ = __str__

    def __format__(self, spec: str) -> str:
        return format(self.concretize(), spec) if spec else token(self)

    def item(self):
        return self

    def astype(self, dtype):
        return np_cast(self, dtype)

    # -- arithmetic --
    def __add__(self, other):
        b = _coerce(other)
        return NotImplemented if b is None else mkint(add_bits(self.bits, b))

    __radd__ = __add__

    def __neg__(self):
        return mkint(neg_bits(self.bits))

    def __pos__(self):
        return self

    def __abs__(self):
        return mkint(mux_bits(self.bits[-1], neg_bits(self.bits), self.bits))

    def __sub__(self, other):
        b = _coerce(other)
        if b is None:
            return NotImplemented
        width = max(len(self.bits), len(b)) + 1
        return mkint(add_fixed(_ext(list(self.bits), width), [x ^ 1 for x in _ext(list(b), width)], 1))

    def __rsub__(self, other):
        b = _coerce(other)
        return NotImplemented if b is None else mkint(add_bits(b, neg_bits(self.bits)))

    def __mul__(self, other):
        b = _coerce(other)
        if b is None:
            return NotImplemented
        a = self.bits
        if sum(x > 1 for x in a) < sum(x > 1 for x in b):
            a, b = b, a
        # sum over bits of b (sign bit negative)
        width = len(a) + len(b)
        d = _dag()
        acc = [0] * width
        for i, bit in enumerate(b):
            if bit == 0:
                continue
            row = _ext([0] * i + list(a), width)[:width]
            row = [d.and_(x, bit) for x in row]
            if i == len(b) - 1:
                acc = add_fixed(acc, [x ^ 1 for x in row], 1)
            else:
                acc = add_fixed(acc, row)
        return mkint(acc)

    __rmul__ = __mul__

    def _divisor(self, other) -> int:
        if isinstance(other, (SymInt, SymBool)):
            other = int(other)
        other = int(other)
        if other == 0:
            raise ZeroDivisionError("integer modulo by zero")
        return other

    def __mod__(self, other):
        if _coerce(other) is None:
            return NotImplemented
        m = self._divisor(other)
        if m < 0:
            raise EngineGap("negative modulus")
        if m & (m - 1) == 0:
            k = m.bit_length() - 1
            return mkint(_ext(list(self.bits), max(k, len(self.bits)))[:k] + [0])
        # residue by bit weights, repeated until small, then conditional subtraction
        bits = list(self.bits)
        n = len(bits) - 1
        total = mkint([0])
        for i, b in enumerate(bits):
            weight = pow(2, i, m) if i < n else (-pow(2, n, m)) % m
            total = total + mkint([b, 0]) * weight
        bound = sum((pow(2, i, m) if i < n else (-pow(2, n, m)) % m) * (b != 0) for i, b in enumerate(bits))
        step = m
        while step * 2 <= bound:
            step *= 2
        while step >= m:
            total = ite(total >= step, total - step, total)
            step //= 2
        return total

    def __rmod__(self, other):
        return other % self.concretize()

    def __floordiv__(self, other):
        if _coerce(other) is None:
            return NotImplemented
        m = self._divisor(other)
        if m < 0:
            return (-self) // (-m)
        if m & (m - 1) == 0:
            return self >> (m.bit_length() - 1)
        diff = self - self % m
        # exact division of diff by m, via restoring division on |diff|
        diff = to_sym_bits(diff)
        sign = diff[-1]
        mag = int_bits(abs(mkint(diff)))
        quotient = [0] * len(mag)
        rem = 0
        for i in range(len(mag) - 1, -1, -1):
            rem = rem * 2 + mkint([mag[i], 0])
            ge = blit(rem >= m)
            quotient[i] = ge
            rem = ite(mkbool(ge), rem - m, rem)
        quotient = quotient + [0]
        return mkint(mux_bits(sign, neg_bits(quotient), quotient))

    def __rfloordiv__(self, other):
        return other // self.concretize()

    def __divmod__(self, other):
        return self // other, self % other

    def __truediv__(self, other):
        return self.concretize() / other

    def __rtruediv__(self, other):
        return other / self.concretize()

    def __pow__(self, other):
        out = 1
        for _ in range(int(other)):
            out = self * out
        return out

    def __rpow__(self, other):
        return other ** self.concretize()

    def __lshift__(self, other):
        return mkint([0] * int(other) + list(self.bits))

    def __rlshift__(self, other):
        return other << self.concretize()

    def __rshift__(self, other):
        k = int(other)
        return mkint(list(self.bits[k:]) or [self.bits[-1]])

    def __rrshift__(self, other):
        return other >> self.concretize()

    def _bitop(self, other, op):
        b = _coerce(other)
        if b is None:
            return NotImplemented
        width = max(len(self.bits), len(b))
        return mkint([op(x, y) for x, y in zip(_ext(list(self.bits), width), _ext(list(b), width))])

    def __and__(self, other):
        return self._bitop(other, _dag().and_)

    __rand__ = __and__

    def __or__(self, other):
        return self._bitop(other, _dag().or_)

    __ror__ = __or__

    def __xor__(self, other):
        return self._bitop(other, _dag().xor_)

    __rxor__ = __xor__

    def __invert__(self):
        return mkint([b ^ 1 for b in self.bits])

    def bit_count(self):
        total = 0
        for b in int_bits(abs(self)):
            total = total + mkint([b, 0])
        return total

    def bit_length(self):
        return self.concretize().bit_length()

    # -- comparison --
    def __eq__(self, other):
        b = _coerce(other)
        if b is None:
            return NotImplemented if not isinstance(other, str) else False
        d = _dag()
        width = max(len(self.bits), len(b))
        return mkbool(d.and_all(
            d.xor_(x, y) ^ 1 for x, y in zip(_ext(list(self.bits), width), _ext(list(b), width))
        ))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def _lt(self, a, b):
        width = max(len(a), len(b)) + 1
        diff = add_fixed(_ext(list(a), width), [x ^ 1 for x in _ext(list(b), width)], 1)
        return diff[-1]

    def __lt__(self, other):
        if isinstance(other, float):
            return self.concretize() < other if other not in (float("inf"), float("-inf")) else other > 0
        b = _coerce(other)
        return NotImplemented if b is None else mkbool(self._lt(self.bits, b))

    def __gt__(self, other):
        if isinstance(other, float):
            return self.concretize() > other if other not in (float("inf"), float("-inf")) else other < 0
        b = _coerce(other)
        return NotImplemented if b is None else mkbool(self._lt(b, self.bits))

    def __le__(self, other):
        r = self.__gt__(other)
        return r if r is NotImplemented else ((not r) if isinstance(r, bool) else ~r)

    def __ge__(self, other):
        r = self.__lt__(other)
        return r if r is NotImplemented else ((not r) if isinstance(r, bool) else ~r)


def to_sym_bits(x):
    return list(int_bits(x))


numbers.Integral.register(SymInt)


# ---------------------------------------------------------------- fixed-width words
class SymWord:
    """Unsigned fixed-width machine word (numpy semantics: wraps silently)."""

    __slots__ = ("bits",)
    __array_priority__ = -100

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, bits) -> None:
        self.bits = bits

    @property
    def width(self) -> int:
        return len(self.bits)

    def concretize(self) -> int:
        eng = _e.CURRENT
        return sum(int(eng.decide(b)) << i for i, b in enumerate(self.bits))

    __int__ = concretize
    __index__ = concretize

    def __hash__(self) -> int:
        return hash(self.concretize())

    def __bool__(self) -> bool:
        return _e.CURRENT.decide(_dag().or_all(self.bits))

    def __str__(self) -> str:
        return str(self.concretize())

    __repr__ = __str__

    def _other(self, other):
        """Operand bits at the promoted width."""
        if isinstance(other, SymWord):
            width = max(self.width, other.width)
            return width, other.bits + [0] * (width - other.width)
        if isinstance(other, np.unsignedinteger):
            width = max(self.width, other.dtype.itemsize * 8)
            return width, [(int(other) >> i) & 1 for i in range(width)]
        if isinstance(other, np.ndarray) and other.ndim == 0:
            return self._other(other[()])
        if isinstance(other, (int, np.bool_)):
            value = int(other)
            if not 0 <= value < 2**self.width:
                raise OverflowError(
                    f"Python integer {value} out of bounds for uint{self.width}"
                )
            return self.width, [(value >> i) & 1 for i in range(self.width)]
        if isinstance(other, (SymInt, SymBool)):
            bits = int_bits(other)
            return self.width, (_ext(bits, self.width + 1))[: self.width]
        if isinstance(other, np.signedinteger):
            raise EngineGap("mixed signed/unsigned word arithmetic")
        return None, None

    def _self(self, width):
        return self.bits + [0] * (width - self.width)

    def _map2(self, other, op):
        width, b = self._other(other)
        if width is None:
            return NotImplemented
        return SymWord([op(x, y) for x, y in zip(self._self(width), b)])

    def __and__(self, other):
        return self._map2(other, _dag().and_)

    __rand__ = __and__

    def __or__(self, other):
        return self._map2(other, _dag().or_)

    __ror__ = __or__

    def __xor__(self, other):
        return self._map2(other, _dag().xor_)

    __rxor__ = __xor__

    def __invert__(self):
        return SymWord([b ^ 1 for b in self.bits])

    def __add__(self, other):
        width, b = self._other(other)
        return NotImplemented if width is None else SymWord(add_fixed(self._self(width), b))

    __radd__ = __add__

    def __sub__(self, other):
        width, b = self._other(other)
        if width is None:
            return NotImplemented
        return SymWord(add_fixed(self._self(width), [x ^ 1 for x in b], 1))

    def __rsub__(self, other):
        width, b = self._other(other)
        if width is None:
            return NotImplemented
        return SymWord(add_fixed(b, [x ^ 1 for x in self._self(width)], 1))

    def __mul__(self, other):
        width, b = self._other(other)
        if width is None:
            return NotImplemented
        d = _dag()
        a = self._self(width)
        if sum(x > 1 for x in a) < sum(x > 1 for x in b):
            a, b = b, a
        acc = [0] * width
        for i, bit in enumerate(b):
            if bit:
                acc = add_fixed(acc, [d.and_(x, bit) for x in ([0] * i + a)[:width]])
        return SymWord(acc)

    __rmul__ = __mul__

    @staticmethod
    def _amount(other) -> int:
        return int(other)

    def __rshift__(self, other):
        k = self._amount(other)
        return SymWord((self.bits[k:] + [0] * k)[: self.width]) if k < self.width else SymWord([0] * self.width)

    def __lshift__(self, other):
        k = self._amount(other)
        return SymWord(([0] * k + self.bits)[: self.width])

    def __rlshift__(self, other):
        return other << self.concretize()

    def __rrshift__(self, other):
        return other >> self.concretize()

    def bit_count(self):
        """np.bitwise_count: result has type uint8."""
        words = [[b] for b in self.bits]
        total = sum_bits(words)
        return SymWord((total + [0] * 8)[:8])

    def __eq__(self, other):
        width, b = self._other(other)
        if width is None:
            return NotImplemented
        d = _dag()
        return mkbool(d.and_all(d.xor_(x, y) ^ 1 for x, y in zip(self._self(width), b)))

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, other):
        return to_int(self) < to_int(other)

    def __gt__(self, other):
        return to_int(self) > to_int(other)

    def __le__(self, other):
        return to_int(self) <= to_int(other)

    def __ge__(self, other):
        return to_int(self) >= to_int(other)

    def item(self):
        return to_int(self)


def sum_bits(words):
    """Balanced sum of unsigned little-endian bit lists."""
    words = list(words) or [[0]]
    while len(words) > 1:
        nxt = []
        for i in range(0, len(words) - 1, 2):
            a, b = words[i], words[i + 1]
            width = max(len(a), len(b)) + 1
            nxt.append(add_fixed(a + [0] * (width - len(a)), b + [0] * (width - len(b))))
        if len(words) % 2:
            nxt.append(words[-1])
        words = nxt
    return words[0]


def word(x, width: int = 64):
    """Cast a scalar to an unsigned word."""
    if isinstance(x, SymWord):
        return SymWord((x.bits + [0] * width)[:width])
    if isinstance(x, (SymInt, SymBool, GFElem)):
        return SymWord(_ext(list(int_bits(x)), width + 1)[:width])
    value = int(x)
    if not 0 <= value < 2**width:
        raise OverflowError(f"Python integer {value} out of bounds for uint{width}")
    return SymWord([(value >> i) & 1 for i in range(width)])


# ---------------------------------------------------------------- finite fields
class FieldInfo:
    """Arithmetic tables of GF(q), read off the real galois library."""

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, order: int) -> None:
        import galois

        real = galois.GF(order)
        self.real = real
        self.order = order
        self.p = int(real.characteristic)
        self.degree = int(real.degree)
        self.nbits = (order - 1).bit_length()
        elements = real.elements
        self.add_t = [[int(v) for v in row] for row in np.add.outer(elements, elements)]
        self.mul_t = [[int(v) for v in row] for row in np.multiply.outer(elements, elements)]
        self.neg_t = [int(v) for v in -elements]
        self.inv_t = [0] + [int(v) for v in np.reciprocal(elements[1:])]
        self.consts = [GFElem(self, [(v >> i) & 1 for i in range(self.nbits)], v) for v in range(order)]

    def scalar(self, value: int) -> "GFElem":
        """The image of an integer in the prime subfield."""
        return self.consts[int(value) % self.p]

    def valid_lit(self, bits) -> int:
        """Is the bit pattern a valid element?"""
        if self.order == 2**self.nbits:
            return 1
        return mkint_lt(bits, self.order)

    def onehot(self, elem: "GFElem"):
        if elem.hot is None:
            d = _dag()
            elem.hot = [
                d.and_all(b if (v >> i) & 1 else b ^ 1 for i, b in enumerate(elem.bits))
                for v in range(self.order)
            ]
        return elem.hot

    def from_onehot(self, hot) -> "GFElem":
        d = _dag()
        return self.make([
            d.or_all(hot[v] for v in range(self.order) if (v >> i) & 1) for i in range(self.nbits)
        ])

    def make(self, bits) -> "GFElem":
        known = _e.CURRENT.known
        out = []
        for b in bits:
            if b > 1:
                k = known.get(b >> 1)
                if k is not None:
                    b = int(k ^ bool(b & 1))
            out.append(b)
        if all(b < 2 for b in out):
            value = sum(b << i for i, b in enumerate(out))
            if value >= self.order:
                raise EngineGap("invalid field element")
            return self.consts[value]
        return GFElem(self, out)

    def table1(self, table, a: "GFElem") -> "GFElem":
        if a.const is not None:
            return self.consts[table[a.const]]
        hot = self.onehot(a)
        d = _dag()
        return self.make([
            d.or_all(hot[v] for v in range(self.order) if (table[v] >> i) & 1)
            for i in range(self.nbits)
        ])

    def table2(self, table, a: "GFElem", b: "GFElem") -> "GFElem":
        if a.const is not None:
            return self.table1(table[a.const], b)
        if b.const is not None:
            return self.table1([row[b.const] for row in table], a)
        ha, hb = self.onehot(a), self.onehot(b)
        d = _dag()
        terms: list[list[int]] = [[] for _ in range(self.order)]
        for v in range(self.order):
            for w in range(self.order):
                terms[table[v][w]].append(d.and_(ha[v], hb[w]))
        return self.from_onehot([d.or_all(t) for t in terms])


def mkint_lt(bits, bound: int) -> int:
    """Literal of (unsigned bits < bound)."""
    r = mkint(list(bits) + [0]) < bound
    return blit(r)


@functools.cache
def field_info(order: int) -> FieldInfo:
    return FieldInfo(order)


class GFElem:
    """Element of a finite field (a galois scalar)."""

    __slots__ = ("info", "bits", "const", "hot")
    __array_priority__ = -100

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def __init__(self, info, bits, const=None) -> None:
        self.info = info
        self.bits = bits
        self.const = const
        self.hot = None
        if const is not None:
            self.hot = [int(v == const) for v in range(info.order)]

    def nonzero_lit(self) -> int:
        if self.const is not None:
            return int(self.const != 0)
        return _dag().or_all(self.bits)

    def _lift(self, other, mul: bool = False):
        if isinstance(other, GFElem):
            if other.info is not self.info:
                raise TypeError("operands belong to different fields")
            return other
        if isinstance(other, (int, np.integer, np.bool_)):
            value = int(other)
            if mul:
                return self.info.scalar(value)
            if not 0 <= value < self.info.order:
                raise ValueError(f"{value} is not an element of GF({self.info.order})")
            return self.info.consts[value]
        if isinstance(other, (SymInt, SymBool)):
            return int_to_field(self.info, other % self.info.p if mul else other)
        return None

    @staticmethod
    def _with_array(name, a, b):
        """A field scalar combined with an array is an array over the field."""
        if not isinstance(a, np.ndarray) and not isinstance(b, np.ndarray):
            return NotImplemented
        from . import symnp as S

        return S.scalar_with_array(getattr(np, name), a, b)

    def __add__(self, other):
        o = self._lift(other)
        if o is None:
            return self._with_array("add", self, other)
        if self.const == 0:
            return o
        if o.const == 0:
            return self
        if self.info.p == 2:
            d = _dag()
            return self.info.make([d.xor_(x, y) for x, y in zip(self.bits, o.bits)])
        return self.info.table2(self.info.add_t, self, o)

    __radd__ = __add__

    def __neg__(self):
        if self.info.p == 2:
            return self
        return self.info.table1(self.info.neg_t, self)

    def __pos__(self):
        return self

    def __sub__(self, other):
        o = self._lift(other)
        return self._with_array("subtract", self, other) if o is None else self + (-o)

    def __rsub__(self, other):
        o = self._lift(other)
        return self._with_array("subtract", other, self) if o is None else o + (-self)

    def __mul__(self, other):
        o = self._lift(other, mul=True)
        if o is None:
            return self._with_array("multiply", self, other)
        if self.const == 0 or o.const == 0:
            return self.info.consts[0]
        if self.const == 1:
            return o
        if o.const == 1:
            return self
        if self.info.order == 2:
            return self.info.make([_dag().and_(self.bits[0], o.bits[0])])
        return self.info.table2(self.info.mul_t, self, o)

    __rmul__ = __mul__

    def inverse(self):
        if self.const is not None:
            if self.const == 0:
                raise ZeroDivisionError("Cannot compute the multiplicative inverse of 0 in a Galois field.")
        elif not _e.CURRENT.decide(self.nonzero_lit()):
            raise ZeroDivisionError("Cannot compute the multiplicative inverse of 0 in a Galois field.")
        if self.info.order == 2:
            return self.info.consts[1]
        return self.info.table1(self.info.inv_t, self)

    def __truediv__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else self * o.inverse()

    __floordiv__ = __truediv__

    def __rtruediv__(self, other):
        o = self._lift(other)
        return NotImplemented if o is None else o * self.inverse()

    def __pow__(self, other):
        k = int(other)
        base = self
        if k < 0:
            base, k = self.inverse(), -k
        out = self.info.consts[1]
        for _ in range(k):
            out = out * base
        return out

    def __eq__(self, other):
        if isinstance(other, GFElem) and other.info is not self.info:
            return False
        if isinstance(other, (GFElem, SymInt, SymBool, int, np.integer, np.bool_)):
            a, b = int_bits(self), int_bits(other)
            width = max(len(a), len(b))
            d = _dag()
            return mkbool(d.and_all(
                d.xor_(x, y) ^ 1 for x, y in zip(_ext(a, width), _ext(list(b), width))
            ))
        return NotImplemented

    def __ne__(self, other):
        r = self.__eq__(other)
        if r is NotImplemented:
            return r
        return (not r) if isinstance(r, bool) else ~r

    def __lt__(self, other):
        return to_int(self) < to_int(other)

    def __le__(self, other):
        return to_int(self) <= to_int(other)

    def __gt__(self, other):
        return to_int(self) > to_int(other)

    def __ge__(self, other):
        return to_int(self) >= to_int(other)

    def __bool__(self) -> bool:
        return _e.CURRENT.decide(self.nonzero_lit())

    def __int__(self) -> int:
        if self.const is not None:
            return self.const
        value = to_int(self)
        return value if isinstance(value, int) else value.concretize()

    __index__ = __int__

    def __hash__(self) -> int:
        return hash(int(self))

    def __and__(self, other):
        return to_int(self) & to_int(other)

    def __or__(self, other):
        return to_int(self) | to_int(other)

    def __xor__(self, other):
        return to_int(self) ^ to_int(other)

    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__

    def __mod__(self, other):
        return to_int(self) % other

    def __str__(self) -> str:
        value = to_int(self)
        return str(value) if isinstance(value, int) else token(value)

    __repr__ = __str__

    def __format__(self, spec: str) -> str:
        return format(int(self), spec) if spec else str(self)

    def item(self):
        return to_int(self)

    def copy(self):
        return self

    @property
    def shape(self):
        return ()

    @property
    def ndim(self):
        return 0

    @property
    def size(self):
        return 1

    def view(self, cls):
        if getattr(cls, "is_symbolic_field", False):
            return int_to_field(cls.info, to_int(self))
        return to_int(self)

    def any(self):
        return mkbool(self.nonzero_lit())

    all = any


def int_to_field(info: FieldInfo, x) -> GFElem:
    """Reinterpret an integer as a field element (error if it may be out of range)."""
    if isinstance(x, GFElem):
        if x.info is info:
            return x
        x = to_int(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return int_to_field(info, x.view(np.ndarray)[()])
    if isinstance(x, (float, np.floating)):
        raise TypeError("field arrays must have integer dtypes, not float")
    if isinstance(x, SymWord):
        x = to_int(x)
    if isinstance(x, (SymInt, SymBool)):
        bits = list(int_bits(x))
        if len(bits) - 1 > info.nbits or bits[-1] != 0 or info.order != 2**info.nbits:
            ok = blit((mkint(bits) >= 0)) if bits[-1] != 0 else 1
            ok = _dag().and_(ok, blit(mkint(bits) < info.order))
            if not _e.CURRENT.decide(ok):
                raise ValueError(f"GF({info.order}) arrays must have elements in 0 <= x < {info.order}")
        bits = bits[: info.nbits] if len(bits) > info.nbits else bits[:-1] + [0] * (info.nbits - len(bits) + 1)
        return info.make(bits)
    value = int(x)
    if not 0 <= value < info.order:
        raise ValueError(
            f"GF({info.order}) arrays must have elements in 0 <= x < {info.order}, not {value}"
        )
    return info.consts[value]


# ---------------------------------------------------------------- generic helpers
def ite(cond, a, b):
    """Merge two scalars (or equal-shape arrays) under a condition, without forking."""
    lit = blit(cond)
    if lit == 1:
        return a
    if lit == 0:
        return b
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        from .symnp import where_merge

        return where_merge(mkbool(lit), a, b)
    if isinstance(a, GFElem) or isinstance(b, GFElem):
        info = a.info if isinstance(a, GFElem) else b.info
        a, b = int_to_field(info, a), int_to_field(info, b)
        d = _dag()
        return info.make([d.ite(lit, x, y) for x, y in zip(a.bits, b.bits)])
    boolish = (bool, np.bool_, SymBool)
    if isinstance(a, boolish) and isinstance(b, boolish):
        return mkbool(_dag().ite(lit, blit(a), blit(b)))
    if isinstance(a, SymWord) or isinstance(b, SymWord):
        width = a.width if isinstance(a, SymWord) else b.width
        a, b = word(a, width), word(b, width)
        return SymWord([_dag().ite(lit, x, y) for x, y in zip(a.bits, b.bits)])
    if a is b:
        return a
    return mkint(mux_bits(lit, int_bits(a), int_bits(b)))


def is_sym(x) -> bool:
    return isinstance(x, (SymBool, SymInt, SymWord)) or (isinstance(x, GFElem) and x.const is None)


def np_cast(x, dtype):
    """Cast a scalar to a numpy-like dtype."""
    dt = np.dtype(dtype)
    if dt.kind == "b":
        return mkbool(blit(x))
    if dt.kind == "u":
        return word(x, dt.itemsize * 8)
    if dt.kind == "i":
        return to_int(x)
    if dt.kind == "f":
        return float(x)
    return x


# ---------------------------------------------------------------- numerals in strings
_TOKEN_BASE = 8_000_000_000


def token(x) -> str:
    """Numeral standing for a symbolic nonnegative integer inside a string."""
    eng = _e.CURRENT
    tokens = eng.__dict__.setdefault("tokens", {})
    if _e.CURRENT.value(x.bits[-1]) or _e.CURRENT.find(x.bits[-1]) is not None:
        return str(x.concretize())
    key = tuple(x.bits)
    for name, val in tokens.items():
        if tuple(val.bits) == key:
            return name
    name = str(_TOKEN_BASE + len(tokens))
    tokens[name] = x
    return name


def untoken(text: str):
    tokens = _e.CURRENT.__dict__.get("tokens", {}) if _e.CURRENT is not None else {}
    return tokens.get(text.strip()) if text.strip() in tokens else int(text)
