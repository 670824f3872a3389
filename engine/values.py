"""Abstract values of the interpreter.

  int          concrete bit pattern (unsigned, masked to its width)
  Lin          linear expression over sequence-length symbols (exact, mathematical integers)
  P            pointer: (object id, offset); offset is int or Lin (only into sequences)
  Fn           function address
  Term         opaque value / uninterpreted expression over opaque values
  UNDEF        uninitialised
  Agg          first-class aggregate
  F            floating constant
"""


class _Undef:
    __slots__ = ()

    def __repr__(self):
        return 'UNDEF'


UNDEF = _Undef()


class P:
    __slots__ = ('o', 'f')

    def __init__(self, o, f=0):
        self.o = o
        self.f = f

    def __eq__(self, x):
        return type(x) is P and x.o == self.o and x.f == self.f

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return hash((self.o, self.f))

    def __repr__(self):
        return 'P(%s+%s)' % (self.o, self.f)


class Fn:
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n

    def __eq__(self, x):
        return type(x) is Fn and x.n == self.n

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return hash(('fn', self.n))

    def __repr__(self):
        return 'Fn(%s)' % self.n


class F:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __eq__(self, x):
        return type(x) is F and x.v == self.v

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return hash(('F', self.v))

    def __repr__(self):
        return 'F(%r)' % self.v


class Agg(tuple):
    __slots__ = ()


class Term:
    """op: name; args: tuple of values. Leaves: op='sym', args=(unique id,)."""
    __slots__ = ('op', 'args', '_h')

    def __init__(self, op, args):
        self.op = op
        self.args = args
        self._h = hash((op, args))

    def __eq__(self, x):
        return type(x) is Term and x._h == self._h and x.op == self.op and x.args == self.args

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return self._h

    def __repr__(self):
        if self.op == 'sym':
            return '$%s' % (self.args[0],)
        return '%s%r' % (self.op, self.args)


class Lin:
    """c + sum coef*sym ; at least one symbol (otherwise it is a plain int)."""
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t          # tuple of sorted (sym, coef)
        self._h = hash((c, t))

    def __eq__(self, x):
        return type(x) is Lin and x.c == self.c and x.t == self.t

    def __ne__(self, x):
        return not self.__eq__(x)

    def __hash__(self):
        return self._h

    def __repr__(self):
        s = '+'.join('%s%s' % ('' if k == 1 else '%d*' % k, n) for n, k in self.t)
        return '(%s%+d)' % (s, self.c) if self.c else '(%s)' % s


def mklin(c, d):
    t = tuple(sorted((s, k) for s, k in d.items() if k))
    if not t:
        return c
    return Lin(c, t)


def ladd(a, b, kb=1):
    """a + kb*b, where a, b are int (mathematical) or Lin"""
    if type(a) is int and type(b) is int:
        return a + kb * b
    d = {}
    c = 0
    if type(a) is Lin:
        d.update(a.t)
        c += a.c
    else:
        c += a
    if type(b) is Lin:
        for s, k in b.t:
            d[s] = d.get(s, 0) + kb * k
        c += kb * b.c
    else:
        c += kb * b
    return mklin(c, d)


def lmul(a, k):
    if type(a) is int:
        return a * k
    return mklin(a.c * k, {s: q * k for s, q in a.t})


def lsubst(v, sym, rep):
    """substitute sym by rep (int or Lin) in v (int or Lin)"""
    if type(v) is not Lin:
        return v
    k = 0
    d = {}
    for s, q in v.t:
        if s == sym:
            k = q
        else:
            d[s] = q
    if not k:
        return v
    return ladd(mklin(v.c, d), rep, k)


def has_sym(v, sym):
    if type(v) is Lin:
        return any(s == sym for s, _ in v.t)
    return False


def map_lin(v, f):
    """apply f to every int-like Lin inside value v"""
    t = type(v)
    if t is Lin:
        return f(v)
    if t is P:
        if type(v.f) is Lin:
            return P(v.o, f(v.f))
        return v
    if t is Agg:
        return Agg(map_lin(x, f) for x in v)
    if t is Term:
        if v.op == 'sym':
            return v
        return Term(v.op, tuple(map_lin(x, f) if type(x) in (Lin, P, Agg, Term) else x for x in v.args))
    return v


def to_signed(v, w):
    if v >= 1 << (w - 1):
        return v - (1 << w)
    return v


def mask(v, w):
    return v & ((1 << w) - 1)
