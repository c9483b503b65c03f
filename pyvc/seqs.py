"""Engine-level sequences: what iterables, list displays, slices and comprehensions denote.

A Seq has a length term `n` and an element function `get(k)` giving the value at index
term k (0 <= k < n).  Filtered sequences carry their base and guard; they get an explicit
index map only when something needs positions in the filtered order.
"""
import z3


class Seq:
    n = None

    def get(self, k):
        raise NotImplementedError

    def void(self):
        """no element whatever the length term says"""
        return False

    def conc(self):
        """python int length, or None"""
        n = z3.simplify(self.n) if not isinstance(self.n, int) else self.n
        if isinstance(n, int):
            return n
        return n.as_long() if z3.is_int_value(n) else None


class ConcSeq(Seq):
    def __init__(self, items):
        self.items = list(items)
        self.n = z3.IntVal(len(self.items))

    def void(self):
        return not self.items

    def get(self, k):
        k = z3.simplify(k)
        if z3.is_int_value(k) and 0 <= k.as_long() < len(self.items):
            return self.items[k.as_long()]
        from .engine import ENGINE
        if not self.items:
            raise AssertionError("empty ConcSeq")
        return ENGINE[0].merge_values([(k == i, v) for i, v in enumerate(self.items)])


class ArrSeq(Seq):
    """elements T at arrs[base + k]; heap lists and their slices"""
    def __init__(self, arrs, base, n, T, src=None):
        self.arrs, self.base, self.n, self.T, self.src = arrs, base, n, T, src

    def get(self, k):
        from .engine import ENGINE
        ts = tuple(z3.simplify(z3.Select(a, self.base + k)) for a in self.arrs)
        return ENGINE[0].unpack(self.T, ts)


class FnSeq(Seq):
    def __init__(self, n, f):
        self.n, self.f = n, f

    def get(self, k):
        return self.f(k)


class SliceSeq(Seq):
    def __init__(self, s, lo, n):
        self.s, self.lo, self.n = s, lo, n

    def void(self):
        return self.s.void()

    def get(self, k):
        return self.s.get(self.lo + k)


class RevSeq(Seq):
    def __init__(self, s):
        self.s, self.n = s, s.n

    def get(self, k):
        return self.s.get(self.n - 1 - k)


class CatSeq(Seq):
    def __init__(self, a, b):
        self.a, self.b = a, b
        self._n = None

    @property
    def n(self):
        if self._n is None:
            self._n = z3.simplify(self.a.n + self.b.n)
        return self._n

    def get(self, k):
        from .engine import ENGINE
        e = ENGINE[0]
        if self.a.conc() == 0:
            return self.b.get(k - self.a.n)
        if self.b.conc() == 0:
            return self.a.get(k)
        return e.merge_values([(k < self.a.n, self.a.get(k)), (k >= self.a.n, self.b.get(k - self.a.n))])


class FiltSeq(Seq):
    """[f(k) for k in range(base_n) if cond(k)]; cond: z3 Bool of index term; f: SV of index"""
    def __init__(self, base_n, cond, f):
        self.base_n, self.cond, self.f = base_n, cond, f
        self._idx = None

    def _mat(self):
        if self._idx is None:
            from .engine import ENGINE
            self._idx = ENGINE[0].folds.filt(self)
        return self._idx

    @property
    def n(self):
        return self._mat().count

    def get(self, k):
        m = self._mat()
        return self.f(m.idx(k))

    def conc(self):
        n = z3.simplify(self.base_n)
        return 0 if z3.is_int_value(n) and n.as_long() == 0 else None
