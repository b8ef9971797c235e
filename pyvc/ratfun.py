"""exact arithmetic of rational functions over opaque atoms (a back end for
equalities of field expressions): numerator polynomial over Fractions and a
multiset of denominator factors."""
from fractions import Fraction
from collections import Counter
import z3


class TooBig(Exception):
    pass


LIMIT = 60000


def p_const(c):
    return {(): Fraction(c)} if c else {}


def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def m_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted(d.items()))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT:
        raise TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def m_div(a, b):
    d = dict(a)
    for k, e in b:
        v = d.get(k, 0) - e
        if v < 0:
            return None
        if v:
            d[k] = v
        else:
            d.pop(k)
    return tuple(sorted(d.items()))


def _order(atoms):
    def key(m):
        d = dict(m)
        return tuple(d.get(a, 0) for a in atoms)
    return key


def p_divexact(a, b):
    """a / b if exact, else None."""
    if not a:
        return {}
    atoms = sorted({k for m in list(a) + list(b) for k, _ in m})
    key = _order(atoms)
    lb = max(b, key=key)
    cb = b[lb]
    q, r = {}, dict(a)
    n = 0
    while r:
        n += 1
        if n > 3000:
            return None
        lr = max(r, key=key)
        m = m_div(lr, lb)
        if m is None:
            return None
        c = r[lr] / cb
        q[m] = c
        r = p_add(r, p_mul({m: c}, b), -1)
    return q


def content(p):
    """(constant, monomial, primitive polynomial) with leading coefficient 1."""
    ms = list(p)
    d = dict(ms[0])
    for m in ms[1:]:
        e = dict(m)
        d = {k: min(v, e.get(k, 0)) for k, v in d.items() if e.get(k, 0)}
    mono = tuple(sorted(d.items()))
    q = {m_div(m, mono): c for m, c in p.items()}
    atoms = sorted({k for m in q for k, _ in m})
    c = q[max(q, key=_order(atoms))]
    return c, mono, {m: v / c for m, v in q.items()}


def fk(p):
    return frozenset(p.items())


class RF:
    """num / prod(factor^mult)."""

    def __init__(self, num, den=None):
        self.num, self.den = num, den or Counter()

    def reduce(self):
        if not self.num:
            self.den = Counter()
            return self
        for f in list(self.den):
            while self.den.get(f, 0) > 0:
                q = p_divexact(self.num, dict(f))
                if q is None:
                    break
                self.num = q
                self.den[f] -= 1
                if not self.den[f]:
                    del self.den[f]
        return self


def r_add(a, b, s=1):
    den = a.den | b.den
    na, nb = a.num, b.num
    for f, k in (den - a.den).items():
        for _ in range(k):
            na = p_mul(na, dict(f))
    for f, k in (den - b.den).items():
        for _ in range(k):
            nb = p_mul(nb, dict(f))
    return RF(p_add(na, nb, s), Counter(den)).reduce()


def r_mul(a, b):
    return RF(p_mul(a.num, b.num), a.den + b.den).reduce()


def r_inv(a):
    if not a.num:
        raise ZeroDivisionError
    c, mono, prim = content(a.num)
    den = Counter()
    for k, e in mono:
        den[fk({((k, 1),): Fraction(1)})] += e
    if len(prim) > 1 or () not in prim:
        den[fk(prim)] += 1
    num = p_const(1 / c)
    for f, k in a.den.items():
        for _ in range(k):
            num = p_mul(num, dict(f))
    return RF(num, den).reduce()


class Conv:
    def __init__(self):
        self.atoms = {}
        self.terms = {}
        self.inverted = []     # z3 terms divided by
        self.budget = 6000
        self.memo = {}

    def atom(self, e):
        e = z3.simplify(e)
        k = e.get_id()
        self.terms[k] = e
        return RF({((k, 1),): Fraction(1)})

    def conv(self, e):
        k0 = e.get_id()
        if k0 in self.memo:
            return self.memo[k0]
        self.budget -= 1
        if self.budget < 0:
            raise TooBig
        r = self._conv(e)
        self.memo[k0] = r
        self.terms[("keep", k0)] = e
        return r

    def _conv(self, e):
        if z3.is_rational_value(e):
            return RF(p_const(e.as_fraction()))
        if z3.is_int_value(e):
            return RF(p_const(Fraction(e.as_long())))
        if not z3.is_app(e) or not (z3.is_real(e) or z3.is_int(e)):
            return self.atom(e)
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD or k == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r_add(r, self.conv(c), 1 if k == z3.Z3_OP_ADD else -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            r = self.conv(ch[0])
            return RF(p_mul(r.num, p_const(-1)), r.den)
        if k == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = r_mul(r, self.conv(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.conv(ch[0]), self.conv(ch[1])
            if not (len(b.num) == 1 and () in b.num and not b.den):
                self.inverted.append((ch[1], b))
            return r_mul(a, r_inv(b))
        if k == z3.Z3_OP_TO_REAL:
            return self.conv(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 <= ch[1].as_fraction() <= 8:
            r = RF(p_const(1))
            b = self.conv(ch[0])
            for _ in range(int(ch[1].as_fraction())):
                r = r_mul(r, b)
            return r
        return self.atom(e)

    def to_z3(self, p):
        out = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for k, e in m:
                x = self.terms[k]
                x = z3.ToReal(x) if z3.is_int(x) else x
                for _ in range(e):
                    t = t * x
            out.append(t)
        return z3.Sum(out) if len(out) > 1 else (out[0] if out else z3.RealVal(0))


def nonzero(conv, rf, facts):
    """prove that a rational function (numerator) is not zero, factor by factor."""
    if not rf.num:
        return False
    c, mono, prim = content(rf.num)
    todo = [conv.terms[k] for k, _ in mono]
    if len(prim) > 1 or () not in prim:
        todo.append(conv.to_z3(prim))
    for q in todo:
        s = z3.Solver()
        s.set("timeout", 3000)
        small = [f for f in facts if True]
        s.add(*small)
        zero = z3.IntVal(0) if z3.is_int(q) else z3.RealVal(0)
        s.add(q == zero)
        if s.check() == z3.unsat:
            continue
        # compare with known disequalities up to a constant factor
        ok = False
        for f in facts:
            for g in (f.children() if z3.is_and(f) else [f]):
                a = None
                if z3.is_distinct(g) or (z3.is_not(g) and z3.is_eq(g.children()[0])):
                    a, b = (g if z3.is_distinct(g) else g.children()[0]).children()
                elif z3.is_gt(g) or z3.is_lt(g):
                    a, b = g.children()
                if a is None or not z3.is_arith(a):
                    continue
                try:
                    d = r_add(conv.conv(a), conv.conv(b), -1)
                except (TooBig, ZeroDivisionError):
                    continue
                if d.num and not d.den:
                    q2 = p_divexact(d.num, content(conv.conv(q).num)[2]) if conv.conv(q).num else None
                    if q2 is not None:
                        ok = True
                        break
            if ok:
                break
        if not ok:
            return False
    return True


def equal(facts, goal):
    if not z3.is_app_of(goal, z3.Z3_OP_EQ) or not z3.is_arith(goal.children()[0]):
        return False
    a, b = goal.children()
    cv = Conv()
    try:
        d = r_add(cv.conv(a), cv.conv(b), -1)
        if d.num:
            return False
        for _, rf in cv.inverted:
            if not nonzero(cv, rf, facts):
                return False
        return True
    except (TooBig, ZeroDivisionError, z3.Z3Exception):
        return False
