"""Relaxation of a goal to quantifier-free real arithmetic: integers become reals, to_int(x) becomes a
value n with n <= x < n+1, quotients become products, every other term an unknown.  All steps weaken the
hypotheses, so an 'unsat' answer carries over."""
import z3
from .theory import hasq

R = z3.RealSort()


class Relax:
    def __init__(self):
        self.memo = {}
        self.side = []
        self.n = 0
        self.toint = False
        self.div = False
        self.keep = []

    def fresh(self, s="r"):
        self.n += 1
        return z3.Real("rlx_%s%d" % (s, self.n))

    def num(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._num(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _num(self, t):
        if z3.is_int_value(t):
            return z3.RealVal(t.as_long())
        if z3.is_rational_value(t):
            return t
        if not z3.is_app(t):
            return self.fresh()
        k = t.decl().kind()
        c = t.children()
        if k == z3.Z3_OP_ADD:
            return z3.Sum([self.num(x) for x in c])
        if k == z3.Z3_OP_SUB:
            r = self.num(c[0])
            for x in c[1:]:
                r = r - self.num(x)
            return r
        if k == z3.Z3_OP_UMINUS:
            return -self.num(c[0])
        if k == z3.Z3_OP_MUL:
            r = self.num(c[0])
            for x in c[1:]:
                r = r * self.num(x)
            return r
        if k == z3.Z3_OP_DIV:
            b = self.num(c[1])
            a = self.num(c[0])
            if z3.is_rational_value(b) and b.as_fraction() != 0:
                return a / b
            q = self.fresh("q")
            self.div = True
            self.side.append(z3.Implies(b != 0, q * b == a))
            return q
        if k == z3.Z3_OP_TO_REAL:
            return self.num(c[0])
        if k == z3.Z3_OP_TO_INT:
            a = self.num(c[0])
            n = self.fresh("n")
            self.toint = True
            self.side.append(z3.And(n <= a, a < n + 1))
            return n
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(c[0]), self.num(c[1]), self.num(c[2]))
        return self.fresh()

    def boo(self, t):
        i = t.get_id()
        if i in self.memo:
            return self.memo[i]
        r = self._boo(t)
        self.memo[i] = r
        self.keep.append(t)
        return r

    def _boo(self, t):
        if z3.is_true(t) or z3.is_false(t):
            return t
        if not z3.is_app(t):
            raise ValueError
        k = t.decl().kind()
        c = t.children()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR):
            a = [self.boo(x) for x in c]
            return {z3.Z3_OP_AND: lambda: z3.And(a), z3.Z3_OP_OR: lambda: z3.Or(a), z3.Z3_OP_NOT: lambda: z3.Not(a[0]),
                    z3.Z3_OP_IMPLIES: lambda: z3.Implies(a[0], a[1]), z3.Z3_OP_XOR: lambda: z3.Xor(a[0], a[1])}[k]()
        if k == z3.Z3_OP_ITE:
            return z3.If(self.boo(c[0]), self.boo(c[1]), self.boo(c[2]))
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = self.num(c[0]), self.num(c[1])
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b}[k]
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and len(c) == 2:
            if z3.is_bool(c[0]):
                r = self.boo(c[0]) == self.boo(c[1])
            elif z3.is_arith(c[0]):
                r = self.num(c[0]) == self.num(c[1])
            else:
                self.n += 1
                return z3.Bool("rlx_b%d" % self.n)
            return r if k == z3.Z3_OP_EQ else z3.Not(r)
        self.n += 1
        return z3.Bool("rlx_b%d" % self.n)


def relax(fs):
    """-> list of formulas of real arithmetic, or None when nothing would be gained"""
    rx = Relax()
    out = []
    for f in fs:
        if hasq(f):
            if z3.is_and(f):
                out += [rx.boo(g) for g in f.children() if not hasq(g)]
            continue
        out.append(rx.boo(f))
    if not (rx.toint or rx.div):
        return None
    return out + rx.side
