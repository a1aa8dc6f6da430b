"""Multiset vocabulary: CNT(a,n,x) is the number of positions k<n with a[k]==x (defining equations only)."""
from .common import *

x_, i_, j_, n_, m_ = z3.Ints('x!q i!q j!q n!q m!q')


def cnt(v, x):
    return CNT(v.arr, v.len, x)


def unfold(p, arr, n):
    """the defining equation of CNT at n (true of every array)"""
    p.assume(ForAll([x_], CNT(arr, n + 1, x_) == CNT(arr, n, x_) + If(Select(arr, n) == x_, IntVal(1), IntVal(0)), patterns=[CNT(arr, n + 1, x_)]) if True else None)
    p.assume(ForAll([x_], And(CNT(arr, n, x_) >= 0, CNT(arr, 0, x_) == 0), patterns=[CNT(arr, n, x_)]))


def monotone(p, arr, n, m):
    """prefix n of prefix m (lemma 'bags: a prefix counts no more than the whole')"""
    p.assume(Implies(n <= m, ForAll([x_], CNT(arr, n, x_) <= CNT(arr, m, x_), patterns=[CNT(arr, n, x_)])))


def members(p, arr, n):
    """every element is counted (lemma 'bags: an element is counted') and what is counted is an element (lemma 'bags: counted means present')"""
    p.assume(ForAll([i_], Implies(And(0 <= i_, i_ < n), CNT(arr, n, Select(arr, i_)) >= 1), patterns=[Select(arr, i_)]))
    p.assume(ForAll([x_], CNT(arr, 0, x_) == 0, patterns=[CNT(arr, 0, x_)]))


def position(p, arr, n, name='pos'):
    """a skolem position of a counted element"""
    f = z3.Function('%s!%d' % (name, p.fresh(z3.IntSort(), 'u').hash() % 100000), z3.IntSort(), z3.IntSort())
    p.assume(ForAll([x_], Implies(CNT(arr, n, x_) >= 1, And(0 <= f(x_), f(x_) < n, Select(arr, f(x_)) == x_)), patterns=[CNT(arr, n, x_)]))
    return f


def LEMMAS():
    """induction steps behind the facts above"""
    a = z3.Array('a', z3.IntSort(), z3.IntSort())
    n, m, x, i, j, w = z3.Ints('n m x i j w')
    df = [ForAll([x_], CNT(a, 0, x_) == 0), ForAll([x_], CNT(a, n + 1, x_) == CNT(a, n, x_) + If(Select(a, n) == x_, IntVal(1), IntVal(0))), n >= 0]
    out = []
    out.append(('bags: counts are not negative (step)', df + [CNT(a, n, x) >= 0], CNT(a, n + 1, x) >= 0))
    out.append(('bags: a prefix counts no more than the whole (step)', df + [CNT(a, m, x) <= CNT(a, n, x), m <= n], CNT(a, m, x) <= CNT(a, n + 1, x)))
    out.append(('bags: an element is counted (step)', df + [ForAll([x_], CNT(a, n, x_) >= 0), 0 <= i, i < n + 1, Implies(i < n, CNT(a, n, Select(a, i)) >= 1)], CNT(a, n + 1, Select(a, i)) >= 1))
    out.append(('bags: counted means present (step)', df + [Implies(CNT(a, n, x) >= 1, And(0 <= w, w < n, Select(a, w) == x)), CNT(a, n + 1, x) >= 1],
                Or(And(0 <= w, w < n + 1, Select(a, w) == x), And(0 <= n, n < n + 1, Select(a, n) == x))))
    b = z3.Array('b', z3.IntSort(), z3.IntSort())
    v = z3.Int('v')
    st = z3.Store(a, i, v)
    eff = lambda m: CNT(a, m, x) + If(And(0 <= i, i < m), If(v == x, IntVal(1), IntVal(0)) - If(Select(a, i) == x, IntVal(1), IntVal(0)), IntVal(0))
    out.append(('bags: effect of one write (step)', df + [CNT(st, n + 1, x) == CNT(st, n, x) + If(Select(st, n) == x, IntVal(1), IntVal(0)), CNT(st, n, x) == eff(n)], CNT(st, n + 1, x) == eff(n + 1)))
    out.append(('bags: equal prefixes count the same (step)', df + [CNT(b, n + 1, x) == CNT(b, n, x) + If(Select(b, n) == x, IntVal(1), IntVal(0)), CNT(a, n, x) == CNT(b, n, x), Select(a, n) == Select(b, n)], CNT(a, n + 1, x) == CNT(b, n + 1, x)))
    # distinctness
    out.append(('bags: two equal elements are counted twice', df + [ForAll([x_], CNT(a, n, x_) >= 0), 0 <= i, i < j, j < n + 1, Select(a, i) == Select(a, j),
                                                                   Implies(j < n, CNT(a, n, Select(a, i)) >= 2), Implies(i < n, CNT(a, n, Select(a, i)) >= 1)], CNT(a, n + 1, Select(a, i)) >= 2))
    return out
