"""Values of terms at sample points.  Used only to confirm that two terms which have different normal forms really are
different (and that the conditions of a path do not exclude each other) before a difference is reported: the normal
forms decide equality, a sample decides inequality, and anything in between is left undecided."""
import random
from fractions import Fraction

import terms as T

MAXN = 24

# operations without a value here, that are functions of their operands: any value will do, the same on both sides
PUREOPS = {'find', 'count', 'f2i'}
FLOATOPS = {'i2f', 'f*', 'f/', 'f+', 'f-'}


class No(Exception):
    pass


def consts(t, acc):
    if isinstance(t, bool):
        return
    if isinstance(t, int):
        acc.add(t)
    elif isinstance(t, tuple):
        if t and t[0] in ('b', 'ix'):
            if t[0] == 'b':
                consts(t[1], acc)
            return
        for x in t:
            consts(x, acc)


class Env:
    def __init__(self, rnd, pool):
        self.rnd, self.pool, self.v = rnd, pool, {}
        self.mode = rnd.randrange(4)
        self.used = set()
        self.depth = 0          # sums being evaluated

    def atom(self, t):
        if t in self.v:
            return self.v[t]
        ty = T.ATOM_TYPE.get(t)
        lo, hi = T.rng(t) or (0, (1 << 64) - 1)
        if t[0] in ('init', 'lo', 'lv') and ty is None and t[-1] and isinstance(t[-1], tuple) and t[-1][-1:] == ('#',):
            lo, hi = 0, 1 << 40
        r = self.rnd
        x = None
        m = self.mode if self.mode < 3 else r.randrange(3)
        for _ in range(4):
            if m == 0:
                x = r.randrange(0, 7)
            elif m == 1 and self.pool:
                x = r.choice(self.pool) + r.randrange(-2, 3)
            else:
                x = r.randrange(lo, hi + 1) if r.randrange(2) else r.randrange(lo, min(hi, lo + 1000) + 1)
            if lo <= x <= hi:
                break
            m = r.randrange(3)
        if not lo <= x <= hi:
            x = r.randrange(lo, hi + 1)
        self.v[t] = x
        return x


def ev(t, e):
    if isinstance(t, int):
        return t
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'op' and len(t) == 5 and t[1] == 'f2i':
        try:
            x = fval(t[4], e)
        except No:
            x = None
        if x is not None:
            if abs(x) >= 1 << 63:
                raise No()
            return T.cast(int(x), t[2], t[3])
    if t[0] == 'op' and len(t) > 1 and t[1] in FLOATOPS:
        return fval(t, e)
    if t[0] == 'op' and len(t) > 1 and t[1] in PUREOPS:
        e.used.add(t)
    if t in e.v:
        if e.depth and t[0] in ('lo', 'lv', 'call', 'rd'):
            e.used.add(t)
        return e.v[t]
    k = t[0]
    if k == 'P':
        s = 0
        for m, c in t[1]:
            p = c
            for a in m:
                x = ev(a, e)
                if not isinstance(x, int):
                    raise No()
                p *= x
            s += p
        return s
    if k in ('bv', 'sbv'):
        v = 0
        for i, b in enumerate(t[1]):
            v |= evb(b, e) << i
        if k == 'sbv' and v >> (len(t[1]) - 1):
            v -= 1 << len(t[1])
        return v
    if k == 'cast':
        x = ev(t[3], e)
        if not isinstance(x, int):
            raise No()
        return T.cast(x, t[1], t[2])
    if k == 'ite':
        return ev(t[2] if truth(t[1], e) else t[3], e)
    if k in T.COND or k == 'ind':
        return int(truth(t, e))
    if k == 'op':
        if t[1] in PUREOPS:
            return e.atom(t)
        a = [ev(x, e) for x in t[2:]]
        if len(a) == 1 and isinstance(a[0], int) and t[1] == '~':
            return ~a[0]
        if len(a) == 2 and all(isinstance(x, int) for x in a):
            x, y = a
            o = t[1]
            if o == 'div' and y:
                return x // y if x >= 0 else -((-x) // y)
            if o in ('bdiv',) and y:
                if x % y:
                    raise No()
                return x // y
            if o == 'mod' and y:
                return x % y
            if o == '&':
                return x & y
            if o == '|':
                return x | y
            if o == '^':
                return x ^ y
            if o == '<<' and 0 <= y < 256:
                return x << y
            if o == '>>' and 0 <= y < 256:
                return x >> y
            if o == '*':
                return x * y
        raise No()
    if k == 'sum':
        n = ev(t[2], e)
        if not isinstance(n, int) or n > MAXN:
            e.used.add(t)
            return e.atom(('opaque', T.skey(t)))
        s = 0
        e.depth += 1
        try:
            for i in range(max(n, 0)):
                x = ev(T.subst(t[3], {('ix', t[1]): i}), e)
                if not isinstance(x, int):
                    raise No()
                s += x
        finally:
            e.depth -= 1
        return s
    # an atom: with the indices inside it evaluated
    t2 = inner(t, e)
    if t2 != t and t in T.ATOM_TYPE:
        T.ATOM_TYPE.setdefault(t2, T.ATOM_TYPE[t])
    if k in ('vec', 'agg', 's', 'ptr', 'iter', 'lref', 'fill', 'slice', 'closure'):
        return t2
    if k == 'uninit':
        raise No()
    if e.depth and k in ('lo', 'lv', 'call', 'rd'):
        # what a loop or call nested in a sum gives: only the same one on both sides says something
        e.used.add(t2)
    return e.atom(t2)


def fval(t, e):
    """a floating-point value, as if there were no rounding"""
    if isinstance(t, int):
        return Fraction(t)
    if not isinstance(t, tuple) or not t:
        raise No()
    if t[0] == 'op' and t[1] in FLOATOPS:
        if t[1] == 'i2f':
            x = ev(t[2], e)
            if not isinstance(x, int):
                raise No()
            return Fraction(x)
        x, y = fval(t[2], e), fval(t[3], e)
        if t[1] == 'f*':
            return x * y
        if t[1] == 'f/':
            if not y:
                raise No()
            return x / y
        return x + y if t[1] == 'f+' else x - y
    if t[0] == 'op' and t[1] == 'f2i':
        return Fraction(ev(t, e))
    if t[0] == 'ite':
        return fval(t[2] if truth(t[1], e) else t[3], e)
    if t[0] in ('init', 'lv', 'lo', 'call', 'fld', 'elem') and t not in T.ATOM_TYPE:
        x = e.v.get(('float', t))
        if x is None:
            x = e.v[('float', t)] = Fraction(e.rnd.randrange(1 << e.rnd.choice((3, 10, 20, 33))) * 4 + e.rnd.randrange(4), 4)
        return x
    x = ev(t, e)
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    raise No()


def isfloat(t):
    return isinstance(t, tuple) and t[:1] == ('op',) and len(t) > 1 and t[1] in FLOATOPS


def inner(t, e):
    out = [t[0]]
    for x in t[1:]:
        out.append(deep(x, e))
    return tuple(out)


def deep(x, e):
    if isinstance(x, tuple):
        if x and isinstance(x[0], str) and (x[0] in ('P', 'bv', 'sbv', 'cast', 'ite', 'op', 'sum', 'lv', 'lo') or x in T.ATOM_TYPE):
            try:
                return ev(x, e)
            except No:
                return x
        return tuple(deep(y, e) for y in x)
    return x


def evb(b, e):
    if isinstance(b, int):
        return b
    k = b[0]
    if k == 'b' or k == 'bx':
        x = ev(b[1], e)
        if not isinstance(x, int):
            raise No()
        return (x >> b[2]) & 1
    if k == '~':
        return 1 - evb(b[1], e)
    if k == 'bit?':
        return int(truth(b[1], e))
    if k == 'b&':
        return evb(b[1], e) & evb(b[2], e)
    if k == 'b|':
        return evb(b[1], e) | evb(b[2], e)
    if k == 'b^':
        return evb(b[1], e) ^ evb(b[2], e)
    if k == 'bite':
        return evb(b[2] if truth(b[1], e) else b[3], e)
    raise No()


def truth(c, e):
    if isinstance(c, int):
        return bool(c)
    k = c[0]
    if k == 'not':
        return not truth(c[1], e)
    if k == 'and':
        return truth(c[1], e) and truth(c[2], e)
    if k == 'or':
        return truth(c[1], e) or truth(c[2], e)
    if k == 'ind':
        return truth(c[1], e)
    if k == 'eq':
        a, b = ev(c[1], e), ev(c[2], e)
        if isinstance(a, int) and isinstance(b, int):
            return a == b
        if a == b:
            return True
        if e.v.get(('eqv', c)) is None:
            e.v[('eqv', c)] = e.rnd.randrange(2)
        return bool(e.v[('eqv', c)])
    if k == 'lt':
        a, b = ev(c[1], e), ev(c[2], e)
        if isinstance(a, int) and isinstance(b, int):
            return a < b
        raise No()
    if k == 'bit':
        return bool(evb(c[1], e))
    if k == 'ite':
        return truth(c[2] if truth(c[1], e) else c[3], e)
    if k == 'good':
        return True
    if k in T.COND:
        x = inner(c, e)
        if x not in e.v:
            e.v[x] = e.rnd.randrange(2)
        return bool(e.v[x])
    x = ev(c, e)
    if isinstance(x, int):
        return x != 0
    raise No()


def aim(e, t, v, depth=0):
    """choose atoms so that the term takes the value, as far as that is easy"""
    if isinstance(t, int) or not isinstance(t, tuple) or not t or depth > 8:
        return
    k = t[0]
    if k in ('bv', 'sbv'):
        for i, b in enumerate(t[1]):
            aimb(e, b, (v >> i) & 1, depth + 1)
        return
    if k == 'cast':
        return aim(e, t[3], v, depth + 1)
    if k == 'ite':
        try:
            return aim(e, t[2] if truth(t[1], e) else t[3], v, depth + 1)
        except (No, TypeError):
            return
    if k == 'P':
        # weighted sum: give the monomials their share, largest weights first
        rest = v
        lin = []
        for m, c in t[1]:
            if not m:
                rest -= c
            elif len(m) == 1 and isinstance(m[0], tuple):
                lin.append((c, m[0]))
            else:
                try:
                    x = c
                    for y in m:
                        x *= ev(y, e)
                    rest -= x
                except (No, TypeError):
                    return
        if not lin:
            return
        pos = all(c > 0 for c, _ in lin)
        lin.sort(key=lambda x: -abs(x[0]) * weight(x[1]))
        if pos and rest >= 0:
            for c, a in lin:
                lo, hi = T.rng(a) or (0, (1 << 64) - 1)
                n = max(lo, min(rest // c, hi))
                aim(e, a, n, depth + 1)
                try:
                    n = ev(a, e)
                except (No, TypeError):
                    return
                if not isinstance(n, int):
                    return
                rest -= n * c
            return
        # move one of them
        c, a = lin[e.rnd.randrange(len(lin))]
        for c2, a2 in lin:
            if a2 is not a:
                try:
                    rest -= c2 * ev(a2, e)
                except (No, TypeError):
                    return
        if rest % c == 0:
            aim(e, a, rest // c, depth + 1)
        else:
            aim(e, a, rest // c + e.rnd.randrange(2), depth + 1)
        return
    if k == 'op' and len(t) == 4:
        o, x, y = t[1], t[2], t[3]
        try:
            if o in ('div', 'bdiv') and isinstance(y, int) and y > 0:
                return aim(e, x, v * y, depth + 1)
            if o == 'mod' and isinstance(y, int) and y > 0:
                return aim(e, x, ev(x, e) // y * y + v, depth + 1)
            if o == '>>' and isinstance(y, int):
                return aim(e, x, v << y, depth + 1)
        except (No, TypeError):
            pass
        return
    if k in ('op', 'sum', 's', 'vec', 'agg', 'ptr', 'iter', 'lref', 'uninit') or k in T.COND:
        return
    lo, hi = T.rng(t) or (0, (1 << 64) - 1)
    if lo <= v <= hi:
        e.v[inner(t, e)] = v
        if t in e.v:
            e.v[t] = v


def weight(a):
    if isinstance(a, tuple) and a and a[0] == 'bv':
        for i, b in enumerate(a[1]):
            if b != 0:
                return 1 << i
    return 1


def aimb(e, b, v, depth):
    if isinstance(b, int) or not isinstance(b, tuple):
        return
    k = b[0]
    if k in ('b', 'bx'):
        try:
            x = ev(b[1], e)
            if isinstance(x, int) and ((x >> b[2]) & 1) != v:
                aim(e, b[1], x ^ (1 << b[2]), depth + 1)
        except (No, TypeError):
            pass
    elif k == '~':
        aimb(e, b[1], 1 - v, depth + 1)
    elif k == 'bit?':
        seed(e, b[1] if v else ('not', b[1]), depth + 1)
    elif k == 'b&':
        if v:
            aimb(e, b[1], 1, depth + 1)
            aimb(e, b[2], 1, depth + 1)
        else:
            aimb(e, b[1 + e.rnd.randrange(2)], 0, depth + 1)
    elif k == 'b|':
        if not v:
            aimb(e, b[1], 0, depth + 1)
            aimb(e, b[2], 0, depth + 1)
        else:
            aimb(e, b[1 + e.rnd.randrange(2)], 1, depth + 1)
    elif k == 'bite':
        try:
            aimb(e, b[2] if truth(b[1], e) else b[3], v, depth + 1)
        except (No, TypeError):
            pass


def seed(e, c, depth=0):
    """push the atoms of a condition towards making it true"""
    neg = False
    while isinstance(c, tuple) and c[0] in ('not', 'ind'):
        if c[0] == 'not':
            neg = not neg
        c = c[1]
    if not isinstance(c, tuple) or not c or depth > 8:
        return
    if c[0] in ('and', 'or'):
        if (c[0] == 'and') != neg:
            for x in c[1:3]:
                seed(e, ('not', x) if neg else x, depth + 1)
        else:
            x = c[1 + e.rnd.randrange(2)]
            seed(e, ('not', x) if neg else x, depth + 1)
        return
    if c[0] == 'bit':
        aimb(e, c[1], 0 if neg else 1, depth)
        return
    if c[0] == 'ite':
        try:
            x = c[2] if truth(c[1], e) else c[3]
            seed(e, ('not', x) if neg else x, depth + 1)
        except (No, TypeError):
            pass
        return
    if c[0] == 'nd' and isinstance(c[1], tuple) and c[1][0] == 'goodat':
        e.v[inner(c, e)] = int(not neg)
        return
    if c[0] not in ('eq', 'lt') or len(c) != 3:
        return
    a, b = c[1], c[2]
    order = [(a, b, 0), (b, a, 1)]
    if e.rnd.randrange(3) == 0:
        order.reverse()
    for x, y, s in order:
        if not isinstance(x, tuple):
            continue
        try:
            v = ev(y, e)
        except (No, TypeError):
            continue
        if not isinstance(v, int):
            continue
        if c[0] == 'eq':
            n = v + (e.rnd.choice((-1, 1, 2)) if neg else 0)
        elif (s == 0) != neg:      # x < v, or not (v < x)
            n = v - (1 if not neg else 0) - e.rnd.choice((0, 0, 1, 2, 7))
        else:
            n = v + (1 if not neg else 0) + e.rnd.choice((0, 0, 1, 2, 7))
        aim(e, x, n, depth + 1)
        return


def choices(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'ite':
            acc.add(t[1])
        elif t and t[0] == 'bite':
            acc.add(t[2])
        for x in t:
            choices(x, acc)


ERR = (No, TypeError, RecursionError, OverflowError, MemoryError)


def points(conds, extra=(), tries=400, seed0=1, maybe=None, most=40):
    """sample points at which the conditions hold; maybe collects the points at which one cannot be evaluated and the
    others hold"""
    pool = set()
    for c in conds:
        consts(c, pool)
    for c in extra:
        consts(c, pool)
    pool = sorted(pool)
    rnd = random.Random(seed0)
    n = 0
    ites = set()
    for c in extra:
        choices(c, ites)
    ites = sorted(ites, key=T.skey)

    def value(c, e):
        try:
            return truth(c, e)
        except ERR:
            return None

    for k in range(tries):
        e = Env(rnd, pool)
        if k % 2:
            cs = list(conds)
            rnd.shuffle(cs)
            for c in cs:
                try:
                    seed(e, c)
                except ERR:
                    pass
        if ites and k % 3:
            # aim for the branches of the values that are compared
            for c in rnd.sample(ites, min(len(ites), 1 + rnd.randrange(4))):
                try:
                    seed(e, c if rnd.randrange(2) else ('not', c))
                except ERR:
                    pass
        for _ in range(3):
            bad = [c for c in conds if value(c, e) is False]
            if not bad:
                break
            # a conjunct may be repaired by moving its atoms
            for c in bad:
                if value(c, e) is False:
                    try:
                        seed(e, c)
                    except ERR:
                        pass
        vs = [value(c, e) for c in conds]
        if all(vs):
            n += 1
            yield e
            if n > most:
                return
        elif maybe is not None and all(v is not False for v in vs):
            maybe.append(e)
            if len(maybe) > 3:
                return


def refuted(conds):
    """a condition fails under the others"""
    m = {}
    for c in conds:
        if isinstance(c, tuple) and c[0] == 'eq':
            for a, b in ((c[1], c[2]), (c[2], c[1])):
                if isinstance(b, int) and isinstance(a, tuple):
                    m[a] = b
    facts = {c for c in conds}
    gone = {}
    for c in conds:
        # a stream that failed stays failed
        if c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] == 'nd' and isinstance(c[1][1], tuple) and c[1][1][0] == 'goodat':
            _, sid, pre, n = c[1][1]
            gone[sid, pre] = min(n, gone.get((sid, pre), n))
    if gone:
        for c in conds:
            if c[0] == 'nd' and isinstance(c[1], tuple) and c[1][0] == 'goodat' and c[1][3] >= gone.get(c[1][1:3], 1 << 60):
                return True
    for c in conds:
        m1 = m
        if c[0] == 'eq' and (c[1] in m or c[2] in m):
            m1 = {a: b for a, b in m.items() if a not in (c[1], c[2])}
        if not m1:
            continue
        d = T.subst(c, m1)
        if isinstance(d, int):
            if not d:
                return True
        elif d != c and T.cnot(d) in facts:
            return True
    return False


_feas = {}


def feasible(conds):
    r = _feas.get(conds)
    if r is None:
        r = _feas[conds] = feasible1(conds)
    return r


def feasible1(conds):
    """True, False, or None when some condition cannot be evaluated and the others do not exclude each other"""
    if refuted(conds):
        return False
    maybe = []
    for _ in points(conds, maybe=maybe):
        return True
    return None if maybe else False


def csize(t):
    """the number of elements of a container value, as a term; None when it is not known to be a container"""
    if not isinstance(t, tuple) or not t:
        return None
    k = t[0]
    if k in ('vec', 'fill'):
        return T.mk_size(t)
    if k == 's' and len(t) > 1 and isinstance(t[1], str):
        return len(t[1])
    if k == 'slice' and len(t) > 3:
        return t[3]
    if k == 'op' and t[1] == 'cat' and len(t) == 4:
        x = csize(t[2])
        if x is None and isinstance(t[2], tuple) and t[2][:1] in (('init',), ('lv',), ('lo',)):
            x = t[2][:-1] + (t[2][-1] + ('#',),)
        y = 1 if char(t[3]) else csize(t[3])
        return None if x is None or y is None else T.add(x, y)
    if t in T.ARRAY_LEN:
        return T.ARRAY_LEN[t]
    if k in ('init', 'lv', 'lo') and t not in T.ATOM_TYPE and isinstance(t[-1], tuple):
        return t[:-1] + (t[-1] + ('#',),)
    return None


def char(t):
    return isinstance(t, int) or isinstance(t, tuple) and (t[:1] in (('bv',), ('sbv',), ('cast',), ('P',)) or t in T.ATOM_TYPE)


def surely(t):
    return isinstance(t, tuple) and (t[:1] in (('vec',), ('fill',), ('slice',)) or t[:2] == ('op', 'cat'))


def differ(a, b, conds):
    """is there a point where the conditions hold and the terms have different values?"""
    if not (isinstance(a, (int, tuple)) and isinstance(b, (int, tuple))):
        return a != b and feasible(conds)
    if surely(a) or surely(b):
        x, y = csize(a), csize(b)
        if x is not None and y is not None and x != y and differ(x, y, conds):
            return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[:2] == b[:2] == ('op', 'cat') and len(a) == len(b) == 4 and \
                char(a[3]) and char(b[3]):
            return differ(a[3], b[3], conds)
    val = fval if isfloat(a) or isfloat(b) else ev
    for e in points(conds, (a, b), 3000, 1, None, 600):
        try:
            e.used = set()
            x = val(a, e)
            u, e.used = e.used, set()
            y = val(b, e)
            if u != e.used:
                continue
        except (No, TypeError, RecursionError, OverflowError, MemoryError):
            continue
        if unlike(x, y):
            return True
    return False


def unlike(x, y):
    """certainly different values"""
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return x != y
    if isinstance(x, int) or isinstance(y, int):
        z = y if isinstance(x, int) else x
        return isinstance(z, tuple) and z[0] in ('ptr', 'lref') and 0 in (x, y)
    if not (isinstance(x, tuple) and isinstance(y, tuple)) or not x or not y or x[0] != y[0]:
        return False
    k = x[0]
    if k == 's':
        return x != y
    if k == 'vec':
        return len(x[1]) != len(y[1]) or any(unlike(p, q) for p, q in zip(x[1], y[1]))
    if k in ('ptr', 'lref'):
        (r1, p1), (r2, p2) = x[1], y[1]
        if r1 == r2:
            return len(p1) != len(p2) or any(step(a, b) for a, b in zip(p1, p2))
        return isinstance(r1, tuple) and isinstance(r2, tuple) and r1[0] in ('this', 'obj', 'v', 'param') and \
            r2[0] in ('this', 'obj', 'v', 'param')
    if k == 'agg':
        d1, d2 = dict(x[2]), dict(y[2])
        return any(p in d2 and unlike(d1[p], d2[p]) for p in d1)
    if k == 'iter' and len(x) == len(y):
        return any(isinstance(p, int) and isinstance(q, int) and p != q for p, q in zip(x[1:], y[1:]))
    return False


def step(a, b):
    if a == b:
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == '[]':
        return isinstance(a[1], int) and isinstance(b[1], int)
    return True
