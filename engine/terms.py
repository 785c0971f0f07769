"""Abstract values: integer constants, opaque atoms, polynomials, bit-provenance vectors, conditions.

A term is a Python int or a tuple.  Nothing here is executed against the library and no solver is
involved: terms are rewritten to a normal form and compared structurally.

  int                         constant
  ('init', root, path)        value a location had on entry
  ('rd', k, idx)              k-th value read from a stream (idx: loop indices it depends on)
  ('rem', k, idx)             bytes left in the stream at query k
  ('P', ((mono, coef), ...))  polynomial, mono = tuple of atoms
  ('bv', (bit, ...))          unsigned value given bit by bit, least significant first
  ('sbv', (bit, ...))         the same, top bit is the sign
  ('cast', bits, sg, t)
  ('ite', c, a, b)
  ('sum', L, N, body)         sum over loop index ('ix', L) of body
  ('elem', v, i) ('size', v) ('fld', v, name)
  conditions: ('eq', a, b) ('lt', a, b) ('not', c) ('and', a, b) ('or', a, b) ('bit', b) ('isdyn', p, T)
"""
import hashlib
import math

ATOM_TYPE = {}      # atom -> (bits, signed)
ARRAY_LEN = {}      # value of a fixed-size array -> number of elements
_ids = {}


def tid(t):
    i = _ids.get(t)
    if i is None:
        i = _ids[t] = len(_ids)
    return i


def is_int(t):
    return isinstance(t, int)


_sk = {}


def skey(t):
    """creation-order independent sort key"""
    r = _sk.get(t)
    if r is None:
        r = _sk[t] = repr(t)
    return r


# ------------------------------------------------------------------ polynomials
def poly_items(t):
    if is_int(t):
        return {(): t} if t else {}
    if t[0] == 'P':
        return dict(t[1])
    return {(t,): 1}


def mk_poly(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return 0
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            return c
        if len(m) == 1 and c == 1:
            return m[0]
    return ('P', tuple(sorted(d.items(), key=skey)))


def add(a, b):
    if is_int(a) and is_int(b):
        return a + b
    d = poly_items(a)
    for m, c in poly_items(b).items():
        d[m] = d.get(m, 0) + c
    return mk_poly(d)


def neg(a):
    return mk_poly({m: -c for m, c in poly_items(a).items()})


def sub(a, b):
    return add(a, neg(b))


def mul(a, b):
    if is_int(a) and is_int(b):
        return a * b
    d = {}
    for m1, c1 in poly_items(a).items():
        for m2, c2 in poly_items(b).items():
            m = list(m1)
            for x in m2:
                if x[0] == 'ind':
                    if x in m:
                        continue
                    if x[1][0] == 'eq' and is_int(x[1][2]) and any(
                            y[0] == 'ind' and y[1][0] == 'eq' and y[1][1] == x[1][1] and is_int(y[1][2]) and
                            y[1][2] != x[1][2] for y in m):
                        m = None        # a value equals one constant
                        break
                    if x[1][0] == 'isdyn' and any(y[0] == 'ind' and y[1][0] == 'isdyn' and y[1][1] == x[1][1]
                                                  for y in m):
                        m = None        # an object has one dynamic type
                        break
                m.append(x)
            if m is None:
                continue
            m = tuple(sorted(m, key=skey))
            d[m] = d.get(m, 0) + c1 * c2
    return mk_poly(d)


def floordiv(a, k):
    if is_int(a) and is_int(k) and k:
        return a // k if a >= 0 else -((-a) // k)
    if is_int(k) and k:
        if k == 1:
            return a
        if a[0] == 'ite':
            return ite(a[1], floordiv(a[2], k), floordiv(a[3], k))
        items = poly_items(a)
        if all(c % k == 0 for c in items.values()):
            return mk_poly({m: c // k for m, c in items.items()})
        if k & (k - 1) == 0 and a[0] != 'rb':
            sh = k.bit_length() - 1
            b = bits(a, None)
            if b is not None and not (isinstance(a, tuple) and a[0] == 'sbv'):
                return mk_bv(b[sh:])
        g = math.gcd(k, *items.values())
        if g > 1:
            return floordiv(mk_poly({m: c // g for m, c in items.items()}), k // g)
        lo = {m: c for m, c in items.items() if c % k}
        hi = {m: c // k for m, c in items.items() if c % k == 0}
        if hi and set(lo) == {()} and 0 <= lo[()] < k:
            return mk_poly(hi)
    return ('op', 'div', a, k)


def exact_div(a, k):
    """a / k when a is visibly a multiple of k, else None"""
    if is_int(a):
        return a // k if a % k == 0 else None
    if a[0] == 'ite':
        x, y = exact_div(a[2], k), exact_div(a[3], k)
        return None if x is None or y is None else ite(a[1], x, y)
    if a[0] == 'sum':
        x = exact_div(a[3], k)
        return None if x is None else mk_sum(a[1], a[2], x)
    if a[0] == 'op' and a[1] == '*':
        return None
    if a[0] == 'P':
        out = 0
        for m, c in a[1]:
            if c % k == 0:
                out = add(out, mk_poly({m: c // k}))
                continue
            for i, x in enumerate(m):
                y = exact_div(x, k) if x[0] in ('sum', 'ite') else None
                if y is not None:
                    out = add(out, mul(mk_poly({m[:i] + m[i + 1:]: c}), y))
                    break
            else:
                return None
        return out
    return None


def bytediv(a):
    """bit position -> byte position; kept symbolic until the position is visibly a multiple of 8"""
    if is_int(a) or all(c % 8 == 0 for c in poly_items(a).values()):
        return floordiv(a, 8)
    e = exact_div(a, 8)
    if e is not None:
        return e
    hi = {m: c // 8 for m, c in poly_items(a).items() if c % 8 == 0}
    lo = {m: c for m, c in poly_items(a).items() if c % 8}
    return add(mk_poly(hi), ('op', 'bdiv', mk_poly(lo), 8))


def mod(a, k):
    if is_int(a) and is_int(k) and k:
        return a % k
    if is_int(k) and k:
        if a[0] == 'ite':
            return ite(a[1], mod(a[2], k), mod(a[3], k))
        items = {m: c % k for m, c in poly_items(a).items()}
        r = mk_poly(items)
        if is_int(r):
            return r % k
        if k & (k - 1) == 0 and a[0] != 'rb':
            b = bits(a, None)
            if b is not None:
                return mk_bv(b[:k.bit_length() - 1])
    return ('op', 'mod', a, k)


# ------------------------------------------------------------------ ranges and bits
def rng(t):
    if is_int(t):
        return (t, t)
    k = t[0]
    if t in ATOM_TYPE:
        b, s = ATOM_TYPE[t]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    if k == 'bv':
        return (0, (1 << len(t[1])) - 1)
    if k == 'sbv':
        n = len(t[1])
        return (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    if k == 'cast':
        b, s = t[1], t[2]
        return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)
    if k == 'ind' or k in COND:
        return (0, 1)
    if k == 'ite':
        a, b = rng(t[2]), rng(t[3])
        if a and b:
            return (min(a[0], b[0]), max(a[1], b[1]))
        return None
    if k == 'size' or (k == 'init' and t[2] and t[2][-1] == '#'):
        return (0, (1 << 60))
    if k == 'sum':
        r = rng(t[3])
        if r and r[0] >= 0:
            return (0, 1 << 62)
        return None
    if k == 'ix':
        return (0, 1 << 60)
    if k == 'op' and t[1] == 'mod' and is_int(t[3]) and t[3] > 0:
        return (0, t[3] - 1)
    if k == 'P':
        lo = hi = 0
        for m, c in t[1]:
            l, h = 1, 1
            for a in m:
                r = rng(a)
                if not r or r[0] < 0:
                    if len(m) == 1 and r:
                        l, h = r
                        break
                    return None
                l, h = l * r[0], h * r[1]
            if c >= 0:
                lo += c * l
                hi += c * h
            else:
                lo += c * h
                hi += c * l
        return (lo, hi)
    if k == 'op' and t[1] == 'div' and is_int(t[3]) and t[3] > 0:
        r = rng(t[2])
        if r and r[0] >= 0:
            return (r[0] // t[3], r[1] // t[3])
    return None


def nonneg(t):
    r = rng(t)
    return r is not None and r[0] >= 0


def positive(t):
    r = rng(t)
    return r is not None and r[0] > 0


def bnot(b):
    if is_int(b):
        return 1 - b
    if b[0] == '~':
        return b[1]
    return ('~', b)


def band(a, b):
    if a == 0 or b == 0:
        return 0
    if a == 1:
        return b
    if b == 1 or a == b:
        return a
    if a == bnot(b):
        return 0
    return ('b&',) + tuple(sorted((a, b), key=skey))


def bor(a, b):
    if a == 1 or b == 1:
        return 1
    if a == 0:
        return b
    if b == 0 or a == b:
        return a
    if a == bnot(b):
        return 1
    return ('b|',) + tuple(sorted((a, b), key=skey))


def bxor(a, b):
    if is_int(a):
        return bnot(b) if a else b
    if is_int(b):
        return bnot(a) if b else a
    if a == b:
        return 0
    return ('b^',) + tuple(sorted((a, b), key=skey))


def reset():
    """forget everything known about atoms (they are only unique within one class)"""
    for d in (ATOM_TYPE, ARRAY_LEN, _ids, _sk, _bs, _occ):
        d.clear()


COND = ('eq', 'lt', 'not', 'and', 'or', 'bit', 'isdyn', 'lexit', 'good', 'nd', 'ptrset')


def bite(c, x, y):
    """the bit x when c, y otherwise"""
    if x == y:
        return x
    if is_int(x) and is_int(y):
        if c[0] == 'not':
            c, x = c[1], y
        b = c[1] if c[0] == 'bit' else ('bit?', c)
        return b if x else bnot(b)
    return ('bite', c, x, y)


def bits(t, n):
    """list of n bits (least significant first) of t, or None; n None: natural width (unsigned only)"""
    if is_int(t):
        if n is None:
            if t < 0:
                return None
            n = max(t.bit_length(), 1)
        return [(t >> i) & 1 for i in range(n)]
    k = t[0]
    r = None
    sign = 0
    if k in ('bv', 'sbv'):
        r = list(t[1])
        sign = r[-1] if (k == 'sbv' and r) else 0
    elif k in COND:
        r = [('bit?', t)] if k != 'bit' else [t[1]]
    elif t in ATOM_TYPE and k not in ('cast', 'P', 'ite'):
        b, s = ATOM_TYPE[t]
        r = [('b', t, i) for i in range(b)]
        sign = r[-1] if s else 0
    elif k == 'cast':
        b = bits(t[3], t[1])
        if b is None:
            return None
        r = b
        sign = r[-1] if t[2] else 0
    elif k == 'P':
        acc = {}
        for m, c in t[1]:
            if len(m) == 0:
                mb, sh = None, 0
                if c < 0:
                    return None
                for i in range(c.bit_length()):
                    if (c >> i) & 1:
                        if i in acc:
                            return None
                        acc[i] = 1
                continue
            if len(m) != 1 or c <= 0 or c & (c - 1):
                return None
            sh = c.bit_length() - 1
            mb = bits(m[0], None)
            if mb is None:
                return None
            for i, x in enumerate(mb):
                if x == 0:
                    continue
                if sh + i in acc:
                    return None
                acc[sh + i] = x
        w = max(acc) + 1 if acc else 1
        r = [acc.get(i, 0) for i in range(w)]
    elif k == 'ite':
        a = bits(t[2], n if n is not None else None)
        b = bits(t[3], n if n is not None else None)
        if a is None or b is None:
            return None
        w = max(len(a), len(b))
        a = a + [0] * (w - len(a))
        b = b + [0] * (w - len(b))
        r = [bite(t[1], x, y) for x, y in zip(a, b)]
        if n is None:
            return r
    else:
        return None
    if n is None:
        return None if sign != 0 else r
    if len(r) >= n:
        return r[:n]
    return r + [sign] * (n - len(r))


def whole_atom(bs):
    """if bs are exactly all the bits of one atom: (atom)"""
    if not bs or is_int(bs[0]) or bs[0][0] != 'b':
        return None
    a = bs[0][1]
    for i, x in enumerate(bs):
        if is_int(x) or x != ('b', a, i):
            return None
    return a


def mk_bv(bs):
    bs = list(bs)
    while bs and bs[-1] == 0:
        bs.pop()
    if not bs:
        return 0
    if all(is_int(b) for b in bs):
        return sum(b << i for i, b in enumerate(bs))
    a = whole_atom(bs)
    if a is not None and ATOM_TYPE.get(a) == (len(bs), False):
        return a
    if len(bs) == 1 and isinstance(bs[0], tuple) and bs[0][0] == 'bit?':
        return bs[0][1]
    return ('bv', tuple(bs))


def mk_sbv(bs):
    if bs[-1] == 0:
        return mk_bv(bs)
    if all(is_int(b) for b in bs):
        return sum(b << i for i, b in enumerate(bs)) - (1 << len(bs))
    a = whole_atom(bs)
    if a is not None and ATOM_TYPE.get(a) == (len(bs), True):
        return a
    # strip sign extension
    bs = list(bs)
    while len(bs) > 1 and bs[-1] == bs[-2]:
        bs.pop()
    a = whole_atom(bs)
    if a is not None and ATOM_TYPE.get(a) == (len(bs), True):
        return a
    return ('sbv', tuple(bs))


def cast(t, b, sg):
    if is_int(t):
        v = t & ((1 << b) - 1)
        if sg and v >> (b - 1):
            v -= 1 << b
        return v
    r = rng(t)
    lo, hi = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if sg else (0, (1 << b) - 1)
    if r is not None and r[0] >= lo and r[1] <= hi:
        return t
    if t[0] == 'ite':
        return ite(t[1], cast(t[2], b, sg), cast(t[3], b, sg))
    if t[0] in ('bv', 'sbv'):
        bs = bits(t, b)
        return mk_sbv(bs) if sg else mk_bv(bs)
    if t[0] == 'cast':
        if t[1] >= b:
            return cast(t[3], b, sg)
    if t[0] == 'op' and t[1] in ('|', '&', '^', '<<') or t[0] == 'P':
        t2 = thin(t, b)
        if t2 != t:
            return cast(t2, b, sg)
    if t in ATOM_TYPE:
        ab, asg = ATOM_TYPE[t]
        if ab <= b or (b == ab):
            bs = bits(t, b)
            return mk_sbv(bs) if sg else mk_bv(bs)
    return ('cast', b, sg, t)


def thin(t, b):
    """t without the conversions that do not touch its low b bits"""
    if not isinstance(t, tuple):
        return t
    if t[0] == 'cast' and t[1] >= b:
        return thin(t[3], b)
    if t[0] == 'op' and t[1] in ('|', '&', '^'):
        return ('op', t[1]) + tuple(sorted((thin(x, b) for x in t[2:]), key=skey))
    if t[0] == 'op' and t[1] == '<<':
        return ('op', '<<', thin(t[2], b), t[3])
    if t[0] == 'P':
        # sums and products modulo 2^b
        if not any(isinstance(a, tuple) and (a[0] == 'cast' and a[1] >= b or a[0] == 'sum') for m, _ in t[1] for a in m):
            return t
        out = 0
        for m, c in t[1]:
            x = c
            for a in m:
                x = mul(x, thin(a, b))
            out = add(out, x)
        return out
    if t[0] == 'sum':
        x = thin(t[3], b)
        return t if x == t[3] else mk_sum(t[1], t[2], x)
    return t


def bitop(op, a, b, w, sg):
    if is_int(a) and is_int(b):
        v = a & b if op == '&' else a | b if op == '|' else a ^ b
        return cast(v, w, sg)
    # a mask keeping only low bits works for any operand
    x, y = bits(a, w), bits(b, w)
    if x is None or y is None:
        if op == '&':
            for p, q in ((a, b), (b, a)):
                if is_int(q) and q >= 0 and (q & (q + 1)) == 0 and q:
                    n = q.bit_length()
                    pr = rng(p)
                    if pr and pr[0] >= 0 and pr[1] <= q:
                        return p
                    return ('cast', n, False, p)
            if a == 0 or b == 0:
                return 0
        if op in '|^':
            if a == 0:
                return b
            if b == 0:
                return a
        return ('op', op) + tuple(sorted((a, b), key=skey))
    f = {'&': band, '|': bor, '^': bxor}[op]
    bs = [f(p, q) for p, q in zip(x, y)]
    return mk_sbv(bs) if sg else mk_bv(bs)


def bitnot(a, w, sg):
    if is_int(a):
        return cast(~a, w, sg)
    x = bits(a, w)
    if x is None:
        return ('op', '~', a)
    bs = [bnot(p) for p in x]
    return mk_sbv(bs) if sg else mk_bv(bs)


def shl(a, k, w, sg):
    if is_int(k):
        if is_int(a):
            return cast(a << k, w, sg)
        if k == 0:
            return a
        x = bits(a, w)
        if x is not None:
            bs = ([0] * k + x)[:w]
            return mk_sbv(bs) if sg else mk_bv(bs)
        return mul(a, 1 << k)
    return 0 if a == 0 else ('op', '<<', a, k)


def shr(a, k, w, sg):
    if is_int(k):
        if is_int(a):
            return a >> k
        if k == 0:
            return a
        x = bits(a, w)
        if x is not None:
            s = x[-1] if sg else 0
            bs = x[k:] + [s] * k
            return mk_sbv(bs) if sg else mk_bv(bs)
        if nonneg(a):
            return floordiv(a, 1 << k)
    return 0 if a == 0 else ('op', '>>', a, k)


# ------------------------------------------------------------------ conditions
def truth(t):
    """integer/pointer term -> condition"""
    if is_int(t):
        return int(t != 0)
    if t[0] in COND:
        return t
    if t[0] == 'ind':
        return t[1]
    if t[0] == 'ite':
        return ite(t[1], truth(t[2]), truth(t[3]))
    return cnot(eq(t, 0))


def cnot(c):
    if is_int(c):
        return int(not c)
    if c[0] == 'not':
        return c[1]
    if c[0] == 'ite':
        return ite(c[1], cnot(truth(c[2])), cnot(truth(c[3])))
    if c[0] == 'and':
        return cor(cnot(c[1]), cnot(c[2]))
    if c[0] == 'or':
        return cand(cnot(c[1]), cnot(c[2]))
    return ('not', c)


def conj(c):
    return conj(c[1]) + conj(c[2]) if isinstance(c, tuple) and c[0] == 'and' else [c]


def disj(c):
    return disj(c[1]) + disj(c[2]) if isinstance(c, tuple) and c[0] == 'or' else [c]


def cand(a, b):
    a, b = truth(a), truth(b)
    if is_int(a):
        return b if a else 0
    if is_int(b):
        return a if b else 0
    xs = sorted(set(conj(a) + conj(b)), key=skey)
    for x in xs:
        if cnot(x) in xs:
            return 0
    dyn = {x[1]: x for x in xs if x[0] == 'isdyn'}
    if dyn:
        if any(x[0] == 'isdyn' and dyn[x[1]] != x for x in xs):
            return 0
        xs = [x for x in xs if not (x[0] == 'not' and x[1][0] == 'isdyn' and x[1][1] in dyn)]
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = ('and', x, r)
    return r


def cor(a, b):
    a, b = truth(a), truth(b)
    if is_int(a):
        return 1 if a else b
    if is_int(b):
        return 1 if b else a
    xs = sorted(set(disj(a) + disj(b)), key=skey)
    for x in xs:
        if cnot(x) in xs:
            return 1
    r = xs[-1]
    for x in reversed(xs[:-1]):
        r = ('or', x, r)
    return r


def full_agg(t):
    """an array of which every element was stored, as a sequence"""
    if isinstance(t, tuple) and t[0] == 'agg' and isinstance(t[1], tuple) and t[1][0] == 'uninit':
        d = dict(t[2])
        v = [d.get((('[]', i),)) for i in range(len(d))]
        if all(x is not None for x in v):
            return ('vec', tuple(v))
    return t


def eq(a, b):
    if a == b:
        return 1
    if is_int(a) and is_int(b):
        return int(a == b)
    if isinstance(a, tuple) and isinstance(b, tuple) and (a[0] == 'P' or b[0] == 'P'):
        # terms on both sides cancel
        da, db = poly_items(a), poly_items(b)
        if any(m in db for m in da):
            d = poly_items(sub(a, b))
            if not d:
                return 1
            pos = mk_poly({m: c for m, c in d.items() if (c > 0) == (m != ())})
            neg = mk_poly({m: -c for m, c in d.items() if (c > 0) != (m != ())})
            return eq(pos, neg)
    # booleans compared with 0/1
    for x, y in ((a, b), (b, a)):
        if isinstance(x, tuple) and x[0] in COND and is_int(y):
            return x if y == 1 else cnot(x) if y == 0 else 0
        if isinstance(x, tuple) and x[0] == 'ite' and is_int(y):
            return ite(x[1], eq(x[2], y), eq(x[3], y))
    for x, y in ((a, b), (b, a)):
        if is_int(y) and isinstance(x, tuple):
            r = rng(x)
            if r and (y < r[0] or y > r[1]):
                return 0
            bs = bits(x, None)
            if bs is not None and x not in ATOM_TYPE:
                # constant bits must agree; collect the free ones
                if y < 0 or y >> len(bs):
                    return 0
                free = []
                for i, bb in enumerate(bs):
                    yb = (y >> i) & 1
                    if is_int(bb):
                        if bb != yb:
                            return 0
                    else:
                        free.append((bb, yb))
                if len(free) == 1:
                    bb, yb = free[0]
                    c = bb[1] if bb[0] == 'bit?' else ('bit', bb) if bb[0] != '~' else ('not', ('bit', bb[1]))
                    return c if yb else cnot(c)
            elif x in ATOM_TYPE and ATOM_TYPE[x] == (1, False):
                return x and (('bit', ('b', x, 0)) if y else cnot(('bit', ('b', x, 0))))
            if x[0] == 'P':
                # move the constant over
                d = dict(x[1])
                c = d.pop((), 0)
                if c:
                    return eq(mk_poly(d), y - c)
                if len(d) == 1:
                    (m, k), = d.items()
                    if k == -1:
                        return eq(mk_poly({m: 1}), -y)
                    if y % k:
                        return 0
                    if k != 1:
                        return eq(mk_poly({m: 1}), y // k)
                r2 = rng(sub(x, y))
                if r2 and (r2[0] > 0 or r2[1] < 0):
                    return 0
            return ('eq', x, y)
    a, b = full_agg(a), full_agg(b)
    for x, y in ((a, b), (b, a)):
        # comparison with a fixed sequence of elements
        if isinstance(y, tuple) and y[0] == 'vec' and isinstance(x, tuple) and \
                x[0] in ('init', 'agg', 'vec', 'elem', 'fld', 'ite'):
            c = 1
            if x in ARRAY_LEN:
                c = int(ARRAY_LEN[x] == len(y[1]))
            elif x[0] in ('vec',):
                c = eq(sel(x, '#'), len(y[1]))
            elif x[0] != 'agg' or x[1] not in ARRAY_LEN:
                c = eq(sel(x, '#'), len(y[1]))
            for i, v in enumerate(y[1]):
                c = cand(c, eq(sel(x, ('[]', i)), v))
            return c
    d = sub(a, b)
    if is_int(d):
        return int(d == 0)
    ba, bb = bits(a, None), bits(b, None)
    if ba is not None and bb is not None:
        w = max(len(ba), len(bb))
        if ba + [0] * (w - len(ba)) == bb + [0] * (w - len(bb)):
            return 1
    r = rng(d)
    if r and (r[0] > 0 or r[1] < 0):
        return 0
    return ('eq',) + tuple(sorted((a, b), key=skey))


def lt(a, b):
    """a < b (mathematical)"""
    d = sub(b, a)
    r = rng(d)
    if r:
        if r[0] > 0:
            return 1
        if r[1] <= 0:
            return 0
    if is_int(d):
        return int(d > 0)
    for x in (a, b):
        if isinstance(x, tuple) and x[0] == 'ite':
            p, q = (lt(x[2], b), lt(x[3], b)) if x is a else (lt(a, x[2]), lt(a, x[3]))
            if is_int(p) or is_int(q):
                return ite(x[1], p, q)
    # x < 1 with x >= 0  <=>  x == 0;   0 < x  <=> x != 0
    if is_int(b) and b == 1 and nonneg(a):
        return eq(a, 0)
    if is_int(a) and a == 0 and nonneg(b):
        return cnot(eq(b, 0))
    # canonical: constant < poly or poly < constant with constant separated
    items = poly_items(d)
    c = items.pop((), 0)
    if items:
        lead = sorted(items.items(), key=skey)[0][1]
        if lead > 0:      # 0 < p + c   <=>  -c < p
            return ('lt', -c, mk_poly(items))
        return ('lt', mk_poly({m: -k for m, k in items.items()}), c)
    return ('lt', a, b)


def le(a, b):
    return cnot(lt(b, a))


def ite(c, a, b):
    c = truth(c)
    if is_int(c):
        return a if c else b
    if a == b:
        return a
    if c[0] == 'not':
        return ite(c[1], b, a)
    if c[0] == 'isdyn' and isinstance(a, tuple):
        a = subst(a, lambda x: int(x[2] == c[2]) if x and x[0] == 'isdyn' and x[1] == c[1] else None)
        if a == b:
            return a
    if isinstance(a, tuple) and a[0] == 'ite' and a[1] == c:
        a = a[2]
    if isinstance(b, tuple) and b[0] == 'ite' and b[1] == c:
        b = b[3]
    isb = lambda x: x in (0, 1) if is_int(x) else x[0] in COND
    if isb(a) and isb(b):
        if a == 1 and b == 0:
            return c
        if a == 0 and b == 1:
            return cnot(c)
        if a == 1 or a == 0 or b == 0 or b == 1:
            if b == 0:
                return cand(c, a)
            if b == 1:
                return cor(cnot(c), a)
            if a == 1:
                return cor(c, b)
            if a == 0:
                return cand(cnot(c), b)
    if a == b:
        return a
    return ('ite', c, a, b)


# ------------------------------------------------------------------ substitution / rewriting
def rebuild(t, args):
    k = t[0]
    if k == 'P':
        raise AssertionError
    if k == 'cast':
        return cast(args[2], args[0], args[1])
    if k == 'ite':
        return ite(*args)
    if k == 'eq':
        return eq(*args)
    if k == 'lt':
        return lt(*args)
    if k == 'not':
        return cnot(truth(args[0]))
    if k == 'and':
        return cand(*args)
    if k == 'or':
        return cor(*args)
    if k == 'ind':
        return ind(args[0])
    if k == 'op':
        o = args[0]
        if o == 'bdiv':
            return bytediv(args[1])
        if o == 'div':
            return floordiv(args[1], args[2])
        if o == 'mod':
            return mod(args[1], args[2])
        if o in ('<<', '>>') and args[1] == 0:
            return 0
        if o == '<<' and is_int(args[2]) and args[2] >= 0:
            return shl(args[1], args[2], 64, False)
        if o == '>>' and is_int(args[2]) and args[2] >= 0:
            return shr(args[1], args[2], 64, False)
        if o in ('&', '|', '^'):
            return bitop(o, args[1], args[2], 64, False)
    if k == 'sum':
        return mk_sum(*args)
    if k == 'size':
        return mk_size(args[0])
    if k == 'elem':
        return mk_elem(args[0], args[1])
    return (k,) + tuple(args)


def ind(c):
    c = truth(c)
    return c if is_int(c) else ('ind', c)


def mk_size(v):
    return sel(v, '#')


def part_of(x, L, n):
    """the sequence whose elements are x for every value of the counter of loop L"""
    ix = ('ix', L)
    if not isinstance(x, tuple) or isinstance(n, bool):
        return None
    if x[0] == 'init' and x[2] and isinstance(x[2][-1], tuple) and x[2][-1][0] == '[]':
        base, t = ('init', x[1], x[2][:-1]), x[2][-1][1]
    elif x[0] == 'elem' and len(x) == 3:
        base, t = x[1], x[2]
    else:
        return None
    off = sub(t, ix)
    if occurs(off, ix) or occurs(base, ix):
        return None
    return ('slice', base, off, n)


def whole(b, ext):
    """a container made by appending the elements of another one, in a loop, is that part of it; None when there is no such"""
    d, hit = dict(ext), False
    for p in sorted([p for p in d if p and isinstance(p[-1], tuple) and p[-1][0] == '[*]'], key=len, reverse=True):
        pre = p[:-1]
        was = d.get(pre) if pre else b
        if was == ('vec', ()) and pre + ('#',) in d and len([q for q in d if q[:len(pre)] == pre and q != pre]) == 2:
            x = part_of(d[p], p[-1][1], d[pre + ('#',)])
            if x is not None:
                if not pre:
                    return x
                d = {q: y for q, y in d.items() if q[:len(pre)] != pre}
                d[pre] = x
                hit = True
    return ('agg', b, tuple(sorted(d.items(), key=skey))) if hit else None


def mk_elem(v, i):
    return sel(v, ('[]', i))


def sel(v, s):
    """select path element s from an aggregate value"""
    if isinstance(v, tuple):
        k = v[0]
        if k == 'init':
            return ('init', v[1], v[2] + (s,))
        if k == 'vec':
            if s == '#':
                return len(v[1])
            if isinstance(s, tuple) and s[0] == '[]' and is_int(s[1]) and 0 <= s[1] < len(v[1]):
                return v[1][s[1]]
        if k == 'ite':
            return ite(v[1], sel(v[2], s), sel(v[3], s))
        if k == 'agg':
            d = dict(v[2])
            if (s,) in d:
                return d[(s,)]
            subs = tuple((p[1:], x) for p, x in v[2] if p[0] == s and len(p) > 1)
            lam = None
            if isinstance(s, tuple) and s[0] == '[]':
                lam = tuple((p[1:], subst(x, {('ix', p[0][1]): s[1]})) for p, x in v[2]
                            if isinstance(p[0], tuple) and p[0][0] == '[*]')
            if not subs and lam:
                if len(lam) == 1 and lam[0][0] == ():
                    return lam[0][1]
                subs = lam
            base = sel(v[1], s) if v[1] is not None else None
            if subs:
                return ('agg', base, subs)
            return base if base is not None else ('uninit', s)
        if k == 'fill':
            # n copies of a value
            if s == '#':
                return v[1]
            if isinstance(s, tuple) and s[0] == '[]':
                return v[2]
        if k == 'slice':
            # v[1][v[2] : v[2]+v[3]]
            if s == '#':
                return v[3]
            if isinstance(s, tuple) and s[0] == '[]':
                return sel(v[1], ('[]', add(v[2], s[1])))
        if k == 's':
            if s == '#':
                return len(v[1])
            if isinstance(s, tuple) and s[0] == '[]' and is_int(s[1]) and 0 <= s[1] < len(v[1]):
                return ord(v[1][s[1]])
    if s == '#':
        return ('size', v)
    if isinstance(s, tuple) and s[0] == '[]':
        return ('elem', v, s[1])
    return ('fld', v, s)


def mk_sum(L, N, body):
    """sum over ix(L) in [0,N)"""
    if is_int(body) or not occurs(body, ('ix', L)):
        return mul(N, body)
    # linear split
    out = 0
    for m, c in poly_items(body).items():
        dep = tuple(a for a in m if occurs(a, ('ix', L)))
        rest = tuple(a for a in m if not occurs(a, ('ix', L)))
        if not dep:
            out = add(out, mul(N, mk_poly({rest: c})))
        else:
            out = add(out, mul(mk_poly({rest: c}), bound_sum(L, N, mk_poly({dep: 1}))))
    return out


_bs = {}


def bound_sum(L, N, body):
    """the bound index is named after what is summed, so that equal sums are equal terms"""
    r = _bs.get((L, N, body))
    if r is None:
        b0 = subst(body, {('ix', L): ('ix', '$')})
        h = '$' + hashlib.md5(repr((N, b0)).encode()).hexdigest()[:10]
        ATOM_TYPE.setdefault(('ix', h), (60, False))
        r = _bs[(L, N, body)] = ('sum', h, N, subst(b0, {('ix', '$'): ('ix', h)}))
    return r


_occ = {}


def occurs(t, a):
    if t == a:
        return True
    if not isinstance(t, tuple):
        return False
    key = (t, a)
    r = _occ.get(key)
    if r is None:
        r = _occ[key] = any(occurs(x, a) for x in t)
    return r


def subst(t, m):
    """replace whole subterms (atoms) and renormalise"""
    if not m:
        return t
    memo = {}
    fn = m if callable(m) else None

    def go(x):
        if not isinstance(x, tuple):
            return x
        if x in memo:
            return memo[x]
        if fn is not None:
            r = fn(x)
            if r is not None:
                memo[x] = r
                return r
        elif x in m:
            r = m[x]
            memo[x] = r
            return r
        r = x
        if x and isinstance(x[0], str):
            k = x[0]
            if k == 'P':
                acc = 0
                for mono, c in x[1]:
                    p = c
                    for a in mono:
                        p = mul(p, go(a))
                    acc = add(acc, p)
                r = acc
            elif k == 'bv' and high_run(x[1]) is not None and go(high_run(x[1])[0]) != high_run(x[1])[0]:
                a, sh = high_run(x[1])
                r = shr(go(a), sh, 64, False)
            elif k in ('bv', 'sbv'):
                bs = [gob(b) for b in x[1]]
                r = x if tuple(bs) == x[1] else (mk_bv(bs) if k == 'bv' else mk_sbv(bs))
            elif k == 'bit':
                b = gob(x[1])
                r = truthbit(b)
            elif k == 's':
                r = x
            else:
                args = tuple(go(a) if isinstance(a, tuple) else a for a in x[1:])
                if args != x[1:]:
                    r = rebuild(x, args)
                    if x in ATOM_TYPE and isinstance(r, tuple) and r not in ATOM_TYPE:
                        ATOM_TYPE[r] = ATOM_TYPE[x]
        else:
            r = tuple(go(a) for a in x)
        memo[x] = r
        return r

    def gob(b):
        if is_int(b):
            return b
        if b[0] == 'b':
            a = go(b[1])
            if a == b[1]:
                return b
            n = b[2] + 1
            bs = bits(a, max(n, 64))
            if bs is None:
                return ('bx', a, b[2])
            return bs[b[2]]
        if b[0] == '~':
            return bnot(gob(b[1]))
        if b[0] == 'bit?':
            c = truth(go(b[1]))
            return c if is_int(c) else c[1] if c[0] == 'bit' else ('bit?', c)
        if b[0] == 'b&':
            return band(gob(b[1]), gob(b[2]))
        if b[0] == 'b|':
            return bor(gob(b[1]), gob(b[2]))
        if b[0] == 'b^':
            return bxor(gob(b[1]), gob(b[2]))
        if b[0] == 'bite':
            c = truth(go(b[1]))
            x, y = gob(b[2]), gob(b[3])
            if is_int(c):
                return x if c else y
            return bite(c, x, y)
        if b[0] == 'bx':
            a = go(b[1])
            bs = bits(a, max(b[2] + 1, 64))
            return ('bx', a, b[2]) if bs is None else bs[b[2]]
        return b

    return go(t)


def high_run(bs):
    """(atom, shift) if bs are the bits of an unsigned atom from shift to its top"""
    b = bs[0]
    if is_int(b) or b[0] != 'b' or b[1] not in ATOM_TYPE:
        return None
    w, sg = ATOM_TYPE[b[1]]
    if sg or b[2] == 0 or w - b[2] != len(bs):
        return None
    for i, x in enumerate(bs):
        if is_int(x) or x[0] != 'b' or x[1] != b[1] or x[2] != b[2] + i:
            return None
    return b[1], b[2]


def truthbit(b):
    if is_int(b):
        return b
    if b[0] == 'bit?':
        return b[1]
    if b[0] == '~':
        return cnot(truthbit(b[1]))
    return ('bit', b)


def expand_ind(t):
    """numeric ite -> indicator polynomial; sums rebuilt"""
    if is_int(t):
        return t
    k = t[0]
    if k == 'ite':
        c = t[1]
        a, b = expand_ind(t[2]), expand_ind(t[3])
        i = indpoly(c)
        return add(b, mul(i, sub(a, b)))
    if k in COND:
        return indpoly(t)
    if k == 'P':
        acc = 0
        for mono, c in t[1]:
            p = c
            for a in mono:
                p = mul(p, expand_ind(a) if a[0] in ('ite', 'sum', 'cast') or a[0] in COND else a)
            acc = add(acc, p)
        return acc
    if k == 'sum':
        return mk_sum(t[1], t[2], expand_ind(t[3]))
    return t


def indpoly(c):
    c = truth(c)
    if is_int(c):
        return c
    if c[0] == 'not':
        return sub(1, indpoly(c[1]))
    if c[0] == 'ite':
        i = indpoly(c[1])
        b = indpoly(c[3])
        return add(b, mul(i, sub(indpoly(c[2]), b)))
    if c[0] == 'and':
        return mul(indpoly(c[1]), indpoly(c[2]))
    if c[0] == 'or':
        a, b = indpoly(c[1]), indpoly(c[2])
        return sub(add(a, b), mul(a, b))
    return ('ind', c)


def erase(t, minbits=16):
    """drop widenings/truncations to at least minbits bits (no-overflow reading of a size)"""
    if is_int(t):
        return t
    if t[0] == 'cast' and t[1] >= minbits:
        return erase(t[3], minbits)
    if t[0] in ('bv', 'sbv') and len(t[1]) >= minbits:
        a = whole_atom(t[1])
        if a is not None:
            return erase(a, minbits)
        return t
    if t[0] == 'P':
        acc = 0
        for mono, c in t[1]:
            p = c
            for a in mono:
                p = mul(p, erase(a, minbits))
            acc = add(acc, p)
        return acc
    if t[0] in ('ite',):
        return ite(t[1], erase(t[2], minbits), erase(t[3], minbits))
    if t[0] == 'sum':
        return mk_sum(t[1], erase(t[2], minbits), erase(t[3], minbits))
    if t[0] == 'op' and t[1] in ('div', 'mod'):
        return rebuild(t, tuple(erase(x, minbits) if isinstance(x, tuple) else x for x in t[1:]))
    return t


_alpha = [0]


def canon_loops(t, depth=0):
    """rename bound sum indices by depth"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'sum':
        L, N, body = t[1], t[2], t[3]
        nb = subst(body, {('ix', L): ('ix', '$%d' % depth)})
        return ('sum', '$%d' % depth, canon_loops(N, depth), canon_loops(nb, depth + 1))
    if t and t[0] == 'P':
        acc = 0
        for mono, c in t[1]:
            p = c
            for a in mono:
                p = mul(p, canon_loops(a, depth))
            acc = add(acc, p)
        return acc
    return t


def canon_size(t, minbits=16):
    return canon_loops(expand_ind(erase(t, minbits)))


def canon_cond(c):
    """a condition with widenings and truncations of sizes dropped"""
    if not isinstance(c, tuple):
        return c
    if c[0] == 'not':
        return cnot(canon_cond(c[1]))
    if c[0] in ('lt', 'eq'):
        a, b = (canon_size(x) if isinstance(x, tuple) else x for x in c[1:3])
        return lt(a, b) if c[0] == 'lt' else eq(a, b)
    if c[0] == 'and':
        return cand(canon_cond(c[1]), canon_cond(c[2]))
    if c[0] == 'or':
        return cor(canon_cond(c[1]), canon_cond(c[2]))
    return c


def same_size(a, b):
    d = sub(canon_size(a), canon_size(b))
    return d == 0 or canon_size(d) == 0


def show(t, depth=0):
    if is_int(t):
        return str(t) if -65536 < t < 65536 else hex(t)
    if not isinstance(t, tuple):
        return str(t)
    if not t:
        return '()'
    k = t[0]
    try:
        if k == 'init':
            return path_str(t[1], t[2])
        if k == 'P':
            out = []
            for m, c in t[1]:
                s = '*'.join(show(a) for a in m)
                if not m:
                    out.append(str(c))
                elif c == 1:
                    out.append(s)
                else:
                    out.append('%s*%s' % (c, s))
            return '(' + ' + '.join(out) + ')'
        if k == 'ind':
            return '[%s]' % show(t[1])
        if k == 'ite':
            return '(%s ? %s : %s)' % (show(t[1]), show(t[2]), show(t[3]))
        if k == 'sum':
            return 'SUM(%s<%s: %s)' % (t[1], show(t[2]), show(t[3]))
        if k == 'cast':
            return '%s%d(%s)' % ('i' if t[2] else 'u', t[1], show(t[3]))
        if k == 'eq':
            return '%s == %s' % (show(t[1]), show(t[2]))
        if k == 'lt':
            return '%s < %s' % (show(t[1]), show(t[2]))
        if k == 'not':
            return '!(%s)' % show(t[1])
        if k == 'and':
            return '(%s && %s)' % (show(t[1]), show(t[2]))
        if k == 'or':
            return '(%s || %s)' % (show(t[1]), show(t[2]))
        if k == 'bit':
            return show(t[1])
        if k == 'b':
            return '%s.%d' % (show(t[1]), t[2])
        if k == 'ix':
            return 'i%s' % (t[1],)
        if k == 'rd':
            return 'rd%s%s' % (t[1], ''.join('[%s]' % show(x) for x in t[2]))
        if k in ('bv', 'sbv'):
            a = t[1]
            # group runs
            parts, i = [], len(a) - 1
            while i >= 0:
                b = a[i]
                if is_int(b):
                    j = i
                    s = ''
                    while j >= 0 and is_int(a[j]):
                        s += str(a[j])
                        j -= 1
                    parts.append("'%s'" % s if len(s) < 9 else "'%s'x%d" % (s[0], len(s)) if len(set(s)) == 1 else s)
                    i = j
                elif b[0] == 'b':
                    j = i
                    while j - 1 >= 0 and isinstance(a[j - 1], tuple) and a[j - 1] == ('b', b[1], b[2] - (i - j) - 1):
                        j -= 1
                    parts.append('%s[%d:%d]' % (show(b[1]), b[2], b[2] - (i - j)))
                    i = j - 1
                else:
                    parts.append(show(b))
                    i -= 1
            return '{' + ' '.join(parts) + '}'
        if k == 's':
            return repr(t[1])
        if k == 'ptr':
            return '&' + path_str(t[1][0], t[1][1])
    except Exception:
        pass
    return '%s(%s)' % (k, ', '.join(show(x) if isinstance(x, (tuple, int)) else str(x) for x in t[1:]))


def path_str(root, path):
    s = root if isinstance(root, str) else root[0] if root[0] in ('this',) else show(root[1]) + '->' if root[0] == 'deref' else '.'.join(str(x) for x in root)
    for p in path:
        if p == '#':
            s = 'size(%s)' % s
        elif isinstance(p, tuple) and p[0] in ('[]', '[*]'):
            s += '[%s]' % show(p[1])
        else:
            s += ('' if s.endswith('->') else '.') + str(p)
    return s
