"""Behaviour summaries: what a function does to the outside (calls it makes, bytes it writes, positions it seeks,
members it leaves changed, value it returns, when it throws), path by path, with canonical names for everything the
analysis or the source names arbitrarily; and the comparison of two such summaries."""
import itertools
import os

import cosim as C
import evalt as E
import interp as I
import terms as T
import wire as W

MAXPATHS = 4000
ATMOST = {"fread", "fwrite", "std::fread", "std::fwrite"}       # return at most as many as they were asked for
SETTLED = ()          # members of the object that are not compared

# results of C functions that fail with -1
FAILS = {q: hi for hi, qs in ((None, ("mkstemp", "mkostemp", "mkstemps", "open", "open64", "openat", "creat", "dup", "ftell", "ftello",
                                      "lseek", "fileno", "read", "write")),
                              (0, ("fclose", "close", "fseek", "fseeko", "fflush", "remove", "unlink", "rename", "fsync",
                                   "ftruncate", "fstat")))
         for x in qs for q in (x, "std::" + x)}


class Path:
    """one way through a function (so far)"""
    __slots__ = ("pc", "ev", "mem", "obj", "sym", "L", "cnt", "end", "pre")

    def __init__(self, pc, pre=''):
        self.pc, self.ev, self.mem = pc, [], {}
        self.obj, self.sym, self.L, self.cnt = {}, {}, {}, {}
        self.end, self.pre = None, pre

    def copy(self, pc=None):
        p = Path(pc or self.pc, self.pre)
        p.ev, p.mem = list(self.ev), dict(self.mem)
        p.obj, p.sym, p.L, p.cnt = dict(self.obj), dict(self.sym), dict(self.L), dict(self.cnt)
        p.end = self.end
        return p

    def child(self, pre):
        p = Path(self.pc, pre)
        p.obj, p.sym, p.L, p.cnt = dict(self.obj), dict(self.sym), dict(self.L), dict(self.cnt)
        return p

    def num(self, k):
        self.cnt[k] = self.cnt.get(k, 0) + 1
        return self.cnt[k]

    def ren(self, t, name_objs=False):
        """canonical names; objects are numbered when they first take part in an event"""
        if not isinstance(t, tuple):
            return t

        def f(x):
            if not x:
                return None
            k = x[0]
            if k == 'obj' and len(x) == 3 and not isinstance(x[1], str):
                if x not in self.obj:
                    if not name_objs:
                        return None
                    self.obj[x] = ('obj', '%so%d' % (self.pre, self.num('obj')), x[2])
                return self.obj[x]
            if k == 'call' and len(x) >= 3 and isinstance(x[2], str):
                return self.sym.get(x)
            if k == 'call' and len(x) >= 3:
                r = self.sym.get(x)
                if r is None and len(x) > 3:
                    y = self.sym.get(('text', x[1], x[2]))
                    if y is not None:
                        r = ('call', x[1], y) + tuple(self.ren(z) for z in x[3:])
                        if x in T.ATOM_TYPE:
                            T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
                return r
            if k == 'v' and len(x) == 4 and isinstance(x[1], int):
                if x not in self.obj:
                    if not name_objs:
                        return None
                    self.obj[x] = ('v', '%sv%d' % (self.pre, self.num('v')))
                return self.obj[x]
            if k == 'nd' and len(x) == 2 and x not in self.sym and \
                    not (isinstance(x[1], tuple) and (len(x[1]) > 2 or not T.is_int(x[1][-1]))):
                w = x[1][0] if isinstance(x[1], tuple) else x[1]
                self.sym[x] = ('nd', (w, '%sn%d' % (self.pre, self.num('nd'))))
            if k == 'nd' and x in self.sym:
                return self.sym[x]
            if k == 'good' and IO and x in self.sym:
                return self.sym[x]
            if k in ('rd', 'rb') and len(x) == 3 and not isinstance(x[1], str):
                r = self.sym.get(x)
                if r is None:
                    y = self.sym.get(('text', 'rd', x[1]))
                    if y is not None:
                        r = (k, y, self.ren(x[2]))
                        if x in T.ATOM_TYPE:
                            T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
                return r
            if k == 'u' and len(x) == 2 and not isinstance(x[1], str):
                if x not in self.sym:
                    self.sym[x] = ('u', '%su%d' % (self.pre, self.num('u')))
                    if x in T.ATOM_TYPE:
                        T.ATOM_TYPE.setdefault(self.sym[x], T.ATOM_TYPE[x])
                return self.sym[x]
            if k in ('lv', 'lo') and len(x) == 4 and x[1] in self.L:
                r = (k, self.L[x[1]], local(self.ren(x[2])), self.ren(x[3]))
                if x in T.ATOM_TYPE:
                    T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
                return r
            if k == 'ix' and len(x) == 2 and x[1] in self.L:
                r = ('ix', self.L[x[1]])
                T.ATOM_TYPE.setdefault(r, (64, False))
                return r
            if k == 'lexit' and x[1] in self.L:
                return ('lexit', self.L[x[1]], x[2])
            if k == '[*]' and len(x) == 2 and x[1] in self.L:
                return ('[*]', self.L[x[1]])
            if k == 'sum' and x[1] in self.L:
                return T.mk_sum(self.L[x[1]], self.ren(x[2]), self.ren(x[3]))
            if k == 'uninit':
                return ('uninit', 0, ())
            return None
        return T.subst(t, f)

    def named(self, x, kind):
        r = (x[0], x[1], '%s%s%d' % (self.pre, kind, self.num(kind + str(x[1]) if x[0] == 'call' else kind))) + \
            tuple(self.ren(y) for y in x[3:]) if x[0] == 'call' else \
            (x[0], '%s%s%d' % (self.pre, kind, self.num(kind)), self.ren(x[2]))
        self.sym[x] = r
        if x in T.ATOM_TYPE:
            T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
        return r


def local(root):
    """a local variable, by its name only"""
    if isinstance(root, tuple) and root and root[0] == 'v' and len(root) == 4:
        return ('v', root[3])
    return root


def deloc(t):
    if not isinstance(t, tuple):
        return t
    return T.subst(t, lambda x: ('v', x[3]) if x and x[0] == 'v' and len(x) == 4 else None)


class LoopEv:
    __slots__ = ("L", "L0", "kind", "N", "body", "carry", "info", "meta", "base")

    def __init__(self, L, kind, N, body, carry, info, meta, base, L0=None):
        self.L0 = L0
        self.L, self.kind, self.N, self.body, self.carry, self.info, self.meta, self.base = \
            L, kind, N, body, carry, info, meta, base


def placed(t, sure=()):
    """does the value take part in a loop, by the place of the call that made it (the body itself is compared elsewhere)?"""
    if isinstance(t, tuple):
        if t and t[0] in ('rd', 'rb', 'call') and \
                any(isinstance(y, str) and '.t' in y and (y.rsplit('.t', 1)[0], t[1] if t[0] == 'call' else 'rd') not in sure for y in t[1:3]):
            return True
        return any(placed(y, sure) for y in t)
    return False


def deletes(tr):
    """only deletions"""
    return all(e[0] in ('delete', 'at') or e[0] == 'set' and e[1][1][-1:] == ('#',) or e[0] == 'scope' and deletes(e[2]) for e in tr)


def observable(tr, inner=False):
    """does the trace do anything that shows outside or changes the course of the loop?"""
    for ev in tr:
        k = ev[0]
        if k in ('W', 'R', 'ext', 'delete', 'seek', 'throw', 'brk', 'set', 'unk', 'sop', 'push') or k == 'ret' and not inner:
            return True
        if k == 'if' and (observable(ev[2], inner) or observable(ev[3], inner)):
            return True
        if k == 'scope' and observable(ev[2], True):
            return True
        if k == 'loop' and observable(ev[4], inner):
            return True
        if k == 'try' and observable(ev[1], inner):
            return True
    return False


def nonlocal_root(r):
    return isinstance(r, tuple) and r and r[0] not in ('v',)


def walk(tr, p):
    """all completions of path p through tr"""
    n = [0]

    def seq(evs, i, p):
        while i < len(evs):
            ev = evs[i]
            k = ev[0]
            if k == 'W':
                p = p.copy()
                p.ev.append(('W', ev[1], p.ren(ev[2], True), p.ren(ev[3]), p.ren(ev[4]), ev[5]))
                p.num(('ops', p.ren(ev[2])))
            elif k == 'chk' and IO:
                # the state of a stream after so many operations on it
                p = p.copy()
                sid = p.ren(ev[1], True)
                p.sym[ev[3]] = ('nd', ('goodat', sid, p.pre, p.cnt.get(('ops', sid), 0)))
            elif k == 'R':
                p = p.copy()
                sym = ev[4]
                if isinstance(sym, tuple) and sym[0] == 'rd':
                    r = p.named(sym, 'r')
                    b = ('rb',) + sym[1:]
                    if b in T.ATOM_TYPE or ev[3] == b:
                        p.sym[b] = ('rb',) + r[1:]
                        T.ATOM_TYPE.setdefault(p.sym[b], (62, False))
                w = p.ren(ev[3])
                p.ev.append(('R', ev[1], p.ren(ev[2], True), w, p.ren(sym), p.ren(ev[5]) if len(ev) > 6 else 0, ev[-1]))
                p.num(('ops', p.ren(ev[2])))
            elif k == 'ext':
                p = p.copy()
                this = p.ren(ev[2], True) if isinstance(ev[2], tuple) else ev[2]
                args = tuple(p.ren(a, True) if isinstance(a, tuple) else a for a in ev[3])
                r = ev[4]
                if ev[1] in PURE and isinstance(r, tuple) and r[0] == 'call':
                    # a const member function: a value, as of the last thing done to the object
                    a = ('pcall', ev[1], this, args, p.cnt.get(('epoch', root_of(this)), 0))
                    if r in T.ATOM_TYPE:
                        T.ATOM_TYPE.setdefault(a, T.ATOM_TYPE[r])
                    p.sym[r] = a
                    i += 1
                    continue
                if isinstance(r, tuple) and r[0] == 'call':
                    r = p.named(r, 'c')
                for o in {root_of(x) for x in (this,) + args}:
                    if o is not None:
                        p.num(('epoch', o))
                p.ev.append(('X', ev[1], this, args, r, ev[5]))
                if ev[1] in ATMOST and len(args) == 4 and isinstance(r, tuple):
                    c = T.le(r, args[2])
                    if not T.is_int(c):
                        p.pc = p.pc.add(c)
                if ev[1] in FAILS and isinstance(r, tuple) and r in T.ATOM_TYPE and T.ATOM_TYPE[r][1]:
                    for c in (T.le(-1, r),) + ((T.le(r, 0),) if FAILS[ev[1]] == 0 else ()):
                        if not T.is_int(c):
                            p.pc = p.pc.add(c)
                for o in streams((this, args), set()):
                    p.num(('ops', o))
            elif k == 'at':
                p = p.copy()
                p.ev.append(('AT', p.ren(ev[1]) if ev[1] is not None else None, p.ren(ev[2]), ev[3], ev[4]))
            elif k == 'delete':
                v = p.pc.simp(p.ren(ev[1]))
                if not T.is_int(v):
                    p = p.copy()
                    p.ev.append(('D', p.ren(ev[1], True), ev[2], ev[3]))
            elif k == 'new' and ev[3]:
                p = p.copy()
                p.ev.append(('A', p.ren(ev[4]), p.ren(ev[1], True), ev[5]))
            elif k == 'seek':
                p = p.copy()
                p.ev.append(('S', p.ren(ev[1], True), p.ren(ev[2]), ev[-1]))
                p.num(('ops', p.ren(ev[1])))
            elif k == 'set':
                p = p.copy()
                put(p, ev[1], ev[2])
            elif k == 'push' and len(ev) > 4:
                p = p.copy()
                (root, path), size = ev[1], ev[4]
                put(p, (root, path + (('[]', size),)), ev[2])
                put(p, (root, path + ('#',)), T.add(size, 1))
            elif k == 'if':
                for v, pc in C.split(p.pc, p.ren(ev[1])):
                    for q in seq(ev[2] if v else ev[3], 0, p.copy(pc)):
                        if q.end:
                            yield q
                        else:
                            yield from seq(evs, i + 1, q)
                return
            elif k in ('scope', 'try'):
                stop = {'#loop': 'brk', '#iter': 'cont'}.get(ev[1], 'ret') if k == 'scope' else None
                for q in seq(ev[2] if k == 'scope' else ev[1], 0, p):
                    if q.end and q.end[0] != stop:
                        yield q
                    else:
                        q.end = None
                        yield from seq(evs, i + 1, q)
                return
            elif k == 'loop':
                p = p.copy()
                L = '%sL%d' % (p.pre, p.num('L'))
                p.L[ev[1]] = L
                p.L[str(ev[1]) + '_'] = L + '_'
                texts(ev[4], p, L)
                body, N = ev[4], p.ren(ev[3])
                if ev[2] == 'while' and not T.is_int(ev[3]):
                    # the condition as a way out of the loop
                    k0 = ev[7].get("nct", 0)
                    out = [('if', ev[3], [], [('brk', ev[6])], ev[6])]
                    body = body + out if ev[7].get("post") else body[:k0] + out + body[k0:]
                    N = 1
                elif ev[2] == 'while':
                    N = 1
                for x, (y, z) in sorted(ev[5].items(), key=T.skey):
                    if x in BELOW:
                        for t in (('lo', ev[1]) + x, ('lv', ev[1]) + x):
                            c = T.lt(p.ren(t), BELOW[x])
                            if not T.is_int(c):
                                p.pc = p.pc.add(c)
                    # what never falls below its first value
                    if T.is_int(y) and y > 0 and not x[1] and rising(z, ('lv', ev[1]) + x, y):
                        for t in (('lo', ev[1]) + x, ('lv', ev[1]) + x):
                            c = T.lt(y - 1, p.ren(t))
                            if not T.is_int(c):
                                p.pc = p.pc.add(c)
                if ev[2] == 'for':
                    for x, v in closed(ev).items():
                        r = p.mem.get((x[0], x[1][:-1]))
                        if isinstance(r, tuple) and r[0] == 'vec':
                            del p.mem[x[0], x[1][:-1]]
                        put(p, x, v)
                p.ev.append(LoopEv(L, ev[2], N, body,
                                   {x: (y, z) for x, (y, z) in ev[5].items()}, ev[6], ev[7], p.child(L + '.'), ev[1]))
                for o in touched(body, p, set()):
                    p.num(('ops', o))
            elif k == 'ret':
                p = p.copy()
                p.end = ('ret', norm(p.ren(ev[1], True)) if ev[1] is not None else None, ev[2])
                yield p
                return
            elif k == 'throw':
                p = p.copy()
                p.end = ('throw', ev[1], ev[2])
                yield p
                return
            elif k in ('brk', 'cont', 'cut'):
                p = p.copy()
                p.end = (k, None, ev[1])
                yield p
                return
            elif k == 'unk':
                raise C.Undecided("construct %s" % ev[1], ev[-1])
            i += 1
        n[0] += 1
        if n[0] > MAXPATHS:
            raise C.Undecided("too many paths", None)
        yield p

    return seq(tr, 0, p)


BELOW = {}          # members with a bound their class keeps


def closed(ev):
    """sizes of containers that grow by so much in every iteration of a counted loop: what they are after it"""
    out = {}
    for x, (y, z) in ev[5].items():
        if x[1][-1:] == ('#',) and not any(isinstance(s, tuple) for s in x[1]) and x[0][:1] != ('v',) and not stops(ev[4]):
            d = T.sub(z, y)
            k = T.subst(d, lambda t: 0 if t == ('ix', ev[1]) else None)
            if T.is_int(k) and T.sub(d, T.mul(k, T.add(('ix', ev[1]), 1))) == 0:
                out[x] = T.add(y, T.mul(k, ev[3]))
    return out


def stops(tr):
    """can the loop be left early, other than by an exception?"""
    for ev in tr:
        k = ev[0]
        if k in ('brk', 'ret'):
            return True
        if k == 'if' and (stops(ev[2]) or stops(ev[3])):
            return True
        if k == 'scope' and any(x[0] == 'brk' for x in ev[2]):
            return True
        if k == 'try' and (stops(ev[1]) or any(stops(h[1]) for h in ev[2])):
            return True
    return False


def rising(t, x, low):
    """is every value t can take either x plus something, or at least low? (a counter is assumed not to wrap)"""
    if T.is_int(t):
        return low <= t < 1 << 31
    if t == x:
        return True
    if t[0] == 'ite':
        return rising(t[2], x, low) and rising(t[3], x, low)
    d = T.sub(t, x)
    if T.is_int(d):
        return d >= 0
    if t[0] == 'P':
        inner = [m for m, c in t[1] if m]
        k = [c for m, c in t[1] if not m]
        if len(inner) == 1 and len(inner[0]) == 1 and dict(t[1])[inner[0]] == 1 and inner[0][0][0] == 'ite':
            i, k = inner[0][0], k[0] if k else 0
            return rising(T.add(i[2], k), x, low) and rising(T.add(i[3], k), x, low)
    return False


def streams(t, acc):
    """streams a value refers to, as their canonical names"""
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] in ('lref', 'ptr'):
            acc.add(('stream', t[1]))
        for x in t:
            streams(x, acc)
    return acc


def touched(tr, p, acc):
    for ev in tr:
        k = ev[0]
        if k in ('W', 'R'):
            acc.add(p.ren(ev[2]))
        elif k == 'seek':
            acc.add(p.ren(ev[1]))
        elif k == 'ext':
            streams(p.ren((ev[2], tuple(ev[3]))), acc)
        elif k == 'if':
            touched(ev[2], p, acc)
            touched(ev[3], p, acc)
        elif k in ('scope', 'try'):
            touched(ev[2] if k == 'scope' else ev[1], p, acc)
        elif k == 'loop':
            touched(ev[4], p, acc)
    return acc


PURE = set()
DTOR = ()           # the function compared is a destructor: the members of its class (not of its bases)
IO = False              # stream failures are possible, and what is done about them is compared
DEBUG = bool(os.environ.get("SUMM_DEBUG"))
SHOW = int(os.environ.get("SUMM_SHOW", "160"))


def root_of(x):
    """the object a receiver or an argument is about"""
    if isinstance(x, tuple) and x:
        if x[0] in ('ptr', 'lref') and isinstance(x[1], tuple):
            return root_of(x[1])
        if len(x) == 2 and isinstance(x[0], tuple) and isinstance(x[1], tuple):
            return x[0] if x[0] != ('this',) or not x[1] else (x[0], x[1][:1])
        return x
    return None


def texts(tr, p, L):
    """names for the calls of a loop body by their place in it"""
    for e in tr:
        if e[0] == 'ext' and isinstance(e[4], tuple) and e[4][0] == 'call':
            k = ('text', e[1], e[4][2])
            if k not in p.sym:
                p.sym[k] = '%s.t%d' % (L, p.num(('text', L, e[1])))
        elif e[0] == 'R' and isinstance(e[4], tuple) and e[4][0] == 'rd':
            k = ('text', 'rd', e[4][1])
            if k not in p.sym:
                p.sym[k] = '%s.t%d' % (L, p.num(('text', L, 'rd')))
        elif e[0] == 'loop':
            texts(e[4], p, L)
        elif e[0] == 'if':
            texts(e[2], p, L)
            texts(e[3], p, L)
        elif e[0] == 'scope':
            texts(e[2], p, L)
        elif e[0] == 'try':
            texts(e[1], p, L)


def norm(v):
    if isinstance(v, tuple) and v and v[0] == 'agg':
        b = norm(v[1])
        subs = tuple((p, norm(x)) for p, x in v[2])
        return gather(('agg', b, subs))
    return v


def gather(v):
    """a container filled element by element is the container of these elements"""
    b, d = v[1], dict(v[2])
    r = T.whole(b, v[2])
    if r is not None:
        if r[0] != 'agg':
            return r
        b, d = r[1], dict(r[2])
    for p in sorted([p for p in d if p and p[-1] == '#' and isinstance(d[p], int) and 0 < d[p] <= 16], key=len, reverse=True):
        pre, n = p[:-1], d[p]
        if not pre:
            continue
        el = []
        k = len(pre)
        for i in range(n):
            sub = {q[k + 1:]: x for q, x in d.items() if len(q) > k and q[:k] == pre and q[k] == ('[]', i)}
            if not sub:
                break
            if () in sub:
                x = sub.pop(())
            else:
                x = ('uninit', 0, ())
            el.append(('agg', x, tuple(sorted(sub.items(), key=T.skey))) if sub else x)
        if len(el) < n:
            continue
        if any(q[:k] == pre and len(q) > k and q[k] != '#' and not (q[k][0] == '[]' and isinstance(q[k][1], int) and 0 <= q[k][1] < n)
               for q in d):
            continue
        d = {q: x for q, x in d.items() if q[:k] != pre}
        d[pre] = ('vec', tuple(el))
    s = tuple(sorted(d.items(), key=T.skey))
    return v if s == v[2] and b == v[1] else ('agg', b, s)


def has_ite(t):
    return isinstance(t, tuple) and (t[:1] == ('ite',) or any(has_ite(x) for x in t))


def index(p, y):
    """a constant index, if it is one on this path"""
    if isinstance(y, tuple) and y[:1] == ('[]',) and isinstance(y[1], tuple):
        i = p.ren(y[1])
        if not has_ite(i):
            return y
        i = p.pc.simp(i)
        if T.is_int(i):
            return ('[]', i)
    return y


def put(p, loc, val):
    """last value of a place"""
    root, path = loc
    if not nonlocal_root(root):
        return
    if any(isinstance(y, tuple) and y[:1] == ('[]',) and isinstance(y[1], tuple) for y in path):
        path = tuple(index(p, y) for y in path)
        loc = (root, path)
    for q in [q for q in p.mem if q[0] == root and q[1][:len(path)] == path]:
        del p.mem[q]
    if isinstance(val, tuple) and val and val[0] == 'agg':
        val = gather(val)
        if val[0] != 'agg':
            p.mem[loc] = p.ren(val)
            return
        if not (isinstance(val[1], tuple) and val[1][0] == 'uninit'):
            p.mem[loc] = p.ren(val[1])
        for q, x in val[2]:
            p.mem[(root, path + q)] = p.ren(x)
    else:
        p.mem[loc] = p.ren(val)


def final(p):
    """memory at the end of the path, reachable objects only"""
    out = {}
    todo = dict(p.mem)
    ch = True
    while ch:
        ch = False
        for loc in sorted(todo, key=T.skey):
            root = loc[0]
            if isinstance(root, tuple) and root[0] == 'obj' and root not in p.obj:
                continue
            v = todo.pop(loc)
            v = p.pc.simp(norm(p.ren(v, True)))
            l2 = (p.ren(root), p.ren(loc[1]))
            if v == ('init',) + l2:
                ch = True
                break               # unchanged
            out[l2] = v
            ch = True
            break
    if DTOR:
        # what an object that is being destroyed holds is not seen any more (but by the destructors of its bases)
        out = {l: v for l, v in out.items() if not (l[0] == ('this',) and (l[1][0] in DTOR or any(y == '#' or isinstance(y, tuple) for y in l[1])))}
    return out


# ------------------------------------------------------------------ comparison
class Cmp:
    def __init__(self):
        self.paths = self.effects = self.loops = 0
        self.wire = W.Cmp()
        self.und = None
        self.cur = []
        self.sized = frozenset()        # sizes that are compared after the loop
        self.sure = set()       # loops with the same calls on both sides
        self.before = {}        # what members hold when the iteration of the loop starts
        self.loose = False      # local variables of loops were matched by what they hold
        self.skipped = 0
        self.tree = False       # compare the box tree that is built, not the order its parts are built in

    def functions(self, code, spec, pc0=None):
        code = align(code, spec)
        self.walks(code, spec, pc0 or C.PC(), '')
        if self.und is not None:
            raise self.und

    def walks(self, code, spec, pc0, pre, then=None):
        """every pair of paths that can be taken together; a pair that cannot be decided does not hide another one"""
        for p1 in walk(code, Path(pc0, pre)):
            for p2 in walk(spec, Path(p1.pc, pre)):
                try:
                    self.pair(p1, p2)
                    if then:
                        then(p1, p2)
                except C.Undecided as e:
                    if E.feasible(p2.pc.conds) is False:
                        self.skipped += 1
                        if DEBUG:
                            print('  SKIP', e.args[0][:200], [T.show(c)[:200] for c in p2.pc.conds])
                        continue
                    self.und = self.und or e

    def differ(self, msg, info, pc, *ab):
        """report a difference on a path that can be taken, for values that can be told apart"""
        if self.loose or E.feasible(pc.conds) is not True:
            raise C.Undecided("not confirmed: " + msg, info)
        if ab:
            ab = apart(*ab)
        if ab and (E.differ(ab[0], ab[1], pc.conds) is not True or placed(ab[0], self.sure) or placed(ab[1], self.sure)):
            raise C.Undecided("not confirmed: " + msg, info)
        raise W.Differ(msg, info, pc.conds)

    def pair(self, p1, p2, body=False):
        saved = self.cur
        self.cur = saved + [[p1.ev, p1.mem, p1.end, p2.ev, p2.mem, p2.end, p2.pc.conds]]
        try:
            self.pair1(p1, p2, body)
        finally:
            self.cur = saved

    def pair1(self, p1, p2, body=False):
        pc = p2.pc
        self.paths += 1
        if self.tree:
            p1, p2 = treeify(p1), treeify(p2)
        e1 = p1.end[0] if p1.end else 'cont' if body else 'ret'
        e2 = p2.end[0] if p2.end else 'cont' if body else 'ret'
        if 'cut' in (e1, e2):
            return          # more iterations than were unrolled
        if e1 == 'throw' and e2 == 'throw':
            return
        if (e1 == 'throw') != (e2 == 'throw'):
            self.differ("throws an exception" if e1 == 'throw' else "does not throw the exception it must",
                        p1.end[2] if p1.end else None, pc)
        self.events(p1, p2, pc)
        if e1 in ('brk', 'cont', 'ret') and e1 != e2:
            if {e1, e2} == {'brk', 'ret'}:
                # leaving the function from inside the loop or after it: what is behind the loop may be nothing
                raise C.Undecided("the loop is left another way", p1.end[2])
            self.differ("leaves the loop" if e1 != 'cont' else "does not leave the loop",
                        (p1.end or p2.end)[2], pc)
        v1 = p1.end[1] if p1.end else None
        v2 = p2.end[1] if p2.end else None
        if v1 is not None and v2 is not None and not same(v1, v2, pc):
            self.differ("returns %s, must return %s" % (sh(v1, pc), sh(v2, pc)), p1.end[2], pc, v1, v2)
        self.memory(final(p1), final(p2), pc, p1)

    def memory(self, m1, m2, pc, p1):
        m1, m2 = elements(m1, m2), elements(m2, m1)
        for loc in sorted(set(m1) | set(m2), key=T.skey):
            if loc in self.sized or loc[0] == ('this',) and loc[1] and loc[1][0] in SETTLED:
                continue
            v1 = m1.get(loc)
            v2 = m2.get(loc)
            init = ('init',) + loc
            self.effects += 1
            if v1 is None:
                cover = whole(m1, loc)
                v1 = self.before.get(loc, init) if cover is None else cover
            if v2 is None:
                cover = whole(m2, loc)
                v2 = self.before.get(loc, init) if cover is None else cover
            if not same(v1, v2, pc):
                if loc not in m1 and fresh_obj(loc):
                    self.differ("leaves %s unset, must be %s" % (T.path_str(*loc), sh(v2, pc)), None, pc)
                if init in (v1, v2) and init not in T.ATOM_TYPE:
                    o = v2 if v1 == init else v1
                    if o in T.ATOM_TYPE:
                        T.ATOM_TYPE[init] = T.ATOM_TYPE[o]
                self.differ("leaves %s = %s, must be %s" % (T.path_str(*loc), sh(v1, pc), sh(v2, pc)), None, pc, v1, v2)

    def events(self, p1, p2, pc):
        A, DA = own(p1.ev, pc)
        B, DB = own(p2.ev, pc)
        i = j = 0
        while i < len(A) or j < len(B):
            a = A[i] if i < len(A) else None
            b = B[j] if j < len(B) else None
            if isinstance(a, LoopEv) and quiet(a) and not (isinstance(b, LoopEv) and not quiet(b)):
                if isinstance(b, LoopEv):
                    self.loop(a, b, pc)
                    j += 1
                i += 1
                continue
            if isinstance(b, LoopEv) and quiet(b):
                j += 1
                continue
            if a is None:
                self.differ("does not %s" % say(b, pc), p1.end[2] if p1.end else (at_of(A[-1]) if A else None), pc)
            if b is None:
                self.differ("does %s, which is not expected" % say(a, pc), at_of(a), pc)
            if isinstance(a, LoopEv) or isinstance(b, LoopEv):
                if not (isinstance(a, LoopEv) and isinstance(b, LoopEv)):
                    if not isinstance(a, LoopEv) and a[0] == 'X' or not isinstance(b, LoopEv) and b[0] == 'X':
                        # an effect of another kind; a single call against a loop of calls may be the same thing
                        x, lp = (a, b) if isinstance(b, LoopEv) else (b, a)
                        if x[1] in calls(lp.body):
                            raise C.Undecided("a loop where the reference has none", at_of(a))
                        self.differ("does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a), pc)
                    x, rest = (a, B[j:]) if isinstance(b, LoopEv) else (b, A[i:])
                    if x[0] == 'S' and not moves(rest):
                        # whatever the loop does, it never seeks
                        self.differ("does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a), pc)
                    raise C.Undecided("a loop where the reference has none", at_of(a))
                self.loop(a, b, pc)
                i += 1
                j += 1
                continue
            if a[0] != b[0]:
                self.differ("does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a), pc)
            if a[0] == 'W':
                i2, j2 = i, j
                fa, fb = [], []
                while i2 < len(A) and not isinstance(A[i2], LoopEv) and A[i2][0] == 'W' and same(A[i2][2], a[2], pc):
                    fa += fields(A[i2], pc)
                    i2 += 1
                while j2 < len(B) and not isinstance(B[j2], LoopEv) and B[j2][0] == 'W' and same(B[j2][2], b[2], pc):
                    fb += fields(B[j2], pc)
                    j2 += 1
                if not same(a[2], b[2], pc):
                    self.differ("writes to %s, must write to %s" % (sh(a[2], pc), sh(b[2], pc)), at_of(a), pc)
                try:
                    self.wire.items(fa, fb, pc)
                except W.Differ as e:
                    self.differ(e.msg, e.info, pc, *e.ab)
                self.effects += len(fa)
                i, j = i2, j2
                continue
            self.effects += 1
            for x, y in zip(parts(a), parts(b)):
                if not same(x, y, pc):
                    if islocal(x) or islocal(y):
                        if not (islocal(x) and islocal(y) and x[0] == y[0] == 'val'):
                            raise C.Undecided("not confirmed: does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a))
                        self.differ("does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a), pc, x[1], y[1])
                    ab = (x, y) if isinstance(x, (int, tuple)) and isinstance(y, (int, tuple)) and \
                        not (isinstance(x, tuple) and len(x) == 2 and isinstance(x[0], tuple)) else ()
                    self.differ("does %s where it must %s" % (say(a, pc), say(b, pc)), at_of(a), pc, *ab)
            i += 1
            j += 1
        for x in DA - DB:
            self.differ("deletes %s, which must live" % sh(x, pc), p1.end[2] if p1.end else None, pc)
        for x in DB - DA:
            self.differ("does not delete %s" % sh(x, pc), p1.end[2] if p1.end else None, pc)

    def loop(self, a, b, pc):
        """objects may be deleted in any order"""
        try:
            return self.loop1(a, b, pc)
        except W.Differ:
            if not (a.kind == b.kind == 'for' and same(a.N, b.N, pc) and deletes(a.body) and deletes(b.body)):
                raise
        i = ('ix', a.L0)
        back = LoopEv(a.L, a.kind, a.N, C.map_trace(a.body, lambda x: T.sub(T.sub(a.N, 1), i) if x == i else None),
                      a.carry, a.info, a.meta, a.base, a.L0)
        return self.loop1(back, b, pc)

    def loop1(self, a, b, pc):
        self.loops += 1
        if a.kind != b.kind or a.meta.get("post") != b.meta.get("post"):
            if endless(a) and not endless(b):
                self.differ("repeats for ever: nothing in the loop changes %s" % sh(a.base.ren(a.meta["cond"]), pc), a.info, pc)
            if DEBUG:
                print('FORM', a.kind, b.kind, T.show(a.meta.get("cond")), endless(a), stops(a.body), throws(a.body))
            raise C.Undecided("a loop of another form", a.info)
        if a.kind == 'for' and not same(a.N, b.N, pc):
            self.differ("repeats %s times, must repeat %s times" % (sh(a.N, pc), sh(b.N, pc)), a.info, pc, a.N, b.N)
        if a.L == b.L:
            for k, v in a.base.cnt.items():
                if k[:2] == ('text', a.L) and v == 1 and b.base.cnt.get(k) == 1:
                    self.sure.add(k[1:])
        after = los(self.cur)
        la, lb = locals_of(a, after), locals_of(b, after)
        ca = {l: a.base.ren_carry(a, l) for l in la}
        cb = {l: b.base.ren_carry(b, l) for l in lb}
        if len(la) != len(lb):
            if endless(a, True) and not endless(b, True):
                self.differ("never ends the loop in a regular way: nothing in it changes %s" %
                            sh(a.base.ren(a.meta["cond"]), pc), a.info, pc)
            raise C.Undecided("the loop keeps other local variables (%s; %s)" % (
                ', '.join(sorted(T.path_str(*x) for x in la)), ', '.join(sorted(T.path_str(*x) for x in lb))), a.info)
        errs = []
        cands = []
        if set(la) == set(lb):
            return self.loop_with(a, b, None, ca, cb, pc)
        self.loose = True
        for perm in itertools.permutations(sorted(lb, key=T.skey)):
            m = dict(zip(sorted(la, key=T.skey), perm))
            cands.append(m)
            if len(cands) > 24:
                break
        # same initial values first

        def score(m):
            return sum(0 if same(ca[x][0], cb[y][0], pc) else 1 for x, y in m.items()) * 10 + \
                sum(0 if x == y else 1 for x, y in m.items())
        cands.sort(key=score)
        cands = [m for m in cands if all((x[1][-1:] == ('#',)) == (y[1][-1:] == ('#',)) for x, y in m.items())] or cands
        if score(cands[0]) < 10:
            cands = [m for m in cands if score(m) < 10]
        und = self.und
        for m in cands[:6]:
            self.und = None
            try:
                self.loop_with(a, b, m, ca, cb, pc)
                if self.und is not None:
                    raise self.und
                self.und = und
                return
            except (W.Differ, C.Undecided) as e:
                errs.append((score(m), e))
        self.und = und
        u = [e for _, e in errs if isinstance(e, C.Undecided)]
        if u:
            raise u[0]
        raise errs[0][1]

    def loop_with(self, a, b, m, ca, cb, pc):
        L = a.L
        same_names = m is None
        if same_names:
            m = {x: x for x in ca}

        def rn(x):
            if x and x[0] in ('lv', 'lo') and len(x) == 4 and x[1] == L and (x[2], x[3]) in m:
                y = m[(x[2], x[3])]
                r = (x[0], L, ('v*',) + y[0][1:], y[1])
                if x in T.ATOM_TYPE:
                    T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
                return r
            if x and x[0] in ('lv', 'lo') and len(x) == 4 and x[1] == L and isinstance(x[2], tuple) and x[2][0] == 'v*':
                return x
            return None

        def rb(x):
            if x and x[0] in ('lv', 'lo') and len(x) == 4 and x[1] == L and isinstance(x[2], tuple) and x[2][0] == 'v':
                r = (x[0], L, ('v*',) + x[2][1:], x[3])
                if x in T.ATOM_TYPE:
                    T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
                return r
            return None
        if same_names:
            rn = rb = lambda x: None
        for x, y in sorted(m.items(), key=T.skey):
            i1, n1 = ca[x]
            i2, n2 = cb[y]
            i1, i2 = sb(i1, rn), sb(i2, rb)
            if not same(i1, i2, pc):
                if T.is_int(i1) and T.is_int(i2) and accumulates(a, x) and accumulates(b, y):
                    raise C.Undecided("a sum that starts from another value", a.info)
                self.differ("starts a loop with %s = %s, must be %s" % (T.path_str(*x), sh(i1, pc), sh(i2, pc)), a.info, pc, i1, i2)
        for x, y in sorted(m.items(), key=T.skey):
            ka, kb = (next((k for k in e.carry if (local(e.base.ren(k[0])), e.base.ren(k[1])) == z), None) for e, z in ((a, x), (b, y)))
            if ka is None or kb is None:
                continue
            wa, wb = T.ATOM_TYPE.get(('lv', a.L0) + ka), T.ATOM_TYPE.get(('lv', b.L0) + kb)
            if wa and wb and wa[0] < min(wb[0], 32) and grows(b.carry[kb][1], ('lv', b.L0) + kb):
                self.differ("counts %s in %d bits, must be %d" % (T.path_str(*x), wa[0], wb[0]), a.info, pc)
        pa, pb = a.base.child(a.base.pre), b.base.child(b.base.pre)
        ta, tb = mapped(a.body, pa, rn), mapped(b.body, pb, rb)

        def step(p1, p2):
            if (p1.end[0] if p1.end else '') in ('throw', 'brk', 'ret'):
                return
            for x, y in m.items():
                n1, n2 = sb(ca[x][1], rn), sb(cb[y][1], rb)
                n1, n2 = p1.ren(n1, True), p2.ren(n2, True)
                if not same(n1, n2, p2.pc):
                    self.differ("after an iteration %s = %s, must be %s" % (T.path_str(*x), sh(n1, p2.pc), sh(n2, p2.pc)),
                                a.info, p2.pc, n1, n2)
        base = (a.base.cnt, b.base.cnt)
        sized, outer, self.before = self.sized, self.before, dict(self.before) | {x: ('lv', L) + x for x in set(a.carry) | set(b.carry) if x[0][:1] != ('v',)}
        try:
            self.sized = self.sized | {x for x in self.after_loop(a) | self.after_loop(b)}
            self.iterations(ta, tb, L, pc, base, step)
        finally:
            self.before, self.sized = outer, sized

    def after_loop(self, a):
        return set(closed(('', a.L0, '', a.N, a.body, a.carry))) if a.kind == 'for' else set()

    def iterations(self, ta, tb, L, pc, base, step):
        for p1 in walk(ta, epochs(Path(pc, L + '.'), base[0])):
            for p2 in walk(tb, epochs(Path(p1.pc, L + '.'), base[1])):
                try:
                    self.pair(p1, p2, True)
                    step(p1, p2)
                except C.Undecided as e:
                    if E.feasible(p2.pc.conds) is False:
                        self.skipped += 1
                        if DEBUG:
                            print('  SKIP', e.args[0][:200], [T.show(c)[:200] for c in p2.pc.conds])
                        continue
                    self.und = self.und or e


def accumulates(e, z):
    """the local is only ever added to in the loop"""
    k = next((k for k in e.carry if (local(e.base.ren(k[0])), e.base.ren(k[1])) == z), None)
    if k is None:
        return False
    v = ('lv', e.L0) + k
    n = e.carry[k][1]
    while isinstance(n, tuple) and n[:1] == ('cast',):
        n = n[3]
    if isinstance(n, tuple) and n[:1] == ('P',) and any(x[:1] == ('sum',) and x[2] == ('ix', e.L0) for m, _ in n[1] for x in m):
        return True         # already a sum over the iterations before
    try:
        d = T.sub(n, v)
    except Exception:
        return False
    return not T.is_int(d) and not mentions(d, v) and not any(mentions(t, v) for t in e.body)


def mentions(t, v):
    if t == v:
        return True
    if isinstance(t, (tuple, list)):
        if t[:1] == ('ret',):
            return False        # of a function called in the loop: its value is in the carried one
        return any(mentions(x, v) for x in t)
    if isinstance(t, dict):
        return any(mentions(x, v) for kv in t.items() for x in kv)
    return False


def apart(a, b):
    """two sums without the summands they share"""
    if not (isinstance(a, tuple) and a[:1] == ('P',) or isinstance(b, tuple) and b[:1] == ('P',)) or \
            not all(isinstance(x, int) or isinstance(x, tuple) and x[:1] in (('P',), ('init',), ('sum',), ('rd',), ('call',)) for x in (a, b)):
        return a, b
    try:
        d = T.sub(a, b)
    except Exception:
        return a, b
    if not isinstance(d, tuple) or d[0] != 'P':
        return a, b
    pos = tuple(x for x in d[1] if x[1] > 0)
    neg = tuple((m, -c) for m, c in d[1] if c < 0)
    return tuple(T.add(0, ('P', x)) if x else 0 for x in (pos, neg))


def moves(evs):
    """may events contain a seek, here or in something called?"""
    def stays(q):
        return not q.endswith('::seek') and q.rsplit('::', 1)[0].endswith(('bitio::Reader', 'bitio::Writer'))
    def inner(tr):
        return any(e[0] in ('seek', 'unk', 'sop') or e[0] == 'ext' and not stays(e[1]) or
                   any(inner(x) for x in e if isinstance(x, list)) for e in tr if isinstance(e, tuple))
    return any(inner(e.body) if isinstance(e, LoopEv) else e[0] == 'S' or e[0] == 'X' and not stays(e[1]) for e in evs)


def own(ev, pc):
    """events without the deletion of objects made on this path; when exactly such an object goes is not observable"""
    out, gone = [], set()
    for e in ev:
        if not isinstance(e, LoopEv) and e[0] == 'D' and isinstance(e[1], tuple) and e[1][0] == 'ptr' and \
                e[1][1][0][0] == 'obj' and not e[1][1][1] and e[1] not in gone:
            gone.add(e[1])
        elif not isinstance(e, LoopEv) and e[0] == 'D' and pc.simp(e[1]) == 0:
            continue
        else:
            out.append(e)
    return out, gone


def epochs(p, cnt):
    for k, v in cnt.items():
        if isinstance(k, tuple) and k[0] == 'epoch':
            p.cnt[k] = v
    return p


def calls(tr, acc=None):
    acc = set() if acc is None else acc
    for e in tr:
        if e[0] == 'ext':
            acc.add(e[1])
        for x in e:
            if isinstance(x, list):
                calls(x, acc)
    return acc


def sb(t, f):
    return T.subst(t, f) if isinstance(t, tuple) else t


def mapped(tr, p, rn):
    """the body with the names of the path and the local variables of the partner"""
    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == '@':
                return x
            return sb(p.ren(x), rn)
        if isinstance(x, list):
            return [one(e) for e in x]
        return x

    def one(ev):
        k = ev[0]
        if k == 'if':
            return ('if', go(ev[1]), go(ev[2]), go(ev[3]), ev[4])
        if k == 'scope':
            return ('scope', ev[1], go(ev[2]), ev[3], None)
        if k == 'try':
            return ('try', go(ev[1]), [], ev[3])
        if k == 'loop':
            return ('loop', ev[1], ev[2], go(ev[3]), go(ev[4]), {(x[0], go(x[1])): (go(y), go(z)) for x, (y, z) in ev[5].items()}, ev[6], ev[7])
        if k == 'ext':
            return ('ext', ev[1], go(ev[2]), tuple(go(a) for a in ev[3]), go(ev[4]) if ev[1] in PURE else ev[4], ev[5])
        if k == 'push':
            return ('push', (go(ev[1][0]), go(ev[1][1])), go(ev[2]), ev[3], go(ev[4]))
        if k == 'set':
            return ('set', (go(ev[1][0]), go(ev[1][1])), go(ev[2]), ev[3])
        if k in ('W', 'R'):
            return (k, ev[1], go(ev[2]), go(ev[3]), go(ev[4]) if k == 'W' else ev[4]) + \
                ((go(ev[5]), ev[6]) if len(ev) > 6 else (ev[5],))
        if k == 'ret':
            return ('ret', go(ev[1]), ev[2])
        if k == 'delete':
            return ('delete', go(ev[1]), ev[2], ev[3])
        if k == 'seek':
            return ('seek', go(ev[1]), go(ev[2])) + tuple(ev[3:])
        if k == 'new':
            return ev[:4] + (go(ev[4]), ev[5])
        return ev
    return [one(e) for e in tr]


def ren_carry(self, lp, l):
    for x, (i, n) in lp.carry.items():
        if (local(self.ren(x[0])), self.ren(x[1])) == l:
            return self.ren(deloc_keep(i)), self.ren(n)
    return None, None


def deloc_keep(t):
    return t


Path.ren_carry = ren_carry


def los(t, acc=None):
    """the loop results that a term mentions"""
    acc = set() if acc is None else acc
    if isinstance(t, LoopEv):
        los(t.N, acc)
        los(t.body, acc)
        los(t.carry, acc)
    elif isinstance(t, tuple):
        if t and t[0] == 'lo' and len(t) == 4:
            acc.add(t)
        for x in t:
            los(x, acc)
    elif isinstance(t, list):
        for x in t:
            los(x, acc)
    elif isinstance(t, dict):
        for k, x in t.items():
            los(k, acc)
            los(x, acc)
    return acc


def loops_of(tr, acc=None):
    acc = [] if acc is None else acc
    for e in tr:
        if e[0] == 'loop':
            acc.append(e)
        for x in e:
            if isinstance(x, list):
                loops_of(x, acc)
    return acc


def align(code, spec):
    """the local variables that loops carry get the names they have in the reference, loop by loop: the names that
    occur on one side only are matched in the order of declaration"""
    la, lb = loops_of(code), loops_of(spec)
    if len(la) != len(lb):
        return code
    names = {}
    for a, b in zip(la, lb):
        def shape(lp):
            d = {}
            for r, p in lp[5]:
                if isinstance(r, tuple) and r and r[0] == 'v' and len(r) == 4:
                    d.setdefault(r, set()).add(p[:1])
            return d
        da, db = shape(a), shape(b)
        na, nb = {names.get(r, r[3]) for r in da}, {r[3] for r in db}
        ra = sorted((r for r in da if r not in names and r[3] not in nb), key=lambda r: r[2])
        rb = sorted((r for r in db if r[3] not in na), key=lambda r: r[2])
        for x in ra:
            for y in rb:
                if bool(da[x] - {()}) == bool(db[y] - {()}):
                    names[x] = y[3]
                    rb.remove(y)
                    break
    if not names:
        return code

    def go(x):
        if isinstance(x, tuple):
            if len(x) == 4 and x[0] == 'v' and x in names:
                return x[:3] + (names[x],)
            return tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {go(k): go(v) for k, v in x.items()}
        return x

    for x, ty in list(T.ATOM_TYPE.items()):
        y = go(x)
        if y != x:
            T.ATOM_TYPE.setdefault(y, ty)
    return go(code)


def locals_of(lp, after=()):
    """loop-carried local variables that take part in what the loop does, or are used after it"""
    names = {}
    for x in lp.carry:
        if not nonlocal_root(x[0]):
            names[(local(lp.base.ren(x[0])), lp.base.ren(x[1]))] = x
    used = set()

    def look(t):
        if isinstance(t, tuple):
            if t and t[0] in ('lv', 'lo') and len(t) == 4:
                l = (local(lp.base.ren(t[2])), lp.base.ren(t[3]))
                if t[1] == lp.L or lp.base.L.get(t[1]) == lp.L:
                    if l in names:
                        used.add(l)
            for y in t:
                look(y)
        elif isinstance(t, list):
            for y in t:
                look(y)
        elif isinstance(t, dict):
            for y in t.values():
                look(y)
    look(lp.body)
    for t in after:
        look(t)
    if lp.kind != 'for':
        look(lp.N)
    grown = True
    while grown:
        grown = False
        for l in list(used):
            i, n = lp.carry[names[l]]
            k = len(used)
            look(n)
            grown = grown or len(used) != k
    return used


def grows(t, x):
    """may the next value be the last one plus something?"""
    if isinstance(t, tuple) and t[0] == 'ite':
        return grows(t[2], x) or grows(t[3], x)
    if isinstance(t, tuple) and t[0] == 'cast':
        return grows(t[3], x)
    d = T.sub(t, x) if isinstance(t, tuple) and t[0] not in ('vec', 'agg', 'ptr', 's', 'iter') else 0
    return T.is_int(d) and d > 0


CHANGED = set()     # members some function other than a constructor assigns


def endless(lp, thrown=False):
    """is the condition of the loop the same in every iteration, and is there no other way out? (thrown: an exception
    does not count as one)"""
    c = lp.meta.get("cond")
    if lp.kind != "while" or c is None or lp.meta.get("breaks") or lp.meta.get("rets") or not thrown and throws(lp.body):
        return False
    if thrown and members_of(c) & CHANGED:
        return False

    def varies(t):
        if isinstance(t, tuple):
            if t[:1] in (('lv',), ('lo',), ('ix',), ('rd',), ('rb',), ('call',), ('nd',), ('good',), ('u',), ('op',), ('pos',), ('pcall',)):
                return True
            return any(varies(x) for x in t)
        return t == 'pos'
    return not varies(c)


def members_of(t):
    if not isinstance(t, tuple):
        return set()
    if t[:1] == ('init',) and len(t) == 3:
        return {x for x in t[2] if isinstance(x, str)} | members_of(t[1])
    return set().union(*(members_of(x) for x in t)) if t else set()


def throws(tr):
    for ev in tr:
        k = ev[0]
        if k in ('throw', 'ext', 'unk') or k == 'if' and (throws(ev[2]) or throws(ev[3])) or k == 'scope' and throws(ev[2]) or \
                k == 'loop' and throws(ev[4]) or k == 'try':
            return True
    return False


def quiet(lp):
    """a loop that only computes local values"""
    return not observable(lp.body) and not any(nonlocal_root(x[0]) for x in lp.carry)


def elements(m, other):
    """a container that the other side fills element by element, by its elements"""
    out = dict(m)
    for loc, v in m.items():
        if not (isinstance(v, tuple) and v and v[0] == 'vec' and len(v[1]) <= 32):
            continue
        n = len(loc[1])
        sub = [q for q in other if q[0] == loc[0] and len(q[1]) > n and q[1][:n] == loc[1]]
        if loc in other or not sub or not all(q[1][n] == '#' or q[1][n][:1] == ('[]',) and T.is_int(q[1][n][1]) for q in sub):
            continue
        del out[loc]
        if any(q[1][n] == '#' for q in sub):
            out[loc[0], loc[1] + ('#',)] = len(v[1])
        for i, x in enumerate(v[1]):
            at = (loc[0], loc[1] + (('[]', i),))
            if isinstance(x, tuple) and x and x[0] == 'agg':
                if not (isinstance(x[1], tuple) and x[1][:1] == ('uninit',)):
                    out[at] = x[1]
                for q, y in x[2]:
                    out[at[0], at[1] + q] = y
            else:
                out[at] = x
    return out


def whole(m, loc):
    """value of loc out of an assignment to something it is part of"""
    for n in range(len(loc[1]) - 1, -1, -1):
        v = m.get((loc[0], loc[1][:n]))
        if v is not None:
            for s in loc[1][n:]:
                v = T.sel(v, s)
            return v
    return None


def fresh_obj(loc):
    return isinstance(loc[0], tuple) and loc[0][0] == 'obj'


def fields(ev, pc):
    _, kind, sid, w, v, info = ev
    w = pc.simp(w)
    v = pc.simp(v)
    if kind in ('bytes', 'raw', 'rawit') and T.is_int(w):
        n = w // 8
        return [C.Field(8, T.sel(v, ('[]', k)) if n > 1 or C.isvec(v) else v, 'u', info) for k in range(n)]
    return [C.Field(w, v, 'raw' if kind in ('bytes', 'raw', 'rawit') else kind, info)]


W_BITS = 'shiguredo::mp4::bitio::Writer::writeBits'


def low(v, n):
    """the vector as far as its last n bits go"""
    x = v
    if isinstance(x, tuple) and len(x) == 2 and x[1] == () and isinstance(x[0], tuple):
        x = x[0]
    if isinstance(x, tuple) and x[0] == 'val':
        x = x[1]
    if isinstance(x, tuple) and x[0] in ('vec', 'fill'):
        if x[0] == 'fill':
            if not T.is_int(x[1]) or not 0 < x[1] <= 8:
                return v
            x = ('vec', (x[2],) * x[1])
        if len(x[1]) * 8 < n:
            return v
        out = []
        for i, b in enumerate(x[1][::-1]):
            k = min(8, n - 8 * i)
            if k <= 0:
                break
            bs = T.bits(b, k)
            out.append(b if bs is None else T.mk_bv(bs))
        return ('val', ('vec', tuple(out[::-1])))
    return v


def parts(ev):
    if ev[0] == 'X':
        a = ev[3]
        if ev[1] == W_BITS and len(a) == 2 and T.is_int(a[1]) and 0 < a[1] <= 64:
            a = (a[1], low(a[0], a[1]))
        return (ev[1], len(a)) + (ev[2],) + a
    if ev[0] == 'S':
        return (ev[1], ev[2])
    if ev[0] == 'D':
        return (ev[1], ev[2])
    if ev[0] == 'A':
        return (ev[1],)
    if ev[0] == 'R':
        return (ev[1], ev[2], ev[3], ev[5])
    return ()


def islocal(x):
    """a local object taking part in a call: by its value, or by an address"""
    if not isinstance(x, tuple) or not x:
        return False
    if x[0] == 'val':
        return True
    if x[0] in ('ptr', 'lref') and isinstance(x[1], tuple):
        return islocal(x[1])
    return len(x) == 2 and isinstance(x[0], tuple) and x[0][:1] == ('v',)


def at_of(ev):
    return ev.info if isinstance(ev, LoopEv) else ev[-1]


def same(a, b, pc):
    if a == b:
        return True
    if not isinstance(a, (tuple, int)) or not isinstance(b, (tuple, int)) or isinstance(a, bool) or isinstance(b, bool):
        return a == b
    a, b = norm(pc.simp(a)), norm(pc.simp(b))
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and {a[0], b[0]} == {'vec', 'agg'}:
        # an array filled element by element
        x, y = (a, b) if a[0] == 'vec' else (b, a)
        d = dict(y[2])
        if isinstance(y[1], tuple) and y[1][:1] == ('uninit',) and set(d) == {(('[]', i),) for i in range(len(x[1]))}:
            return all(same(v, d[(('[]', i),)], pc) for i, v in enumerate(x[1]))
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'agg':
        da, db = dict(a[2]), dict(b[2])
        if same(a[1], b[1], pc):
            return all(same(da.get(k, T.sel(a[1], k[0]) if isinstance(a[1], tuple) else None),
                            db.get(k, T.sel(b[1], k[0]) if isinstance(b[1], tuple) else None), pc)
                       for k in set(da) | set(db))
        return False
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == 'val':
        return same(a[1], b[1], pc)
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] and a[0] in ('ptr', 'lref', 'vec', 'iter') and len(a) == len(b):
        return all(same_tree(x, y, pc) for x, y in zip(a[1:], b[1:]))
    try:
        if T.same_size(a, b):
            return exact(a, b)
    except Exception:
        pass
    return bits_same(a, b)


def exact(a, b):
    """equal as sizes; reject when one is narrowed"""
    return widths(a) == widths(b) or bits_same(a, b) or T.erase(a, 64) == T.erase(b, 64)


def widths(t):
    out = set()

    def go(x):
        if isinstance(x, tuple):
            if x and x[0] == 'cast' and x[1] < 64:
                out.add(x[1])
            if x and x[0] in ('bv', 'sbv') and len(x[1]) < 64:
                out.add(len(x[1]))
            for y in x:
                go(y)
    go(t)
    return out


def bits_same(a, b):
    if isinstance(a, (int, tuple)) and isinstance(b, (int, tuple)):
        for t in (a, b):
            if isinstance(t, tuple) and t[0] in ('ptr', 'agg', 'vec', 'iter', 's', 'init', 'lref', 'call', 'op'):
                return False
        try:
            x, y = T.bits(a, 64), T.bits(b, 64)
            return x is not None and x == y
        except Exception:
            return False
    return False


def same_tree(x, y, pc):
    if x == y:
        return True
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        if x and isinstance(x[0], str) and x[0] in ('P', 'cast', 'bv', 'ite', 'ptr', 'agg'):
            return same(x, y, pc)
        if all(same_tree(p, q, pc) for p, q in zip(x, y)):
            return True
        return same(x, y, pc)
    return isinstance(x, (int, tuple)) and isinstance(y, (int, tuple)) and not isinstance(x, bool) and same(x, y, pc)


def sh(v, pc):
    v = pc.simp(v) if isinstance(v, tuple) else v
    return (T.show(v) if isinstance(v, tuple) else str(v))[:SHOW]


def say(ev, pc):
    if isinstance(ev, LoopEv):
        return "loop (%s %s)" % (ev.kind, sh(ev.N, pc))
    k = ev[0]
    if k == 'X':
        return "call %s%s(%s)" % (ev[1].replace('shiguredo::mp4::', ''), ' on %s' % sh(('ptr', ev[2]) if len(ev[2]) == 2 else ev[2], pc)
                                  if isinstance(ev[2], tuple) and ev[2] else '', ', '.join(sh(a, pc) for a in ev[3]))
    if k == 'W':
        return "write %s (%s bits) to %s" % (sh(ev[4], pc), sh(ev[3], pc), sh(ev[2], pc))
    if k == 'R':
        return "read %s bits from %s" % (sh(ev[3], pc), sh(ev[2], pc))
    if k == 'S':
        return "seek %s to bit %s" % (sh(ev[1], pc), sh(ev[2], pc))
    if k == 'D':
        return "delete %s" % sh(ev[1], pc)
    if k == 'A':
        return "allocate an array of %s" % sh(ev[1], pc)
    return str(ev[:2])


BOXINFO = 'shiguredo::mp4::BoxInfo'


def treeify(p):
    """the boxes a path builds, as a tree in depth-first order: building one subtree before another is not a difference,
    the order of the children of one box is"""
    boxes, nodes, other, roots = {}, {}, [], []
    ep = 0
    for ev in p.ev:
        if not isinstance(ev, LoopEv) and ev[0] == 'X' and ev[1].startswith('new ') and len(ev) > 5:
            if ev[1] == 'new ' + BOXINFO and len(ev[3]) == 1 and isinstance(ev[3][0], tuple) and ev[3][0][0] == 'agg':
                d = dict(ev[3][0][2])
                b, par = d.get(('box',)), d.get(('parent',))
                if isinstance(b, tuple) and b[0] == 'ptr' and isinstance(par, (tuple, int)):
                    nodes[ev[2]] = (ev, b[1], par)
                    roots.append(ev[2])
                    continue
            elif isinstance(ev[2], tuple) and ev[1] != 'new ' + BOXINFO:
                boxes[ev[2]] = (ev, ep)
                continue
        if not isinstance(ev, LoopEv) and ev[0] == 'X':
            ep += 1
        other.append(ev)
    if not nodes:
        return p
    kids, top = {}, []
    for n in roots:
        par = nodes[n][2]
        pl = par[1] if isinstance(par, tuple) and par and par[0] == 'ptr' else None
        if pl in nodes and pl != n:
            kids.setdefault(pl, []).append(n)
        else:
            top.append(n)
    out, used = [], set()

    def go(n):
        ev, b, par = nodes[n]
        if b in boxes and b not in used:
            used.add(b)
            x, e = boxes[b]
            out.append(('X', x[1], x[2], x[3] + (('epoch', e),), x[4], x[5]))
        out.append(ev)
        for k in kids.get(n, ()):
            go(k)
    for n in top:
        go(n)
    for b in boxes:
        if b not in used:
            x, e = boxes[b]
            out.append(x)
    m = {}

    def see(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'obj' and isinstance(x[1], str):
                m.setdefault(x, ('obj', 't%d' % (len(m) + 1), x[2]))
                return
            for y in x:
                see(y)
    for ev in other + out:
        if not isinstance(ev, LoopEv):
            see(ev[:-1])

    def rn(x):
        return m.get(x) if x and len(x) == 3 and x[0] == 'obj' else None
    q = p.copy()
    q.obj = {k: T.subst(v, rn) for k, v in p.obj.items()}
    q.mem = {(sb(l[0], rn), sb(l[1], rn)): sb(v, rn) for l, v in p.mem.items()}
    q.ev = []
    for ev in other + out:
        if isinstance(ev, LoopEv):
            b = ev.base.copy()
            b.obj = {k: T.subst(v, rn) for k, v in b.obj.items()}
            ev = LoopEv(ev.L, ev.kind, sb(ev.N, rn), ev.body, ev.carry, ev.info, ev.meta, b, ev.L0)
        else:
            ev = tuple(sb(x, rn) if not (isinstance(x, tuple) and i == len(ev) - 1) else x for i, x in enumerate(ev))
        q.ev.append(ev)
    if p.end:
        q.end = (p.end[0], sb(p.end[1], rn) if isinstance(p.end[1], tuple) else p.end[1], p.end[2])
    return q
