"""Agreement of a serialiser and a parser, decided on their effect trees.

The tree of the writer yields, for every combination of the conditions it tests, a sequence of fields
(width term, value term).  The tree of the reader is walked against that sequence: every value it reads
is bound to the value the writer put there, its conditions are decided by that binding (or split), its
loops are matched with the writer's.  Nothing is executed and no solver is used; everything is rewriting
of the terms in terms.py."""
import interp as I
import terms as T

THIS = ('this',)
RTHIS = ('rthis',)
MAXCASES = 6000


class Mismatch(Exception):
    def __init__(self, rule, msg, info=None, winfo=None, pc=()):
        super().__init__(msg)
        self.rule, self.msg, self.info, self.winfo, self.pc = rule, msg, info, winfo, pc


class Undecided(Exception):
    def __init__(self, msg, info=None):
        super().__init__(msg)
        self.msg, self.info = msg, info


# ---------------------------------------------------------------- conditions
def good_map(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'good':
            acc[t] = 1
            return
        for x in t:
            good_map(x, acc)


def dyn_map(t, dyn, acc):
    """a pointer has one dynamic type"""
    if isinstance(t, tuple):
        if t and t[0] == 'isdyn' and t[1] in dyn:
            acc[t] = int(t[2] == dyn[t[1]])
            return
        for x in t:
            dyn_map(x, dyn, acc)


class PC:
    """a set of assumed conditions; simplifies terms under them"""

    def __init__(self, conds=()):
        self.conds = tuple(conds)
        m = {}
        for c in self.conds:
            if c[0] == 'eq' and T.is_int(c[2]) and isinstance(c[1], tuple):
                m[c[1]] = c[2]
            if c[0] == 'eq' and T.is_int(c[1]) and isinstance(c[2], tuple):
                m[c[2]] = c[1]
            if c[0] == 'bit':
                m[c] = 1
            elif c[0] == 'not':
                m[c[1]] = 0
            else:
                m[c] = 1
        self.dyn = {}
        for c in self.conds:
            if c[0] == 'isdyn':
                self.dyn[c[1]] = c[2]
        # bits: also inside bit vectors
        self.bits = {}
        for c in self.conds:
            x, v = (c[1], 0) if c[0] == 'not' else (c, 1)
            if isinstance(x, tuple) and x[0] == 'bit' and isinstance(x[1], tuple):
                self.bits[x[1]] = v
        self.m = m

    def simp(self, t):
        if not isinstance(t, tuple):
            return t
        g = {}
        good_map(t, g)
        if self.dyn:
            dyn_map(t, self.dyn, g)
        m = self.m
        if g:
            m = dict(m)
            m.update(g)
        for _ in range(4):
            t2 = T.subst(t, m) if m else t
            if t2 == t:
                break
            t = t2
            if not isinstance(t, tuple):
                break
        return t

    def add(self, c):
        return PC(self.conds + tuple(T.conj(c)))


def split(pc, c):
    """[(truth, PC)] the feasible truth values of c under pc"""
    c = T.truth(pc.simp(c))
    if T.is_int(c):
        return [(bool(c), pc)]
    # decide a compound condition on its first atom, so that assumptions stay atomic
    a = atom_of(c)
    if a != c and T.cnot(a) != c:
        out = []
        for v in (1, 0):
            p2 = pc.add(a if v else T.cnot(a))
            out += split(p2, c)
        return out
    return [(True, pc.add(c)), (False, pc.add(T.cnot(c)))]


def atom_of(c):
    while isinstance(c, tuple) and c[0] in ('and', 'or', 'not', 'ite'):
        c = c[1]
    return c


# ---------------------------------------------------------------- the writer's sequences
class Field:
    __slots__ = ("w", "v", "kind", "info")

    def __init__(self, w, v, kind, info):
        self.w, self.v, self.kind, self.info = w, v, kind, info

    def bits(self):
        return self.w


class Loop:
    __slots__ = ("L", "N", "body", "info", "meta", "_paths", "pc")

    def __init__(self, L, N, body, info, meta, pc):
        self.L, self.N, self.body, self.info, self.meta, self.pc = L, N, body, info, meta, pc
        self._paths = None

    def paths(self):
        if self._paths is None:
            self._paths = []
            k = len(self.pc.conds)
            live, threw = set(), False
            for pc, items, end in wpaths(self.body, self.pc):
                if end and end[0] in ('throw',):
                    threw = True
                    continue
                if end and end[0] in ('ret', 'brk'):
                    raise Undecided("the serialiser leaves a loop early", self.info)
                self._paths.append((pc, items))
                for i in range(len(pc.conds) + 1 - k):
                    live.add(pc.conds[k:k + i])
            if threw:
                # a condition whose opposite only ever throws does not distinguish anything written
                out = []
                for pc, items in self._paths:
                    r = pc.conds[k:]
                    keep = tuple(c for i, c in enumerate(r) if r[:i] + (T.cnot(c),) in live)
                    out.append((PC(self.pc.conds + keep), items))
                self._paths = out
        return self._paths

    def bits(self):
        return T.mk_sum(self.L, self.N, self.body_bits())

    def body_bits(self):
        ps = self.paths()
        if not ps:
            return 0
        return ite_chain([(rel(pc, self.pc), total(items)) for pc, items in ps])


def rel(pc, base):
    c = 1
    for x in pc.conds[len(base.conds):]:
        c = T.cand(c, x)
    return c


def ite_chain(cs):
    """[(cond, value)] exhaustive -> term"""
    v = cs[-1][1]
    for c, x in reversed(cs[:-1]):
        v = x if x == v else T.ite(c, x, v)
    return v


def total(items):
    t = 0
    for i in items:
        t = T.add(t, i.bits())
    return t


def wpaths(tr, pc):
    """(pc, items, end) for every path through a writer trace"""
    cnt = [0]

    def seq(evs, i, pc, items):
        while i < len(evs):
            ev = evs[i]
            k = ev[0]
            if k == 'W':
                w = pc.simp(ev[3])
                if ev[1] in ('bytes', 'raw', 'rawit'):
                    base = ev[4]
                    n = T.bytediv(w)
                    L = 'w%d' % I.fresh()
                    T.ATOM_TYPE[('ix', L)] = (64, False)
                    if T.is_int(n):
                        for j in range(n):
                            items = items + [Field(8, T.sel(base, ('[]', j)) if n > 1 or isvec(base) else base, 'u', ev[5])]
                    else:
                        el = T.sel(base, ('[]', ('ix', L)))
                        if isinstance(el, tuple):
                            T.ATOM_TYPE.setdefault(el, (8, False))
                        f = ('W', 'u', ev[2], 8, el, ev[5])
                        items = items + [Loop(L, n, [f], ev[5], dict(bulk=True), pc)]
                else:
                    items = items + [Field(w, ev[4], ev[1], ev[5])]
            elif k == 'if':
                for v, p2 in split(pc, ev[1]):
                    for p3, it3, end in seq(ev[2] if v else ev[3], 0, p2, items):
                        if end:
                            yield p3, it3, end
                        else:
                            yield from seq(evs, i + 1, p3, it3)
                return
            elif k == 'scope':
                for p3, it3, end in seq(ev[2], 0, pc, items):
                    if end and end[0] != 'ret':
                        yield p3, it3, end
                    else:
                        yield from seq(evs, i + 1, p3, it3)
                return
            elif k == 'try':
                for p3, it3, end in seq(ev[1], 0, pc, items):
                    if end:
                        yield p3, it3, end
                    else:
                        yield from seq(evs, i + 1, p3, it3)
                return
            elif k == 'loop':
                if has_io(ev[4]):
                    if ev[2] != 'for':
                        raise Undecided("serialising loop whose trip count is not a closed form", ev[6])
                    n = pc.simp(ev[3])
                    if T.is_int(n) and 0 <= n <= 64:
                        for p3, it3, end in unroll_w(ev, n, 0, pc, items):
                            if end:
                                yield p3, it3, end
                            else:
                                yield from seq(evs, i + 1, p3, it3)
                        return
                    items = items + [Loop(ev[1], n, ev[4], ev[6], ev[7], pc)]
                elif throws(ev[4]):
                    pass
            elif k == 'ret':
                yield pc, items, ('ret', ev[1], ev[2])
                return
            elif k == 'throw':
                yield pc, items, ('throw', ev[1], ev[2])
                return
            elif k in ('brk', 'cont'):
                yield pc, items, (k, ev[1])
                return
            elif k == 'seek':
                raise Undecided("the serialiser seeks", ev[-1])
            elif k == 'unk':
                raise Undecided("construct %s" % ev[1], ev[-1])
            i += 1
        cnt[0] += 1
        if cnt[0] > MAXCASES:
            raise Undecided("too many cases")
        yield pc, items, None

    def unroll_w(ev, n, j, pc, items):
        if j == n:
            yield pc, items, None
            return
        sub = {('ix', ev[1]): j}
        body = map_trace(ev[4], sub)
        for p3, it3, end in seq(body, 0, pc, items):
            if end and end[0] != 'cont':
                yield p3, it3, end
            else:
                yield from unroll_w(ev, n, j + 1, p3, it3)

    yield from seq(tr, 0, pc, [])


def isvec(b):
    return isinstance(b, tuple) and b[0] in ('vec', 'init', 'elem', 'fld', 'agg', 's')


def has_io(tr):
    for ev in tr:
        if ev[0] in ('W', 'R', 'seek', 'unk'):
            return True
        if ev[0] == 'if' and (has_io(ev[2]) or has_io(ev[3])):
            return True
        if ev[0] in ('scope',) and has_io(ev[2]):
            return True
        if ev[0] == 'loop' and has_io(ev[4]):
            return True
        if ev[0] == 'try' and has_io(ev[1]):
            return True
    return False


def throws(tr):
    for ev in tr:
        if ev[0] == 'throw':
            return True
        if ev[0] == 'if' and (throws(ev[2]) or throws(ev[3])):
            return True
        if ev[0] == 'scope' and throws(ev[2]):
            return True
        if ev[0] == 'loop' and throws(ev[4]):
            return True
    return False


_mapper = I.Interp.map_trace


class _M:
    map_trace = I.Interp.map_trace


_M_INST = None


def map_trace(tr, sub):
    return I.Interp.map_trace(_mt, tr, sub)


class _MT:
    def map_trace(self, tr, sub):
        return I.Interp.map_trace(self, tr, sub)


_mt = _MT()


# ---------------------------------------------------------------- the reader against one sequence
class RS:
    """state of the reader while it consumes a sequence"""

    def __init__(self, items, pc, pos0, endbits):
        self.items = list(items)
        self.i = 0              # next item
        self.b = 0              # bits of it already consumed (constant-width fields)
        self.cum = [0]          # position of each item boundary
        for x in items:
            self.cum.append(T.add(self.cum[-1], x.bits()))
        self.pc = pc
        self.env = {}           # k -> (idx vars, term)
        self.heap = I.St()
        self.lv = {}
        self.pos0, self.endbits = pos0, endbits
        self.depth = 0
        self.written = {}

    def copy(self):
        o = RS.__new__(RS)
        o.items, o.i, o.b, o.cum, o.pc = self.items, self.i, self.b, self.cum, self.pc
        o.env = dict(self.env)
        o.heap = self.heap.fork()
        o.lv = dict(self.lv)
        o.pos0, o.endbits, o.depth = self.pos0, self.endbits, self.depth
        o.written = dict(self.written)
        return o

    def consumed(self):
        return T.add(self.cum[self.i], self.b)


class Cosim:
    def __init__(self, prog, cls, it):
        self.p, self.cls, self.it = prog, cls, it
        self.checked_fields = 0
        self.cases = 0
        self.loops = 0
        self.align = []
        self.mismatches = []
        self.members = set()
        self.notes = []
        self.domain = []

    # -------------------------------------------------- term resolution
    def resolve(self, S, t):
        if not isinstance(t, tuple):
            return t

        def f(x):
            k = x[0] if x else None
            if k in ('rd', 'rb'):
                e = S.env.get((k, x[1]))
                if e is None:
                    return None
                vars_, term = e
                m = {}
                idx = x[2]
                # the innermost indices correspond to the loops the symbol was bound under
                for v, a in zip(reversed(vars_), reversed(idx)):
                    a2 = self.resolve(S, a)
                    if v != a2:
                        m[v] = a2
                return T.subst(term, m) if m else term
            if k in ('lv', 'lo'):
                return S.lv.get(x)
            return None
        for _ in range(6):
            t2 = T.subst(t, f)
            if t2 == t or not isinstance(t2, tuple):
                t = t2
                break
            t = t2
        return t

    def val(self, S, t):
        return S.pc.simp(self.resolve(S, t))

    # -------------------------------------------------- consuming fields
    def take(self, S, w, kind, info):
        """consume w bits; returns the value term"""
        w = self.val(S, w) if isinstance(w, tuple) else w
        if T.is_int(w) and w == 0:
            return 0
        if S.i >= len(S.items):
            raise Mismatch("layout", "reads %s more bits than the serialiser writes" % T.show(w), info, None, S.pc.conds)
        f = S.items[S.i]
        if isinstance(f, Loop):
            n = S.pc.simp(f.N)
            raise Mismatch("layout", "reads a %s-bit field where the serialiser writes a list of %s elements" %
                           (T.show(w), T.show(n)), info, f.info, S.pc.conds)
        fw = S.pc.simp(f.w)
        if f.kind in ('str', 'pstr', 'uvar'):
            raise Mismatch("layout", "reads a fixed field where the serialiser writes a %s" % f.kind, info, f.info,
                           S.pc.conds)
        if not T.is_int(w) or not T.is_int(fw):
            if S.b == 0 and T.same_size(w, fw):
                S.i += 1
                self.note_written(S, f, fw)
                return self.field_value(f, fw, kind, info, S)
            raise Mismatch("layout", "field width %s does not equal the written width %s" % (T.show(w), T.show(fw)),
                           info, f.info, S.pc.conds)
        if S.b == 0 and w == fw:
            S.i += 1
            self.checked_fields += 1
            self.note_written(S, f, fw)
            return self.field_value(f, fw, kind, info, S)
        # bit by bit
        got = []
        while len(got) < w:
            if S.i >= len(S.items):
                raise Mismatch("layout", "reads past the end of what the serialiser writes", info, None, S.pc.conds)
            f = S.items[S.i]
            if isinstance(f, Loop) or f.kind not in 'ui':
                raise Mismatch("layout", "reads a %d-bit field across a boundary of the written layout" % w, info, f.info,
                               S.pc.conds)
            fw = S.pc.simp(f.w)
            if not T.is_int(fw):
                raise Mismatch("layout", "splits a field of variable width", info, f.info, S.pc.conds)
            v = self.strip_fit(f.v, fw)
            bs = T.bits(v, fw)
            if S.b == 0:
                self.note_written(S, f, fw)
            if bs is None:
                bs = [('bx', v, i) for i in range(fw)]
            msb = list(reversed(bs))
            n = min(w - len(got), fw - S.b)
            got += msb[S.b:S.b + n]
            S.b += n
            if S.b == fw:
                S.i += 1
                S.b = 0
        self.checked_fields += 1
        bs = list(reversed(got))
        v = T.mk_sbv(bs) if kind == 'i' else T.mk_bv(bs)
        return v

    def strip_fit(self, v, w):
        """the written value under the assumption that a member fits the width of its field"""
        while isinstance(v, tuple) and v[0] == 'cast' and v[1] >= w:
            v = v[3]
        return v

    def field_value(self, f, w, kind, info, S):
        v = self.strip_fit(f.v, w) if T.is_int(w) else f.v
        if kind != f.kind and isinstance(v, tuple):
            return T.cast(v, w, kind == 'i') if T.is_int(w) else v
        if T.is_int(v):
            return T.cast(v, w, kind == 'i') if T.is_int(w) else v
        if T.is_int(w):
            if v[0] in ('bv', 'sbv'):
                # bits above the field are lost
                b = v[1]
                if len(b) > w:
                    a = T.whole_atom(b[:w])
                    if a is None:
                        return T.mk_bv(b[:w]) if kind == 'u' else T.mk_sbv(list(b[:w]))
        return v

    def note_written(self, S, f, w):
        """remember which members (or which bits of them) are on the wire"""
        v = f.v
        v = self.strip_fit(v, w) if T.is_int(w) else v
        if isinstance(v, tuple) and v[0] == 'cast':
            w = max_leaf(w)
            if w is not None and v[1] < w and isinstance(v[3], tuple) and v[3][0] in ('init', 'elem', 'fld') and \
                    T.ATOM_TYPE.get(v[3], (0,))[0] > v[1]:
                raise Mismatch("value", "only the low %d bits of %s are written to its %d-bit field" %
                               (v[1], T.show(v[3]), w), f.info, f.info, S.pc.conds)
            return
        a = self.single(v)
        if a is not None:
            S.written[a] = ('all', f.info)
            return
        if T.is_int(w):
            bs = T.bits(v, w)
            if bs:
                k = 0
                while k < len(bs) and isinstance(bs[k], tuple) and bs[k][0] == 'b' and bs[k][2] == k and \
                        bs[k][1] == bs[0][1]:
                    k += 1
                if 0 < k < len(bs) and all(T.is_int(b) and b == 0 for b in bs[k:]) and \
                        T.ATOM_TYPE.get(bs[0][1], (0,))[0] > k:
                    raise Mismatch("value", "only the low %d bits of %s are written to its %d-bit field" %
                                   (k, T.show(bs[0][1]), w), f.info, f.info, S.pc.conds)
                for b in bs:
                    if isinstance(b, tuple) and b[0] == 'b' and isinstance(b[1], tuple):
                        old = S.written.get(b[1])
                        if old and old[0] == 'all':
                            continue
                        S.written[b[1]] = ((old[0] if old else frozenset()) | {b[2]}, f.info)

    def single(self, v):
        """the member v is an injective function of, if any"""
        if not isinstance(v, tuple):
            return None
        if v[0] in ('init', 'elem', 'fld'):
            return v
        if v[0] == 'P':
            ms = [m for m, c in v[1] if m]
            if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][0] in ('init', 'elem', 'fld') and \
                    dict(v[1])[ms[0]] in (1, -1):
                return ms[0][0]
        if v[0] == 'bit' and v[1][0] == 'b' and v[1][1] in T.ATOM_TYPE and T.ATOM_TYPE[v[1][1]][0] == 1:
            return v[1][1]
        return None

    # -------------------------------------------------- walking the reader
    def run(self, tr, S):
        """yield (S, end)"""
        yield from self.seq(tr, 0, S)

    def seq(self, evs, i, S):
        while i < len(evs):
            ev = evs[i]
            k = ev[0]
            if k == 'R':
                self.read(S, ev)
            elif k == 'W':
                raise Undecided("a parser that writes", ev[-1])
            elif k == 'if':
                c = T.truth(self.val(S, ev[1]))
                outs = split(S.pc, c)
                for n, (v, p2) in enumerate(outs):
                    S2 = S.copy() if n < len(outs) - 1 else S
                    S2.pc = p2
                    decided = len(outs) == 1
                    try:
                        for S3, end in self.seq(ev[2] if v else ev[3], 0, S2):
                            if end:
                                yield S3, end if end[0] != 'throw' or decided else ('throw?',) + end[1:]
                            else:
                                yield from self.seq(evs, i + 1, S3)
                    except Mismatch as m:
                        m.pc = m.pc or p2.conds
                        raise
                return
            elif k == 'scope':
                for S3, end in self.seq(ev[2], 0, S):
                    if end and end[0] != 'ret':
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'try':
                for S3, end in self.seq(ev[1], 0, S):
                    if end:
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'loop':
                for S3, end in self.loop(ev, S):
                    if end:
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'set':
                loc, v = ev[1], ev[2]
                self.store(S, loc, v)
            elif k == 'push':
                self.push(S, ev)
            elif k == 'ret':
                yield S, ('ret', ev[1], ev[2])
                return
            elif k == 'throw':
                yield S, ('throw', ev[1], ev[2])
                return
            elif k in ('brk', 'cont'):
                yield S, (k, ev[1])
                return
            elif k == 'seek':
                self.seek(S, ev)
            elif k == 'unk':
                raise Undecided("construct %s" % ev[1], ev[-1])
            i += 1
        yield S, None

    def path(self, S, loc):
        root, path = loc
        if isinstance(root, tuple) and root[0] == 'deref':
            v = self.val(S, root[1])
            if isinstance(v, tuple) and v[0] == 'ptr':
                root, path = v[1][0], v[1][1] + path
            else:
                root = ('deref', v)
        return root, tuple(('[]', self.val(S, x[1])) if isinstance(x, tuple) and x[0] == '[]' else x for x in path)

    def store(self, S, loc, v):
        loc = self.path(S, loc)
        self.it.store(S.heap, loc, self.val(S, v), quiet=True)

    def push(self, S, ev):
        loc = self.path(S, ev[1])
        n = self.it.load(S.heap, (loc[0], loc[1] + ('#',)))
        self.it.store(S.heap, (loc[0], loc[1] + (('[]', n),)), self.val(S, ev[2]), quiet=True)
        self.it.store(S.heap, (loc[0], loc[1] + ('#',)), T.add(n, 1), quiet=True)
        if hasattr(S, 'pushes') and S.pushes is not None:
            S.pushes = S.pushes + [(loc, self.val(S, ev[2]))]

    def read(self, S, ev):
        kind, w, sym, info = ev[1], ev[3], ev[4], ev[-1]
        idx = sym[2] if isinstance(sym, tuple) and len(sym) > 2 else ()
        if kind in 'ui':
            v = self.take(S, w, kind, info)
            self.bind(S, sym, v)
            return
        if kind in ('str', 'pstr', 'uvar'):
            if S.i >= len(S.items):
                raise Mismatch("layout", "reads a %s where nothing is left" % kind, info, None, S.pc.conds)
            f = S.items[S.i]
            if isinstance(f, Loop) or f.kind != kind or S.b:
                raise Mismatch("layout", "reads a %s where the serialiser writes something else" % kind, info, f.info,
                               S.pc.conds)
            self.aligned(S, info, "variable-length read")
            S.i += 1
            self.checked_fields += 1
            self.bind(S, sym, f.v)
            self.bind(S, ('rb',) + tuple(sym[1:]), S.pc.simp(f.w))
            a = self.single(f.v)
            if a is not None:
                S.written[a] = ('all', f.info)
            return
        # raw bytes
        w = self.val(S, w)
        n = T.bytediv(w)
        self.aligned(S, info, "byte-wise read")
        if T.is_int(n) and n == 0:
            self.bind(S, sym, ('vec', ()))
            return
        if S.i < len(S.items) and isinstance(S.items[S.i], Loop) and not T.is_int(n):
            f = S.items[S.i]
            if not T.same_size(S.pc.simp(f.N), n):
                raise Mismatch("layout", "reads %s bytes where the serialiser writes %s elements" %
                               (T.show(n), T.show(f.N)), info, f.info, S.pc.conds)
            ps = f.paths()
            if len(ps) != 1 or len(ps[0][1]) != 1 or isinstance(ps[0][1][0], Loop) or ps[0][1][0].w != 8:
                raise Mismatch("layout", "reads bytes where the serialiser writes larger elements", info, f.info,
                               S.pc.conds)
            fld = ps[0][1][0]
            v = fld.v
            base = None
            if v[0] == 'init' and v[2] and v[2][-1] == ('[]', ('ix', f.L)):
                base = ('init', v[1], v[2][:-1])
            elif v[0] == 'elem' and v[2] == ('ix', f.L):
                base = v[1]
            S.i += 1
            self.checked_fields += 1
            if base is None:
                base = ('lam', f.L, v)
            else:
                S.written[base] = ('all', f.info)
            self.bind(S, sym, base)
            return
        if T.is_int(n):
            vs = [self.take(S, 8, 'u', info) for _ in range(n)]
            self.bind(S, sym, ('vec', tuple(vs)))
            return
        raise Mismatch("layout", "reads %s raw bytes where the serialiser writes something else" % T.show(n), info,
                       S.items[S.i].info if S.i < len(S.items) else None, S.pc.conds)

    def bind(self, S, sym, v):
        S.env[(sym[0], sym[1])] = (tuple(sym[2]), v)

    def aligned(self, S, info, what):
        c = T.canon_size(S.pc.simp(S.consumed()))
        bad = [k for m, k in T.poly_items(c).items() if k % 8]
        if bad:
            raise Mismatch("align", "%s at bit position %s, not on a byte boundary" % (what, T.show(c)), info, None,
                           S.pc.conds)

    def seek(self, S, ev):
        new = self.val(S, ev[2])
        target = T.sub(new, S.pos0)
        here = S.consumed()
        if T.same_size(S.pc.simp(target), S.pc.simp(here)):
            return
        if T.same_size(S.pc.simp(new), S.pc.simp(S.endbits)):
            S.i, S.b = len(S.items), 0
            return
        for j, c in enumerate(S.cum):
            if T.same_size(S.pc.simp(c), S.pc.simp(target)):
                S.i, S.b = j, 0
                return
        raise Mismatch("layout", "seeks to %s, which is not the start of anything written" % T.show(target), ev[-1], None,
                       S.pc.conds)

    # -------------------------------------------------- loops of the reader
    def loop(self, ev, S):
        L, kind, N, body, carry, info, meta = ev[1:8]
        if not has_io(body):
            yield from self.pure_loop(ev, S)
            return
        self.loops += 1
        if kind == 'for':
            n = self.val(S, N)
            if T.is_int(n):
                if n > 256:
                    raise Undecided("long constant loop", info)
                yield from self.unroll(ev, n, 0, S)
                return
            if S.i >= len(S.items):
                raise Mismatch("layout", "reads a list of %s elements where nothing is left" % T.show(n), info, None,
                               S.pc.conds)
            f = S.items[S.i]
            if not isinstance(f, Loop) or S.b:
                raise Mismatch("layout", "reads a list of %s elements where the serialiser writes a %s-bit field" %
                               (T.show(n), T.show(f.bits())), info, f.info, S.pc.conds)
            wn = S.pc.simp(f.N)
            if not T.same_size(wn, n):
                raise Mismatch("layout", "reads %s elements where the serialiser writes %s" % (T.show(n), T.show(wn)),
                               info, f.info, S.pc.conds)
            for z in self.size_atoms(wn):
                S.written[z] = ('all', f.info)
            yield from self.match_body(ev, S, f, wn)
            return
        yield from self.while_loop(ev, S)

    def size_atoms(self, n):
        return [n] if isinstance(n, tuple) and n[0] in ('init', 'size') else []

    def unroll(self, ev, n, j, S):
        if j == n:
            self.bind_after(ev, S, n)
            yield S, None
            return
        body = map_trace(ev[4], {('ix', ev[1]): j})
        for S3, end in self.seq(body, 0, S):
            if end and end[0] == 'brk':
                yield S3, None
            elif end and end[0] != 'cont':
                yield S3, end
            else:
                yield from self.unroll(ev, n, j + 1, S3)

    def bind_after(self, ev, S, n):
        pass

    def match_body(self, ev, S, f, n):
        """the reader's loop body against the body of the writer's loop f, for an arbitrary index"""
        L, body, info = ev[1], ev[4], ev[6]
        wix = ('ix', f.L)
        rbody = map_trace(body, {('ix', L): wix})
        results = []
        base_sizes = {}
        for wpc, witems in f.paths():
            B = S.copy()
            B.items = witems
            B.i = B.b = 0
            B.cum = [0]
            for x in witems:
                B.cum.append(T.add(B.cum[-1], x.bits()))
            B.pc = PC(S.pc.conds + wpc.conds[len(f.pc.conds):])
            B.written = {}
            B.pushes = []
            B.posbase = None
            B.pos0 = ('unknownpos',)
            B.depth = S.depth + 1
            for R, end in self.seq(rbody, 0, B):
                if end and end[0] == 'throw?':
                    self.domain.append((end[1], end[2], R.pc.conds))
                    continue
                if end and end[0] == 'throw':
                    raise Mismatch("layout", "rejects an element the serialiser writes", end[2], f.info, R.pc.conds)
                if end and end[0] in ('ret', 'brk'):
                    raise Mismatch("layout", "leaves the list early", end[-1], f.info, R.pc.conds)
                if R.i < len(R.items) or R.b:
                    raise Mismatch("layout", "leaves %s bits of each element unread" %
                                   T.show(T.sub(R.cum[-1], R.consumed())), info, f.info, R.pc.conds)
                self.cases += 1
                results.append((R, wpc))
        S.i += 1
        # values read inside become functions of the index
        keys = {}
        for R, wpc in results:
            for k in R.env:
                if k not in S.env or S.env[k] != R.env[k]:
                    keys.setdefault(k, []).append(R)
        for k, rs in keys.items():
            vs = [(rel_conds(R, S), R.env[k]) for R in rs]
            idx = vs[0][1][0]
            idx = tuple(wix if a == ('ix', L) else a for a in idx)
            S.env[k] = (idx, ite_chain([(c, v[1]) for c, v in vs]))
        # element stores: checked here, for an arbitrary index, and kept for later loads
        self.finish_body(S, f, n, results, ev, wix)
        yield S, None

    def finish_body(self, S, f, n, results, ev, wix):
        pushed = None
        for R, wpc in results:
            self.pre_size = S.heap
            ps = R.pushes or []
            here = [(loc, v) for loc, v in ps]
            names = sorted({loc for loc, _ in here}, key=T.skey)
            if pushed is None:
                pushed = {l: sum(1 for x, _ in here if x == l) for l in names}
            elif pushed != {l: sum(1 for x, _ in here if x == l) for l in names}:
                pushed = {}
                self.notes.append("number of appended elements differs between cases")
            # a pushed element sits at start + index
            for loc, v in here:
                s0 = self.it.load(S.heap, (loc[0], loc[1] + ('#',)))
                R.heap.heap.setdefault(loc[0], {})[loc[1] + (('[]', T.add(s0, wix)),)] = v
            S.written.update(self.check_members(R, wpc, f, elem=True))
        # carry the stores over to the state after the loop
        for R, wpc in results:
            c = rel_conds(R, S)
            for root, d in R.heap.heap.items():
                base = S.heap.heap.get(root)
                for p, v in list(d.items()):
                    if base is not None and base.get(p) == v:
                        continue
                    if p and p[-1] == '#' and any((root, p[:-1]) == l for l in (pushed or {})):
                        continue
                    old = S.heap.heap.setdefault(root, {}).get(p)
                    S.heap.heap[root][p] = v if old is None or old == v or c == 1 else T.ite(c, v, old)
        for loc, k in (pushed or {}).items():
            s0 = self.it.load(S.heap, (loc[0], loc[1] + ('#',)))
            S.heap.heap.setdefault(loc[0], {})[loc[1] + ('#',)] = T.add(s0, T.mul(k, n))

    def pure_loop(self, ev, S):
        """a loop without stream access: keep its element stores"""
        L, kind, N, body, carry, info, meta = ev[1:8]
        n = self.val(S, N) if kind == 'for' else None
        if T.is_int(n) and n <= 256:
            yield from self.unroll(ev, n, 0, S)
            return
        wr = []
        B = S.copy()
        B.pushes = []
        try:
            for R, end in self.seq(body, 0, B):
                wr.append((R, end))
        except Undecided:
            raise
        if len(wr) == 1 and wr[0][1] is None and kind == 'for':
            R = wr[0][0]
            for root, d in R.heap.heap.items():
                base = S.heap.heap.get(root, {})
                for p, v in d.items():
                    if base.get(p) != v and not (p and p[-1] == '#'):
                        p2 = tuple(('[*]', L) if isinstance(x, tuple) and x == ('[]', ('ix', L)) else x for x in p)
                        S.heap.heap.setdefault(root, {})[p2] = v
            for loc, v in R.pushes:
                s0 = self.it.load(S.heap, (loc[0], loc[1] + ('#',)))
                if s0 == 0:
                    S.heap.heap.setdefault(loc[0], {})[loc[1] + (('[*]', L),)] = v
                S.heap.heap.setdefault(loc[0], {})[loc[1] + ('#',)] = T.add(s0, n)
        elif any(e and e[0] == 'throw' for _, e in wr) or any(R.heap.heap != S.heap.heap for R, e in wr):
            self.notes.append("%s:%s loop without stream access not summarised" % info[:2])
        yield S, None

    def while_loop(self, ev, S):
        """an until-the-end loop against one list of the writer"""
        L, kind, cond, body, carry, info, meta = ev[1:8]
        lvs = set()
        collect(body, L, lvs)
        collect_t(cond, L, lvs)
        for k, (i0, nv) in carry.items():
            lvs.add(('lv', L) + k)
        posk = [x for x in lvs if x[3] and x[3][-1] == I.STREAM_POS]
        end = S.endbits
        items = S.items
        if S.i < len(items) and isinstance(items[S.i], Loop) and not S.b:
            f = items[S.i]
            rest = T.sub(S.cum[-1], S.cum[S.i + 1])
        else:
            f = None
            rest = T.sub(S.cum[-1], S.consumed())
        acc = {}
        entry_heap = S.heap.fork()
        if f is not None:
            wix = ('ix', f.L)
            n = S.pc.simp(f.N)
            results = []
            rbody = map_trace(body, {('ix', L): wix})
            tail = ('tail', L)
            T.ATOM_TYPE[tail] = (60, False)
            for wpc, witems in f.paths():
                bb = total(witems)
                if not T.positive(T.expand_ind(wpc.simp(bb))):
                    raise Undecided("element of a list read until the end may be empty", f.info)
                B = S.copy()
                B.items = witems
                B.i = B.b = 0
                B.cum = [0]
                for x in witems:
                    B.cum.append(T.add(B.cum[-1], x.bits()))
                B.pc = PC(S.pc.conds + wpc.conds[len(f.pc.conds):])
                B.written = {}
                B.pushes = []
                here = T.sub(end, T.add(T.add(bb, T.mul(8, tail)), rest))
                for x in posk:
                    B.lv[x] = here
                B.pos0 = here
                for v, p2 in split(B.pc, T.truth(self.val(B, cond)) if not T.is_int(cond) else cond):
                    if not v:
                        raise Mismatch("layout", "stops before the last element", info, f.info, p2.conds)
                for R, e in self.seq(rbody, 0, B):
                    if e and e[0] == 'throw?':
                        self.domain.append((e[1], e[2], R.pc.conds))
                        continue
                    if e and e[0] in ('throw', 'ret', 'brk'):
                        raise Mismatch("layout", "stops or fails on an element the serialiser writes", e[-1], f.info,
                                       R.pc.conds)
                    if R.i < len(R.items) or R.b:
                        raise Mismatch("layout", "leaves part of an element unread", info, f.info, R.pc.conds)
                    self.cases += 1
                    results.append((R, wpc))
                    for k, (i0, nv) in carry.items():
                        x = ('lv', L) + k
                        if x in posk or (k[1] and k[1][-1] == '#') or any(isinstance(y, tuple) for y in k[1]):
                            continue
                        nv2 = self.val(R, T.subst(nv, {('ix', L): wix}))
                        if self.it.nonnum(nv2):
                            continue
                        d = T.sub(nv2, x)
                        acc.setdefault(k, []).append((rel_conds(R, S), d))
            keys = {}
            for R, wpc in results:
                for k in R.env:
                    if k not in S.env or S.env[k] != R.env[k]:
                        keys.setdefault(k, []).append(R)
            for k, rs in keys.items():
                vs = [(rel_conds(R, S), R.env[k]) for R in rs]
                idx = tuple(wix if a == ('ix', L) else a for a in vs[0][1][0])
                S.env[k] = (idx, ite_chain([(c, v[1]) for c, v in vs]))
            for z in self.size_atoms(n):
                S.written[z] = ('all', f.info)
            self.finish_body(S, f, n, results, ev, wix)
            S.i += 1
        # after the last element
        for x in posk:
            S.lv[x] = T.sub(end, rest)
            S.lv[('lo',) + x[1:]] = S.lv[x]
        for k, (i0, nv) in carry.items():
            x = ('lv', L) + k
            if x in posk:
                continue
            if f is not None and k in acc:
                ds = acc[k]
                d = ite_chain(ds)
                if T.occurs(d, x):
                    continue
                v = T.add(self.val(S, i0), T.mk_sum(f.L, S.pc.simp(f.N), d))
            elif k[1] and k[1][-1] == '#':
                v = self.it.load(S.heap, self.path(S, k))
            elif f is None:
                v = self.val(S, i0)
            else:
                continue
            S.lv[x] = v
            S.lv[('lo',) + x[1:]] = v
        for v, p2 in split(S.pc, T.truth(self.val(S, cond)) if not T.is_int(cond) else cond):
            S2 = S.copy()
            S2.pc = p2
            if not v:
                yield S2, None
                continue
            for R, e in self.seq(body, 0, S2):
                if e and e[0] == 'brk':
                    yield R, None
                elif e and e[0] in ('ret', 'throw', 'throw?'):
                    yield R, e
                else:
                    raise Mismatch("layout", "does not stop after the last element the serialiser writes", info,
                                   f.info if f else None, R.pc.conds)

    # -------------------------------------------------- members
    def rloc(self, a):
        """location in the reader that corresponds to a member of the writer"""
        if a[0] == 'init':
            root, path = a[1], a[2]
            if root == THIS:
                return (RTHIS, path)
            if isinstance(root, tuple) and root[0] == 'deref':
                return (('deref', self.to_r(root[1])), path)
        return None

    def to_r(self, t):
        return T.subst(t, lambda x: ('init', RTHIS, x[2]) if x[0] == 'init' and x[1] == THIS else None)

    def load_r(self, S, loc):
        root, path = loc
        if isinstance(root, tuple) and root[0] == 'deref':
            p = root[1]
            if p[0] == 'init':
                v = self.load_r(S, (p[1], p[2]))
                if isinstance(v, tuple) and v[0] == 'ptr':
                    return self.it.load(S.heap, (v[1][0], v[1][1] + path))
                return None
        return S.pc.simp(self.it.load(S.heap, loc))

    def check_members(self, S, wpc, f=None, elem=False):
        """returns the members whose owner the parser has not yet attached to its result"""
        missing = {}
        for a, (bitsw, info) in sorted(S.written.items(), key=lambda x: T.skey(x[0])):
            loc = self.rloc(a)
            if loc is None:
                continue
            if any(isinstance(x, tuple) and x[0] == '[]' and isinstance(x[1], tuple) for x in loc[1]) and not elem:
                continue
            got = self.load_r(S, loc)
            if got is None:
                missing[a] = (bitsw, info)
                continue
            want = S.pc.simp(a)
            self.members.add(T.show(a))
            if self.same_value(got, want, a, bitsw):
                continue
            if T.ATOM_TYPE.get(a, (0,))[0] == 1 and isinstance(got, (int, tuple)) and \
                    S.pc.simp(T.truth(got)) == S.pc.simp(T.truth(a)):
                continue
            raise Mismatch("value", "%s is written but comes back as %s" % (T.show(a), T.show(got)[:200]),
                           self.fn_info, info, S.pc.conds)
        return missing

    def same_value(self, got, want, a, bitsw):
        if got == want:
            return True
        if isinstance(want, tuple) and want[0] == 'init' and want[2][-1] == '#' and T.same_size(got, want):
            return True
        if isinstance(want, tuple) and want in T.ATOM_TYPE:
            w, sg = T.ATOM_TYPE[want]
            g = got
            if isinstance(g, tuple) and g[0] in T.COND:
                g = ('ite', g, 1, 0)
                if w == 1 and T.truth(got) == T.truth(want):
                    return True
            if isinstance(got, tuple) and T.truth(got) == T.truth(want) and w == 1:
                return True
            bs = T.bits(got, None) if isinstance(got, tuple) else None
            if got == 0 or isinstance(got, tuple) and got[0] in ('bv', 'sbv'):
                b = list(got[1]) if isinstance(got, tuple) else []
                k = len(bitsw) if bitsw != 'all' else None
                exp = [('b', want, i) for i in range(k)] if k is not None else None
                if exp is not None and b == exp and sorted(bitsw) == list(range(k)):
                    return True
        if isinstance(got, tuple) and isinstance(want, tuple) and got[0] == 'vec':
            return all(T.sel(want, ('[]', i)) == x for i, x in enumerate(got[1]))
        return False


def max_leaf(w):
    """the largest constant a width can be"""
    if T.is_int(w):
        return w
    if isinstance(w, tuple) and w[0] == 'ite':
        a, b = max_leaf(w[2]), max_leaf(w[3])
        return None if a is None or b is None else max(a, b)
    return None


def rel_conds(R, S):
    c = 1
    for x in R.pc.conds[len(S.pc.conds):]:
        c = T.cand(c, x)
    return c


def collect_t(t, L, out):
    if isinstance(t, tuple):
        if len(t) >= 4 and t[0] == 'lv' and t[1] == L:
            out.add(t)
            return
        for x in t:
            collect_t(x, L, out)


def collect(tr, L, out):
    for ev in tr:
        for x in ev[1:]:
            if isinstance(x, list):
                collect([y for y in x if isinstance(y, tuple)], L, out)
            elif isinstance(x, dict):
                for a, b in x.items():
                    collect_t(a, L, out)
                    collect_t(b, L, out)
            else:
                collect_t(x, L, out)


# ---------------------------------------------------------------- one class
class Report:
    def __init__(self, cls):
        self.cls = cls
        self.findings = []      # (rule, msg, info, winfo, pc)
        self.undecided = []
        self.cases = self.fields = self.loops = 0
        self.members = set()
        self.sizes = 0
        self.notes = []
        self.domain = []
        self.context = set()


def set_roots(tr, out):
    for ev in tr:
        if ev[0] == 'set' or ev[0] == 'push':
            out.add(ev[1][0:1] + (ev[1][1][:1],))
        for x in ev[1:]:
            if isinstance(x, list):
                set_roots([y for y in x if isinstance(y, tuple)], out)


def context_map(rt, names):
    """members the parser consults but never sets hold what the surrounding reader put there"""
    sets = set()
    set_roots(rt, sets)
    own = {p[0] for r, p in sets if r == RTHIS and p}

    def f(x):
        if x and x[0] == 'init' and x[1] == RTHIS and x[2] and isinstance(x[2][0], str) and x[2][0] not in own:
            names.add(x[2][0])
            return ('init', THIS, x[2])
        return None
    return f


def map_terms(tr, f):
    return map_trace(tr, f)


def check_class(prog, cls, const_fields=None, opaque=(), domain=None):
    """domain: list of (name, rewrite, assumptions); the class is checked in each case"""
    rep = Report(cls)
    for name, rw, assume in (domain or [("any", None, ())]):
        check_case(prog, cls, rep, const_fields, opaque, rw, assume)
    return rep


def check_case(prog, cls, rep, const_fields, opaque, rw, assume):
    wf, sf, rf = (prog.method(cls, n) for n in ("writeData", "getDataSize", "readData"))

    def mk():
        it = I.Interp(prog, opaque=opaque)
        it.const_fields = const_fields or {}
        return it
    iw, is_, ir = mk(), mk(), mk()
    wt, _, _ = iw.run(wf, cls, THIS)
    st, _, sv = is_.run(sf, cls, THIS)
    rt, rstate, _ = ir.run(rf, cls, RTHIS)
    rep.notes += [n for n in iw.notes + is_.notes + ir.notes if n not in rep.notes]
    names = set()
    rt = map_trace(rt, context_map(rt, names))
    rep.context |= names
    if rw is not None:
        wt, st = map_trace(wt, rw), map_trace(st, rw)
        sv = T.subst(sv, rw)
        rt = map_trace(rt, rw)
    rep.wt, rep.st, rep.rt = wt, st, rt
    pc0 = PC()
    for c in assume:
        pc0 = pc0.add(c)
    try:
        paths = list(wpaths(wt, pc0))
    except Undecided as u:
        rep.undecided.append(("writer", u.msg, u.info))
        return
    sid = ('stream', (('param', 'is'), ()))
    pos0 = T.mul(8, ('init', sid, ('posB',)))
    endB = ('init', sid, ('endB',))
    T.ATOM_TYPE.setdefault(('init', sid, ('posB',)), (60, False))
    T.ATOM_TYPE.setdefault(endB, (60, False))
    ir.notes = []
    for pc, items, end in paths:
        if end and end[0] == 'throw':
            continue
        try:
            tot = total(items)
        except Undecided as u:
            rep.undecided.append(("writer", u.msg, u.info))
            continue
        info = end[2] if end else (None, 0, cls)
        ret = pc.simp(end[1]) if end and end[1] is not None else None
        rep.cases += 1
        # C03 (writer): value returned == bits written
        rep.sizes += 1
        if ret is None or not T.same_size(ret, pc.simp(tot)):
            rep.findings.append(("wcount", "returns %s but writes %s bits" % (T.show(ret) if ret is not None else "nothing",
                                                                            T.show(T.canon_size(pc.simp(tot)))),
                                 info, None, pc.conds))
        # C02: declared size == bytes written
        dv = pc.simp(sv)
        if not T.same_size(T.mul(8, dv), pc.simp(tot)):
            rep.findings.append(("size", "getDataSize() is %s bytes but writeData() writes %s bits" %
                                 (T.show(T.canon_size(dv))[:300], T.show(T.canon_size(pc.simp(tot)))[:300]),
                                 (prog.rel(sf["file"]), sf["line"], sf["q"]), info, pc.conds))
        # C04: ends on a byte boundary; byte-wise operations start on one
        al = T.canon_size(pc.simp(tot))
        if any(c % 8 for m, c in T.poly_items(al).items()):
            rep.findings.append(("align", "ends after %s bits, not on a byte boundary" % T.show(al), info, None, pc.conds))
        # C01: the parser against this sequence
        co = Cosim(prog, cls, ir)
        co.fn_info = (prog.rel(rf["file"]), rf["line"], rf["q"])
        S = RS(items, pc, pos0, T.add(pos0, tot))
        S.pushes = None

        def bindend(t, tot=tot):
            return t
        S.lv[endB] = None
        rtx = map_trace(rt, {endB: T.add(('init', sid, ('posB',)), T.bytediv(tot))})
        try:
            for R, e in co.run(rtx, S):
                if e and e[0] == 'throw?':
                    co.domain.append((e[1], e[2], R.pc.conds))
                    continue
                if e and e[0] == 'throw':
                    raise Mismatch("layout", "rejects what the serialiser writes", e[2], info, R.pc.conds)
                left = T.canon_size(R.pc.simp(T.sub(R.cum[-1], R.consumed())))
                if R.i < len(R.items) or R.b:
                    raise Mismatch("layout", "leaves %s bits of the serialised data unread" % T.show(left),
                                   e[2] if e else co.fn_info, R.items[min(R.i, len(R.items) - 1)].info, R.pc.conds)
                rv = co.val(R, e[1]) if e and e[1] is not None else None
                rep.sizes += 1
                used = R.pc.simp(R.cum[-1])
                if rv is None or not T.same_size(rv, used):
                    rep.findings.append(("rcount", "returns %s but consumes %s bits" %
                                         (T.show(rv)[:300] if rv is not None else "nothing", T.show(T.canon_size(used))[:300]),
                                         e[2] if e else co.fn_info, None, R.pc.conds))
                co.cases += 1
                for a in co.check_members(R, pc):
                    co.notes.append("member %s could not be located in the parser" % T.show(a))
        except Mismatch as m:
            rep.findings.append((m.rule, m.msg, m.info, m.winfo, m.pc))
        except Undecided as u:
            rep.undecided.append(("reader", u.msg, u.info))
        rep.fields += co.checked_fields
        rep.loops += co.loops
        rep.members |= co.members
        rep.notes += co.notes
        rep.domain += co.domain
    rep.notes += ir.notes


def const_fields(prog, classes):
    """fields that every constructor of a class sets to one constant and nothing else assigns"""
    out = {}
    assigned = {}
    for f in prog.fns.values():
        if f.get("isctor") or "body" not in f:
            continue
        def by_ref(x, i):
            g = prog.fns.get(x.get("fn"))
            if g and i < len(g.get("params", [])):
                t = g["params"][i]["t"]
                return t.endswith("&") and not t.startswith("const ")
            return True
        for x in nodes(f["body"]):
            t = None
            if x.get("k") == "assign":
                t = x["a"]
            elif x.get("k") == "un" and x.get("op") in ("++", "--", "&"):
                t = x["a"]
            elif x.get("k") in ("call", "mcall", "opcall", "ctor"):
                for i, a in enumerate(x.get("args", [])):
                    if a.get("k") == "mem" and a.get("lv") and not a.get("t", "const ").startswith("const ") \
                            and by_ref(x, i):
                        assigned.setdefault(a["f"], set()).add(f["q"])
            if t is not None and t.get("k") == "mem":
                assigned.setdefault(t["f"], set()).add(f["q"])
    for cls in classes:
        vals = {}
        ctors = [c for c in prog.ctors(cls) if not c.get("copy") and not c.get("move") and not c.get("implicit")]
        for c in ctors:
            it = I.Interp(prog)
            tr, st, _ = it.run(c, cls, THIS)
            for q, fl in prog.all_fields(cls):
                v = it.load(st, (THIS, (fl["n"],)))
                vals.setdefault(fl["n"], set()).add(v)
        for n, vs in vals.items():
            if len(vs) == 1 and T.is_int(next(iter(vs))) and n not in assigned:
                out[(cls, n)] = next(iter(vs))
    return out


def nodes(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            if isinstance(v, (dict, list)):
                yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            if isinstance(v, (dict, list)):
                yield from nodes(v)
