"""The bit count a parser returns against the bits it consumes, for an arbitrary payload.

The effect tree of readData is walked path by path; consumption is accumulated as a symbolic term (sums
over loops), and every returned value is compared with it."""
import cosim as C
import interp as I
import terms as T

MAXPATHS = 4000


class Undecided(Exception):
    pass


class W:
    def __init__(self, pos0, sid):
        self.pos0, self.sid = pos0, sid
        self.n = 0
        self.facts = []         # (count, loop, conditions of every path through the body that completes)

    def norm(self, t):
        def g(x):
            if x and x[0] == "rb":
                return T.mul(8, ("rbB",) + x[1:])
            if x and x[0] == "good":
                return 1
        return T.subst(t, g) if isinstance(t, tuple) else t

    def val(self, S, t):
        if not isinstance(t, tuple):
            return t
        t = self.norm(t)
        for _ in range(6):
            t2 = T.subst(t, S[2]) if S[2] else t
            t2 = S[0].simp(t2)
            if t2 == t:
                break
            t = t2
        return t

    # S = (PC, pos, env)
    def seq(self, evs, i, S):
        while i < len(evs):
            ev = evs[i]
            k = ev[0]
            if k == 'R':
                kind, w, sym = ev[1], ev[3], ev[4]
                if kind in ('str', 'pstr', 'uvar'):
                    wd = T.mul(8, ("rbB",) + tuple(sym[1:]))
                else:
                    wd = self.val(S, w)
                S = (S[0], T.add(S[1], wd), S[2])
            elif k == 'W':
                raise Undecided("a parser that writes")
            elif k == 'if':
                c = T.truth(self.val(S, ev[1])) if isinstance(ev[1], tuple) else ev[1]
                for v, p2 in C.split(S[0], c):
                    S2 = (p2, S[1], S[2])
                    for S3, end in self.seq(ev[2] if v else ev[3], 0, S2):
                        if end:
                            yield S3, end
                        else:
                            yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'scope':
                for S3, end in self.seq(ev[2], 0, S):
                    if end and end[0] != 'ret':
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'try':
                for S3, end in self.seq(ev[1], 0, S):
                    if end:
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k == 'loop':
                for S3, end in self.loop(ev, S):
                    if end:
                        yield S3, end
                    else:
                        yield from self.seq(evs, i + 1, S3)
                return
            elif k in ('ret', 'throw'):
                self.n += 1
                if self.n > MAXPATHS:
                    raise Undecided("too many paths")
                yield S, (k, ev[1], ev[2])
                return
            elif k in ('brk', 'cont'):
                yield S, (k, ev[1])
                return
            elif k == 'seek':
                new, way, cur = ev[2], ev[4], ev[5]
                if way == 'cur':
                    S = (S[0], T.add(S[1], self.val(S, T.sub(new, cur))), S[2])
                else:
                    S = (S[0], self.val(S, new), S[2])
            elif k == 'unk':
                raise Undecided("construct %s" % ev[1])
            i += 1
        yield S, None

    def loop(self, ev, S):
        L, kind, N, body, carry, info, meta = ev[1:8]
        if not C.has_io(body) and not has_seek(body):
            yield S, None
            return
        if any(not T.is_int(t) for t in ()):
            pass
        ex = exits(body)
        pk = None
        for k in carry:
            if k[0] == self.sid and k[1] and k[1][-1] == I.STREAM_POS:
                pk = k
        lvp = ('lv', L, self.sid, (I.STREAM_POS,))
        lop = ('lo', L, self.sid, (I.STREAM_POS,))
        T.ATOM_TYPE.setdefault(lvp, (60, False))
        T.ATOM_TYPE.setdefault(lop, (60, False))
        entry = S[1]
        if kind == 'for' and not ex:
            n = self.val(S, N)
            # consumption of one iteration; the stream position at its start is an opaque atom
            here = ('P0', L)
            T.ATOM_TYPE[here] = (60, False)
            env = dict(S[2])
            for x in lvs_of(body, L):
                if x[3] and x[3][-1] == I.STREAM_POS:
                    env[x] = here
            rs, fps = [], []
            for R, e in self.seq(body, 0, (S[0], here, env)):
                if e and e[0] == 'throw':
                    continue
                if e and e[0] != 'cont':
                    raise Undecided("leaves a counted loop")
                c = 1
                for x in R[0].conds[len(S[0].conds):]:
                    c = T.cand(c, x)
                d = T.canon_size(T.sub(R[1], here))
                if T.occurs(d, here):
                    raise Undecided("consumption depends on the position")
                rs.append((c, d))
                fps.append(R[0])
            if not rs:
                return
            self.facts.append((n, L, fps))
            d = C.ite_chain(rs)
            tot = T.mul(n, d) if T.is_int(d) or not T.occurs(d, ('ix', L)) and not rd_in(d, L) else T.mk_sum(L, n, d)
            env = dict(S[2])
            env[lop] = T.add(entry, tot)
            yield (S[0], T.add(entry, tot), env), None
            return
        # unbounded loop: relate the carried counters to the position
        # (parsers with such loops read whole bytes in each iteration: positions are 8 * a byte position)
        lvB, loB = ('P0', L, 'b'), ('P0', L, 'e')
        T.ATOM_TYPE[lvB] = T.ATOM_TYPE[loB] = (60, False)
        here = T.mul(8, lvB)
        env = dict(S[2])
        env[lvp] = here
        env[lop] = T.mul(8, loB)
        cands = {}
        for k, (i0, nv) in carry.items():
            if k == pk or (k[1] and k[1][-1] == '#'):
                continue
            if not self_num(nv) or not self_num(i0):
                continue
            cands[k] = self.val(S, i0)
        benv = dict(env)
        results = list(self.seq(body, 0, (S[0], here, benv)))
        good = dict(cands)
        for R, e in results:
            if e and e[0] != 'cont':
                continue
            dp = T.sub(R[1], here)
            for k in list(good):
                x = ('lv', L) + k
                nv = self.val((R[0], R[1], R[2]), carry[k][1])
                d = T.canon_size(T.sub(T.sub(nv, x), dp))
                if d != 0 and zero_under(R[0], d) is not True:
                    del good[k]
        inv = {}
        for k, i0 in good.items():
            off = T.sub(i0, entry)
            inv[('lv', L) + k] = T.add(here, off)
            inv[('lo', L) + k] = T.add(T.mul(8, loB), off)
        for R, e in results:
            if e and e[0] in ('ret', 'throw', 'brk'):
                env2 = dict(R[2])
                env2.update(inv)
                R2 = (R[0], self.val((R[0], 0, inv), R[1]), env2)
                if e[0] == 'brk':
                    # what a break leaves behind is only known through the position
                    env3 = dict(env2)
                    env3[lop] = R2[1]
                    yield (R[0], R2[1], env3), None
                else:
                    yield R2, e
        env2 = dict(env)
        env2.update(inv)
        if not meta.get('post') and T.is_int(N) and N == 1:
            return
        yield (S[0], T.mul(8, loB), env2), None


def self_num(t):
    return T.is_int(t) or isinstance(t, tuple) and t and t[0] not in ('uninit', 'u', 'vec', 'lam', 'ptr', 'clo', 'str')


def has_seek(tr):
    for ev in tr:
        if ev[0] == 'seek':
            return True
        for x in ev[1:]:
            if isinstance(x, list) and has_seek([y for y in x if isinstance(y, tuple)]):
                return True
    return False


def exits(tr, inner=0):
    """does control leave the loop other than by its condition (throwing aside)"""
    for ev in tr:
        if ev[0] == 'brk' and not inner:
            return True
        if ev[0] == 'ret' and inner >= 0 and not _in_scope(ev):
            return True
        if ev[0] == 'scope':
            continue
        for x in ev[1:]:
            if isinstance(x, list) and exits([y for y in x if isinstance(y, tuple)], inner + (ev[0] == 'loop')):
                return True
    return False


def _in_scope(ev):
    return False


def lvs_of(body, L):
    out = set()
    C.collect(body, L, out)
    return out


def rd_in(t, L):
    if isinstance(t, tuple):
        if t and t[0] in ('rd', 'rbB') and len(t) > 2 and any(y == ('ix', L) for y in t[2]):
            return True
        return any(rd_in(x, L) for x in t)
    return False


def conds_in(t, out):
    if isinstance(t, tuple):
        if t and t[0] == 'ind':
            out.append(t[1])
        if t and t[0] == 'ite':
            out.append(t[1])
        if t and t[0] == 'sum':
            return          # conditions on the bound index cannot be split outside
        for x in t:
            conds_in(x, out)


def iteration(d, n):
    """d as a sum over n iterations of one term, or None"""
    body = 0
    ix = ('ix', '$0')
    for mono, c in T.poly_items(d).items():
        if len(mono) >= 1 and mono[0] != () and any(a == n for a in mono):
            rest = list(mono)
            rest.remove(n)
            t = c
            for a in rest:
                t = T.mul(t, a)
            body = T.add(body, t)
        else:
            sums = [a for a in mono if a[0] == 'sum' and a[2] == n]
            if len(sums) != 1:
                return None
            t = T.mul(c, T.subst(sums[0][3], {('ix', sums[0][1]): ix}))
            for a in mono:
                if a is not sums[0]:
                    t = T.mul(t, a)
            body = T.add(body, t)
    return body


def zero_sum(pc, d, facts):
    for n, L, fps in facts:
        n = T.canon_size(pc.simp(n))
        if not isinstance(n, tuple):
            continue
        b = iteration(d, n)
        if b is None:
            continue
        ok = True
        for fp in fps:
            p, feasible = pc, True
            for c in fp.conds:
                if c not in pc.conds:
                    c = T.truth(p.simp(T.truth(T.subst(c, {('ix', L): ('ix', '$0')}))))
                    if T.is_int(c):
                        feasible = feasible and bool(c)
                        continue
                    p = p.add(c)
            if feasible and zero_under(p, b, 0, ()) is not True:
                ok = False
                break
        if ok:
            return True
    return False


def zero_under(pc, d, depth=0, facts=()):
    """True / (False, PC, value): d is zero in every case of the conditions it tests"""
    d = T.canon_size(pc.simp(d))
    if d == 0:
        return True
    cs = []
    conds_in(d, cs)
    if not cs or depth > 14:
        if facts and zero_sum(pc, d, facts):
            return True
        return (False, pc, d)
    for v, p2 in C.split(pc, cs[0]):
        r = zero_under(p2, d, depth + 1, facts)
        if r is not True:
            return r
    return True


def atoms(t, out):
    if isinstance(t, tuple):
        if t and t[0] in ('rd', 'rbB'):
            out.add(t[:2])
            return
        for x in t:
            atoms(x, out)


def check(prog, cls, const_fields):
    """[(message, info, conditions)], undecided, number of paths"""
    ir = I.Interp(prog)
    ir.const_fields = const_fields or {}
    rf = prog.method(cls, 'readData')
    rt, st, v = ir.run(rf, cls, C.RTHIS)
    sid = ('stream', (('param', 'is'), ()))
    for p in rf.get("params", [])[:1]:
        sid = ('stream', (('param', p["n"]), ()))
    pos0 = T.mul(8, ('init', sid, ('posB',)))
    T.ATOM_TYPE.setdefault(('init', sid, ('posB',)), (60, False))
    w = W(pos0, sid)
    out, und = [], []
    if ir.notes:
        return out, ["%s" % n for n in ir.notes], 0
    try:
        for S, e in w.seq(rt, 0, (C.PC(), pos0, {})):
            if e and e[0] == 'throw':
                continue
            rv = w.val(S, e[1]) if e and e[1] is not None else None
            if rv is None:
                out.append(("returns no count", e[2] if e else None, S[0].conds))
                continue
            if T.canon_size(T.sub(rv, T.sub(T.mul(8, ('init', sid, ('endB',))), pos0))) == 0:
                continue        # the rest of the payload is skipped
            r = zero_under(S[0], T.sub(rv, w.val(S, T.sub(S[1], pos0))), 0, w.facts)
            if r is True:
                continue
            _, pc, d = r
            if not T.is_int(d):
                # a count the payload states: in order when the path has tested it
                a, b = set(), set()
                atoms(d, a)
                for c in pc.conds:
                    if c[0] in ('lt', 'not'):
                        atoms(c, b)
                if a and a <= b:
                    und.append("returns %s more bits than it reads, which the path bounds" % T.show(d)[:120])
                    continue
                if "lo" in repr(d) or "'u'" in repr(d) or "lv" in repr(d):
                    und.append("difference %s not resolved" % T.show(d)[:160])
                    continue
            out.append(("returns a count that differs by %s bits from what it consumes" % T.show(d)[:200],
                        e[2], pc.conds))
    except (Undecided, C.Undecided) as u:
        und.append(str(u))
    return out, und, w.n
