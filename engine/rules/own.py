"""Ownership of heap objects: on every path, also those an exception takes, an object made with new (or handed out by a
function that makes one) is deleted once, or given to something that owns it, and is not used after it was deleted."""
import cosim as C
import interp as I
import model as M
import terms as T
import units as U

MAXSTATES = 600


class TooMany(Exception):
    pass


def nodes(x):
    if isinstance(x, dict):
        if "k" in x:
            yield x
        for v in x.values():
            yield from nodes(v)
    elif isinstance(x, list):
        for v in x:
            yield from nodes(v)


# exceptions that tell a programmer of a type code that does not have four characters, or of a box without a type: all
# codes in the library are literals or come from box headers
NEVER = {U.NS + 'BoxType::BoxType', U.NS + 'BoxType::setData', U.NS + 'Box::getType', U.NS + 'AnyTypeBox::getType'}


def may_throw(prog):
    """functions of the repository that can throw one of its own exceptions"""
    direct, calls = set(), {}
    over = prog.rev_over

    def scan(x, guarded, acc, thr):
        if isinstance(x, list):
            for v in x:
                scan(v, guarded, acc, thr)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k == "try":
            allc = any(h.get("t") in (None, "...") for h in x["h"])
            scan(x["b"], guarded or allc, acc, thr)
            for h in x["h"]:
                scan(h, guarded, acc, thr)
            return
        if k == "lambda":
            pass
        if k == "throw" and not guarded:
            thr.append(1)
        if k in ("call", "mcall", "ctor", "opcall") and x.get("fn") and not guarded:
            acc.add(x["fn"])
        for v in x.values():
            if isinstance(v, (dict, list)):
                scan(v, guarded, acc, thr)
    for fid, f in prog.fns.items():
        if "body" not in f or not f["q"].startswith(U.NS):
            continue
        acc, thr = set(), []
        scan(f["body"], False, acc, thr)
        scan(f.get("inits", []), False, acc, thr)
        calls[fid] = acc
        if f["q"] in NEVER:
            calls[fid] = set()
        elif thr:
            direct.add(fid)
    out = set(direct)
    rev = {}
    for fid, cs in calls.items():
        for c in cs:
            todo = [c]
            while todo:
                y = todo.pop()
                rev.setdefault(y, set()).add(fid)
                todo += over.get(y, [])
    todo = list(out)
    while todo:
        x = todo.pop()
        for y in rev.get(x, ()):
            if y not in out:
                out.add(y)
                todo.append(y)
    return out


def has(x, v):
    """does the value contain v as a pointer (not only something behind it)?"""
    if x == v:
        return True
    if isinstance(x, tuple):
        if x and x[0] == 'deref' or len(x) == 2 and isinstance(x[0], tuple) and x[0][:1] == ('deref',):
            return False
        if x and x[0] == 'init' and len(x) == 3:
            return False
        return any(has(y, v) for y in x)
    return False


def uses(x, v):
    """is the object behind pointer v named?"""
    if x == v:
        return True
    if v[0] in ('kept', 'member'):
        return False
    if isinstance(x, tuple):
        if v[0] == 'ptr' and x == v[1][0]:
            return True
        return any(uses(y, v) for y in x)
    return False


LIVE, MANAGED, SHARED, GONE, DEAD = 'live', 'managed', 'shared', 'given', 'dead'


class Walk:
    def __init__(self, own, f, prog):
        self.o, self.f, self.p = own, f, prog
        self.n = 0
        self.out = []
        self.cur = None
        self.trydepth = 0
        self.catchers = []

    # a state: (pc, {value: (status, info)})
    def seq(self, evs, states, in_loop=False):
        """[(state, how it ends: None / 'ret' / 'brk' / 'cont' / 'throw', value)]"""
        done = []
        live = list(states)
        for ev in evs:
            nxt = []
            for s in live:
                for s2, end, v in self.step(ev, s):
                    if end is None:
                        nxt.append(s2)
                    else:
                        done.append((s2, end, v))
            live = self.merge(nxt)
            if not live:
                break
        return done + [(s, None, None) for s in live]

    def merge(self, states):
        """states that agree on all objects become one"""
        self.n += 1
        by = {}
        for s in states:
            k = tuple(sorted(((repr(a), b[0]) for a, b in s[1].items())))
            by.setdefault(k, []).append(s)
        out = []
        for k, ss in by.items():
            if len(ss) > 40 or not ss[0][1]:
                common = [c for c in ss[0][0].conds if all(c in x[0].conds for x in ss)]
                out.append((C.PC(common), ss[0][1]))
            else:
                out += ss
        if len(out) > MAXSTATES:
            raise TooMany()
        return out

    def leak(self, s, what, info, keep=None):
        for v, (st, at) in s[1].items():
            if v[0] == 'member':
                self.report("dangling", "%s still points to the object deleted at %s:%s when %s" %
                            (T.path_str(*v[1][1:]), at[0], at[1], what), info, at, s)
            if st == LIVE and not (keep is not None and has(keep, v)) and ('kept', v) not in s[1]:
                if T.is_int(s[0].simp(v)):
                    continue
                self.report("leak", "the object made at %s:%s is never deleted when %s" % (at[0], at[1], what), info, at, s)

    def report(self, kind, msg, info, at, s):
        self.out.append((kind, msg, info, at, s[0].conds))

    def throws(self, s, info, what, but=()):
        if self.trydepth:
            self.catchers[-1].append((s[0], {k: v for k, v in s[1].items()}))
            return
        s2 = (s[0], {k: v for k, v in s[1].items() if k not in but})
        self.leak(s2, what, info)

    def give(self, s, x):
        d = s[1]
        ch = {v: GONE if st == LIVE else SHARED for v, (st, _) in d.items() if st in (LIVE, MANAGED) and has(x, v)}
        if ch:
            return (s[0], {k: ((ch[k], y[1]) if k in ch else y) for k, y in d.items()})
        return s

    def used(self, s, x, info):
        for v, (st, at) in s[1].items():
            if st == DEAD and uses(x, v):
                self.report("use", "an object is used after it was deleted", info, at, s)

    def put(self, s, v, st, info):
        return (s[0], dict(s[1], **{}) | {v: (st, info)})

    def step(self, ev, s):
        k = ev[0]
        pc, d = s
        if k == 'built':
            return [(self.put(s, ev[1], LIVE, ev[2]), None, None)]
        if k == 'own':
            v = pc.simp(ev[1])
            if v in d:
                s = self.put(s, v, MANAGED, d[v][1])
            return [(s, None, None)]
        if k == 'release':
            v = pc.simp(ev[1])
            if v in d and d[v][0] in (MANAGED, SHARED):
                s = self.put(s, v, LIVE if d[v][0] == MANAGED else GONE, d[v][1])
            return [(s, None, None)]
        if k == 'delete':
            v = pc.simp(ev[1])
            if T.is_int(v):
                return [(s, None, None)]
            if v[0] == 'ite':
                res = []
                for t, pc2 in C.split(pc, v[1]):
                    res += self.step(('delete', v[2] if t else v[3]) + ev[2:], (pc2, d))
                return res
            if v in d and d[v][0] == DEAD:
                self.report("double", "an object is deleted twice", ev[-1], d[v][1], s)
                return [(s, None, None)]
            if v[0] == 'ptr' and v[1][0][0] == 'obj' or v in d:
                s = self.put(s, v, DEAD, ev[-1])
            elif v[0] == 'init' and v[1] == ('this',) and '~' not in self.f["q"]:
                # the member has to get another value
                s = self.put(self.put(s, v, DEAD, ev[-1]), ('member', v), DEAD, ev[-1])
            elif v[0] in ('init', 'call', 'pcall', 'ptr', 'lo'):
                s = self.put(s, v, DEAD, ev[-1]) if not loopy(v) else s
            return [(s, None, None)]
        if k == 'set':
            m = ('member', ('init',) + ev[1])
            if m in d:
                s = (pc, {o: y for o, y in d.items() if o != m})
            return [(self.give(s, pc.simp(ev[2])), None, None)]
        if k == 'push':
            return [(self.give(s, pc.simp(ev[2])), None, None)]
        if k == 'ext':
            return self.ext(ev, s)
        if k == 'if':
            res = []
            for v, pc2 in C.split(pc, ev[1]):
                res += self.seq(ev[2] if v else ev[3], [(pc2, d)])
            return res
        if k == 'scope':
            res = []
            for s2, end, v in self.seq(ev[2], [s]):
                if end == 'ret':
                    end, v = None, None
                res.append((s2, end, v))
            return res
        if k == 'try':
            self.trydepth += 1
            self.catchers.append([])
            res = self.seq(ev[1], [s])
            self.trydepth -= 1
            caught = self.catchers.pop()
            res = [r for r in res if r[1] != 'throw']
            for _, tr, _ in ev[2]:
                for s2, end, v in self.seq(tr, self.merge(caught)) if caught else []:
                    res.append((s2, end, v))
            return res
        if k == 'loop':
            res = [(s, None, None)]
            carried = [x for y in ev[5].values() for x in y]
            for s2, end, v in self.seq(ev[4], [s], True):
                for x in carried:
                    s2 = self.give(s2, x)
                if end in ('brk', 'cont', None):
                    res.append((s2, None, None))
                else:
                    res.append((s2, end, v))
            return res
        if k == 'ret':
            return [(s, 'ret', ev[1])]
        if k == 'throw':
            self.throws(s, ev[2], "the exception at %s:%s leaves" % (ev[2][0], ev[2][1]))
            return [(s, 'throw', None)]
        if k in ('brk', 'cont'):
            return [(s, k, None)]
        if k in ('W', 'R'):
            return [(s, None, None)]
        return [(s, None, None)]

    def ext(self, ev, s):
        q, this, args, r, info = ev[1], ev[2], ev[3], ev[4], ev[5]
        pc, d = s
        args = tuple(pc.simp(a) if isinstance(a, tuple) else a for a in args)
        self.used(s, (this,) + args, info)
        made = q.startswith('new ')
        cls = q[4:] if made else None
        thr = self.o.throwing_ctor(cls, len(args)) if made else self.o.throwing(q)
        if thr:
            self.throws(s, info, "%s throws" % q.replace(U.NS, '').replace('new ', 'the constructor of '))
        # what is handed over
        for i, a in enumerate(args):
            if made or self.o.keeps(q, i):
                s = self.give(s, a)
        if made and isinstance(this, tuple):
            # a node that was given a parent belongs to it
            me = ('ptr', this)
            ps = [p for a in args for p in parents(a)]
            if ps:
                both = self.put(s, ('kept', me), GONE, info)
                if len(ps) == 1 and T.eq(ps[0], 0) in self.asked:
                    # the function itself tells a missing parent apart
                    return [((pc2, (s if v else both)[1]), None, None) for v, pc2 in C.split(pc, T.eq(ps[0], 0))]
                s = both
        if self.o.fresh(q) and isinstance(r, tuple):
            s = self.put(s, r, LIVE, info)
        return [(s, None, None)]

    def run(self, tr):
        self.asked = asked(tr, set())
        for s, end, v in self.seq(tr, [(C.PC(), {})]):
            if end == 'throw':
                continue
            self.leak(s, "%s returns" % self.f["q"].replace(U.NS, ''), None, v)


def loopy(v):
    if isinstance(v, tuple):
        return bool(v) and v[0] in ('lv', 'lo', 'ix') or any(loopy(x) for x in v)
    return False


def parents(a):
    """the parent that a parameter structure names, when it is not null"""
    if isinstance(a, tuple) and a[0] == 'agg':
        return [v for p, v in a[2] if p[-1:] == ('parent',) and v != 0]
    return []


def asked(tr, acc):
    """comparisons a function decides on"""
    for ev in tr:
        if ev[0] == 'if':
            conds(ev[1], acc)
            asked(ev[2], acc)
            asked(ev[3], acc)
        elif ev[0] == 'scope':
            asked(ev[2], acc)
        elif ev[0] == 'loop':
            asked(ev[4], acc)
        elif ev[0] == 'try':
            asked(ev[1], acc)
            for h in ev[2]:
                asked(h[1], acc)
    return acc


def conds(c, acc):
    if isinstance(c, tuple):
        if c[0] == 'eq':
            acc.add(c)
        elif c[0] in ('not', 'and', 'or'):
            for x in c[1:]:
                conds(x, acc)


class Own:
    def __init__(self, prog, con, ctors):
        self.p = prog
        self.con, self.ctors = con, ctors
        self.thr = may_throw(prog)
        self.thrq = {prog.fns[x]["q"] for x in self.thr}
        self._keep, self._fresh = {}, {}
        self.traces = {}
        self.active = set()

    def throwing(self, q):
        if q in self.thrq:
            return True
        c, _, n = q.rpartition('::')
        ids = {f["id"] for f in self.p.by_q.get(q, [])} | \
            {m["fn"] for m in self.p.recs.get(c, {}).get("methods", []) if m["n"] == n}
        for i in ids:
            todo = list(self.p.rev_over.get(i, []))
            while todo:
                x = todo.pop()
                if x in self.thr:
                    return True
                todo += self.p.rev_over.get(x, [])
        return False

    def throwing_ctor(self, cls, n):
        return any(f["id"] in self.thr for f in self.p.ctors(cls) if len(f["params"]) == n)

    def trace(self, f):
        if f["id"] not in self.traces:
            op = self.con | {f["q"]} if True else self.con
            it = I.Interp(self.p, intrinsics=True, opaque=op)
            it.opaque_ctors, it.contracts, it.owning = self.ctors, True, True
            it.nullable = I.null_tested(self.p, f)
            try:
                tr, _, _ = it.run(f, f.get("cls"))
                self.traces[f["id"]] = (tr, it.notes)
            except (I.Unsupported, RecursionError) as e:
                self.traces[f["id"]] = (None, [str(e)])
        return self.traces[f["id"]]

    def keeps(self, q, i):
        """may the function keep (or delete) the pointer it is given as argument i?"""
        if (q, i) in self._keep:
            return self._keep[q, i]
        self._keep[q, i] = True
        fs = [f for f in self.p.by_q.get(q, []) if "body" in f]
        if not fs or not q.startswith(U.NS):
            return True
        r = False
        for f in fs:
            if i >= len(f["params"]):
                continue
            t = self.p.ty(f["params"][i]["t"])
            tr, notes = self.trace(f)
            if tr is None or self.p.rev_over.get(f["id"]):
                r = True
                break
            v = ('init', ('param', f["params"][i]["n"]), ())
            if t["k"] == "ref" or t["k"] == "rec" or kept(tr, v, self) or kept(tr, ('ptr', (v[1], ())), self):
                r = True
        self._keep[q, i] = r
        return r

    def fresh(self, q):
        """does the function hand out an object it made?"""
        if q in self._fresh:
            return self._fresh[q]
        self._fresh[q] = False
        fs = [f for f in self.p.by_q.get(q, []) if "body" in f]
        if len(fs) < 1 or not q.startswith(U.NS) or any(self.p.ty(f["ret"])["k"] != "ptr" for f in fs if f.get("ret")):
            return False
        ok = True
        for f in fs:
            tr, _ = self.trace(f)
            vs = rets(tr or [])
            vs = [v for v in vs if v != 0]
            if tr is None or not vs or not all(self.made(v, tr) for v in vs):
                ok = False
        self._fresh[q] = ok
        return ok

    def made(self, v, tr):
        if not isinstance(v, tuple):
            return False
        if v[0] == 'ite':
            return all(x == 0 or self.made(x, tr) for x in v[2:])
        if v[0] == 'call':
            return self.fresh(v[1]) or 'function' in v[1] and 'operator()' in v[1] and self.factory()
        return v[0] == 'ptr' and v[1][0][0] == 'obj' and not v[1][1]

    def factory(self):
        return False


def kept(tr, v, o):
    for ev in tr:
        k = ev[0]
        if k in ('set', 'push') and has(ev[2], v):
            return True
        if k in ('own', 'delete') and has(ev[1], v):
            return True
        if k == 'ret' and ev[1] is not None and has(ev[1], v):
            return True
        if k == 'ext':
            for i, a in enumerate(ev[3]):
                if has(a, v) and (ev[1].startswith('new ') or o.keeps(ev[1], i)):
                    return True
        if k == 'if' and (kept(ev[2], v, o) or kept(ev[3], v, o)):
            return True
        if k == 'scope' and kept([e for e in ev[2] if e[0] != 'ret'], v, o):
            return True
        if k == 'loop' and (kept(ev[4], v, o) or any(has(x, v) for y in ev[5].values() for x in y)):
            return True
        if k == 'try' and (kept(ev[1], v, o) or any(kept(h[1], v, o) for h in ev[2])):
            return True
    return False


def rets(tr):
    out = []
    for ev in tr:
        if ev[0] == 'ret':
            out.append(ev[1])
        elif ev[0] == 'if':
            out += rets(ev[2]) + rets(ev[3])
        elif ev[0] == 'loop':
            out += rets(ev[4])
        elif ev[0] == 'try':
            out += rets(ev[1])
            for h in ev[2]:
                out += rets(h[1])
    return out


def interesting(tr, o):
    for ev in tr:
        k = ev[0]
        if k in ('built', 'delete', 'release'):
            return True
        if k == 'ext' and o.fresh(ev[1]):
            return True
        if k == 'if' and (interesting(ev[2], o) or interesting(ev[3], o)):
            return True
        if k == 'scope' and interesting(ev[2], o):
            return True
        if k == 'loop' and interesting(ev[4], o):
            return True
        if k == 'try' and (interesting(ev[1], o) or any(interesting(h[1], o) for h in ev[2])):
            return True
    return False


def analyse(prog, con, ctors):
    """(functions looked at, findings, undecided)"""
    o = Own(prog, con, ctors)
    n, found, und = 0, [], []
    for fid, f in sorted(prog.fns.items()):
        if "body" not in f or not f["q"].startswith(U.NS) or f.get("implicit") or '/cli' in f.get("file", ""):
            continue
        T.reset()
        I._ctr[0] = 0
        o.traces.clear()
        tr, notes = o.trace(f)
        if tr is None:
            und.append("%s: %s" % (f["q"].replace(U.NS, ''), notes[0]))
            continue
        if not interesting(tr, o):
            continue
        w = Walk(o, f, prog)
        n += 1
        try:
            w.run(tr)
        except TooMany:
            und.append("%s: too many states" % f["q"].replace(U.NS, ''))
            continue
        if w.out and notes:
            und.append("%s: not modelled: %s; not reported: %s" % (f["q"].replace(U.NS, ''), notes[0], w.out[0][1]))
            continue
        for x in w.out:
            found.append((f,) + x)
    return n, found, und
