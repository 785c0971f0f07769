"""C08: every call ends. Each loop of the library is followed through every path of its body. A loop is reported when
some path leads back to its head having changed nothing the loop depends on, when its condition can never become false
and there is no other way out, or when its counter has fewer values than the bound it must reach. Functions that call
themselves before they decide anything are reported as well. What ends the loops that consume input (a read that throws
at the end of the stream, a box that is larger than its header) is compared with the reference by rules/behave.py."""
import cosim as C
import evalt as E
import model as M
import summ as S
import terms as T
import units as U
from rules.own import nodes

NS = U.NS
STREAM = ('R', 'S', 'W')


def loops_on(p, pre=()):
    for e in p.ev:
        if isinstance(e, S.LoopEv):
            yield e, pre + p.pc.conds
            r = ()
            if e.kind != 'while':
                i = ('ix', e.L)
                r = (T.lt(i, e.N), T.le(0, i))
            for q in S.walk(e.body, e.base.child('x')):
                yield from loops_on(q, pre + p.pc.conds + tuple(c for c in r if not T.is_int(c)))


def unstable(t, stable=()):
    """may the term have another value the next time although no variable changed (a stream, a call, another thread)?"""
    if isinstance(t, tuple):
        if t in stable:
            return False
        if t and t[0] in ('rd', 'rb', 'call', 'nd', 'good', 'u', 'op', 'pos', 'pcall', 'ix', 'lo', 'uninit'):
            return True
        return any(unstable(x, stable) for x in t)
    return False


def inert(q, lp, fixed):
    """the results of the calls on a path, if it does nothing else and they would have the same results next time"""
    stable = set()
    for e in q.ev:
        if isinstance(e, S.LoopEv) or e[0] != 'X' or e[1] not in fixed:
            return None
        if any(unstable(x, stable) for x in (e[2],) + e[3]):
            return None
        stable.add(e[4])
    return stable


def carried_in(t, L, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'lv' and t[1] == L:
            acc.add(t)
            return acc
        for x in t:
            carried_in(x, L, acc)
    return acc


def nameof(x):
    return T.path_str(*x) if not (isinstance(x[0], tuple) and x[0][0] == 'v') else x[0][-1] + ''.join('.%s' % y for y in x[1])


def stuck(lp, conds, fixed):
    """a way back to the head of the loop after which everything is as it was"""
    for q in S.walk(lp.body, lp.base.child(lp.L + '.')):
        if q.end and q.end[0] != 'cont':
            continue
        stable = inert(q, lp, fixed)
        if stable is None:
            continue
        own = q.pc.conds[len(lp.base.pc.conds):]
        if any(unstable(c, stable) for c in own):
            continue
        # what decides about the path; if all of it is as before, the path is taken again
        deps = set()
        for t in own + tuple(y for e in q.ev for y in (e[2],) + e[3]):
            carried_in(t, lp.L, deps)
        same = True
        for x, (_, new) in lp.carry.items():
            old = lp.base.ren(('lv', lp.L0) + x)
            mine = q.ren(('lv', lp.L0) + x, True)
            if old not in deps and mine not in deps:
                continue
            n = q.ren(new, True)
            if isinstance(n, tuple):
                n = q.pc.simp(n)
            if n != old and n != mine:
                same = False
                break
        if not same:
            continue
        cs = tuple(c for c in q.pc.conds if not T.is_int(c))
        if E.feasible(cs) is True:
            return own
    return None


def narrow_casts(t, x, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'cast' and t[1] < 32 and T.occurs(t, x):
            acc.add(t[1])
        for y in t:
            narrow_casts(y, x, acc)
    return acc


def narrow(lp, conds):
    """a counter that wraps before it reaches the bound the condition compares it with"""
    c = lp.meta.get("cond")
    if not isinstance(c, tuple) or lp.meta.get("breaks") or lp.meta.get("rets"):
        return None
    if lp.kind == 'for':
        # as many turns as it takes, and the condition still holds
        w = narrow_casts(c, ('ix', lp.L0), set())
        if not w or not isinstance(lp.N, tuple):
            return None
        again = T.subst(lp.base.ren(c), {('ix', lp.L): lp.N})
        cs = tuple(z for z in conds + (again,) if not T.is_int(z))
        if T.is_int(again) and not again or E.feasible(cs) is not True:
            return None
        return (('v', 'ix'), ()), min(w), c
    for y in T.conj(c):
        neg = False
        if isinstance(y, tuple) and y[0] == 'not':
            neg, y = True, y[1]
        if not isinstance(y, tuple) or y[0] not in ('lt', 'eq') or y[0] == 'eq' and not neg:
            continue
        for x, (i0, new) in lp.carry.items():
            v = ('lv', lp.L0) + x
            w = T.ATOM_TYPE.get(v)
            if not w or w[0] >= 32 or not T.occurs(y, v):
                continue
            if not (isinstance(new, tuple) and new[0] == 'cast'):
                continue
            d = T.sub(new[3], v)
            if not T.is_int(d) or d == 0:
                continue
            diff = T.sub(y[2], y[1])
            it = T.poly_items(diff)
            a = sum(k for m, k in it.items() if m == (v,))
            rest = T.mk_poly({m: k for m, k in it.items() if m != (v,)})
            if a not in (1, -1) or T.occurs(rest, v):
                continue
            if carried_in(rest, lp.L0, set()):
                continue
            top = (1 << (w[0] - 1)) if w[1] else 1 << w[0]
            low = -(1 << (w[0] - 1)) if w[1] else 0
            # the loop goes on while a*v + rest > 0 (lt), <= 0 (not lt), != 0 (not eq)
            if y[0] == 'eq':
                bound = rest if a == -1 else T.neg(rest)
                never = [T.lt(top - 1, bound)] if d > 0 else [T.lt(bound, low)]
            elif not neg:
                # every value of the counter satisfies it
                never = [T.lt(0, T.add(rest, a * (top - 1 if a < 0 else low)))]
            else:
                never = [T.le(T.add(rest, a * (top - 1 if a > 0 else low)), 0)]
            never = [lp.base.ren(n) if isinstance(n, tuple) else n for n in never]
            if any(T.is_int(n) and not n for n in never):
                continue
            cs = tuple(z for z in conds + tuple(never) if not T.is_int(z))
            if E.feasible(cs) is True:
                return x, w[0], y
    return None


def loops(prog, res, each):
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    ci = M.index(prog)
    # functions without outputs: the same arguments, the same result
    fixed = {f["q"] for f in prog.fns.values() if f["q"].startswith(NS) and (f.get("const") or not f.get("cls")) and not U.outputs(f)}

    def one(k):
        f = ci[k]
        T.reset()
        op = con if not k[0].startswith('bitio::') else \
            con | {g["q"] for g in prog.fns.values() if g["q"].startswith(NS + 'bitio::')}
        tr, _, _ = M.Side(prog, op | {f["q"]}, ctors).trace(f, {"intrinsics": not k[0].startswith('bitio::')})
        out, seen, counted = [], {}, 0
        for p in S.walk(tr, S.Path(C.PC(), '')):
            for lp, conds in loops_on(p):
                first = lp.info[:2] not in seen
                seen.setdefault(lp.info[:2], lp.kind)
                at = "%s:%s" % lp.info[:2]
                if lp.kind == 'for' and not first:
                    continue
                c = lp.meta.get("cond")
                if lp.kind == 'for':
                    w = narrow(lp, conds)
                    if w:
                        out.append(("%s:narrow:%s" % (k[0], T.show(c)[:60]),
                                    "%s: the counter of the loop has %d bits and cannot reach its bound, %s turns (%s)" %
                                    (k[0], w[1], T.show(lp.N)[:100], at)))
                    continue
                if first and S.endless(lp):
                    out.append(("%s:endless:%s" % (k[0], T.show(c)[:60]),
                                "%s: nothing in the loop can change its condition %s and there is no other way out (%s)" %
                                (k[0], T.show(c)[:100], at)))
                    continue
                w = stuck(lp, conds, fixed)
                if w is not None:
                    out.append(("%s:stuck:%s" % (k[0], " and ".join(T.show(x) for x in w)[:80]),
                                "%s: an iteration of the loop can leave everything as it was, so that it repeats for ever (%s)\n"
                                "  when %s" % (k[0], at, " and ".join(T.show(x)[:100] for x in w))))
                w = narrow(lp, conds)
                if w:
                    out.append(("%s:narrow:%s" % (k[0], nameof(w[0])),
                                "%s: the counter %s has %d bits and cannot reach the bound in %s (%s)" %
                                (k[0], nameof(w[0]), w[1], T.show(w[2])[:100], at)))
        n = list(seen.values())
        return sorted(set(out)), [], (len(n), n.count('for'))

    n, sums = each("loops", [k for k in sorted(ci) if '/cli' not in ci[k].get("file", "")], one, res)
    res.coverage.update({"functions_followed": n, "loops_followed": sums[0] if sums else 0,
                         "loops_with_a_count_fixed_before_they_start": sums[1] if len(sums) > 1 else 0})
    res.coverage["functions_checked_for_unconditional_recursion"] = recursion(prog, res)


# ---------------------------------------------------------------- calls that come back before anything is decided
LEAVES = ("return", "throw", "break", "continue", "goto")


def always(n, acc):
    """calls made on every way through the statement; False once a way may have left before"""
    if isinstance(n, list):
        return all(always(x, acc) for x in n)
    if not isinstance(n, dict):
        return True
    k = n.get("k")
    if k in ("if", "for", "while", "rfor", "switch", "cond", "try", "lambda", "do") or k == "bin" and n["op"] in ("&&", "||"):
        first = {"if": ("c",), "cond": ("c",), "switch": ("c",), "while": ("c",), "for": ("i", "c"), "rfor": ("range",),
                 "bin": ("a",), "do": ("b",)}.get(k, ())
        for key in first:
            if not always(n.get(key), acc):
                return False
        return k == "lambda" or not any(x["k"] in LEAVES for x in nodes(n))
    for key, v in n.items():
        if isinstance(v, (dict, list)) and key not in ("caps",) and not always(v, acc):
            return False
    if k in ("call", "mcall"):
        acc.append(n)
    return k not in LEAVES


def recursion(prog, res):
    calls = {}
    for fid, f in prog.fns.items():
        if "body" in f and f["q"].startswith(NS):
            acc = []
            always(f["body"], acc)
            calls[fid] = [n for n in acc if n.get("fn") and (n["k"] == "call" or (n.get("obj") or {}).get("k") == "this")]
    seen = set()

    def cycle(start, target):
        todo, reach = [start], set()
        while todo:
            for n in calls.get(todo.pop(), ()):
                y = target(n)
                if y is not None and y not in reach:
                    reach.add(y)
                    todo.append(y)
        return start in reach

    def report(fid):
        if fid in seen:
            return
        seen.add(fid)
        f = prog.fns[fid]
        res.violation("recursion:%s" % f["q"].replace(NS, ''), "%s calls itself on every path and never returns (%s:%s)" %
                      (f["q"].replace(NS, ''), prog.rel(f.get("file", "?")), f.get("line", 0)))
    for fid in sorted(calls):
        if cycle(fid, lambda n: n["fn"]):
            report(fid)
    for c in sorted(prog.recs):
        if not c.startswith(NS):
            continue
        line = set(prog.linear(c))

        def target(n):
            if n["k"] == "mcall" and n.get("virt"):
                return prog.resolve_virtual(c, n["fn"]) or n["fn"]
            return n["fn"]
        for fid in sorted(calls):
            if calls[fid] and prog.fns[fid].get("cls") in line and prog.resolve_virtual(c, fid) == fid and cycle(fid, target):
                report(fid)
    return len(calls)
