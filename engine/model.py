"""Compares functions of /repo with the reviewed reference model, path by path (summ.py)."""
import os
import re
import sys
import traceback

import cosim as C
import interp as I
import summ as S
import terms as T
import units as U
import wire as W
from prog import Program

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = os.path.join(VERIF, "spec", "model")
_model = [None]


def model():
    if _model[0] is None:
        _model[0] = Program(MODEL)
    return _model[0]


def key(prog, f):
    ps = [prog.strip_ref(p["t"]).replace('const ', '').replace(U.NS, '').replace('struct ', '') for p in f["params"]]
    return f["q"][len(U.NS):], tuple(re.sub(r'\s*\bconst\b', '', x).strip() for x in ps)


def index(prog):
    out = {}
    for f in prog.fns.values():
        if "body" in f and f["q"].startswith(U.NS) and not f.get("copy") and not f.get("move"):
            out.setdefault(key(prog, f), f)
    return out


def expand(mi, spec):
    """unit text -> keys of the model"""
    name, _, rest = spec.partition('(')
    if name == '*ctor':
        ks = [k for k in mi if len(k[0].split('::')) > 1 and k[0].split('::')[-1] == k[0].split('::')[-2]]
    elif name == '*dtor':
        ks = [k for k in mi if '::~' in k[0]]
    elif name.endswith('*') and not name.endswith('::*'):
        ks = [k for k in mi if k[0].startswith(name[:-1])]
    elif name.startswith('*::'):
        ks = [k for k in mi if k[0].endswith(name[1:])]
    elif name.endswith('::*'):
        ks = [k for k in mi if k[0].rsplit('::', 1)[0] == name[:-3]]
    else:
        ks = [k for k in mi if k[0] == name]
    if rest:
        want = tuple(x.strip() for x in rest.rstrip(')').split(',')) if rest != ')' else ()
        ks = [k for k in ks if k[1] == want]
    return sorted(ks)


def members(prog, q):
    out = {}
    for c, f in prog.all_fields(q):
        out[f["n"]] = (c, f["t"])
    return out


def renames(code, mod):
    """members with new names: {new: old}; and classes whose members cannot be matched"""
    ren, bad, narrow = {}, {}, []
    for q, r in mod.recs.items():
        if not q.startswith(U.NS) or q not in code.recs:
            continue
        old = {f["n"]: f["t"] for f in r["fields"]}
        new = {f["n"]: f["t"] for f in code.recs[q]["fields"]}
        gone = [n for n in old if n not in new]
        extra = [n for n in new if n not in old]
        for g in gone:
            c = [x for x in extra if new[x] == old[g]]
            same = [x for x in gone if old[x] == old[g]]
            if len(c) == 1 and len(same) == 1:
                ren[c[0]] = g
            else:
                bad.setdefault(q, []).append(g)
        for n in old:
            m = n if n in new else next((x for x, y in ren.items() if y == n and x in new), None)
            if m is None:
                continue
            a, b = mod.ty(mod.strip_ref(old[n])), code.ty(code.strip_ref(new[m]))
            if a.get("k") == b.get("k") == "int" and (b.get("bits", 0) < a.get("bits", 0)):
                narrow.append((q, m, b.get("bits"), a.get("bits")))
    return ren, bad, narrow


class Side:
    def __init__(self, prog, opaque, ctors, ren=None):
        self.p, self.opaque, self.ctors, self.ren = prog, opaque, ctors, ren or {}
        self.notes = []

    def trace(self, f, opts):
        it = I.Interp(self.p, intrinsics=opts.get("intrinsics", True), opaque=self.opaque)
        it.opaque_ctors = self.ctors
        it.contracts = True
        it.unroll = opts.get("unroll", 0)
        it.selfq, it.selfid = opts.get("self"), f["id"]
        it.nullable = opts.get("nullable", ())
        it.bounds = bool(opts.get("bounds"))
        tr, st, _ = it.run(f, f.get("cls"))
        self.notes = it.notes
        names = {(p["n"] or "arg%d" % i): '$%d' % i for i, p in enumerate(f["params"])}

        def sub(x):
            if x and x[0] == 'param' and len(x) == 2 and x[1] in names:
                return ('param', names[x[1]])
            if x and x[0] == 'init' and len(x) == 3 and isinstance(x[1], tuple):
                r, p = x[1], x[2]
                if r[0] == 'param' and r[1] in names:
                    r = ('param', names[r[1]])
                elif r[0] == 'deref':
                    r = T.subst(r, sub)
                p2 = tuple(self.ren.get(y, y) if isinstance(y, str) else (T.subst(y, sub) if isinstance(y, tuple) else y)
                           for y in p)
                n = ('init', r, p2)
                if n != x and x in T.ATOM_TYPE:
                    T.ATOM_TYPE.setdefault(n, T.ATOM_TYPE[x])
                return n if n != x else None
            return None
        tr = C.map_trace(tr, sub)
        if self.ren:
            tr = [rename_paths(e, self.ren) for e in tr]
        return tr, st, it


def rename_paths(x, ren):
    """members under their old names; terms are rebuilt, so that they stay in their normal form"""
    def f(t):
        if not any(isinstance(y, str) and y in ren for y in t):
            if t[:1] == ('init',) and len(t) == 3:
                r = (t[0], T.subst(t[1], f) if isinstance(t[1], tuple) else t[1],
                     tuple(T.subst(y, f) if isinstance(y, tuple) else ren.get(y, y) for y in t[2]))
                if r == t:
                    return None
                for d in (T.ATOM_TYPE, T.ARRAY_LEN):
                    if t in d:
                        d.setdefault(r, d[t])
                return r
            return None
        return tuple(ren.get(y, y) if isinstance(y, str) else T.subst(y, f) if isinstance(y, tuple) else y for y in t)

    def go(x):
        if isinstance(x, str):
            return ren.get(x, x)
        if isinstance(x, tuple):
            return T.subst(x, f) if x and isinstance(x[0], str) and x[0] not in EVENT else tuple(go(y) for y in x)
        if isinstance(x, list):
            return [go(y) for y in x]
        if isinstance(x, dict):
            return {go(k): go(v) for k, v in x.items()}
        return x
    return go(x)


# heads of trace entries, which are no terms
EVENT = {'W', 'R', 'ext', 'if', 'loop', 'scope', 'try', 'set', 'push', 'ret', 'throw', 'brk', 'cont', 'at', 'delete', 'new', 'seek',
         'unk'}


# what the functions of a class keep true of its members: (class, member, below). Every function of the class is compared
# with the reference under it, and the reference keeps it, so a function that breaks it is reported.
INVARIANT = [("bitio::Writer", "m_width", 8)]


def invariant(g):
    pc = C.PC()
    S.BELOW = {}
    for c, m, n in INVARIANT:
        if g.get("cls") == U.NS + c and not g.get("ctor"):
            S.BELOW[(('this',), (m,))] = n
            pc = pc.add(T.lt(('init', ('this',), (m,)), n))
    return pc


def has_loop(tr):
    for e in tr:
        if e[0] == 'loop' or e[0] == 'if' and (has_loop(e[2]) or has_loop(e[3])) or e[0] == 'scope' and has_loop(e[2]) or \
                e[0] == 'try' and has_loop(e[1]):
            return True
    return False


# members that nothing reads any more once the function is left: the chunk in progress after the tables were closed
SETTLED = {x: ("m_current_chunk_info",) for x in ("finalize", "resetChunkOffsets", "appendTrakBoxInfo")}


def first_iterations(a, b, f, g, opts, skip):
    """the difference between the two when their loops end within a few iterations"""
    if skip:
        return None
    try:
        tb, _, ib = b.trace(g, opts)
        I._ctr[0] = 100000
        ta, _, ia = a.trace(f, opts)
        if has_loop(ta) or has_loop(tb) or len(ia.notes) > len(ib.notes):
            return None
        c = S.Cmp()
        c.tree = bool(opts.get("tree"))
        c.functions(ta, tb, invariant(g))
    except W.Differ as e:
        return e
    except (I.Unsupported, C.Undecided, RecursionError):
        return None
    return None


def unit(code, ci, mod, mi, k, opts, contracts, ctors, ren):
    """compare one function; returns (finding or None, undecided or None, statistics)"""
    T.reset()
    I._ctr[0] = 0
    f, g = ci.get(k), mi[k]
    opts = dict(opts, nullable=I.null_tested(mod, g))
    nm = k[0].split('::')
    name = '::'.join(nm)
    if f is None:
        return None, "%s(%s): no such function any more" % (name, ', '.join(k[1])), None
    own = set()
    c = g.get("cls")
    if c and not opts.get("all"):
        fam = {c} | set(mod.ancestors(c))
        own = {q for q in contracts if q.rsplit('::', 1)[0] in fam}
    op = (contracts - own) | {U.NS + x for x in opts.get("opaque", ())} | {g["q"]}
    for pre in opts.get("also", ()):
        op |= {x["q"] for x in mod.fns.values() if "body" in x and x["q"].startswith(U.NS + pre) and x.get("cls") != c}
    op -= {U.NS + x for x in opts.get("inline", ())}
    if g["q"] not in contracts - own:
        opts["self"] = g["q"]
    a, b = Side(code, op, ctors, ren), Side(mod, op, ctors)
    try:
        tb, _, ib = b.trace(g, opts)
        I._ctr[0] = 100000
        ta, _, ia = a.trace(f, opts)
    except I.Unsupported as e:
        return None, "%s: %s" % (name, e), None
    nb = len(ib.notes)
    S.IO = bool(opts.get("io"))
    S.DTOR = {x["n"] for x in mod.recs.get(g.get("cls"), {}).get("fields", [])} if '~' in k[0] else ()
    S.SETTLED = SETTLED.get(nm[-1], ()) if nm[0] == 'track' else ()
    cmp_ = S.Cmp()
    cmp_.tree = bool(opts.get("tree"))
    foreign = {q for q in S.calls(ta) - S.calls(tb) if not q.replace('new ', '').startswith(U.NS)}
    try:
        cmp_.functions(ta, tb, invariant(g))
    except C.Undecided as e:
        if has_loop(ta) or has_loop(tb):
            # what the first iterations do may tell them apart
            for n in (2, 3):
                d = first_iterations(a, b, f, g, dict(opts, unroll=n), len(ia.notes) > nb or foreign)
                if d is not None:
                    return (name, d.msg, d.info, d.pc), None, cmp_
        return None, "%s: %s" % (name, e.args[0] if e.args else e), cmp_
    except W.Differ as e:
        if len(ia.notes) > nb:
            return None, "%s: not modelled: %s" % (name, ia.notes[0]), cmp_
        if foreign:
            return None, "%s: uses another mechanism (%s); not reported: %s" % (name, ', '.join(sorted(foreign)), e.msg), cmp_
        return (name, e.msg, e.info, e.pc), None, cmp_
    except RecursionError:
        return None, "%s: too deep" % name, cmp_
    return None, None, cmp_
