"""What a box built from its parameters puts on the wire: construction composed with serialisation, as an
effect tree over the parameters, compared with the frozen tree of spec/wire.json (path by path, field by field)."""
import re

import cosim as C
import interp as I
import terms as T

BOX = 'shiguredo::mp4::Box'
TYPE = 'shiguredo::mp4::BoxType'


class Differ(Exception):
    def __init__(self, msg, info=None, pc=(), ab=()):
        super().__init__(msg)
        self.msg, self.info, self.pc, self.ab = msg, info, pc, ab


# ------------------------------------------------------------------ units
def units(prog):
    """box classes and the element classes they serialise"""
    out = list(prog.descendants(BOX))
    have = {f["q"] for f in prog.fns.values() if "body" in f}
    for q in sorted(prog.recs):
        if q.startswith('shiguredo::mp4::box::') and q not in out and q + '::writeData' in have:
            out.append(q)
    return out


def ctors(prog, q):
    cs = [c for c in prog.ctors(q) if not c.get('copy') and not c.get('move')]
    return sorted(cs, key=lambda c: (len(c.get("params", [])), [p["t"] for p in c["params"]]))


def ctor_key(prog, c):
    return ','.join(prog.strip_ref(p["t"]).replace('const ', '').replace('shiguredo::mp4::', '') for p in c["params"])


def build(prog, q, c, const_fields):
    it = I.Interp(prog)
    it.const_fields = const_fields or {}
    tr, st, _ = it.run(c, q, C.THIS)
    head = keep(tr)
    isbox = prog.derives(q, BOX)
    out = list(head)
    ctor_name = (prog.rel(c["file"]), c["line"], c["q"])
    if isbox:
        for i in range(4):
            v = it.load(st, (C.THIS, (box_field(prog, BOX, 'BoxType'), box_field(prog, TYPE, ''), ('[]', i))))
            out.append(('W', 'u', None, 8, v, ctor_name))
    st.trace = []
    w = prog.method(q, 'writeData')
    dead = not st.live
    if not dead:
        tr2, st2, _ = it.run(w, q, C.THIS, st=st)
        out += tr2
    return out, it.notes


def box_field(prog, q, ty):
    fs = [f["n"] for f in prog.recs[q]["fields"] if ty in f["t"]]
    if len(fs) != 1:
        raise I.Unsupported("the type code of a box is not held in one member")
    return fs[0]


def keep(tr):
    """the throwing part of a constructor's tree"""
    out = []
    for ev in tr:
        if ev[0] == 'if':
            a, b = keep(ev[2]), keep(ev[3])
            if a or b:
                out.append(('if', ev[1], a, b, ev[4]))
        elif ev[0] == 'scope':
            a = keep(ev[2])
            if a:
                out.append(('scope', ev[1], a, ev[3], ev[4]))
        elif ev[0] in ('throw', 'unk'):
            out.append(ev)
        elif ev[0] == 'ret' and False:
            pass
        elif ev[0] == 'loop':
            a = keep(ev[4])
            if a:
                out.append(ev[:4] + (a,) + ev[5:])
        elif ev[0] == 'try':
            a = keep(ev[1])
            if a:
                out.append(('try', a, [], ev[3]))
    return out


# ------------------------------------------------------------------ freezing
def prune(tr):
    """only what wpaths needs"""
    out = []
    for ev in tr:
        k = ev[0]
        if k == 'W':
            out.append(['W', ev[1], ev[3], ev[4]])
        elif k == 'if':
            a, b = prune(ev[2]), prune(ev[3])
            if a or b:
                out.append(['if', ev[1], a, b])
        elif k == 'scope':
            a = prune(ev[2])
            if a:
                if any(x[0] in ('ret',) for x in walk(a)):
                    # a return as the last event of a scope is no event
                    if not any(x[0] == 'ret' for x in walk(a[:-1])) and a[-1][0] == 'ret':
                        out += a[:-1]
                    else:
                        out.append(['scope', a])
                else:
                    out += a
        elif k == 'try':
            out += prune(ev[1])
        elif k == 'loop':
            a = prune(ev[4])
            if a:
                out.append(['loop', ev[1], ev[2], ev[3], a])
        elif k == 'ret':
            out.append(['ret'])
        elif k == 'throw':
            out.append(['throw', ev[1]])
        elif k in ('brk', 'cont', 'unk'):
            out.append([k])
    return out


def walk(evs):
    for e in evs:
        yield e
        for x in e[1:]:
            if isinstance(x, list):
                yield from walk([y for y in x if isinstance(y, list) and y and isinstance(y[0], str)])


def to_json(x):
    if isinstance(x, tuple):
        return {"t": [to_json(y) for y in x]}
    if isinstance(x, list):
        return [to_json(y) for y in x]
    return x


def from_json(x):
    if isinstance(x, dict):
        return tuple(from_json(y) for y in x["t"])
    if isinstance(x, list):
        return [from_json(y) for y in x]
    return x


def unprune(tr):
    out = []
    info = (None, 0, None)
    for ev in tr:
        k = ev[0]
        if k == 'W':
            out.append(('W', ev[1], None, ev[2], ev[3], info))
        elif k == 'if':
            out.append(('if', ev[1], unprune(ev[2]), unprune(ev[3]), info))
        elif k == 'scope':
            out.append(('scope', None, unprune(ev[1]), info, None))
        elif k == 'loop':
            out.append(('loop', ev[1], ev[2], ev[3], unprune(ev[4]), {}, info, {}))
        elif k == 'ret':
            out.append(('ret', None, info))
        elif k == 'throw':
            out.append(('throw', ev[1], info))
        else:
            out.append((k, info))
    return out


def rename_loops(tr, n=None):
    """stable loop names"""
    n = n if n is not None else [0]
    out = []
    for ev in tr:
        if ev[0] == 'loop':
            n[0] += 1
            new = 's%d' % n[0]
            body = rename_loops(map_pruned(ev[4], {('ix', ev[1]): ('ix', new)}), n)
            out.append(['loop', new, ev[2], ev[3], body])
        elif ev[0] == 'if':
            out.append(['if', ev[1], rename_loops(ev[2], n), rename_loops(ev[3], n)])
        elif ev[0] == 'scope':
            out.append(['scope', rename_loops(ev[1], n)])
        else:
            out.append(ev)
    return out


def map_pruned(tr, sub):
    def go(x):
        if isinstance(x, tuple):
            return T.subst(x, sub)
        if isinstance(x, list):
            return [go(y) for y in x]
        return x
    return [go(e) for e in tr]


# ------------------------------------------------------------------ canonical names of element members
def canon_map(prog, const_fields):
    """class -> {member: parameter it is built from} for element classes held in parameters"""
    out = {}
    for q, r in prog.recs.items():
        if q.startswith('shiguredo::mp4::') and len(r["fields"]) == 1 and r["fields"][0]["n"].startswith('m_'):
            out[q] = {r["fields"][0]["n"]: '<0>'}
    for q in prog.recs:
        if not q.startswith('shiguredo::mp4::box::') or prog.derives(q, BOX):
            continue
        cs = [c for c in ctors(prog, q) if len(c["params"]) >= 1 and "body" in c]
        if len(cs) != 1 or cs[0].get("implicit"):
            continue
        it = I.Interp(prog)
        it.const_fields = const_fields or {}
        try:
            tr, st, _ = it.run(cs[0], q, C.THIS)
        except I.Unsupported:
            continue
        m = out.get(q, {})
        for cq, f in prog.all_fields(q):
            v = it.load(st, (C.THIS, (f["n"],)))
            if isinstance(v, tuple) and v[0] == 'init' and isinstance(v[1], tuple) and v[1][0] == 'param':
                m[f["n"]] = '<%s>' % (v[2][0] if v[2] else v[1][1])
        if m:
            out[q] = m
    return out


def canonical(prog, cmap, c):
    """rewriter of parameter atoms to names that do not depend on private members"""
    ptypes = {p["n"]: prog.strip_ref(p["t"]) for p in c["params"]}
    pname = {p["n"]: '$%d' % i for i, p in enumerate(c["params"])}
    memo = {}

    def elem_type(t):
        ti = prog.ty(prog.strip_ref(t))
        el = ti.get("to") or ti.get("el") or (ti.get("targs") or [None])[0]
        return el

    def f(x):
        if not x or x[0] != 'init' or not isinstance(x[1], tuple) or x[1][0] != 'param':
            return None
        if x in memo:
            return memo[x]
        if str(x[1][1]).startswith('$'):
            return None
        ty = ptypes.get(x[1][1])
        path = []
        changed = x[1][1] in pname
        for part in x[2]:
            if ty is None:
                path.append(part)
                continue
            ti = prog.ty(prog.strip_ref(ty))
            q = ti.get("q", "")
            if isinstance(part, tuple) and part[0] == '[]':
                ty = elem_type(ty)
                path.append(part)
                continue
            if part == '#':
                path.append(part)
                continue
            q = prog.ty(prog.strip_ref(ty)).get("q", prog.strip_ref(ty).replace('const ', ''))
            name = cmap.get(q, {}).get(part)
            nt = None
            for _, fl in prog.all_fields(q) if q in prog.recs else ():
                if fl["n"] == part:
                    nt = fl["t"]
            path.append(name or part)
            changed = changed or bool(name)
            ty = nt
        r = None
        if changed:
            r = ('init', ('param', pname.get(x[1][1], x[1][1])), tuple(path))
            if x in T.ATOM_TYPE:
                T.ATOM_TYPE.setdefault(r, T.ATOM_TYPE[x])
            if x in T.ARRAY_LEN:
                T.ARRAY_LEN.setdefault(r, T.ARRAY_LEN[x])
        memo[x] = r
        return r
    return f


# ------------------------------------------------------------------ comparison
def bits_of(v, w):
    v = strip(v, w)
    bs = T.bits(v, w)
    if bs is None:
        bs = [('bx', T.canon_size(v) if isinstance(v, tuple) else v, i) for i in range(w)]
    return list(reversed(bs))


def strip(v, w):
    while isinstance(v, tuple) and v[0] == 'cast' and v[1] >= w:
        v = v[3]
    return v


class Cmp:
    def __init__(self):
        self.fields = self.paths = self.loops = 0

    def items(self, A, B, pc):
        """A of the code, B of the specification"""
        i = j = 0
        ra, rb = [], []         # pending bits
        last = None
        while True:
            if ra and rb:
                n = min(len(ra), len(rb))
                for k in range(n):
                    x, y = ra[k], rb[k]
                    if x[0] != y[0] and not same_bit(x[0], y[0], pc):
                        raise Differ("writes %s where %s belongs" % (describe(x[1], pc), describe(y[1], pc)), x[1].info, pc.conds,
                                     values(x[1], y[1], x[0], y[0], pc))
                ra, rb = ra[n:], rb[n:]
                continue
            if not ra and i < len(A) and isinstance(A[i], C.Field) and A[i].kind in 'ui':
                f = A[i]
                w = pc.simp(f.w)
                if T.is_int(w):
                    ra = [(b, f) for b in bits_of(pc.simp(f.v), w)]
                    i += 1
                    self.fields += 1
                    if w:
                        continue
                    continue
            if not rb and j < len(B) and isinstance(B[j], C.Field) and B[j].kind in 'ui':
                f = B[j]
                w = pc.simp(f.w)
                if T.is_int(w):
                    rb = [(b, f) for b in bits_of(pc.simp(f.v), w)]
                    j += 1
                    continue
            if ra or rb:
                break
            if i >= len(A) or j >= len(B):
                break
            f, g = A[i], B[j]
            if isinstance(f, C.Loop) != isinstance(g, C.Loop):
                raise Differ("writes %s where %s belongs" % (describe(f, pc), describe(g, pc)), f.info, pc.conds)
            if isinstance(f, C.Loop):
                self.loop(f, g, pc)
            else:
                if f.kind != g.kind or not T.same_size(pc.simp(f.w), pc.simp(g.w)) or not same_val(f.v, g.v, pc):
                    like = f.kind == g.kind and T.same_size(pc.simp(f.w), pc.simp(g.w))
                    raise Differ("writes %s where %s belongs" % (describe(f, pc), describe(g, pc)), f.info, pc.conds,
                                 (pc.simp(f.v), pc.simp(g.v)) if like else ())
                self.fields += 1
            i += 1
            j += 1
        if ra or i < len(A):
            x = ra[0][1] if ra else A[i]
            raise Differ("writes %s, which does not belong there" % describe(x, pc), x.info, pc.conds)
        if rb or j < len(B):
            x = rb[0][1] if rb else B[j]
            raise Differ("does not write %s" % describe(x, pc), A[-1].info if A else None, pc.conds)

    def loop(self, f, g, pc):
        if not T.same_size(pc.simp(f.N), pc.simp(g.N)):
            raise Differ("writes a list of %s elements where it has %s" % (T.show(pc.simp(f.N)), T.show(pc.simp(g.N))),
                         f.info, pc.conds)
        self.loops += 1
        sub = {('ix', g.L): ('ix', f.L)}
        gb = C.map_trace(g.body, sub)
        for p1, i1, e1 in C.wpaths(f.body, pc):
            for p2, i2, e2 in C.wpaths(gb, p1):
                ends(e1, e2, p2)
                if e1 and e1[0] == 'throw':
                    continue
                self.paths += 1
                self.items(i1, i2, p2)

    def trees(self, code, spec):
        for p1, i1, e1 in C.wpaths(code, C.PC()):
            for p2, i2, e2 in C.wpaths(spec, p1):
                ends(e1, e2, p2)
                if e1 and e1[0] == 'throw':
                    continue
                self.paths += 1
                self.items(i1, i2, p2)


def ends(e1, e2, pc):
    t1 = bool(e1 and e1[0] == 'throw')
    t2 = bool(e2 and e2[0] == 'throw')
    if t1 != t2:
        raise Differ("is rejected with an exception" if t1 else "is not rejected with an exception",
                     e1[2] if e1 and len(e1) > 2 else None, pc.conds)


def values(f, g, x, y, pc):
    """the values behind two bits that are not the same, when they can be set against each other"""
    if T.is_int(x) and T.is_int(y):
        return ()
    w, w2 = pc.simp(f.w), pc.simp(g.w)
    if T.is_int(w) and w == w2:
        return T.cast(pc.simp(f.v), w, False), T.cast(pc.simp(g.v), w, False)
    return ()


def same_bit(a, b, pc):
    if a == b:
        return True
    if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'bx' and b[0] == 'bx' and a[2] == b[2]:
        return same_val(a[1], b[1], pc)
    return False


def same_val(a, b, pc):
    a, b = pc.simp(a), pc.simp(b)
    if a == b:
        return True
    try:
        return T.same_size(a, b)
    except Exception:
        return False


def describe(f, pc):
    if isinstance(f, C.Loop):
        return "a list of %s elements" % T.show(pc.simp(f.N))[:80]
    if f.kind in 'ui':
        return "%s in %s bits" % (T.show(pc.simp(f.v))[:120], T.show(pc.simp(f.w))[:40])
    return "%s of kind %s" % (T.show(pc.simp(f.v))[:120], f.kind)


def params_in(t, out):
    if isinstance(t, (tuple, list)):
        if t and t[0] == 'init' and isinstance(t[1], tuple) and t[1] and t[1][0] == 'param':
            out.add(t)
            return
        for x in t:
            params_in(x, out)


def prm_type(prog, prm):
    return prog.strip_ref(prm["t"]).replace('const ', '')


# ------------------------------------------------------------------ defaults of parameter structs
def default_values(prog):
    """parameter struct -> {member: canonical default value}"""
    out = {}
    for q, r in prog.recs.items():
        s = q.split('::')[-1]
        if not q.startswith('shiguredo::mp4::') or not (s.endswith('Parameters') or s.endswith('Parmeters')):
            continue
        d = {}
        for f in r["fields"]:
            if "init" in f:
                v = const_value(prog, f["init"], q)
                if v is not None:
                    d[f["n"]] = v
        out[q] = d
    return out


def const_value(prog, e, q):
    it = I.Interp(prog)
    st = I.St()
    fr = I.Frame({"q": q, "params": [], "body": None}, None, None)
    fr.id = I.fresh()
    try:
        v = it.rval(st, fr, e)
    except Exception:
        return None
    return show_value(it, st, v)


def show_value(it, st, v):
    if T.is_int(v):
        return str(v)
    if not isinstance(v, tuple):
        return repr(v)
    return re.sub(r'v\(\d+, \d+, ', 'v(', T.show(v))
