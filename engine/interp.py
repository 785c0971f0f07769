"""Effect extraction: a compositional abstract interpretation of the resolved syntax tree.

For one function it yields a tree of effects (stream transfers, stores, container growth, external
calls, throws) in which loops are summarised once (never iterated over data) and branches are kept as
alternatives; values are the normal-form terms of terms.py."""
import terms as T

MAXDEPTH = 24
UNROLL = 40


# parameters of C functions that point to a value the function only reads
READ_ONLY = {"gmtime_r": (0,), "gmtime": (0,), "localtime_r": (0,), "localtime": (0,), "ctime": (0,), "timegm": (0,), "mktime": (0,),
             "asctime": (0,), "strftime": (3,)}


class Unsupported(Exception):
    pass


class Dead(Exception):
    pass


class St:
    __slots__ = ("heap", "dyn", "trace", "live", "pc", "end")

    def __init__(self):
        self.heap, self.dyn, self.trace, self.live, self.pc = {}, {}, [], True, ()
        self.end = None

    def fork(self):
        s = St()
        s.heap = {r: dict(d) for r, d in self.heap.items()}
        s.dyn = dict(self.dyn)
        s.live = self.live
        s.pc = self.pc
        return s

    def become(self, o):
        self.heap, self.dyn, self.live, self.pc, self.end = o.heap, o.dyn, o.live, o.pc, o.end


class Frame:
    def __init__(self, fn, this=None, cls=None, parent=None):
        self.fn, self.this, self.cls, self.parent = fn, this, cls, parent
        self.env = {}
        self.returns = []
        self.pc0 = 0
        self.breaks = None
        self.conts = None
        self.raii = []          # local objects that own something, in the order of their declaration
        self.mark = 0           # how many of them a break or continue leaves alive


_ctr = [0]


def fresh():
    _ctr[0] += 1
    return _ctr[0]


STREAM_POS = 'pos'
INT_INTRINSICS = {"write_uint": ('W', 'u'), "write_int": ('W', 'i'), "read_uint": ('R', 'u'), "read_int": ('R', 'i'),
                  "write_string": ('W', 'str'), "read_string": ('R', 'str'),
                  "write_pascal_string": ('W', 'pstr'), "read_pascal_string": ('R', 'pstr'),
                  "write_uvarint": ('W', 'uvar'), "read_uvarint": ('R', 'uvar')}


def literal(e):
    """the string literal an expression consists of"""
    while isinstance(e, dict):
        if e.get("k") == "str":
            return e["v"]
        if e.get("k") == "ctor" and e.get("args"):
            e = e["args"][0]
        elif e.get("k") == "cast":
            e = e["e"]
        else:
            return None
    return None


def null_tested(prog, f):
    """numbers of the pointer parameters a function compares with null"""
    at = {p["d"]: i for i, p in enumerate(f["params"]) if prog.ty(p["t"])["k"] == "ptr"}
    out = set()

    def inner(e):
        while isinstance(e, dict) and e.get("k") == "cast":
            e = e["e"]
        if isinstance(e, dict) and e.get("k") == "ref" and e["d"] in at:
            out.add(at[e["d"]])

    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "cast" and x.get("ck") == "PointerToBoolean":
                inner(x["e"])
            elif x.get("k") == "bin" and x.get("op") in ("==", "!=") and \
                    ("null" in (strip(x["a"]).get("k"), strip(x["b"]).get("k"))):
                inner(x["a"])
                inner(x["b"])
            for v in x.values():
                if isinstance(v, (dict, list)):
                    go(v)
        elif isinstance(x, list):
            for v in x:
                if isinstance(v, (dict, list)):
                    go(v)

    def strip(e):
        while isinstance(e, dict) and e.get("k") == "cast":
            e = e["e"]
        return e
    if at:
        go(f.get("body"))
    return out


def lvs(x, L, acc):
    """the values at the start of an iteration of loop L that x mentions"""
    if isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'lv' and x[1] == L:
            acc.add(x)
            return
    if isinstance(x, dict):
        x = x.values()
    if isinstance(x, (tuple, list)) or not isinstance(x, (str, int)) and hasattr(x, '__iter__'):
        for y in x:
            lvs(y, L, acc)


class Interp:
    def __init__(self, prog, intrinsics=True, opaque=(), on_ext=None, hooks=None):
        self.p = prog
        self.intr = intrinsics
        self.opaque = set(opaque)
        self.closures = {}
        self.notes = []         # constructs that were not modelled precisely
        self.depth = 0
        self.analysed = set()
        self.fnstack = []
        self.loops = []         # active symbolic loop ids
        self.hooks = hooks or {}
        self.selfq = self.selfid = None   # the function itself: opaque by name, its overloads are not
        self.unroll = 0             # iterations of loops to follow one by one, instead of a summary of any number
        self.opaque_ctors = set()   # classes whose construction is an event
        self.nullable = ()          # pointer parameters (by number) of the function that is run that may be null
        self.owning = False         # events for objects that change hands
        self.bounds = False         # events for accesses that need an index in range or a pointer that is not null
        self.contracts = False      # calls to opaque functions take values, not addresses of temporaries
        self.const_fields = {}  # (class, field) -> constant established by every constructor
        self.frames = 0
        self.loc_type = {}
        self.max_virtual = 6
        self.arr_n = {}         # locations known to be fixed-size arrays
        self.decl_t = {}        # types of local variables
        self.sized = {}         # bytes given as a pointer with a length: location -> length

    # ------------------------------------------------------------ plumbing
    def info(self, e=None):
        f = self.fnstack[-1] if self.fnstack else None
        line = (e or {}).get("l") if isinstance(e, dict) else None
        return (self.p.rel(f["file"]) if f else "?", line or (f["line"] if f else 0), f["q"] if f else "?")

    def note(self, what, e=None):
        i = self.info(e)
        self.notes.append("%s:%s in %s: %s" % (i[0], i[1], i[2], what))

    def emit(self, st, ev):
        st.trace.append(ev)

    def access(self, st, e, size, upto, what):
        """event: something of `size` elements is accessed up to (not including) element `upto`"""
        if self.bounds and not (T.is_int(size) and T.is_int(upto) and 0 <= upto <= size):
            self.emit(st, ('at', size, upto, what, self.info(e)))

    def not_null(self, st, e, v):
        if self.bounds and isinstance(v, tuple) and v[0] == 'init':
            self.emit(st, ('at', None, v, 'null', self.info(e)))

    def itype(self, t):
        i = self.p.ty(self.p.strip_ref(t))
        if i["k"] in ("int", "enum"):
            return (i.get("bits", 32), bool(i.get("sg")))
        if i["k"] == "bool":
            return (1, False)
        return None

    # ------------------------------------------------------------ heap
    def load(self, st, loc, ty=None):
        v = self.load1(st, loc, ty)
        root, path = loc
        d = st.heap.get(root)
        if not d or not self.contracts or not isinstance(v, (int, tuple)) or self.nonnum(v):
            return v
        at = [i for i, s in enumerate(path) if isinstance(s, tuple) and s[0] == '[]']
        if not at:
            return v
        # elements stored later under other indices may be this one
        later = list(d.items())
        if path in d:
            later = later[[p for p, _ in later].index(path) + 1:]
        for p, x in later:
            if len(p) != len(path) or p == path:
                continue
            c = 1
            for a, b in zip(p, path):
                if a == b:
                    continue
                if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == b[0] == '[]':
                    c = T.cand(c, T.eq(a[1], b[1]))
                else:
                    c = 0
                if c == 0:
                    break
            if c != 0 and not self.nonnum(x):
                c = self.assume(st, c)
                v = T.ite(c, x, v)
        return v

    def load1(self, st, loc, ty=None):
        root, path = loc
        d = st.heap.get(root)
        if d:
            v = d.get(path)
            if v is not None:
                # exact; but there may be finer entries stored later
                ext = [(p[len(path):], x) for p, x in d.items() if len(p) > len(path) and p[:len(path)] == path]
                if ext:
                    return self.agg(v, ext)
                return v
            best, bv, bm = -1, None, None
            ext = []
            for p, x in d.items():
                n = min(len(p), len(path))
                m = self.pmatch(p[:n], path[:n])
                if m is None:
                    continue
                if len(p) <= len(path):
                    if len(p) > best or (len(p) == best and not m):
                        best, bv, bm = len(p), x, m
                else:
                    ext.append((p[n:], T.subst(x, m) if m else x))
            if best >= 0:
                v = T.subst(bv, bm) if bm else bv
                rest = path[best:]
                for s in rest:
                    v = T.sel(v, s)
                if ext:
                    return self.agg(v, ext)
                self.settype(v, ty)
                return v
            if ext:
                base = self.initial(st, loc, ty)
                return self.agg(base, ext)
        return self.initial(st, loc, ty)

    def agg(self, v, ext):
        ext = tuple(sorted(ext, key=T.skey))
        return self.contracts and T.whole(v, ext) or ('agg', v, ext)

    def pmatch(self, key, path):
        """match a heap key (may hold ('[*]', L)) against a concrete path; substitution or None"""
        m = {}
        for a, b in zip(key, path):
            if a == b:
                continue
            if isinstance(a, tuple) and a[0] == '[*]' and isinstance(b, tuple) and b[0] == '[]':
                m[('ix', a[1])] = b[1]
                continue
            return None
        return m

    def settype(self, v, ty):
        if ty is not None and isinstance(v, tuple) and v[0] in ('init', 'elem', 'fld', 'size', 'u', 'lo', 'lv') \
                and v not in T.ATOM_TYPE:
            it = self.itype(ty)
            if it:
                T.ATOM_TYPE[v] = it
            elif v not in T.ARRAY_LEN:
                n = self.array_len(ty)
                if n is not None:
                    T.ARRAY_LEN[v] = n

    def array_len(self, ty):
        ti = self.p.ty(self.p.strip_ref(ty))
        if ti["k"] == "carray":
            return ti["n"]
        if ti.get("q", "").startswith("std::array") and len(ti.get("targs", [])) > 1:
            return ti["targs"][1]
        return None

    def initial(self, st, loc, ty=None):
        root, path = loc
        if isinstance(root, tuple) and root[0] in ('v', 'obj'):
            v = ('uninit', root, path)
            return v
        f = None
        if path and isinstance(path[-1], str) and path[-1] != '#':
            dc = self.dyn_class(st, (root, path[:-1]))
            if dc is not None:
                cv = self.const_fields.get((dc, path[-1]))
                if cv is not None:
                    return cv
        if isinstance(root, tuple) and root[0] == 'deref' and isinstance(root[1], tuple) and root[1][0] == 's' and len(path) == 1 and \
                isinstance(path[0], tuple) and path[0][0] == '[]' and isinstance(root[1][1], str) and root[1][1].isascii():
            # a character of a string literal
            i, x = path[0][1], root[1][1]
            if T.is_int(i) and 0 <= i <= len(x):
                return ord(x[i]) if i < len(x) else 0
        v = ('init', root, path)
        if path and path[-1] == '#':
            T.ATOM_TYPE.setdefault(v, (64, False))
        self.settype(v, ty)
        return v

    def dyn_class(self, st, loc):
        return st.dyn.get(loc)

    def store(self, st, loc, val, e=None, quiet=False):
        root, path = loc
        d = st.heap.setdefault(root, {})
        for p in [p for p in d if len(p) > len(path) and p[:len(path)] == path]:
            del d[p]
        d.pop(path, None)
        if isinstance(val, tuple) and val and val[0] == 'agg':
            # spread
            base, subs = val[1], val[2]
            d.pop(path, None)
            if base is not None:
                d[path] = base
            for p, x in subs:
                d[path + p] = x
        else:
            d[path] = val
        if not quiet and not (isinstance(root, tuple) and root[0] == 'v'):
            self.emit(st, ('set', loc, val, self.info(e)))

    def vsize(self, st, loc):
        n = self.arr_n.get(loc)
        if n is not None:
            return n
        v = self.load(st, (loc[0], loc[1] + ('#',)))
        if isinstance(v, tuple) and v not in T.ATOM_TYPE and v[0] in ('init', 'size', 'uninit', 'u'):
            T.ATOM_TYPE[v] = (64, False)
        return v

    # ------------------------------------------------------------ branching
    def assume(self, st, c):
        if T.is_int(c):
            return c
        for x in reversed(st.pc):
            if x == c:
                return 1
            if T.cnot(x) == c:
                return 0
        if c[0] == 'and':
            l, r = self.assume(st, c[1]), self.assume(st, c[2])
            return T.cand(l, r)
        if c[0] == 'or':
            l, r = self.assume(st, c[1]), self.assume(st, c[2])
            return T.cor(l, r)
        if c[0] == 'not':
            return T.cnot(self.assume(st, c[1]))
        return c

    def branch(self, st, c, fa, fb, e=None):
        c = self.assume(st, T.truth(c))
        if T.is_int(c):
            (fa if c else fb)(st)
            return
        a, b = st.fork(), st.fork()
        a.pc = st.pc + tuple(T.conj(c))
        nc = T.cnot(c)
        b.pc = st.pc + tuple(T.conj(nc))
        fa(a)
        fb(b)
        if a.trace or b.trace:
            self.emit(st, ('if', c, a.trace, b.trace, self.info(e)))
        if a.live and b.live:
            pc = st.pc
            self.merge(a, b, c)
            st.become(a)
            st.pc = pc
        elif a.live:
            st.become(a)
        elif b.live:
            st.become(b)
        else:
            st.become(a)
            st.live = False

    def merge(self, a, b, c):
        """a := c ? a : b"""
        for root in set(a.heap) | set(b.heap):
            da, db = a.heap.get(root, {}), b.heap.get(root, {})
            new = {}
            for p in list(da) + [p for p in db if p not in da]:     # in the order of the stores
                if p in da and p in db and da[p] == db[p]:
                    new[p] = da[p]
                    continue
                va = da[p] if p in da else self.load(a, (root, p))
                vb = db[p] if p in db else self.load(b, (root, p))
                if isinstance(va, tuple) and va[0] == 'agg':
                    va = da.get(p, va)
                if isinstance(vb, tuple) and vb[0] == 'agg':
                    vb = db.get(p, vb)
                # wildcard entries only on one side
                if isinstance(va, tuple) and va[0] == 'uninit' and p not in da:
                    va = vb if not T.is_int(vb) else va
                if isinstance(vb, tuple) and vb[0] == 'uninit' and p not in db:
                    vb = va if not T.is_int(va) else vb
                new[p] = T.ite(c, va, vb)
            a.heap[root] = new
        for k, v in b.dyn.items():
            if k not in a.dyn:
                a.dyn[k] = v
            elif a.dyn[k] != v:
                a.dyn[k] = None

    # ------------------------------------------------------------ functions
    def run(self, fn, this_cls=None, this_root=('this',), argvals=None, st=None):
        """analyse one function from an arbitrary initial state; returns (trace, state, value)"""
        st = st or St()
        this = None
        if fn.get("cls") and not fn.get("static"):
            this = (this_root, ())
            st.dyn[this] = this_cls or fn["cls"]
        fr = Frame(fn, this, this_cls or fn.get("cls"))
        fr.id = fresh()
        for i, prm in enumerate(fn["params"]):
            ti = self.p.ty(prm["t"])
            name = prm["n"] or "arg%d" % i
            if argvals and name in argvals:
                fr.env[prm["d"]] = argvals[name]
            elif ti["k"] == "ref":
                fr.env[prm["d"]] = ('loc', (('param', name), ()))
            else:
                root = ('v', fr.id, prm["d"], name)
                fr.env[prm["d"]] = ('loc', (root, ()))
                if ti["k"] == "ptr" and i not in self.nullable:
                    v = ('ptr', (('param', name), ()))
                    nx = fn["params"][i + 1] if i + 1 < len(fn["params"]) else None
                    if nx and self.itype(self.p.strip_ref(ti["to"])) == (8, False) and self.itype(nx["t"]) == (64, False):
                        self.sized[(('param', name), ())] = ('init', ('param', nx["n"] or "arg%d" % (i + 1)), ())
                else:
                    v = ('init', ('param', name), ())
                    self.settype(v, prm["t"])
                st.heap.setdefault(root, {})[()] = v
        val = self.call_body(st, fr)
        return st.trace, st, val

    def call_body(self, st, fr):
        fn = fr.fn
        self.analysed.add(fn["id"] if "id" in fn else fn["q"])
        self.fnstack.append(fn)
        self.depth += 1
        fr.pc0 = len(st.pc)
        try:
            if fn.get("isctor"):
                self.ctor_inits(st, fr)
            if "body" in fn and fn["body"] is not None:
                self.stmt(st, fr, fn["body"])
            if fn.get("isdtor"):
                pass
        finally:
            self.depth -= 1
            self.fnstack.pop()
        return self.finish(st, fr)

    def finish(self, st, fr):
        """merge the states at the returns with the fall-through state"""
        outs = list(fr.returns)
        if st.live:
            o = st.fork()
            outs.append((o, None))
        else:
            o = None
        if not outs:
            return None
        # later outcomes are the 'else' of earlier ones
        acc_st, acc_v = outs[-1]
        for s, v in reversed(outs[:-1]):
            c = 1
            for x in s.pc[fr.pc0:]:
                c = T.cand(c, x)
            m = s.fork()
            if T.is_int(c) and c:
                m, nv = s, v
            else:
                self.merge(m, acc_st, c)
                nv = v if v == acc_v else T.ite(c, v if v is not None else 0, acc_v if acc_v is not None else 0)
            acc_st, acc_v = m, nv
        pc = st.pc[:fr.pc0]
        if len(outs) == 1:
            pc = acc_st.pc
        st.become(acc_st)
        st.live = True
        st.pc = pc
        return acc_v

    def ctor_inits(self, st, fr):
        fn = fr.fn
        for i in fn.get("inits", []):
            e = i.get("e")
            if "f" in i:
                loc = (fr.this[0], fr.this[1] + (i["f"],))
                self.init_loc(st, fr, loc, e, self.field_type(fn["cls"], i["f"]))
            elif "base" in i:
                if e is not None:
                    self.init_loc(st, fr, fr.this, e, i["base"], base=True)
            elif i.get("deleg"):
                self.init_loc(st, fr, fr.this, e, None, base=True)

    def field_type(self, cls, f):
        for q, x in self.p.all_fields(cls):
            if x["n"] == f:
                return x["t"]
        return None

    def init_loc(self, st, fr, loc, e, ty, base=False):
        """construct an object at loc from initialiser e"""
        if e is None:
            return
        if ty is not None and self.p.ty(ty)["k"] == "ref":
            l = self.lval(st, fr, e)
            self.store(st, loc, ('lref', l), e)
            return
        if e.get("k") == "ctor" and e["q"] in self.p.recs and not e.get("copy") and not e.get("move"):
            self.construct(st, fr, loc, e, base)
            return
        if e.get("k") == "ilist" and e.get("q") in self.p.recs:
            for f, x in zip(e["fields"], e["inits"]):
                if f.startswith("base:"):
                    self.init_loc(st, fr, loc, x, f[5:], base=True)
                else:
                    self.init_loc(st, fr, (loc[0], loc[1] + (f,)), x, self.field_type(e["q"], f))
            return
        v = self.rval(st, fr, e)
        if base and v is None:
            return
        self.store(st, loc, v, e)

    def construct(self, st, fr, loc, e, base=False):
        cls = e["q"]
        if not base:
            st.dyn[loc] = cls
        fn = self.p.fns.get(e["fn"])
        if cls in self.opaque_ctors and not base and not e.get("copy") and not e.get("move"):
            vs = tuple(self.arg_value(st, fr, a) for a in e["args"])
            self.emit(st, ('ext', 'new ' + cls, loc, tuple(v if v is not None else 0 for v in vs), 0, self.info(e)))
            return
        if fn is None:
            # implicit: member default initialisers
            self.default_members(st, fr, loc, cls)
            return
        self.enter(st, fr, fn, loc, e["args"], cls, e)

    def default_members(self, st, fr, loc, cls):
        for b in self.p.bases(cls):
            if b in self.p.recs:
                self.default_members(st, fr, loc, b)
        r = self.p.recs.get(cls)
        for f in (r["fields"] if r else []):
            if f.get("init") is not None:
                g = Frame(fr.fn, loc, cls, fr)
                g.id = fr.id
                self.init_loc(st, g, (loc[0], loc[1] + (f["n"],)), f["init"], f["t"])

    def bind_params(self, st, fr, nf, fn, args, e):
        for i, prm in enumerate(fn["params"]):
            a = args[i] if i < len(args) else None
            ti = self.p.ty(prm["t"])
            if a is None:
                continue
            if ti["k"] == "ref":
                nf.env[prm["d"]] = ('loc', self.lval(st, fr, a))
            else:
                root = ('v', nf.id, prm["d"], prm["n"])
                nf.env[prm["d"]] = ('loc', (root, ()))
                self.init_loc(st, fr, (root, ()), a, prm["t"])

    def enter(self, st, fr, fn, this, args, cls, e, pre=None):
        if self.depth > MAXDEPTH or sum(1 for f in self.fnstack if f is fn) > 1:
            self.note("call depth/recursion at %s" % fn["q"], e)
            return self.opaque_call(st, fr, fn["q"], args, e, this)
        nf = Frame(fn, this, cls)
        nf.id = fresh()
        self.bind_params(st, fr, nf, fn, args, e)
        saved = st.trace
        st.trace = []
        v = self.call_body(st, nf)
        t = st.trace
        st.trace = saved
        if t:
            self.emit(st, ('scope', fn["q"], t, self.info(e), v))
        if not st.live:
            pass
        return v

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        if s is None or not st.live:
            return
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            self.note("statement %s" % (s.get("cn") or k), s)
            self.emit(st, ('unk', k, self.info(s)))
            return
        m(st, fr, s)

    def s_block(self, st, fr, s):
        n = len(fr.raii)
        for x in s["s"]:
            if not st.live:
                break
            self.stmt(st, fr, x)
        if len(fr.raii) > n:
            if st.live:
                self.leave(st, fr, n, s)
            del fr.raii[n:]

    def leave(self, st, fr, n, s, keep=None):
        """the owning local objects beyond the first n go out of scope"""
        for kind, loc in reversed(fr.raii[n:]):
            v = ('ptr', loc) if kind == 'obj' else self.load(st, loc)
            if v is None or T.is_int(v) or v == keep:
                continue
            self.emit(st, ('delete', v, False, self.info(s)))

    def s_nullstmt(self, st, fr, s):
        pass

    def s_expr(self, st, fr, s):
        self.rval(st, fr, s["e"], discard=True)

    def s_decl(self, st, fr, s):
        for v in s["vars"]:
            self.declare(st, fr, v)

    def declare(self, st, fr, v):
        root = ('v', fr.id, v["d"], v["n"])
        ti = self.p.ty(v["t"])
        self.decl_t[(root, ())] = v["t"]
        if v.get("static"):
            root = ('static', v["n"], self.info()[2])
        if "bind" in v:
            if ti["k"] == "ref":
                base = self.lval(st, fr, v["init"])
                fr.env[v["d"]] = ('loc', base)
            else:
                fr.env[v["d"]] = ('loc', (root, ()))
                self.init_loc(st, fr, (root, ()), v.get("init"), v["t"])
            for b in v["bind"]:
                if b["e"] is not None:
                    fr.env[b["d"]] = ('expr', b["e"])
            return
        if ti["k"] == "ref":
            fr.env[v["d"]] = ('loc', self.lval(st, fr, v["init"]))
            return
        if self.contracts and v.get("init") is not None and v["init"].get("k") == "ctor" and not v.get("static") and \
                v["init"]["q"] in self.opaque_ctors and not v["init"].get("copy") and not v["init"].get("move"):
            # a local object is an object that is deleted at the end of the block
            root = ('obj', fresh(), v["init"]["q"])
            self.emit(st, ('new', ('ptr', (root, ())), v["t"], False, 0, self.info(v)))
            st.heap.setdefault(root, {})
            fr.env[v["d"]] = ('loc', (root, ()))
            self.init_loc(st, fr, (root, ()), v["init"], v["t"])
            fr.raii.append(('obj', (root, ())))
            return
        fr.env[v["d"]] = ('loc', (root, ()))
        st.heap.pop(root, None)
        if self.contracts and not v.get("static") and ti.get("q", "").startswith("std::unique_ptr"):
            fr.raii.append(('uptr', (root, ())))
        if v.get("init") is not None:
            i = v["init"]
            if i.get("k") == "ctor" and i["q"] not in self.p.recs and i.get("dflt") and not i.get("zero") \
                    and ti["k"] == "carray":
                return
            self.init_loc(st, fr, (root, ()), i, v["t"])

    def s_if(self, st, fr, s):
        if s.get("init"):
            self.stmt(st, fr, s["init"])
        if s.get("cv"):
            self.declare(st, fr, s["cv"])
        c = self.cond(st, fr, s["c"])
        if not st.live:
            return
        self.branch(st, c, lambda a: self.stmt(a, fr, s["a"]), lambda b: self.stmt(b, fr, s["b"]), s)

    def s_return(self, st, fr, s):
        v = None
        if s.get("e") is not None:
            if fr.fn.get("ret") and self.p.ty(fr.fn["ret"])["k"] == "ref":
                v = ('lref', self.lval(st, fr, s["e"]))
            else:
                v = self.rval(st, fr, s["e"])
        if not st.live:
            return
        if fr.raii:
            self.leave(st, fr, 0, s, v)
        self.emit(st, ('ret', v, self.info(s)))
        o = st.fork()
        o.trace = []
        fr.returns.append((o, v))
        self.last_ret = (o, v)
        st.live = False
        st.end = 'ret'

    def s_break(self, st, fr, s):
        if len(fr.raii) > fr.mark:
            self.leave(st, fr, fr.mark, s)
        self.emit(st, ('brk', self.info(s)))
        if fr.breaks is not None:
            fr.breaks.append(st.fork())
        st.live = False
        st.end = 'brk'

    def s_continue(self, st, fr, s):
        if len(fr.raii) > fr.mark:
            self.leave(st, fr, fr.mark, s)
        self.emit(st, ('cont', self.info(s)))
        if fr.conts is not None:
            fr.conts.append(st.fork())
        st.live = False
        st.end = 'cont'

    def s_switch(self, st, fr, s):
        if s.get("init"):
            self.stmt(st, fr, s["init"])
        v = self.rval(st, fr, s["c"])
        items = s["items"]
        # segments: list of (values or 'default', start index)
        labels = []
        i = 0
        while i < len(items):
            vals = []
            deflt = False
            while i < len(items) and "stmt" not in items[i]:
                if items[i].get("default"):
                    deflt = True
                else:
                    vals.append(self.rval(st, fr, items[i]["case"]))
                i += 1
            labels.append((vals, deflt, i))
            while i < len(items) and "stmt" in items[i]:
                i += 1
        saved, mark, fr.mark = fr.breaks, fr.mark, len(fr.raii)
        outs = []

        def run_from(b, idx):
            fr.breaks = []
            for it in items[idx:]:
                if not b.live:
                    break
                if "stmt" in it:
                    self.stmt(b, fr, it["stmt"])
            if fr.breaks and not b.live and b.end == 'brk' and len(fr.breaks) == 1:
                x = fr.breaks[0]
                b.become(x)
                b.live = True
                if b.trace and b.trace[-1][0] == 'brk':
                    b.trace.pop()
            elif fr.breaks:
                self.note("conditional break in switch", s)
                acc = b if b.live else None
                for x in fr.breaks:
                    if acc is None:
                        acc = x
                        acc.trace = b.trace
                    else:
                        self.merge(x, acc, ('nd', fresh()))
                        acc = x
                b.become(acc)
                b.live = True

        def chain(b, j):
            if j == len(labels):
                d = [l for l in labels if l[1]]
                if d:
                    run_from(b, d[0][2])
                return
            vals, deflt, idx = labels[j]
            if not vals:
                chain(b, j + 1)
                return
            c = 0
            for x in vals:
                c = T.cor(c, T.eq(v, x))
            if deflt:
                # default shared with cases: the rest goes there anyway
                pass
            self.branch(b, c, lambda a: run_from(a, idx), lambda a: chain(a, j + 1), s)

        chain(st, 0)
        fr.breaks, fr.mark = saved, mark

    def s_try(self, st, fr, s):
        a = st.fork()
        self.stmt(a, fr, s["b"])
        hs = []
        for h in s["h"]:
            b = st.fork()
            b.heap = {r: dict(d) for r, d in st.heap.items()}
            # effects of the body may or may not have happened
            for r, d in a.heap.items():
                for p, x in d.items():
                    old = st.heap.get(r, {}).get(p)
                    if old != x:
                        b.heap.setdefault(r, {})[p] = ('u', fresh())
            if h.get("d") is not None:
                fr.env[h["d"]] = ('loc', (('exc', fresh()), ()))
            self.stmt(b, fr, h["b"])
            hs.append((h.get("t", "..."), b))
        self.emit(st, ('try', a.trace, [(t, b.trace, b.live) for t, b in hs], self.info(s)))
        live = [x for x in [a] + [b for _, b in hs] if x.live]
        if not live:
            st.become(a)
            st.live = False
            return
        acc = live[-1]
        for x in reversed(live[:-1]):
            self.merge(x, acc, ('nd', fresh()))
            acc = x
        pc = st.pc
        st.become(acc)
        st.pc = pc

    # ------------------------------------------------------------ loops
    def s_for(self, st, fr, s):
        if s.get("i"):
            self.stmt(st, fr, s["i"])
        self.loop(st, fr, s, s.get("c"), s.get("b"), s.get("n"))

    def s_while(self, st, fr, s):
        if s.get("cv"):
            self.note("condition variable in while", s)
        self.loop(st, fr, s, s.get("c"), s.get("b"), None)

    def s_do(self, st, fr, s):
        self.loop(st, fr, s, s.get("c"), s.get("b"), None, post=True)

    def loop(self, st, fr, s, ce, body, inc, post=False):
        mark, fr.mark = fr.mark, len(fr.raii)
        try:
            self.loop1(st, fr, s, ce, body, inc, post)
        finally:
            fr.mark = mark

    def loop1(self, st, fr, s, ce, body, inc, post=False):
        # concrete unrolling while the condition is decided by constants
        if not post and ce is not None and ce["k"] != "int":
            probe = st.fork()
            n = 0
            ok = True
            saved = (list(fr.returns), fr.breaks, fr.conts, len(self.notes))
            while True:
                c = self.cond(probe, fr, ce) if ce is not None else 1
                c = self.assume(probe, c)
                if not T.is_int(c) or (ce is None):
                    ok = False
                    break
                if not c:
                    break
                n += 1
                if n > UNROLL:
                    ok = False
                    break
                fr.breaks, fr.conts = [], []
                self.stmt(probe, fr, body)
                if not probe.live and probe.end == 'cont' and len(fr.conts) == 1 and not fr.breaks:
                    x = fr.conts[0]
                    probe.become(x)
                    probe.live = True
                elif fr.breaks or fr.conts:
                    ok = False
                    break
                if not probe.live:
                    break
                if inc is not None:
                    self.rval(probe, fr, inc, discard=True)
            if ok and (n > 0 or (probe.live)):
                fr.breaks, fr.conts = saved[1], saved[2]
                tr = probe.trace
                st.become(probe)
                st.trace.extend(x for x in tr if x[0] != 'cont')
                return
            fr.returns[:] = saved[0]
            fr.breaks, fr.conts = saved[1], saved[2]
            del self.notes[saved[3]:]

        def cond_fn(b):
            return self.cond(b, fr, ce) if ce is not None else 1

        def body_fn(b):
            self.stmt(b, fr, body)

        def inc_fn(b):
            if inc is not None:
                self.rval(b, fr, inc, discard=True)
        self.sym_loop(st, fr, s, cond_fn, body_fn, inc_fn, None, post=post)

    def s_rfor(self, st, fr, s):
        if s.get("init"):
            self.stmt(st, fr, s["init"])
        loc = self.lval(st, fr, s["range"])
        v = s["var"]
        mark, fr.mark = fr.mark, len(fr.raii)
        try:
            self.over(st, fr, s, loc, v, lambda b: self.stmt(b, fr, s["b"]), self.csize(st, loc, s["range"]))
        finally:
            fr.mark = mark

    def bind_elem(self, st, fr, loc, i, v):
        el = (loc[0], loc[1] + (('[]', i),))
        if "bind" in v:
            if self.p.ty(v["t"])["k"] == "ref":
                fr.env[v["d"]] = ('loc', el)
            else:
                root = ('v', fr.id, v["d"], v["n"])
                st.heap.pop(root, None)
                self.store(st, (root, ()), self.load(st, el))
                fr.env[v["d"]] = ('loc', (root, ()))
            for b in v["bind"]:
                if b["e"] is not None:
                    fr.env[b["d"]] = ('expr', b["e"])
            return
        if self.p.ty(v["t"])["k"] == "ref":
            fr.env[v["d"]] = ('loc', el)
        else:
            root = ('v', fr.id, v["d"], v["n"])
            fr.env[v["d"]] = ('loc', (root, ()))
            st.heap.pop(root, None)
            self.store(st, (root, ()), self.load(st, el, v["t"]))

    def elem_alias_dyn(self, st):
        pass

    def over(self, st, fr, s, loc, v, body, N):
        """for v in loc: body"""
        if T.is_int(N) and N <= UNROLL:
            for i in range(N):
                fb, fc = fr.breaks, fr.conts
                fr.breaks, fr.conts = [], []
                self.bind_elem(st, fr, loc, i, v)
                body(st)
                if fr.breaks or fr.conts:
                    if not st.live and st.end == 'cont' and len(fr.conts) == 1 and not fr.breaks:
                        st.become(fr.conts[0])
                        st.live = True
                        if st.trace and st.trace[-1][0] == 'cont':
                            st.trace.pop()
                    else:
                        self.note("break in an unrolled range loop", s)
                        acc = st if st.live else None
                        for x in fr.breaks + fr.conts:
                            if acc is None:
                                acc = x
                            else:
                                self.merge(x, acc, ('nd', fresh()))
                                acc = x
                        st.become(acc)
                        st.live = True
                fr.breaks, fr.conts = fb, fc
                if not st.live:
                    return
            return

        def body_fn(b, ix):
            self.bind_elem(b, fr, loc, ix, v)
            body(b)
        self.sym_loop(st, fr, s, None, body_fn, None, N)

    def changed(self, before, after, heapset):
        for root, d in after.heap.items():
            b = before.heap.get(root)
            if b is None:
                if isinstance(root, tuple) and root[0] in ('v', 'obj'):
                    continue        # created inside
                b = {}
            if b is d:
                continue
            for p, x in d.items():
                if b.get(p) != x:
                    heapset.add((root, p))
            for p in b:
                if p not in d:
                    heapset.add((root, p))

    def unrolled(self, st, fr, s, cond_fn, body_fn, inc_fn, N, post):
        """the first iterations one by one; what needs more of them ends in 'cut'"""
        saved = (fr.breaks, fr.conts)
        outer, st.trace = st.trace, []
        base = len(st.pc)
        brks = []

        def after(pc):
            c = 1
            for y in pc[base:]:
                c = T.cand(c, y)
            return c

        def again(s1, k):
            def go(s2):
                if k >= self.unroll:
                    self.emit(s2, ('cut', self.info(s)))
                    s2.live = False
                    s2.end = 'cut'
                    return
                fr.breaks, fr.conts = [], []
                tr, s2.trace = s2.trace, []
                if N is not None:
                    body_fn(s2, k)
                else:
                    body_fn(s2)
                brks.extend(fr.breaks)
                conts = fr.conts
                ends = ([s2.fork()] if s2.live else []) + conts
                tr = tr + [('scope', '#iter', s2.trace, self.info(s), None)]
                if not ends:
                    s2.trace = tr
                    return
                acc = ends[0]
                for x in ends[1:]:
                    x2 = x.fork()
                    self.merge(x2, acc, after(x.pc))
                    acc = x2
                s2.become(acc)
                s2.live = True
                s2.trace = tr
                if inc_fn is not None:
                    inc_fn(s2)
                again(s2, k + 1)
            if post and k == 0:
                go(s1)
            else:
                c = T.lt(k, N) if N is not None else T.truth(cond_fn(s1))
                self.branch(s1, c, go, lambda x: None, s)
        again(st, 0)
        tr = st.trace
        fr.breaks, fr.conts = saved
        for x in brks:
            if not st.live:
                x2 = x.fork()
                st.become(x2)
                st.live = True
            else:
                x2 = x.fork()
                self.merge(x2, st, after(x.pc))
                st.become(x2)
                st.live = True
        st.trace = outer
        st.pc = st.pc[:base]
        self.emit(st, ('scope', '#loop', tr, self.info(s), None))

    def sym_loop(self, st, fr, s, cond_fn, body_fn, inc_fn, N, post=False, kind=None):
        if self.unroll:
            return self.unrolled(st, fr, s, cond_fn, body_fn, inc_fn, N, post)
        L = fresh()
        counted = N is not None
        ix = ('ix', L)
        T.ATOM_TYPE[ix] = (64, False)
        M = set()
        saved = (fr.breaks, fr.conts)
        base_returns = len(fr.returns)
        nnotes = len(self.notes)
        result = None
        self.loops.append(L)
        types = {}
        at, other = {}, set()           # iterators: the container each moves over

        def place(x):
            if isinstance(x, tuple) and x and x[0] == 'iter':
                return x[1], x[2]
            if isinstance(x, tuple) and x and x[0] == 'ptr' and isinstance(x[1], tuple):
                r, p = x[1]
                if p and isinstance(p[-1], tuple) and p[-1][0] == '[]':
                    return (r, p[:-1]), p[-1][1]
            return None
        for attempt in range(6):
            b = st.fork()
            lv = {}
            at = {}
            for (root, p) in sorted(M, key=T.skey):
                cur = self.load(st, (root, p))
                sym = ('lv', L, root, p)
                if place(cur) and (root, p) not in other:
                    T.ATOM_TYPE.setdefault(sym, (64, False))
                    at[root, p] = place(cur)[0]
                    sym = ('iter', at[root, p], sym)
                elif isinstance(cur, tuple) and cur in T.ATOM_TYPE:
                    T.ATOM_TYPE.setdefault(sym, T.ATOM_TYPE[cur])
                elif p and p[-1] in ('#', STREAM_POS):
                    T.ATOM_TYPE.setdefault(sym, (64, False))
                elif (root, p) in self.loc_type:
                    it = self.itype(self.loc_type[(root, p)])
                    if it:
                        T.ATOM_TYPE.setdefault(sym, it)
                lv[(root, p)] = sym
                d = b.heap.setdefault(root, {})
                for q in [q for q in d if len(q) > len(p) and q[:len(p)] == p and (root, q) not in M]:
                    del d[q]
                d[p] = sym
            del fr.returns[base_returns:]
            fr.breaks, fr.conts = [], []
            b.pc = st.pc
            pre = b.fork()
            c = 1
            if not counted and not post:
                c = T.truth(cond_fn(b))
            ctrace = b.trace
            b.trace = []
            b.pc = b.pc + tuple(T.conj(c)) if not T.is_int(c) else b.pc
            if counted:
                body_fn(b, ix)
            else:
                body_fn(b)
            # continue states join the end of the body
            ends = ([b] if b.live else []) + fr.conts
            if ends:
                acc = ends[0]
                for x in ends[1:]:
                    cc = 1
                    for y in x.pc[len(st.pc):]:
                        cc = T.cand(cc, y)
                    x2 = x.fork()
                    self.merge(x2, acc, cc)
                    acc = x2
                btrace = b.trace
                if acc is not b:
                    b.become(acc)
                    b.live = True
                b.trace = btrace
                if inc_fn is not None:
                    inc_fn(b)
                if post:
                    c = T.truth(cond_fn(b))
            m2 = set()
            if ends:
                self.changed(pre, b, m2)
            for x in fr.breaks:
                self.changed(pre, x, m2)
            for x, _ in fr.returns[base_returns:]:
                self.changed(pre, x, m2)
            # drop per-element stores at the loop index (handled below)
            m3 = set()
            for (root, p) in m2:
                if isinstance(root, tuple) and root[0] in ('v', 'obj') and root not in st.heap:
                    continue
                if any(isinstance(y, tuple) and y[0] == '[]' and self.has_lv(y[1], L) for y in p):
                    continue
                m3.add((root, p))
            lost = {k for k in at if any((place(self.load(x, k)) or (0,))[0] != at[k]
                                         for x in ([b] if ends else []) + fr.breaks)}
            if lost:
                other |= lost
                M |= m3
                del self.notes[nnotes:]
                continue
            if m3 <= M:
                result = (b, pre, c, ctrace, bool(ends), list(fr.breaks))
                break
            M |= m3
            del self.notes[nnotes:]
        self.loops.pop()
        rets = fr.returns[base_returns:]
        del fr.returns[base_returns:]
        fr.breaks, fr.conts = saved
        if result is None:
            self.note("loop summary did not stabilise", s)
            self.emit(st, ('unk', 'loop', self.info(s)))
            return
        b, pre, c, ctrace, hasend, breaks = result
        # ---- induction variables
        sub = {}
        def value(x, k):
            v = self.load(x, k)
            return place(v)[1] if k in at else v

        def whole(v, k):
            return ('iter', at[k], v) if k in at else v
        init = {k: value(st, k) for k in M}
        newv = {k: value(b, k) for k in M} if hasend else {}
        lvsym = {k: ('lv', L) + k for k in M}
        # elements that only the first look at the body (with the first index) stored to, and that it does not read
        cand = {k for k in M if any(isinstance(y, tuple) and y[0] == '[]' and T.is_int(y[1]) for y in k[1])
                and b.heap.get(k[0], {}).get(k[1]) == lvsym[k]} if hasend and not breaks and not rets else set()
        if cand:
            read = set()
            for x in [ctrace, b.trace] + [v for k, v in newv.items() if k not in cand] + \
                    [v for d in b.heap.values() for v in d.values() if v not in lvsym.values()]:
                lvs(x, L, read)
            for k in cand:
                if lvsym[k] not in read:
                    M.discard(k)
                    init.pop(k), newv.pop(k, None), lvsym.pop(k)

        def free(t):
            return not any(T.occurs(t, lvsym[k]) for k in M)
        if not counted and not post and hasend and not breaks and not rets:
            N, idxk = self.loop_count(c, M, init, newv, lvsym, free)
        elif not counted and not post and hasend:
            N, idxk = self.loop_count(c, M, init, newv, lvsym, free)
        conds = None
        if counted or N is not None:
            # linear accumulators
            changed = True
            while changed:
                changed = False
                for k in sorted(M, key=T.skey):
                    if lvsym[k] in sub or k not in newv:
                        continue
                    nv = T.subst(newv[k], sub)
                    d = T.sub(nv, lvsym[k]) if not self.nonnum(nv) else None
                    if d is not None and not free(d):
                        d = delta(nv, lvsym[k])
                    if nv == lvsym[k]:
                        sub[lvsym[k]] = init[k]
                        changed = True
                    elif d is not None and free(d):
                        i0 = init[k]
                        w = self.itype(self.decl_t[k]) if k in self.decl_t else None
                        if w and (w[0] < 32 or w[0] == 32 and T.is_int(d) and abs(d) >= 8) and isinstance(nv, tuple):
                            # a counter that may well wrap
                            if not T.is_int(d) or T.occurs(d, ix) or not T.is_int(i0):
                                continue
                            sub[lvsym[k]] = T.cast(T.add(i0, T.mul(d, ix)), w[0], w[1])
                            changed = True
                            continue
                        if T.is_int(d) or not T.occurs(d, ix) and not self.has_rd_ix(d, L):
                            sub[lvsym[k]] = T.add(i0, T.mul(d, ix))
                        else:
                            L2 = '%s_' % L
                            T.ATOM_TYPE[('ix', L2)] = (64, False)
                            sub[lvsym[k]] = T.add(i0, T.mk_sum(L2, ix, T.subst(d, {ix: ('ix', L2)})))
                        changed = True
        body_tr = self.map_trace(ctrace + b.trace, sub) if sub else ctrace + b.trace
        carry = {}
        after = st.fork()
        after.dyn = dict(b.dyn)
        exact = (counted or N is not None) and not breaks
        for k in M:
            if k in newv:
                nv = T.subst(newv[k], sub)
                if lvsym[k] in sub and exact:
                    v0 = sub[lvsym[k]]
                    final = T.subst(v0, {ix: N})
                elif nv == lvsym[k] and not breaks:
                    final = init[k]
                else:
                    final = ('lo', L) + k
                    if lvsym[k] in T.ATOM_TYPE:
                        T.ATOM_TYPE.setdefault(final, T.ATOM_TYPE[lvsym[k]])
                carry[k] = (init[k], nv)
            else:
                final = ('lo', L) + k
                carry[k] = (init[k], ('lo', L) + k)
            d = after.heap.setdefault(k[0], {})
            for q in [q for q in d if len(q) > len(k[1]) and q[:len(k[1])] == k[1] and (k[0], q) not in M]:
                del d[q]
            d[k[1]] = whole(final, k)
        # ---- element stores
        elem_src = [b] if hasend else []
        for src in elem_src + breaks:
            for root, d in src.heap.items():
                if isinstance(root, tuple) and root[0] in ('v', 'obj') and root not in st.heap:
                    if root[0] == 'v':
                        continue
                bd = pre.heap.get(root, {})
                for p, x in d.items():
                    if bd.get(p) == x:
                        continue
                    if (root, p) in M:
                        continue
                    if not any(isinstance(y, tuple) and y[0] == '[]' and self.has_lv(y[1], L) for y in p):
                        if root[0] == 'obj' and root not in st.heap:
                            after.heap.setdefault(root, {})[p] = T.subst(x, sub)
                        continue
                    np_ = []
                    okp = True
                    for y in p:
                        if isinstance(y, tuple) and y[0] == '[]':
                            t = T.subst(y[1], sub)
                            if t == ix:
                                np_.append(('[*]', L))
                            elif T.occurs(t, ix) or not free(t):
                                okp = False
                                np_.append(y)
                            else:
                                np_.append(('[]', t))
                        else:
                            np_.append(y)
                    if okp and exact:
                        ad = after.heap.setdefault(root, {})
                        was = ad.get(tuple(np_[:-1]))
                        if self.contracts and np_[-1] == ('[*]', L) and isinstance(was, tuple) and was[0] == 'fill' and was[1] == N:
                            # every element is given a value: none is left of those it was made with
                            ad[tuple(np_[:-1])] = ('vec', ())
                            ad[tuple(np_[:-1]) + ('#',)] = N
                        ad[tuple(np_)] = T.subst(x, sub)
                    else:
                        # contents unknown
                        cut = next(i for i, y in enumerate(p) if isinstance(y, tuple) and y[0] == '[]')
                        sz = self.load(after, (root, p[:cut] + ('#',)))
                        after.heap.setdefault(root, {})[p[:cut]] = ('u', fresh())
                        after.heap[root][p[:cut] + ('#',)] = sz
        kindname = 'for' if (counted or N is not None) else 'while'
        cnd = T.subst(c, sub) if sub else c
        ev = ('loop', L, kindname, N if kindname == 'for' else cnd, body_tr, carry, self.info(s),
              dict(exact=exact, post=post, breaks=len(breaks), rets=len(rets), cond=cnd, nct=len(self.map_trace(ctrace, sub) if sub else ctrace)))
        self.emit(st, ev)
        st.become(after)
        st.live = True
        infinite = (not counted and T.is_int(c) and c == 1)
        for j, (x, v) in enumerate(rets):
            x.pc = st.pc + ((('lexit', L, j),) if not (infinite and not breaks and j == len(rets) - 1) else ())
            v2 = T.subst(v, sub) if isinstance(v, tuple) else v
            for root, d in x.heap.items():
                for p in list(d):
                    d[p] = T.subst(d[p], sub) if isinstance(d[p], tuple) else d[p]
            fr.returns.append((x, v2))
        if infinite and not breaks:
            st.live = False
            st.end = 'ret'
        elif rets:
            for j in range(len(rets)):
                st.pc = st.pc + (T.cnot(('lexit', L, j)),)
        if not counted and kindname == 'while' and not breaks and not T.is_int(c):
            # on exit the condition is false of the final values
            pass

    def nonnum(self, v):
        return isinstance(v, tuple) and v[0] in ('ptr', 'iter', 'vec', 'agg', 's', 'lref', 'closure', 'uninit')

    def has_lv(self, t, L):
        if isinstance(t, tuple):
            if len(t) >= 2 and t[0] in ('lv', 'ix') and t[1] == L:
                return True
            return any(self.has_lv(x, L) for x in t)
        return False

    def has_rd_ix(self, t, L):
        return self.has_lv(t, L)

    def loop_count(self, c, M, init, newv, lvsym, free):
        """iteration count of `while (c)`, if c is an affine bound on an induction variable"""
        for k in sorted(M, key=T.skey):
            if k not in newv or self.nonnum(newv[k]):
                continue
            step = T.sub(newv[k], lvsym[k])
            if not T.is_int(step) or step == 0:
                continue
            i0 = init[k]
            if isinstance(i0, tuple) and i0[0] == 'uninit':
                continue
            for x in T.conj(c):
                if not isinstance(x, tuple):
                    continue
                n = None
                neg = False
                y = x
                if y[0] == 'not':
                    neg, y = True, y[1]
                if y[0] == 'lt':
                    # y: p < q   (not: p >= q)
                    p, q = y[1], y[2]
                    d = T.sub(q, p)               # > 0   or (neg) <= 0
                    if neg:
                        d = T.sub(1, d)            # 1-d > 0
                    coef = self.lin(d, lvsym[k])
                    if coef is None:
                        continue
                    a, rest = coef
                    if a * step >= 0:
                        continue
                    # a*i + rest > 0, each turn lowers the left side by st_
                    n = T.add(rest, T.mul(a, i0))
                    st_ = abs(a * step)
                    if st_ == 1:
                        cnt = n
                    else:
                        cnt = T.floordiv(T.add(n, st_ - 1), st_)
                    if free(cnt) and len(T.conj(c)) == 1:
                        return cnt, k
                elif y[0] == 'eq' and neg:
                    d = T.sub(y[2], y[1])
                    coef = self.lin(d, lvsym[k])
                    if coef is None:
                        continue
                    a, rest = coef
                    if a == 1:
                        rest = T.neg(rest)
                        a = -1
                    if a == -1 and step == 1:
                        cnt = T.sub(rest, i0)
                        if free(cnt) and len(T.conj(c)) == 1:
                            return cnt, k
                    if a == -1 and step == -1:
                        cnt = T.sub(i0, rest)
                        if free(cnt) and len(T.conj(c)) == 1:
                            return cnt, k
        return None, None

    def lin(self, d, atom):
        """d = a*atom + rest with rest free of atom"""
        items = T.poly_items(d)
        a = 0
        rest = {}
        for m, c in items.items():
            if m == (atom,):
                a = c
            elif any(T.occurs(x, atom) for x in m):
                return None
            else:
                rest[m] = c
        if a == 0:
            # through a non-negativity cast?
            return None
        return a, T.mk_poly(rest)

    def map_trace(self, tr, sub):
        if not sub:
            return tr
        out = []
        memo = {}

        def go(x):
            if isinstance(x, tuple):
                return T.subst(x, sub)
            return x

        def goloc(l):
            return (T.subst(l[0], sub) if isinstance(l[0], tuple) else l[0], T.subst(l[1], sub))
        for ev in tr:
            k = ev[0]
            if k == 'if':
                c = T.truth(go(ev[1]))
                A, B = self.map_trace(ev[2], sub), self.map_trace(ev[3], sub)
                out.append(('if', c, A, B, ev[4]))
            elif k == 'loop':
                out.append(('loop', ev[1], ev[2], go(ev[3]), self.map_trace(ev[4], sub),
                            {(go(q[0]) if isinstance(q[0], tuple) else q[0], go(q[1])): (go(v[0]), go(v[1]))
                             for q, v in ev[5].items()}, ev[6],
                            {a: (go(b) if a == 'cond' else b) for a, b in ev[7].items()}))
            elif k == 'scope':
                out.append(('scope', ev[1], self.map_trace(ev[2], sub), ev[3], go(ev[4])))
            elif k == 'try':
                out.append(('try', self.map_trace(ev[1], sub),
                            [(t, self.map_trace(h, sub), l) for t, h, l in ev[2]], ev[3]))
            elif k == 'set':
                out.append(('set', goloc(ev[1]), go(ev[2]), ev[3]))
            elif k == 'push':
                out.append(('push', goloc(ev[1]), go(ev[2]), ev[3]) + tuple(go(x) for x in ev[4:]))
            else:
                # leaf: substitute in everything except the trailing info
                body = tuple(go(x) if isinstance(x, tuple) else x for x in ev[1:-1])
                out.append((k,) + body + (ev[-1],))
        return out

    def map_loc_tr(self, l, sub):
        return l

    # ------------------------------------------------------------ expressions
    def cond(self, st, fr, e):
        if e is None:
            return 1
        return T.truth(self.num(self.rval(st, fr, e)))

    def num(self, v):
        if v is None:
            return ('u', fresh())
        if isinstance(v, tuple) and v[0] == 'ptr':
            return 1
        if isinstance(v, tuple) and v[0] == 'closure':
            return 1
        return v

    def rval(self, st, fr, e, discard=False):
        if e is None:
            return None
        k = e["k"]
        m = getattr(self, "e_" + k, None)
        if m is None:
            self.note("expression %s" % (e.get("cn") or k), e)
            for x in e.get("kids", []):
                self.rval(st, fr, x)
            return ('u', fresh())
        return m(st, fr, e)

    def lval(self, st, fr, e):
        """location designated by e (temporaries get a fresh root)"""
        k = e["k"]
        if k == "ref":
            d = fr_lookup(fr, e.get("d"))
            if e["dk"] in ("local", "param", "static") or d is not None:
                if d is None:
                    root = ('v', 'outer', e["d"], e["n"])
                    return (root, ())
                if d[0] == 'expr':
                    return self.lval(st, fr, d[1])
                return d[1]
            if e["dk"] == "global":
                return (('global', e["q"]), ())
            return (('ext', e.get("q", e["n"])), ())
        if k == "mem":
            b = self.base(st, fr, e)
            loc = (b[0], b[1] + (e["f"],))
            ft = self.field_type(e.get("c"), e["f"]) if e.get("c") else None
            if ft is not None and self.p.ty(ft)["k"] == "ref":
                v = self.load(st, loc)
                if isinstance(v, tuple) and v[0] == 'lref':
                    return v[1]
                return (('deref', v), ())
            return loc
        if k == "this":
            return fr.this
        if k == "un" and e["op"] == "*":
            v = self.rval(st, fr, e["a"])
            self.not_null(st, e, v)
            return self.deref(v)
        if k == "un" and e["op"] in ("++", "--") and not e.get("post"):
            self.rval(st, fr, e)
            return self.lval(st, fr, e["a"])
        if k == "idx":
            b = self.rval_ptr(st, fr, e["b"])
            i = self.num(self.rval(st, fr, e["i"]))
            if self.bounds:
                if self.p.ty(self.p.strip_ref(e["b"]["t"]))["k"] == "carray":
                    self.access(st, e, self.csize(st, b, e["b"]), T.add(i, 1), 'an array')
                elif b in self.sized:
                    self.access(st, e, self.sized[b], T.add(i, 1), 'the bytes given')
            return (b[0], b[1] + (('[]', i),))
        if k == "assign":
            self.rval(st, fr, e)
            return self.lval(st, fr, e["a"])
        if k == "cast" and e.get("ck") in ("NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase",
                                           "Dynamic", "ConstructorConversion", "UserDefinedConversion"):
            if e.get("lv") or self.is_rec(e):
                return self.lval(st, fr, e["e"])
        if k == "cond":
            c = self.cond(st, fr, e["c"])
            c = self.assume(st, c)
            if T.is_int(c):
                return self.lval(st, fr, e["a"] if c else e["b"])
        if k in ("call", "mcall", "opcall"):
            r = self.call_lval(st, fr, e)
            if r is not None:
                return r
        # temporary
        root = ('v', fresh(), 0, 'tmp')
        self.init_loc(st, fr, (root, ()), e, None)
        return (root, ())

    def is_rec(self, e):
        return self.p.ty(self.p.strip_ref(e["t"]))["k"] == "rec"

    def base(self, st, fr, e):
        """location of the object a member expression is applied to"""
        b = e["b"]
        if e.get("arrow"):
            v = self.rval(st, fr, b)
            self.not_null(st, e, v)
            return self.deref(v)
        return self.lval(st, fr, b)

    def rval_ptr(self, st, fr, e):
        """array or pointer expression -> location of the array"""
        ti = self.p.ty(self.p.strip_ref(e["t"]))
        if ti["k"] == "carray":
            return self.lval(st, fr, e)
        v = self.rval(st, fr, e)
        if isinstance(v, tuple) and v[0] == 'ptr':
            return v[1]
        if isinstance(v, tuple) and v[0] == 'iter':
            if v[2] == 0:
                return v[1]
            return (('deref', v), ())
        return (('deref', v), ())

    def deref(self, v):
        if isinstance(v, tuple):
            if v[0] == 'ptr':
                return v[1]
            if v[0] == 'lref':
                return v[1]
            if v[0] == 'iter':
                return (v[1][0], v[1][1] + (('[]', v[2]),))
        return (('deref', v), ())

    # -- leaves
    def e_int(self, st, fr, e):
        return int(e["v"])

    def e_flt(self, st, fr, e):
        return ('flt', repr(e["v"]))

    def e_str(self, st, fr, e):
        return ('s', e["v"])

    def e_null(self, st, fr, e):
        return 0

    def e_zero(self, st, fr, e):
        ti = self.p.ty(e["t"])
        if ti["k"] in ("rec", "carray"):
            return ('zero',)
        return 0

    def e_typeid(self, st, fr, e):
        return ('u', fresh())

    def e_this(self, st, fr, e):
        return ('ptr', fr.this)

    def e_ref(self, st, fr, e):
        if e["dk"] == "func":
            return ('func', e["fn"], e["q"])
        if e["dk"] == "global":
            g = self.p.globals.get(e["q"])
            if g and g.get("const") and g.get("init") is not None:
                return self.global_value(st, e["q"], g)
        return self.load_expr(st, fr, e)

    def global_value(self, st, q, g):
        if not hasattr(self, "_gv"):
            self._gv = {}
        if q not in self._gv:
            self._gv[q] = ('init', ('global', q), ())
            f = Frame({"q": q, "file": g["file"], "line": g["line"], "params": []})
            f.id = fresh()
            s2 = St()
            self.fnstack.append(f.fn)
            try:
                self._gv[q] = self.rval(s2, f, g["init"])
            finally:
                self.fnstack.pop()
        return self._gv[q]

    def load_expr(self, st, fr, e):
        loc = self.lval(st, fr, e)
        ti = self.p.ty(self.p.strip_ref(e["t"]))
        if ti["k"] == "carray":
            return ('ptr', loc)
        if (loc[0] and isinstance(loc[0], tuple) and loc[0][0] in ('v',)) and self.itype(e["t"]):
            self.loc_type[loc] = e["t"]
        v = self.load(st, loc, e["t"])
        if isinstance(v, tuple) and v[0] == 'lref':
            return self.load(st, v[1], e["t"])
        return v

    def e_mem(self, st, fr, e):
        return self.load_expr(st, fr, e)

    def e_idx(self, st, fr, e):
        return self.load_expr(st, fr, e)

    # -- operators
    def arith(self, op, a, b, ty, e, st=None):
        it = self.itype(ty) if ty else None
        ti = self.p.ty(self.p.strip_ref(ty)) if ty else {"k": "other"}
        a, b = self.num(a) if not (isinstance(a, tuple) and a[0] == 'ptr') else a, \
            self.num(b) if not (isinstance(b, tuple) and b[0] == 'ptr') else b
        if ti["k"] == "float":
            if op in "+*":
                return ('op', 'f' + op) + tuple(sorted((a, b), key=T.skey))
            return ('op', 'f' + op, a, b)
        if isinstance(a, tuple) and a[0] in ('ptr', 'iter') or isinstance(b, tuple) and b[0] in ('ptr', 'iter'):
            r = self.ptr_arith(op, a, b)
            if r is not None:
                return r
        w, sg = it or (64, False)
        if op == '+':
            return T.add(a, b)
        if op == '-':
            return T.sub(a, b)
        if op == '*':
            return T.mul(a, b)
        if op == '/':
            return T.floordiv(a, b)
        if op == '%':
            return T.mod(a, b)
        if op in ('&', '|', '^'):
            return T.bitop(op, a, b, w, sg)
        if op == '<<':
            return T.shl(a, b, w, sg)
        if op == '>>':
            return T.shr(a, b, w, sg)
        return ('op', op, a, b)

    def ptr_arith(self, op, a, b):
        ia = isinstance(a, tuple) and a[0] in ('ptr', 'iter')
        ib = isinstance(b, tuple) and b[0] in ('ptr', 'iter')

        def norm(x):
            if x[0] == 'iter':
                return x[1], x[2]
            r, p = x[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == '[]':
                return (r, p[:-1]), p[-1][1]
            return x[1], 0
        if ia and ib:
            la, xa = norm(a)
            lb, xb = norm(b)
            if la == lb:
                if op == '-':
                    return T.sub(xa, xb)
                if op == '==':
                    return T.eq(xa, xb)
                if op == '!=':
                    return T.cnot(T.eq(xa, xb))
                if op == '<':
                    return T.lt(xa, xb)
            if op in ('==', '!=') and a[0] == b[0] == 'ptr':
                return int(op == '!=')
            return None
        if ia and op in '+-':
            l, x = norm(a)
            return ('iter', l, T.add(x, b) if op == '+' else T.sub(x, b))
        if ib and op == '+':
            l, x = norm(b)
            return ('iter', l, T.add(x, a))
        if op in ('==', '!='):
            o = b if ia else a
            if o == 0:
                return int(op == '!=')
        return None

    def compare(self, op, a, b):
        a, b = (x if x is not None else ('u', fresh()) for x in (a, b))
        if isinstance(a, tuple) and a[0] in ('ptr', 'iter') or isinstance(b, tuple) and b[0] in ('ptr', 'iter'):
            r = self.ptr_arith(op, a, b)
            if r is not None:
                return r
        if op == '==':
            return T.eq(a, b)
        if op == '!=':
            return T.cnot(T.eq(a, b))
        if op == '<':
            return T.lt(a, b)
        if op == '>':
            return T.lt(b, a)
        if op == '<=':
            return T.le(a, b)
        if op == '>=':
            return T.le(b, a)
        return ('op', op, a, b)

    def is_float(self, e):
        return self.p.ty(self.p.strip_ref(e["t"]))["k"] == "float"

    def e_bin(self, st, fr, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.cond(st, fr, e["a"])
            a = self.assume(st, a)
            if T.is_int(a):
                if (op == "&&") == bool(a):
                    return self.cond(st, fr, e["b"])
                return int(op == "||")
            t = st.fork()
            t.pc = st.pc + tuple(T.conj(a if op == "&&" else T.cnot(a)))
            before = {r: dict(d) for r, d in t.heap.items()}
            b = self.cond(t, fr, e["b"])
            if t.trace or t.heap != before:
                root = ('v', fresh(), 0, 'sc')

                def f1(s1):
                    self.store(s1, (root, ()), self.cond(s1, fr, e["b"]))

                def f2(s1):
                    self.store(s1, (root, ()), int(op == "||"))
                if op == "&&":
                    self.branch(st, a, f1, f2, e)
                else:
                    self.branch(st, a, f2, f1, e)
                return self.load(st, (root, ()))
            return T.cand(a, b) if op == "&&" else T.cor(a, b)
        if op == ",":
            self.rval(st, fr, e["a"])
            return self.rval(st, fr, e["b"])
        a = self.rval(st, fr, e["a"])
        b = self.rval(st, fr, e["b"])
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if self.is_float(e["a"]):
                if op in (">", ">="):
                    return ('nd', ('f' + op.replace('>', '<'), b, a))
                return ('nd', ('f' + op, a, b))
            return self.compare(op, a, b)
        return self.arith(op, a, b, e["t"], e)

    def e_un(self, st, fr, e):
        op = e["op"]
        if op == "&":
            return ('ptr', self.lval(st, fr, e["a"]))
        if op == "*":
            return self.load_expr(st, fr, e)
        if op in ("++", "--"):
            loc = self.lval(st, fr, e["a"])
            old = self.load(st, loc, e["a"]["t"])
            self.settype(old, e["a"]["t"])
            if self.itype(e["a"]["t"]):
                self.loc_type[loc] = e["a"]["t"]
            new = self.arith('+' if op == "++" else '-', old, 1, e["a"]["t"], e)
            self.store(st, loc, new, e)
            return old if e.get("post") else new
        v = self.rval(st, fr, e["a"])
        if op == "!":
            return T.cnot(T.truth(self.num(v)))
        if op == "-":
            if self.is_float(e):
                return ('op', 'fneg', v)
            return T.neg(self.num(v))
        if op == "+":
            return v
        if op == "~":
            w, sg = self.itype(e["t"]) or (32, True)
            return T.bitnot(self.num(v), w, sg)
        return v

    def e_assign(self, st, fr, e):
        op = e["op"]
        loc = self.lval(st, fr, e["a"])
        if self.itype(e["a"]["t"]):
            self.loc_type[loc] = e["a"]["t"]
        if op == "=":
            v = self.rval(st, fr, e["b"])
        else:
            b = self.rval(st, fr, e["b"])
            old = self.load(st, loc, e["a"]["t"])
            self.settype(old, e["a"]["t"])
            v = self.arith(op[:-1], old, b, e.get("ct") or e["t"], e)
            it = self.itype(e["a"]["t"])
            if it and not self.nonnum(v) and op[:-1] in ('|', '&', '^', '<<', '>>'):
                v = T.cast(v, *it)
            elif it and it[0] < 32 and not self.nonnum(v):
                v = T.cast(v, *it)
        if not st.live:
            return v
        self.store(st, loc, v, e)
        return v

    def e_cond(self, st, fr, e):
        c = self.cond(st, fr, e["c"])
        c = self.assume(st, c)
        if T.is_int(c):
            return self.rval(st, fr, e["a"] if c else e["b"])
        root = ('v', fresh(), 0, 'cond')
        self.branch(st, c, lambda s1: self.store(s1, (root, ()), self.rval(s1, fr, e["a"])),
                    lambda s1: self.store(s1, (root, ()), self.rval(s1, fr, e["b"])), e)
        return self.load(st, (root, ()))

    def e_cast(self, st, fr, e):
        ck = e["ck"]
        v = self.rval(st, fr, e["e"])
        if ck in ("IntegralCast", "BooleanToSignedIntegral"):
            it = self.itype(e["t"])
            v = self.num(v)
            if self.nonnum(v):
                return v
            if self.p.ty(self.p.strip_ref(e["e"]["t"]))["k"] == "bool" and not T.is_int(v):
                return T.truth(v)
            return T.cast(v, *it) if it else v
        if ck in ("IntegralToBoolean", "PointerToBoolean"):
            return T.truth(self.num(v)) if not (isinstance(v, tuple) and v[0] == 'ptr') else 1
        if ck == "NoOp":
            it = self.itype(e["t"])
            if it and isinstance(v, (int, tuple)) and not self.nonnum(v) and not e.get("lv"):
                return v if it[0] == 1 else T.cast(v, *it) if T.is_int(v) else v
            return v
        if ck in ("IntegralToFloating",):
            return ('op', 'i2f', v)
        if ck == "FloatingToIntegral":
            it = self.itype(e["t"])
            return ('op', 'f2i', it[0], it[1], v)
        if ck == "FloatingCast":
            return v
        if ck == "NullToPointer":
            return 0
        if ck == "ToVoid":
            return None
        return v

    def e_throw(self, st, fr, e):
        self.emit(st, ('throw', self.throw_type(e), self.info(e)))
        st.live = False
        st.end = 'throw'
        return None

    def throw_type(self, e):
        return self.p.ty(e["et"]).get("q", e["et"]) if e.get("et") else "rethrow"

    def e_lambda(self, st, fr, e):
        n = fresh()
        env = {}
        for c in e["caps"]:
            if c["k"] == "this":
                continue
            d = fr_lookup(fr, c["d"])
            if c.get("init") is not None:
                root = ('v', n, c["d"], c["n"])
                self.store(st, (root, ()), self.rval(st, fr, c["init"]))
                env[c["d"]] = ('loc', (root, ()))
            elif d is None:
                continue
            elif c["k"] == "ref" or d[0] == 'expr':
                env[c["d"]] = d
            else:
                root = ('v', n, c["d"], c["n"])
                self.store(st, (root, ()), self.load(st, d[1]))
                env[c["d"]] = ('loc', (root, ()))
        self.closures[n] = (e, env, fr)
        return ('closure', n)

    def call_closure(self, st, fr, clo, argvals, e):
        """argvals: list of ('loc', loc) or ('val', term)"""
        node, env, dfr = self.closures[clo[1]]
        fn = {"q": (self.fnstack[-1]["q"] if self.fnstack else "?") + "::lambda", "file": dfr.fn["file"],
              "line": node.get("l", 0), "params": node["params"], "body": node["body"], "id": "lambda"}
        nf = Frame(fn, dfr.this, dfr.cls)
        nf.id = fresh()
        nf.env.update(env)
        for prm, a in zip(node["params"], argvals):
            isref = self.p.ty(prm["t"])["k"] == "ref"
            if isref and a[0] == 'loc':
                nf.env[prm["d"]] = a
            else:
                root = ('v', nf.id, prm["d"], prm["n"])
                v = a[1] if a[0] == 'val' else self.load(st, a[1], prm["t"])
                it = self.itype(prm["t"])
                if it and isinstance(v, (int, tuple)) and not self.nonnum(v):
                    v = T.cast(v, *it) if it[0] != 1 else v
                self.store(st, (root, ()), v)
                if a[0] == 'loc':
                    for k, q in list(st.dyn.items()):
                        if k[0] == a[1][0] and k[1][:len(a[1][1])] == a[1][1]:
                            st.dyn[(root, k[1][len(a[1][1]):])] = q
                nf.env[prm["d"]] = ('loc', (root, ()))
        saved = st.trace
        st.trace = []
        v = self.call_body(st, nf)
        t = st.trace
        st.trace = saved
        if t:
            self.emit(st, ('scope', fn["q"], t, self.info(e), v))
        return v

    def e_new(self, st, fr, e):
        ti = self.p.ty(e["at"])
        root = ('obj', fresh(), ti.get("q") or e["at"])
        loc = (root, ())
        n = self.rval(st, fr, e["n"]) if e.get("n") else None
        self.emit(st, ('new', ('ptr', loc), e["at"], bool(e.get("arr")), n if n is not None else 0, self.info(e)))
        if e.get("arr"):
            st.heap.setdefault(root, {})[('#',)] = n
            return ('ptr', loc)
        st.heap.setdefault(root, {})
        if e.get("init") is not None:
            self.init_loc(st, fr, loc, e["init"], e["at"])
        if ti.get("q"):
            st.dyn[loc] = ti["q"]
        if self.owning:
            self.emit(st, ('built', ('ptr', loc), self.info(e)))
        return ('ptr', loc)

    def e_delete(self, st, fr, e):
        v = self.rval(st, fr, e["e"])
        self.emit(st, ('delete', v, bool(e.get("arr")), self.info(e)))
        return None

    def e_ilist(self, st, fr, e):
        ti = self.p.ty(e["t"])
        q = ti.get("q", "")
        if ti["k"] == "carray" or q.startswith("std::initializer_list"):
            xs = tuple(self.rval(st, fr, x) for x in e["inits"])
            n = ti.get("n")
            if n and len(xs) < n:
                f = self.rval(st, fr, e["filler"]) if e.get("filler") else 0
                xs = xs + (f,) * (n - len(xs))
            return ('vec', xs)
        if q.startswith("std::array"):
            if e["inits"]:
                return self.rval(st, fr, e["inits"][0])
            return ('zero',)
        if q in self.p.recs:
            root = ('v', fresh(), 0, 'agg')
            self.init_loc(st, fr, (root, ()), e, None)
            return self.load(st, (root, ()))
        if len(e["inits"]) == 1:
            return self.rval(st, fr, e["inits"][0])
        if not e["inits"]:
            return 0 if ti["k"] != "rec" else ('zero',)
        return ('vec', tuple(self.rval(st, fr, x) for x in e["inits"]))

    # ------------------------------------------------------------ calls
    def e_ctor(self, st, fr, e):
        q = e["q"]
        if q in self.p.recs:
            if (e.get("copy") or e.get("move")) and len(e["args"]) >= 1:
                fn = self.p.fns.get(e["fn"])
                if fn is None or fn.get("defaulted") or "body" not in fn or fn.get("implicit"):
                    return self.rval(st, fr, e["args"][0])
            root = ('v', fresh(), 0, 'tmp')
            self.construct(st, fr, (root, ()), e)
            return self.load(st, (root, ()))
        return self.lib_ctor(st, fr, e)

    def take(self, st, fr, x, e):
        """the value of a unique_ptr that is moved from"""
        try:
            l = self.lval(st, fr, x)
        except Unsupported:
            return self.rval(st, fr, x)
        v = self.load(st, l)
        self.store(st, l, 0, e)
        return v

    def lib_ctor(self, st, fr, e):
        q = e["q"]
        a = e["args"]
        if e.get("copy") or e.get("move"):
            if e.get("move") and self.contracts and q.startswith("std::unique_ptr") and a[0].get("lv") is not None:
                return self.take(st, fr, a[0], e)
            return self.rval(st, fr, a[0])
        if q.startswith("std::vector"):
            a = [x for x in a if not (x["k"] == "ctor" and "allocator" in x["q"])]
            if not a:
                return ('vec', ())
            vs = [self.rval(st, fr, x) for x in a]
            t0 = self.p.ty(self.p.strip_ref(a[0]["t"]))
            if len(vs) == 1:
                if isinstance(vs[0], tuple) and vs[0][0] == 'vec':
                    return vs[0]
                if t0["k"] in ("int", "enum"):
                    return ('fill', vs[0], 0)
                return vs[0]
            if isinstance(vs[0], tuple) and vs[0][0] in ('iter', 'ptr') and isinstance(vs[1], tuple) \
                    and vs[1][0] in ('iter', 'ptr'):
                return self.slice_value(st, vs[0], vs[1], e)
            if t0["k"] in ("int", "enum"):
                return ('fill', vs[0], vs[1])
            return ('u', fresh())
        if q.startswith("std::basic_string<") or q == "std::basic_string":
            a = [x for x in a if not (x["k"] == "ctor" and "allocator" in x["q"])]
            if not a:
                return ('s', '')
            vs = [self.rval(st, fr, x) for x in a]
            if len(vs) == 1:
                return vs[0]
            if isinstance(vs[0], tuple) and vs[0][0] in ('iter', 'ptr') and isinstance(vs[1], tuple) \
                    and vs[1][0] in ('iter', 'ptr'):
                return self.slice_value(st, vs[0], vs[1], e)
            return ('op', 'string') + tuple(v if v is not None else 0 for v in vs)
        if "initializer_list" in q:
            return ('vec', ())
        if q.startswith("std::ostreambuf_iterator") or q.startswith("std::istreambuf_iterator"):
            if not a:
                return ('isit_end',)
            return ('osit' if 'ostream' in q else 'isit', self.stream_id(st, self.lval(st, fr, a[0])))
        if q.startswith("std::shared_ptr") or q.startswith("std::unique_ptr"):
            if not a:
                return 0
            v = self.rval(st, fr, a[0])
            if self.owning:
                self.emit(st, ('own', v, self.info(e)))
            return v
        if q.startswith("std::array"):
            return ('uninit', ('std::array',), ())
        vs = [self.rval(st, fr, x) for x in a]
        if len(vs) == 1 and (q.startswith("std::basic_string_view") or q.startswith("fmt::") or
                             q.startswith("std::fpos") or q.startswith("std::optional") or q.startswith("boost::")):
            return vs[0]
        if q.startswith("std::basic_stringstream") or q.startswith("std::basic_istringstream") or \
                q.startswith("std::basic_ostringstream"):
            return ('stream', fresh())
        if not vs:
            return ('op', 'new:' + q)
        if len(vs) == 1 and ('__normal_iterator' in q or q.startswith("std::move_iterator")):
            return vs[0]
        return ('op', 'new:' + q) + tuple(v if v is not None else 0 for v in vs)

    def slice_value(self, st, b, e_, e=None):
        def norm(x):
            if x[0] == 'iter':
                return x[1], x[2]
            r, p = x[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == '[]':
                return (r, p[:-1]), p[-1][1]
            return x[1], 0
        lb, xb = norm(b)
        le_, xe = norm(e_)
        if lb != le_:
            return ('u', fresh())
        n = T.sub(xe, xb)
        if e is not None and xe is not None and not self.nonnum(xe):
            self.access(st, e, self.sized_of(st, lb), xe, 'a range')
        base = self.load(st, lb)
        if xb == 0 and n == self.vsize(st, lb):
            return base
        return ('slice', base, xb, n)

    def stream_id(self, st, loc):
        v = self.load(st, loc)
        if isinstance(v, tuple) and v[0] == 'lref':
            return self.stream_id(st, v[1])
        return ('stream', loc)

    def writer_stream(self, st, loc, field):
        v = self.load(st, (loc[0], loc[1] + (field,)))
        if isinstance(v, tuple) and v[0] == 'lref':
            return self.stream_id(st, v[1])
        return ('stream', v)

    def rw_stream(self, st, loc):
        """stream behind a bitio Reader/Writer object at loc"""
        for q in ("shiguredo::mp4::bitio::Writer", "shiguredo::mp4::bitio::Reader"):
            pass
        for f in ("m_os", "m_is"):
            if (loc[1] + (f,)) in st.heap.get(loc[0], {}):
                return self.writer_stream(st, loc, f)
        # find the reference member
        for p, v in st.heap.get(loc[0], {}).items():
            if p[:len(loc[1])] == loc[1] and isinstance(v, tuple) and v[0] == 'lref':
                return self.stream_id(st, v[1])
        return ('stream', ('rw', loc))

    def advance(self, st, sid, nbits):
        loc = (sid, (STREAM_POS,))
        cur = self.pos(st, sid)
        self.store(st, loc, T.add(cur, nbits), quiet=True)

    def pos(self, st, sid):
        v = self.load(st, (sid, (STREAM_POS,)))
        if isinstance(v, tuple) and v[0] == 'init':
            v = ('init', sid, ('posB',))            # positions start on a byte
            T.ATOM_TYPE.setdefault(v, (60, False))
            v = T.mul(8, v)
            self.store(st, (sid, (STREAM_POS,)), v, quiet=True)
        return v

    def endpos(self, sid):
        v = ('init', sid, ('endB',))
        T.ATOM_TYPE.setdefault(v, (60, False))
        return T.mul(8, v)

    def ixs(self):
        return tuple(('ix', L) for L in self.loops)

    def opaque_call(self, st, fr, q, args, e, this=None, evaluated=None):
        vs = evaluated if evaluated is not None else [self.arg_value(st, fr, a) for a in args]
        r = ('call', q, fresh())
        if self.loops:
            r += (self.ixs(),)
        if self.bounds and q in ('fread', 'fwrite', 'std::fread', 'std::fwrite') and len(vs) == 4:
            self.raw_access(st, e, vs[0], T.mul(vs[1], vs[2]) if T.is_int(vs[1]) or T.is_int(vs[2]) else ('u', fresh()))
        if self.contracts and isinstance(this, tuple) and len(this) == 2 and isinstance(this[0], tuple) and \
                this[0][0] == 'v' and q.startswith("shiguredo::") and not isinstance(e.get("fn"), type(None)):
            # a call on a local object: what matters is its value
            v = self.load(st, this)
            this = ('val', v if v is not None else 0)
        if self.contracts:
            vs = [self.pointee(st, q, e, i, v) for i, v in enumerate(vs)]
        self.emit(st, ('ext', q, this if this is not None else 0, tuple(v if v is not None else 0 for v in vs), r,
                       self.info(e)))
        it = self.itype(e["t"]) if isinstance(e, dict) and "t" in e else None
        if it:
            T.ATOM_TYPE[r] = it
        if self.contracts and isinstance(e, dict) and e.get("fn") in self.p.fns:
            self.outputs(st, self.p.fns[e["fn"]], vs, e)
        return r

    def pointee(self, st, q, e, i, v):
        """an argument that is a pointer to a local the function only reads: what counts is what it points to"""
        if not (isinstance(v, tuple) and len(v) == 2 and v[0] == 'ptr' and isinstance(v[1][0], tuple) and v[1][0][0] == 'v'):
            return v
        fn = self.p.fns.get(e.get("fn")) if isinstance(e, dict) else None
        if fn:
            t = self.p.ty(fn["params"][i]["t"]) if i < len(fn["params"]) else {}
            if t.get("k") != "ptr" or not str(t.get("to", "")).startswith("const "):
                return v
        elif i not in READ_ONLY.get(q.rsplit("::", 1)[-1], ()):
            return v
        x = self.load(st, v[1])
        return v if x is None or isinstance(x, tuple) and x[0] in ('uninit', 'u') else ('to', x)

    def outputs(self, st, fn, vs, e):
        """a local whose address an opaque function gets is whatever that function leaves there"""
        for i, (prm, v) in enumerate(zip(fn["params"], vs)):
            t = self.p.ty(prm["t"])
            if t.get("k") not in ("ptr", "ref") or not (isinstance(v, tuple) and v and v[0] == 'ptr'):
                continue
            to = t.get("to") or t.get("t") or ""
            if str(to).startswith("const ") or 'stream' in str(to):
                continue
            loc = v[1]
            if not (isinstance(loc, tuple) and isinstance(loc[0], tuple) and loc[0][0] == 'v'):
                continue
            r = ('call', '%s#%d' % (fn["q"], i), fresh())
            if self.loops:
                r += (self.ixs(),)
            self.emit(st, ('ext', '%s#%d' % (fn["q"], i), 0, (), r, self.info(e)))
            self.store(st, loc, r, e)

    def arg_value(self, st, fr, a):
        if a.get("lv") and self.p.ty(a["t"])["k"] == "rec":
            l = self.lval(st, fr, a)
            if self.contracts and isinstance(l[0], tuple) and l[0][0] == 'v' and st.heap.get(l[0]):
                q = self.p.ty(a["t"]).get("q", "")
                if 'stream' not in q:
                    return self.load(st, l, a["t"])
            return ('ptr', l)
        return self.rval(st, fr, a)

    def call_lval(self, st, fr, e):
        """location returned by a call that yields a reference; None: not a reference"""
        k = e["k"]
        q = e.get("q", "")
        n = q.rsplit("::", 1)[-1]
        if k == "opcall":
            op = e["op"]
            if op == "[]" and e["fn"] not in self.p.fns:
                b = self.lval(st, fr, e["args"][0])
                i = self.rval(st, fr, e["args"][1])
                if "map<" in q:
                    return (b[0], b[1] + (('[]', i),))
                if self.bounds:
                    self.access(st, e, self.csize(st, b, e["args"][0]), T.add(self.num(i), 1), 'a container')
                return (b[0], b[1] + (('[]', self.num(i)),))
            if op in ("*", "->") and e["fn"] not in self.p.fns:
                return self.deref(self.rval(st, fr, e["args"][0]))
            if op in ("=", "+=", "++", "--", "<<", ">>") and e["fn"] not in self.p.fns:
                self.rval(st, fr, e)
                return self.lval(st, fr, e["args"][0])
        if k == "mcall" and e["fn"] not in self.p.fns:
            if n in ("back", "front", "at") and "std::" in q:
                b = self.mcall_obj(st, fr, e)
                if n != "at":
                    self.access(st, e, self.vsize(st, b), 1, 'a container')
                if n == "back":
                    return (b[0], b[1] + (('[]', T.sub(self.vsize(st, b), 1)),))
                if n == "front":
                    return (b[0], b[1] + (('[]', 0),))
                return (b[0], b[1] + (('[]', self.num(self.rval(st, fr, e["args"][0]))),))
            if n == "value" or n == "get" and False:
                return self.mcall_obj(st, fr, e)
            if n == "emplace_back":
                b = self.mcall_obj(st, fr, e)
                self.rval(st, fr, e)
                return (b[0], b[1] + (('[]', T.sub(self.vsize(st, b), 1)),))
        if k == "call" and n in ("move", "forward", "as_const") and q.startswith("std::"):
            return self.lval(st, fr, e["args"][0])
        if not e.get("lv"):
            return None
        v = self.rval(st, fr, e)
        if isinstance(v, tuple) and v[0] == 'lref':
            return v[1]
        return (('deref', v), ())

    def mcall_obj(self, st, fr, e):
        if e.get("arrow"):
            v = self.rval(st, fr, e["obj"])
            self.not_null(st, e, v)
            return self.deref(v)
        return self.lval(st, fr, e["obj"])

    def e_call(self, st, fr, e):
        if "fn" not in e:
            return self.call_value(st, fr, self.rval(st, fr, e["callee"]), e["args"], e)
        q = e["q"]
        n = q.rsplit("::", 1)[-1]
        fn = self.p.fns.get(e["fn"])
        h = self.hooks.get(q)
        if h:
            r = h(self, st, fr, e, None)
            if r is not NotImplemented:
                return r
        if fn is not None:
            if self.intr and q.startswith("shiguredo::mp4::bitio::") and n in INT_INTRINSICS:
                return self.bitio(st, fr, e, n)
            if self.is_opaque(q, e["fn"]):
                return self.opaque_call(st, fr, q, e["args"], e)
            return self.enter_val(st, fr, fn, None, e["args"], None, e)
        return self.lib_call(st, fr, e, q, n)

    def is_opaque(self, q, fid):
        return q in self.opaque and (q != self.selfq or fid == self.selfid)

    def enter_val(self, st, fr, fn, this, args, cls, e):
        v = self.enter(st, fr, fn, this, args, cls, e)
        if isinstance(v, tuple) and v and v[0] == 'lref' and not e.get("lv"):
            return self.load(st, v[1], e["t"])
        return v

    def call_value(self, st, fr, f, args, e):
        if isinstance(f, tuple) and f[0] == 'closure':
            av = []
            for a in args:
                if a.get("lv"):
                    av.append(('loc', self.lval(st, fr, a)))
                else:
                    av.append(('val', self.rval(st, fr, a)))
            return self.call_closure(st, fr, f, av, e)
        if isinstance(f, tuple) and f[0] == 'func' and f[1] in self.p.fns:
            return self.enter_val(st, fr, self.p.fns[f[1]], None, args, None, e)
        self.note("indirect call", e)
        return self.opaque_call(st, fr, "indirect:" + str(T.show(f))[:60], args, e)

    def e_mcall(self, st, fr, e):
        if "fn" not in e:
            self.note("call through member pointer", e)
            return self.opaque_call(st, fr, "memptr", e["args"], e)
        q = e["q"]
        n = e["n"]
        h = self.hooks.get(q)
        if h:
            r = h(self, st, fr, e, None)
            if r is not NotImplemented:
                return r
        if e["cls"] in self.p.recs:
            if self.intr and e["cls"] in ("shiguredo::mp4::bitio::Writer", "shiguredo::mp4::bitio::Reader"):
                r = self.bitio_obj(st, fr, e, n)
                if r is not NotImplemented:
                    return r
            obj = self.mcall_obj(st, fr, e)
            if self.is_opaque(q, e["fn"]):
                return self.opaque_call(st, fr, q, e["args"], e, obj)
            if e.get("virt"):
                return self.virtual(st, fr, e, obj)
            fn = self.p.fns.get(e["fn"])
            if fn is None:
                return self.opaque_call(st, fr, q, e["args"], e, obj)
            cls = st.dyn.get(obj) or fn["cls"]
            return self.enter_val(st, fr, fn, obj, e["args"], cls, e)
        return self.lib_mcall(st, fr, e, q, n)

    def virtual(self, st, fr, e, obj):
        if isinstance(obj[0], tuple) and obj[0][0] == 'deref' and not obj[1] and isinstance(obj[0][1], tuple) \
                and obj[0][1][0] == 'ite':
            _, c, pa, pb = obj[0][1]
            root = ('v', fresh(), 0, 'vres')

            def side(ptr):
                def f(s1):
                    self.store(s1, (root, ()), self.virtual(s1, fr, e, self.deref(ptr)))
                return f
            self.branch(st, c, side(pa), side(pb), e)
            return self.load(st, (root, ()))
        cls = st.dyn.get(obj)
        if cls is None and fr.this is not None and obj == fr.this and fr.cls:
            cls = fr.cls
        if cls is not None:
            fid = self.p.resolve_virtual(cls, e["fn"])
            fn = self.p.fns.get(fid) if fid else None
            if fn is not None:
                return self.enter_val(st, fr, fn, obj, e["args"], cls, e)
            if not self.p.recs.get(cls, {}).get("abs"):
                return self.opaque_call(st, fr, e["q"], e["args"], e, obj)
        static = cls or e["cls"]
        cands = self.p.descendants(static)
        if not cands or len(cands) > self.max_virtual:
            return self.opaque_call(st, fr, e["q"], e["args"], e, obj)
        root = ('v', fresh(), 0, 'vres')

        def go(s1, i):
            c = cands[i]

            def one(s2):
                s2.dyn[obj] = c
                fid = self.p.resolve_virtual(c, e["fn"])
                fn = self.p.fns.get(fid) if fid else None
                if fn is None:
                    v = self.opaque_call(s2, fr, e["q"], e["args"], e, obj)
                else:
                    v = self.enter_val(s2, fr, fn, obj, e["args"], c, e)
                self.store(s2, (root, ()), v)
            if i == len(cands) - 1:
                one(s1)
            else:
                self.branch(s1, ('isdyn', ('ptr', obj), c), one, lambda s2: go(s2, i + 1), e)
        go(st, 0)
        st.dyn.pop(obj, None)
        return self.load(st, (root, ()))

    # ------------------------------------------------------------ bit i/o intrinsics
    def bitio(self, st, fr, e, n):
        d, kind = INT_INTRINSICS[n]
        a = e["args"]
        rw = self.deref(self.rval(st, fr, a[0]))
        sid = self.rw_stream(st, rw)
        if d == 'W':
            v = self.rval(st, fr, a[1])
            if not st.live:
                return None
            if kind in 'ui':
                w = self.num(self.rval(st, fr, a[2])) if len(a) > 2 else self.targ_bits(e)
                it = self.targ_type(e)
                if it and not self.nonnum(v) and v is not None:
                    v = T.cast(v, *it) if it[0] != 1 else v
                self.emit(st, ('W', kind, sid, w, v, self.info(e)))
                self.advance(st, sid, w)
                return w
            if kind == 'uvar':
                w = self.targ_bits(e)
                it = self.targ_type(e)
                self.emit(st, ('W', kind, sid, w, T.cast(v, *it) if it else v, self.info(e)))
                self.advance(st, sid, w)
                return w
            size = T.sel(v, '#')
            T.ATOM_TYPE.setdefault(size, (64, False)) if isinstance(size, tuple) else None
            w = T.mul(8, T.add(size, 1))
            self.emit(st, ('W', kind, sid, w, v, self.info(e)))
            self.advance(st, sid, w)
            return w
        # reads
        target = self.deref(self.rval(st, fr, a[1]))
        k = fresh()
        sym = ('rd', k, self.ixs())
        if kind in 'ui':
            w = self.num(self.rval(st, fr, a[2])) if len(a) > 2 else self.targ_bits(e)
            it = self.targ_type(e)
            if T.is_int(w) and 0 < w <= 64:
                T.ATOM_TYPE[sym] = (w, kind == 'i')
            elif it:
                T.ATOM_TYPE[sym] = it
            self.emit(st, ('R', kind, sid, w, sym, self.info(e)))
            self.advance(st, sid, w)
            v = T.cast(sym, *it) if it else sym
            self.store(st, target, v, e)
            return w
        w = ('rb', k, self.ixs())
        T.ATOM_TYPE[w] = (62, False)
        mx = self.num(self.rval(st, fr, a[2])) if len(a) > 2 else None
        if kind == 'uvar':
            it = self.targ_type(e)
            if it:
                T.ATOM_TYPE[sym] = it
        self.emit(st, ('R', kind, sid, w, sym, mx if mx is not None else 0, self.info(e)))
        self.advance(st, sid, w)
        self.store(st, target, sym, e)
        return w

    def targ_type(self, e):
        t = (e.get("targs") or [None])[0]
        return self.itype(t) if isinstance(t, str) else None

    def targ_bits(self, e):
        it = self.targ_type(e)
        if it is None:
            raise Unsupported("width of %s" % e["q"])
        return 8 if it[0] == 1 else it[0]

    def bitio_obj(self, st, fr, e, n):
        obj = self.mcall_obj(st, fr, e)
        a = e["args"]
        if n == "writeBits":
            sid = self.rw_stream(st, obj)
            v = self.rval(st, fr, a[0])
            w = self.num(self.rval(st, fr, a[1]))
            val = self.bytes_value(v, w)
            self.emit(st, ('W', 'u', sid, w, val, self.info(e)))
            self.advance(st, sid, w)
            return None
        if n == "writeBit":
            sid = self.rw_stream(st, obj)
            v = self.rval(st, fr, a[0])
            self.emit(st, ('W', 'u', sid, 1, self.num(v), self.info(e)))
            self.advance(st, sid, 1)
            return None
        if n == "write":
            sid = self.rw_stream(st, obj)
            v = self.rval(st, fr, a[0])
            sz = T.sel(v, '#')
            T.ATOM_TYPE.setdefault(sz, (64, False)) if isinstance(sz, tuple) else None
            self.emit(st, ('W', 'bytes', sid, T.mul(8, sz), v, self.info(e)))
            self.advance(st, sid, T.mul(8, sz))
            return sz
        if n == "readBits":
            sid = self.rw_stream(st, obj)
            tgt = self.deref(self.rval(st, fr, a[0]))
            w = self.num(self.rval(st, fr, a[1]))
            sym = ('rd', fresh(), self.ixs())
            self.emit(st, ('R', 'u', sid, w, sym, self.info(e)))
            self.advance(st, sid, w)
            if T.is_int(w) and 0 < w <= 64:
                T.ATOM_TYPE[sym] = (w, False)
                bs = T.bits(sym, ((w + 7) // 8) * 8)
                nb = (w + 7) // 8
                by = [T.mk_bv(bs[8 * (nb - 1 - i):8 * (nb - i)]) for i in range(nb)]
                for x in by:
                    pass
                self.store(st, tgt, ('vec', tuple(by)), e)
            else:
                self.store(st, tgt, ('u', fresh()), e)
            return None
        if n == "readBit":
            sid = self.rw_stream(st, obj)
            sym = ('rd', fresh(), self.ixs())
            T.ATOM_TYPE[sym] = (1, False)
            self.emit(st, ('R', 'u', sid, 1, sym, self.info(e)))
            self.advance(st, sid, 1)
            return T.truth(sym)
        if n == "read":
            sid = self.rw_stream(st, obj)
            tgt = self.deref(self.rval(st, fr, a[0]))
            sz = self.vsize(st, tgt)
            sym = ('rd', fresh(), self.ixs())
            self.emit(st, ('R', 'bytes', sid, T.mul(8, sz), sym, self.info(e)))
            self.advance(st, sid, T.mul(8, sz))
            self.set_bytes(st, tgt, sym, sz, e)
            return sz
        if n == "seek":
            sid = self.rw_stream(st, obj)
            off = self.num(self.rval(st, fr, a[0]))
            way = self.rval(st, fr, a[1])
            self.seek(st, sid, off, way, e, via='Reader')
            return T.bytediv(self.pos(st, sid))
        return NotImplemented

    def set_bytes(self, st, tgt, sym, sz, e):
        d = st.heap.setdefault(tgt[0], {})
        self.store(st, tgt, sym, e)
        d[tgt[1] + ('#',)] = sz

    def bytes_value(self, v, w):
        if isinstance(v, tuple) and v[0] == 'vec':
            if len(v[1]) == 1:
                return v[1][0]
            acc = 0
            for x in v[1]:
                acc = T.bitop('|', T.shl(acc, 8, 64, False), x, 64, False)
            return acc
        return v if v is not None else ('u', fresh())

    WAYS = {"std::ios_base::beg": 'beg', "std::ios_base::cur": 'cur', "std::ios_base::end": 'end'}

    def way(self, v):
        if isinstance(v, tuple):
            s = repr(v)
            for k in ("beg", "cur", "end"):
                if "ios_base::" + k in s or "_S_" + k in s:
                    return k
        if T.is_int(v):
            return {0: 'beg', 1: 'cur', 2: 'end'}.get(v, '?')
        return '?'

    def seek(self, st, sid, off, way, e, via='stream'):
        w = self.way(way) if not isinstance(way, str) else way
        cur = self.pos(st, sid)
        if w == 'beg':
            new = T.mul(8, off)
        elif w == 'cur':
            new = T.add(cur, T.mul(8, off))
        elif w == 'end':
            new = T.add(self.endpos(sid), T.mul(8, off))
        else:
            new = ('u', fresh())
        self.emit(st, ('seek', sid, new, via, w, cur, self.info(e)))
        self.store(st, (sid, (STREAM_POS,)), new, quiet=True)

    # ------------------------------------------------------------ library model
    def closure_arg(self, st, fr, a):
        v = self.rval(st, fr, a)
        return v

    def call_fn(self, st, fr, f, argvals, e):
        if isinstance(f, tuple) and f[0] == 'closure':
            return self.call_closure(st, fr, f, argvals, e)
        if isinstance(f, tuple) and f[0] == 'func' and f[1] in self.p.fns:
            fn = self.p.fns[f[1]]
            nf = Frame(fn)
            nf.id = fresh()
            for prm, a in zip(fn["params"], argvals):
                if self.p.ty(prm["t"])["k"] == "ref" and a[0] == 'loc':
                    nf.env[prm["d"]] = a
                else:
                    root = ('v', nf.id, prm["d"], prm["n"])
                    self.store(st, (root, ()), a[1] if a[0] == 'val' else self.load(st, a[1], prm["t"]))
                    nf.env[prm["d"]] = ('loc', (root, ()))
            saved = st.trace
            st.trace = []
            v = self.call_body(st, nf)
            t = st.trace
            st.trace = saved
            if t:
                self.emit(st, ('scope', fn["q"], t, self.info(e), v))
            return v
        self.note("algorithm with an unknown callable", e)
        return ('u', fresh())

    def range_of(self, b, e_):
        if not (isinstance(b, tuple) and b[0] in ('iter', 'ptr') and isinstance(e_, tuple) and e_[0] in ('iter', 'ptr')):
            return None

        def norm(x):
            if x[0] == 'iter':
                return x[1], x[2]
            r, p = x[1]
            if p and isinstance(p[-1], tuple) and p[-1][0] == '[]':
                return (r, p[:-1]), p[-1][1]
            return x[1], 0
        l1, x1 = norm(b)
        l2, x2 = norm(e_)
        if l1 != l2:
            return None
        return l1, x1, T.sub(x2, x1)

    def search(self, st, fr, n, vs, a, e):
        """a search that does nothing else, as a value: what is searched, and for what"""
        if not self.contracts or len(vs) < 3:
            return None
        rg = self.range_of(vs[0], vs[1])
        if rg is None:
            return None
        what = ('slice', ('ptr', rg[0]), rg[1], rg[2])
        if n in ("find", "count"):
            v = vs[2]
            if isinstance(v, tuple) and v and v[0] == 'ptr' and self.p.ty(a[2]["t"])["k"] != "ptr":
                v = self.load(st, v[1], a[2]["t"])
            pred = ('is', v)
        else:
            s1 = st.fork()
            s1.trace = []
            notes = len(self.notes)
            v = self.call_fn(s1, fr, vs[2], [('loc', (('param', '%elem'), ()))], e)
            if any(ev[0] not in ('scope',) or any(x[0] != 'ret' for x in ev[2]) for ev in s1.trace) or len(self.notes) > notes or \
                    v is None or not s1.live:
                return None
            pred = T.truth(self.num(v))
        if n == "any_of":
            return ('nd', ('any', what, pred))
        if n == "all_of":
            return T.cnot(('nd', ('any', what, T.cnot(pred))))
        if n == "none_of":
            return T.cnot(('nd', ('any', what, pred)))
        r = ('op', "find" if n.startswith("find") else "count", what, pred)
        T.ATOM_TYPE.setdefault(r, (64, False))
        return r if n.startswith("count") else ('iter', rg[0], T.add(rg[1], r))

    def each(self, st, fr, e, rg, body):
        """body(state, element location) for every element of the range"""
        loc, off, N = rg
        if T.is_int(N) and N <= UNROLL:
            for i in range(N):
                body(st, (loc[0], loc[1] + (('[]', T.add(off, i)),)))
            return
        tmp = Frame(fr.fn, fr.this, fr.cls)
        tmp.id = fr.id
        self.sym_loop(st, tmp, e, None,
                      lambda b, ix: body(b, (loc[0], loc[1] + (('[]', T.add(off, ix)),))), None, N)

    def lib_call(self, st, fr, e, q, n):
        a = e["args"]
        if q.startswith("spdlog::"):
            for x in a[1:]:
                if self.may_effect(x):
                    self.rval(st, fr, x)
            return None
        if q.startswith("fmt::"):
            text = literal(a[0]) if a else None
            if self.contracts and n == "format" and text is not None:
                vs = []
                for x in a[1:]:
                    v = self.arg_value(st, fr, x)
                    if isinstance(v, tuple) and v and v[0] == 'ptr' and self.p.ty(x["t"])["k"] == "rec":
                        v = self.load(st, v[1], x["t"])
                    vs.append(v if v is not None else ('u', fresh()))
                return ('op', 'fmt', text) + tuple(vs)
            for x in a[1:]:
                if self.may_effect(x):
                    self.rval(st, fr, x)
            return ('op', 'fmt', fresh())
        if q.startswith("std::"):
            if n in ("size", "ssize"):
                return self.csize(st, self.lval(st, fr, a[0]), a[0]) if len(a) == 1 else ('u', fresh())
            if n == "empty":
                return T.eq(self.csize(st, self.lval(st, fr, a[0]), a[0]), 0)
            if n in ("begin", "cbegin"):
                l = self.lval(st, fr, a[0])
                return ('iter', l, 0)
            if n in ("end", "cend"):
                l = self.lval(st, fr, a[0])
                return ('iter', l, self.csize(st, l, a[0]))
            if n == "data":
                return ('iter', self.lval(st, fr, a[0]), 0)
            if n in ("move", "forward", "as_const", "ref", "cref"):
                return self.rval(st, fr, a[0])
            if n in ("min", "max") and len(a) == 2:
                x, y = self.rval(st, fr, a[0]), self.rval(st, fr, a[1])
                c = self.compare('<', x, y)
                return T.ite(c, x, y) if n == "min" else T.ite(c, y, x)
            if n in ("make_shared", "make_unique"):
                t = (e.get("targs") or [None])[0]
                ti = self.p.ty(t) if t else {}
                root = ('obj', fresh(), ti.get("q"))
                loc = (root, ())
                st.heap.setdefault(root, {})
                cls = ti.get("q")
                if self.contracts:
                    self.emit(st, ('new', ('ptr', loc), t, False, 0, self.info(e)))
                if cls in self.opaque_ctors:
                    vs = tuple(self.arg_value(st, fr, x) for x in a)
                    self.emit(st, ('ext', 'new ' + cls, loc, tuple(v if v is not None else 0 for v in vs), 0, self.info(e)))
                    st.dyn[loc] = cls
                elif cls in self.p.recs:
                    cands = [f for f in self.p.ctors(cls) if len(f["params"]) >= len(a)]
                    best = self.pick_ctor(cands, a)
                    if best is not None:
                        self.enter(st, fr, best, loc, a, cls, e)
                    else:
                        for x in a:
                            self.rval(st, fr, x)
                        self.default_members(st, fr, loc, cls)
                    st.dyn[loc] = cls
                return ('ptr', loc)
            if n == "back_inserter":
                return ('backins', self.lval(st, fr, a[0]))
            if n == "accumulate":
                b, e_ = self.rval(st, fr, a[0]), self.rval(st, fr, a[1])
                init = self.rval(st, fr, a[2])
                rg = self.range_of(b, e_)
                f = self.rval(st, fr, a[3]) if len(a) > 3 else None
                if rg is None:
                    self.note("accumulate over an unknown range", e)
                    return ('u', fresh())
                root = ('v', fresh(), 0, 'acc')
                self.store(st, (root, ()), init)
                self.loc_type[(root, ())] = e["t"]

                def body(s1, el):
                    if f is None:
                        v = T.add(self.load(s1, (root, ())), self.load(s1, el))
                    else:
                        v = self.call_fn(s1, fr, f, [('val', self.load(s1, (root, ()), e["t"])), ('loc', el)], e)
                    it = self.itype(e["t"])
                    self.store(s1, (root, ()), v)
                self.each(st, fr, e, rg, body)
                return self.load(st, (root, ()))
            if n == "for_each":
                rg = self.range_of(self.rval(st, fr, a[0]), self.rval(st, fr, a[1]))
                f = self.rval(st, fr, a[2])
                if rg is None:
                    self.note("for_each over an unknown range", e)
                    return ('u', fresh())
                self.each(st, fr, e, rg, lambda s1, el: self.call_fn(s1, fr, f, [('loc', el)], e))
                return f
            if n == "transform" and len(a) == 4:
                rg = self.range_of(self.rval(st, fr, a[0]), self.rval(st, fr, a[1]))
                out = self.rval(st, fr, a[2])
                f = self.rval(st, fr, a[3])
                if rg is None or not (isinstance(out, tuple) and out[0] in ('backins', 'iter')):
                    self.note("transform over an unknown range", e)
                    return ('u', fresh())
                if out[0] == 'iter':
                    lo, off = out[1], out[2]
                    cnt = [0]

                    def body2(s1, el):
                        v = self.call_fn(s1, fr, f, [('loc', el)], e)
                        i = T.sub(el[1][-1][1], rg[1])
                        self.store(s1, (lo[0], lo[1] + (('[]', T.add(off, i)),)), v, e)
                    self.each(st, fr, e, rg, body2)
                    return ('iter', lo, T.add(off, rg[2]))

                def body(s1, el):
                    v = self.call_fn(s1, fr, f, [('loc', el)], e)
                    self.push(s1, out[1], v, e)
                self.each(st, fr, e, rg, body)
                return out
            if n in ("copy", "copy_n"):
                b = self.rval(st, fr, a[0])
                x = self.rval(st, fr, a[1])
                o = self.rval(st, fr, a[2])
                return self.copy(st, fr, b, x, o, n == "copy_n", e)
            if n in ("fill", "fill_n"):
                b = self.rval(st, fr, a[0])
                x = self.rval(st, fr, a[1])
                v = self.rval(st, fr, a[2])
                rg = self.range_of(b, x) if n == "fill" else None
                if rg and rg[1] == 0 and not T.is_int(rg[2]) and rg[2] == self.vsize(st, rg[0]):
                    self.store(st, rg[0], ('fill', rg[2], v), e)
                    return None
                if rg:
                    self.each(st, fr, e, rg, lambda s1, el: self.store(s1, el, v, e))
                    return None
                return ('u', fresh())
            if n in ("any_of", "all_of", "none_of", "find", "find_if", "count_if", "count"):
                vs = [self.rval(st, fr, x) for x in a]
                v = self.search(st, fr, n, vs, a, e)
                if v is not None:
                    return v
                return ('op', n, fresh()) if n not in ("any_of", "all_of", "none_of") else ('nd', (n, fresh()))
            if n == "swap":
                l1, l2 = self.lval(st, fr, a[0]), self.lval(st, fr, a[1])
                v1, v2 = self.load(st, l1), self.load(st, l2)
                self.store(st, l1, v2, e)
                self.store(st, l2, v1, e)
                return None
            if n == "exchange":
                l1 = self.lval(st, fr, a[0])
                v1 = self.load(st, l1)
                self.store(st, l1, self.rval(st, fr, a[1]), e)
                return v1
            if n in ("static_pointer_cast", "dynamic_pointer_cast"):
                return self.rval(st, fr, a[0])
            if n in ("to_string", "operator\"\"sv", "operator\"\"s", "regex_replace", "to_underlying", "byteswap",
                     "isprint", "abs", "tie", "make_pair", "make_tuple"):
                vs = [self.rval(st, fr, x) for x in a]
                if n == "to_underlying":
                    return vs[0]
                return ('op', q) + tuple(v if v is not None else 0 for v in vs)
            if n == "advance" or n == "next" or n == "prev":
                v = self.rval(st, fr, a[0])
                d = self.num(self.rval(st, fr, a[1])) if len(a) > 1 else 1
                r = self.ptr_arith('-' if n == "prev" else '+', v, d) if isinstance(v, tuple) else None
                if n == "advance":
                    self.store(st, self.lval(st, fr, a[0]), r if r is not None else ('u', fresh()), e)
                    return None
                return r if r is not None else ('u', fresh())
            if n == "distance":
                rg = self.range_of(self.rval(st, fr, a[0]), self.rval(st, fr, a[1]))
                return rg[2] if rg else ('u', fresh())
        if n in ("memcpy", "memmove", "memset"):
            vs = [self.rval(st, fr, x) for x in a]
            tgt = self.deref(vs[0])
            self.store(st, tgt, ('u', fresh()), e)
            return vs[0]
        if n in ("isprint", "isdigit", "isalpha", "tolower", "toupper"):
            return ('op', n, self.num(self.rval(st, fr, a[0])))
        # unknown external function
        return self.opaque_call(st, fr, q, a, e)

    def csize(self, st, l, e):
        ti = self.p.ty(self.p.strip_ref(e["t"]))
        if ti["k"] == "ptr":
            ti = self.p.ty(self.p.strip_ref(ti["to"]))
        n = None
        if ti["k"] == "carray":
            n = ti["n"]
        elif ti.get("q", "").startswith("std::array") and len(ti.get("targs", [])) > 1:
            n = ti["targs"][1]
        if n is not None:
            self.arr_n[l] = n
            return n
        return self.vsize(st, l)

    def may_effect(self, x):
        """does evaluating this argument possibly do more than compute a value?"""
        if not isinstance(x, dict):
            return False
        k = x.get("k")
        if k in ("assign", "new", "delete", "throw"):
            return True
        if k == "un" and x["op"] in ("++", "--"):
            return True
        if k in ("call", "mcall", "opcall"):
            if k == "mcall" and x.get("cm"):
                pass
            elif x.get("q", "").startswith(("std::", "fmt::")) and x.get("n") in (None, "size", "data", "c_str", "count", "rdstate"):
                pass
            elif k == "mcall":
                return True
        return any(self.may_effect(v) if isinstance(v, dict) else any(self.may_effect(y) for y in v)
                   for v in x.values() if isinstance(v, (dict, list)))

    def pick_ctor(self, cands, args):
        """overload choice for make_shared/make_unique: by arity, then by parameter record type"""
        best = []
        for f in cands:
            if f.get("copy") or f.get("move") or f.get("implicit"):
                if not (f.get("implicit") and not f["params"]):
                    continue
            if len(f["params"]) != len(args):
                continue
            ok = True
            for p_, a in zip(f["params"], args):
                tp = self.p.ty(self.p.strip_ref(p_["t"]))
                ta = self.p.ty(self.p.strip_ref(a["t"]))
                if tp.get("k") == "rec" and ta.get("k") == "rec" and tp.get("q") != ta.get("q"):
                    ok = False
                if (tp.get("k") == "rec") != (ta.get("k") == "rec"):
                    ok = False
            if ok:
                best.append(f)
        return best[0] if best else None

    def push(self, st, loc, v, e):
        n = self.vsize(st, loc)
        self.store(st, (loc[0], loc[1] + (('[]', n),)), v, e, quiet=True)
        self.store(st, (loc[0], loc[1] + ('#',)), T.add(n, 1), e, quiet=True)
        if not (isinstance(loc[0], tuple) and loc[0][0] == 'v'):
            self.emit(st, ('push', loc, v if v is not None else 0, self.info(e), n))

    def copy(self, st, fr, b, x, o, is_n, e):
        src = None
        if is_n:
            cnt = self.num(x)
            if isinstance(b, tuple) and b[0] in ('iter', 'ptr'):
                loc, off = (b[1], b[2]) if b[0] == 'iter' else (b[1], 0)
                src = (loc, off, cnt)
        else:
            cnt = None
            rg = self.range_of(b, x)
            if rg:
                src = rg
                cnt = rg[2]
        if isinstance(b, tuple) and b[0] == 'isit':
            sid = b[1]
            if not is_n:
                cnt = T.bytediv(T.sub(self.endpos(sid), self.pos(st, sid)))
            sym = ('rd', fresh(), self.ixs())
            if isinstance(o, tuple) and o[0] in ('iter', 'ptr'):
                off = o[2] if o[0] == 'iter' else 0
                self.access(st, e, self.sized_of(st, o[1]), T.add(off, cnt), 'what is copied to')
            # copy_n through an istreambuf_iterator leaves the stream one byte behind
            self.emit(st, ('R', 'rawit', sid, T.mul(8, cnt), sym, self.info(e)))
            self.advance(st, sid, T.mul(8, cnt))
            if isinstance(o, tuple) and o[0] in ('iter', 'ptr'):
                loc = o[1]
                n0 = self.vsize(st, loc)
                self.set_bytes(st, loc, sym, n0, e)
            elif isinstance(o, tuple) and o[0] == 'backins':
                self.set_bytes(st, o[1], sym, cnt, e)
            elif isinstance(o, tuple) and o[0] == 'osit':
                self.emit(st, ('W', 'rawit', o[1], T.mul(8, cnt), sym, self.info(e)))
                self.advance(st, o[1], T.mul(8, cnt))
            return o
        if isinstance(o, tuple) and o[0] == 'osit':
            v = ('u', fresh())
            if src:
                loc, off, n = src
                base = self.load(st, loc)
                v = base if off == 0 and n == self.vsize(st, loc) else ('slice', base, off, n)
            self.emit(st, ('W', 'rawit', o[1], T.mul(8, cnt) if cnt is not None else ('u', fresh()), v, self.info(e)))
            if cnt is not None:
                self.advance(st, o[1], T.mul(8, cnt))
            return ('osit', o[1])
        if src and isinstance(o, tuple) and o[0] in ('iter', 'ptr', 'backins'):
            loc, off, n = src
            if o[0] == 'backins':
                self.each(st, fr, e, src, lambda s1, el: self.push(s1, o[1], self.load(s1, el), e))
                return o
            lo, oo = (o[1], o[2]) if o[0] == 'iter' else (o[1], 0)
            self.access(st, e, self.sized_of(st, lo), T.add(oo, n), 'what is copied to')

            def body(s1, el):
                i = T.sub(el[1][-1][1], off)
                self.store(s1, (lo[0], lo[1] + (('[]', T.add(oo, i)),)), self.load(s1, el), e)
            self.each(st, fr, e, src, body)
            return ('iter', lo, T.add(oo, n))
        self.note("copy between unknown ranges", e)
        return ('u', fresh())

    def lib_mcall(self, st, fr, e, q, n):
        a = e["args"]
        ot = self.p.ty(self.p.strip_ref(e["obj"]["t"])) if e.get("obj") else {}
        if e.get("arrow") and ot.get("k") == "ptr":
            ot = self.p.ty(ot["to"])
        cls = e.get("cls", "")
        if cls.startswith(("std::vector", "std::basic_string", "std::array", "std::deque", "std::initializer_list",
                           "std::list")):
            obj = self.mcall_obj(st, fr, e)
            if n in ("size", "length"):
                return self.csize(st, obj, e["obj"])
            if n == "empty":
                return T.eq(self.csize(st, obj, e["obj"]), 0)
            if n in ("begin", "cbegin", "data", "c_str"):
                return ('iter', obj, 0)
            if n in ("end", "cend"):
                return ('iter', obj, self.csize(st, obj, e["obj"]))
            if n == "clear":
                self.store(st, obj, ('vec', ()), e)
                return None
            if n in ("push_back", "emplace_back"):
                if n == "push_back" or (len(a) == 1 and self.p.ty(self.p.strip_ref(a[0]["t"])).get("q") ==
                                        self.elem_q(ot)):
                    root = ('v', fresh(), 0, 'pb')
                    if a and a[0].get("lv"):
                        v = self.load(st, self.lval(st, fr, a[0]), a[0]["t"])
                    else:
                        v = self.rval(st, fr, a[0])
                    self.push(st, obj, v, e)
                    return None
                # construct in place
                eq_ = self.elem_q(ot)
                root = ('v', fresh(), 0, 'eb')
                done = False
                if eq_ in self.p.recs:
                    best = self.pick_ctor(self.p.ctors(eq_), a)
                    if best is not None:
                        self.enter(st, fr, best, (root, ()), a, eq_, e)
                        self.push(st, obj, self.load(st, (root, ())), e)
                        done = True
                if not done:
                    vs = [self.rval(st, fr, x) for x in a]
                    self.push(st, obj, vs[0] if len(vs) == 1 else ('op', 'emplace') + tuple(vs), e)
                return None
            if n == "resize":
                s0 = self.vsize(st, obj)
                v = self.num(self.rval(st, fr, a[0]))
                self.store(st, (obj[0], obj[1] + ('#',)), v, e)
                return None
            if n == "reserve" or n == "shrink_to_fit":
                for x in a:
                    self.rval(st, fr, x)
                return None
            if n == "pop_back":
                self.store(st, (obj[0], obj[1] + ('#',)), T.sub(self.vsize(st, obj), 1), e)
                return None
            if n in ("back", "front", "at"):
                l = self.call_lval(st, fr, e)
                return self.load(st, l, e["t"])
            if n == "fill":
                v = self.rval(st, fr, a[0])
                N = self.csize(st, obj, e["obj"])
                self.each(st, fr, e, (obj, 0, N), lambda s1, el: self.store(s1, el, v, e))
                return None
            if n == "operator=" and a:
                v = self.rval(st, fr, a[0])
                self.store(st, obj, v, e)
                return v
            if n == "swap":
                l2 = self.lval(st, fr, a[0])
                v1, v2 = self.load(st, obj), self.load(st, l2)
                self.store(st, obj, v2, e)
                self.store(st, l2, v1, e)
                return None
            if n == "assign" and len(a) == 2:
                b, x = self.rval(st, fr, a[0]), self.rval(st, fr, a[1])
                if isinstance(b, tuple) and b[0] == 'isit':
                    self.store(st, obj, ('vec', ()), e)
                    self.copy(st, fr, b, x, ('backins', obj), False, e)
                elif self.range_of(b, x):
                    self.store(st, obj, self.slice_value(st, b, x, e), e)
                else:
                    self.store(st, obj, ('fill', b, x), e)
                return None
            if n in ("insert", "append") and len(a) >= 2:
                vs = [self.rval(st, fr, x) for x in a]
                n0 = self.vsize(st, obj)
                rg = self.range_of(vs[-2], vs[-1])
                if self.contracts and rg and n0 != 0 and isinstance(vs[0], tuple) and vs[0][0] == 'iter' and vs[0][2] == n0:
                    self.copy(st, fr, vs[-2], vs[-1], ('backins', obj), False, e)
                    return None
                if rg and (n == "append" or (isinstance(vs[0], tuple) and vs[0][0] == 'iter' and vs[0][2] == n0)):
                    loc, off, cnt = rg
                    if n0 == 0:
                        self.store(st, obj, self.slice_value(st, vs[-2], vs[-1], e), e)
                    else:
                        old = self.load(st, obj)
                        self.store(st, obj, ('op', 'cat', old if old is not None else 0, self.slice_value(st, vs[-2], vs[-1], e)), e)
                        st.heap[obj[0]][obj[1] + ('#',)] = T.add(n0, cnt)
                    return None
                self.store(st, obj, ('u', fresh()), e)
                return None
            if n in ("substr", "compare", "find"):
                vs = [self.num(self.rval(st, fr, x)) for x in a]
                return ('op', n, self.load(st, obj)) + tuple(vs)
            vs = [self.rval(st, fr, x) for x in a]
            self.note("container member %s" % q, e)
            if not e.get("cm"):
                self.store(st, obj, ('u', fresh()), e)
            return ('u', fresh())
        if cls.startswith(("std::basic_istream", "std::basic_ostream", "std::basic_ios", "std::basic_iostream",
                           "std::basic_stringstream", "std::basic_ifstream", "std::basic_ofstream",
                           "std::basic_fstream", "std::ios_base")):
            obj = self.mcall_obj(st, fr, e)
            sid = self.stream_id(st, obj)
            return self.stream_call(st, fr, e, sid, n)
        if cls.startswith(("std::shared_ptr", "std::__shared_ptr", "std::unique_ptr")):
            obj = self.mcall_obj(st, fr, e)
            if n == "get":
                return self.load(st, obj)
            if e.get("conv") or n == "operator bool":
                return T.truth(self.num(self.load(st, obj)))
            if n == "reset":
                old = self.load(st, obj)
                new = self.rval(st, fr, a[0]) if a else 0
                if self.owning:
                    self.emit(st, ('own', new, self.info(e)))
                self.store(st, obj, new, e)
                if self.contracts and cls.startswith("std::unique_ptr") and isinstance(old, tuple):
                    self.emit(st, ('delete', old, False, self.info(e)))
                return None
            if n == "release":
                v = self.load(st, obj)
                self.store(st, obj, 0, e)
                if self.contracts:
                    self.emit(st, ('release', v, self.info(e)))
                return v
        if cls.startswith("std::fpos") and e.get("conv"):
            return self.rval(st, fr, e["obj"])
        if cls.startswith("std::optional"):
            obj = self.mcall_obj(st, fr, e)
            if n in ("value", "operator*"):
                return self.load(st, obj)
            if n == "has_value" or e.get("conv"):
                return ('ptrset', self.load(st, obj))
        if cls.startswith("boost::function") or cls.startswith("std::function"):
            pass
        obj = self.mcall_obj(st, fr, e)
        return self.opaque_call(st, fr, q, a, e, obj)

    def elem_q(self, ot):
        t = (ot.get("targs") or [None])[0]
        return self.p.ty(t).get("q") if isinstance(t, str) else None

    def stream_call(self, st, fr, e, sid, n):
        a = e["args"]
        if n in ("good", "operator bool", "fail", "bad", "eof", "operator!"):
            c = ('good', sid, fresh())
            self.emit(st, ('chk', sid, n, c, self.info(e)))
            if n in ("good", "operator bool"):
                return c
            if n in ("fail", "operator!"):
                return T.cnot(c)
            if n == "bad":
                # not every failure is one of these
                return T.cand(T.cnot(c), ('nd', ('bad', fresh())))
            return ('nd', ('eof', fresh()))
        if n == "rdstate":
            return ('u', fresh())
        if n in ("tellg", "tellp"):
            self.emit(st, ('tell', sid, self.pos(st, sid), self.info(e)))
            return T.bytediv(self.pos(st, sid))
        if n in ("seekg", "seekp"):
            off = self.num(self.rval(st, fr, a[0]))
            way = self.rval(st, fr, a[1]) if len(a) > 1 else 'beg'
            self.seek(st, sid, off, way, e)
            return self.stream_ref(sid)
        if n == "write":
            p = self.rval(st, fr, a[0])
            cnt = self.num(self.rval(st, fr, a[1]))
            v = self.ptr_bytes(st, p, cnt, e)
            self.emit(st, ('W', 'raw', sid, T.mul(8, cnt), v, self.info(e)))
            self.advance(st, sid, T.mul(8, cnt))
            return self.stream_ref(sid)
        if n == "put":
            v = self.num(self.rval(st, fr, a[0]))
            self.emit(st, ('W', 'raw', sid, 8, v, self.info(e)))
            self.advance(st, sid, 8)
            return self.stream_ref(sid)
        if n in ("read", "readsome"):
            p = self.rval(st, fr, a[0])
            cnt = self.num(self.rval(st, fr, a[1]))
            sym = ('rd', fresh(), self.ixs())
            self.raw_access(st, e, p, cnt)
            self.emit(st, ('R', 'raw', sid, T.mul(8, cnt), sym, self.info(e)))
            self.advance(st, sid, T.mul(8, cnt))
            if isinstance(p, tuple) and p[0] in ('iter', 'ptr'):
                loc = p[1]
                if p[0] == 'ptr' and loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == '[]':
                    loc = (loc[0], loc[1][:-1])
                n0 = self.vsize(st, loc)
                self.set_bytes(st, loc, sym, n0, e)
            return self.stream_ref(sid)
        if n in ("get",):
            sym = ('rd', fresh(), self.ixs())
            T.ATOM_TYPE[sym] = (8, False)
            self.emit(st, ('R', 'raw', sid, 8, sym, self.info(e)))
            self.advance(st, sid, 8)
            return sym
        if n in ("flush", "clear", "setstate", "exceptions", "close"):
            vs = [self.rval(st, fr, x) for x in a]
            self.emit(st, ('sop', sid, n, tuple(v if v is not None else 0 for v in vs), self.info(e)))
            return self.stream_ref(sid)
        if n == "operator<<":
            for x in a:
                self.rval(st, fr, x)
            self.emit(st, ('sop', sid, '<<', (), self.info(e)))
            return self.stream_ref(sid)
        vs = [self.arg_value(st, fr, x) for x in a]
        return self.opaque_call(st, fr, e["q"], a, e, sid, evaluated=vs)

    def stream_ref(self, sid):
        """what an operation on a stream returns: the stream"""
        return ('lref', sid[1]) if isinstance(sid[1], tuple) else ('u', fresh())

    def raw_access(self, st, e, p, cnt):
        if self.bounds and isinstance(p, tuple) and p[0] in ('iter', 'ptr'):
            loc, off = (p[1], p[2]) if p[0] == 'iter' else (p[1], 0)
            if p[0] == 'ptr' and loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == '[]':
                loc, off = (loc[0], loc[1][:-1]), loc[1][-1][1]
            self.access(st, e, self.sized_of(st, loc), T.add(off, cnt), 'what is read into or written from')

    def sized_of(self, st, loc):
        """number of elements of an array, a container, or the bytes a pointer with a length stands for"""
        if loc in self.sized:
            return self.sized[loc]
        n = self.arr_n.get(loc)
        if n is None:
            t = self.decl_t.get(loc)
            n = self.array_len(t) if t is not None else None
        return n if n is not None else self.vsize(st, loc)

    def ptr_bytes(self, st, p, cnt, e=None):
        if isinstance(p, tuple) and p[0] in ('iter', 'ptr'):
            loc, off = (p[1], p[2]) if p[0] == 'iter' else (p[1], 0)
            if p[0] == 'ptr' and loc[1] and isinstance(loc[1][-1], tuple) and loc[1][-1][0] == '[]':
                off = loc[1][-1][1]
                loc = (loc[0], loc[1][:-1])
            if e is not None:
                self.access(st, e, self.sized_of(st, loc), T.add(off, cnt), 'what is written from')
            v = self.load(st, loc)
            if off == 0 and cnt == self.vsize(st, loc):
                return v
            return ('slice', v, off, cnt)
        return ('bytesat', p if p is not None else 0, cnt)

    def e_opcall(self, st, fr, e):
        op = e["op"]
        q = e.get("q", "")
        a = e["args"]
        fn = self.p.fns.get(e.get("fn"))
        h = self.hooks.get(q)
        if h:
            r = h(self, st, fr, e, None)
            if r is not NotImplemented:
                return r
        if fn is not None and not (fn.get("defaulted") and op == "="):
            if e.get("mem"):
                obj = self.lval(st, fr, a[0])
                return self.enter_val(st, fr, fn, obj, a[1:], st.dyn.get(obj) or fn["cls"], e)
            return self.enter_val(st, fr, fn, None, a, None, e)
        t0 = self.p.ty(self.p.strip_ref(a[0]["t"])) if a else {}
        if op == "[]":
            l = self.call_lval(st, fr, e)
            return self.load(st, l, e["t"])
        if op == "=":
            l = self.lval(st, fr, a[0])
            if a[1].get("lv"):
                v = self.load(st, self.lval(st, fr, a[1]))
            else:
                v = self.rval(st, fr, a[1])
            self.store(st, l, v, e)
            return v
        if op in ("*", "->"):
            v = self.rval(st, fr, a[0])
            if op == "->":
                if isinstance(v, tuple) and v[0] == 'iter':
                    return ('ptr', self.deref(v))
                return v
            return self.load(st, self.deref(v), e["t"])
        if op in ("++", "--"):
            l = self.lval(st, fr, a[0])
            v = self.load(st, l)
            nv = self.ptr_arith('+' if op == "++" else '-', v, 1) if isinstance(v, tuple) else None
            self.store(st, l, nv if nv is not None else ('u', fresh()), e)
            return nv if len(a) == 1 else v
        if op == "()":
            f = self.rval(st, fr, a[0])
            return self.call_value(st, fr, f, a[1:], e)
        if op == "+=" and t0.get("q", "").startswith("std::basic_string"):
            l = self.lval(st, fr, a[0])
            old = self.load(st, l)
            v = self.rval(st, fr, a[1])
            n0 = self.vsize(st, l)
            self.store(st, l, ('op', 'cat', old, v if v is not None else 0), e)
            return None
        if op in ("+=", "-="):
            l = self.lval(st, fr, a[0])
            old = self.load(st, l)
            v = self.num(self.rval(st, fr, a[1]))
            nv = self.ptr_arith(op[0], old, v) if isinstance(old, tuple) else None
            self.store(st, l, nv if nv is not None else ('u', fresh()), e)
            return nv
        if op in ("==", "!=", "<", ">", "<=", ">="):
            x, y = self.rval(st, fr, a[0]), self.rval(st, fr, a[1])
            return self.compare(op, x, y)
        if op in ("+", "-"):
            x, y = self.rval(st, fr, a[0]), self.rval(st, fr, a[1])
            if isinstance(x, tuple) and x[0] in ('iter', 'ptr'):
                r = self.ptr_arith(op, x, y if y is not None else 0)
                if r is not None:
                    return r
            if t0.get("q", "").startswith("std::fpos"):
                return T.sub(self.num(x), self.num(y)) if op == "-" else T.add(self.num(x), self.num(y))
            if t0.get("q", "").startswith("std::basic_string"):
                return ('op', 'cat', x if x is not None else 0, y if y is not None else 0)
            return ('op', op, x if x is not None else 0, y if y is not None else 0)
        if op == "<<" or op == ">>":
            l = self.lval(st, fr, a[0])
            vs = [self.rval(st, fr, x) for x in a[1:]]
            self.emit(st, ('sop', self.stream_id(st, l), op, tuple(v if v is not None else 0 for v in vs), self.info(e)))
            return ('u', fresh())
        if op == "|" or op == "&":
            return ('op', op) + tuple(self.num(self.rval(st, fr, x)) for x in a)
        if op == "!":
            v = self.rval(st, fr, a[0])
            return T.cnot(T.truth(self.num(v)))
        vs = [self.rval(st, fr, x) for x in a]
        return ('op', q) + tuple(v if v is not None else 0 for v in vs)


def delta(nv, x):
    """nv - x, taken inside conditionals"""
    if isinstance(nv, tuple) and nv[0] == 'ite':
        return T.ite(nv[1], delta(nv[2], x), delta(nv[3], x))
    return T.sub(nv, x)


def fr_lookup(fr, d):
    return fr.env.get(d)


def show_trace(tr, ind=0, out=None):
    out = [] if out is None else out
    p = '  ' * ind
    for ev in tr:
        k = ev[0]
        if k == 'W' or k == 'R':
            out.append('%s%s.%s w=%s %s' % (p, k, ev[1], T.show(ev[3]), T.show(ev[4])))
        elif k == 'if':
            out.append('%sif %s' % (p, T.show(ev[1])))
            show_trace(ev[2], ind + 1, out)
            if ev[3]:
                out.append('%selse' % p)
                show_trace(ev[3], ind + 1, out)
        elif k == 'loop':
            out.append('%sloop%s %s %s %s' % (p, ev[1], ev[2], T.show(ev[3]), ev[7]))
            show_trace(ev[4], ind + 1, out)
        elif k == 'scope':
            out.append('%s%s:' % (p, ev[1].rsplit('::', 2)[-2:]))
            show_trace(ev[2], ind + 1, out)
        elif k == 'ret':
            out.append('%sret %s' % (p, T.show(ev[1]) if ev[1] is not None else ''))
        elif k == 'set':
            out.append('%sset %s = %s' % (p, T.path_str(*ev[1]), T.show(ev[2])))
        elif k == 'try':
            out.append('%stry' % p)
            show_trace(ev[1], ind + 1, out)
            for t, h, l in ev[2]:
                out.append('%scatch %s' % (p, t))
                show_trace(h, ind + 1, out)
        else:
            out.append('%s%s %s' % (p, k, ' '.join(T.show(x) if isinstance(x, (tuple, int)) else str(x) for x in ev[1:-1])))
    return out
