"""C20: nothing outlives a call except in the objects the call was given: no static or thread-local variable is changed,
none keeps what one call computed from its arguments, no C function with a hidden buffer or process-wide effect is used,
and no file of a fixed name is opened."""
import os

import units as U
from rules.own import nodes

NS = U.NS
# C functions whose result lives in a buffer of the library, or that change the process
HIDDEN = {'gmtime', 'localtime', 'asctime', 'ctime', 'strtok', 'rand', 'srand', 'random', 'srandom', 'drand48', 'lrand48',
          'setlocale', 'strerror', 'tmpnam', 'tempnam', 'mktemp', 'setenv', 'putenv', 'unsetenv', 'chdir', 'umask', 'signal',
          'alarm', 'atexit', 'ttyname', 'getpwuid', 'gethostbyname', 'localeconv', 'nl_langinfo', 'inet_ntoa', 'ecvt', 'fcvt',
          'gcvt', 'basename', 'dirname', 'readdir', 'getlogin', 'setitimer', 'sigaction', 'tzset'}
HIDDEN |= {'std::' + x for x in HIDDEN} | {'std::filesystem::current_path'}
PROCESS = {'spdlog::set_level', 'spdlog::set_pattern', 'spdlog::set_default_logger', 'spdlog::drop_all', 'spdlog::shutdown',
           'std::locale::global', 'std::set_terminate', 'std::set_new_handler', 'std::ios_base::sync_with_stdio'}
EXCLUSIVE = {'mkstemp', 'mkostemp', 'mkstemps', 'mkostemps', 'tmpfile', 'mkdtemp', 'memfd_create'}
OPENS = {'fopen', 'open', 'creat', 'std::fopen', 'open64', 'fopen64', 'freopen', 'openat'}
READS = {'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'data', 'front', 'back', 'at', 'size', 'empty', 'find', 'count',
         'c_str', 'length', 'operator[]', 'get', 'lower_bound', 'upper_bound', 'contains', 'equal_range', 'max_size',
         'capacity', 'substr', 'compare', 'operator->', 'operator*', 'operator bool', 'time_since_epoch', 'str', 'has_value',
         'value', 'string', 'native', 'starts_with', 'ends_with', 'what', 'any', 'all', 'none', 'test', 'to_ulong', 'view',
         'load', 'use_count'}
STDREADS = {'std::' + x for x in (
    'begin', 'end', 'cbegin', 'cend', 'size', 'ssize', 'empty', 'data', 'find', 'find_if', 'find_if_not', 'count', 'count_if',
    'all_of', 'any_of', 'none_of', 'accumulate', 'equal', 'distance', 'lower_bound', 'upper_bound', 'binary_search', 'get',
    'max_element', 'min_element', 'max', 'min', 'mismatch', 'search', 'as_const', 'to_string', 'for_each', 'visit', 'make_pair',
    'make_tuple', 'holds_alternative', 'get_if', 'next', 'prev', 'addressof', 'regex_match', 'regex_search', 'regex_replace',
    'make_shared', 'make_unique', 'hash', 'bit_cast', 'forward', 'lexicographical_compare', 'inner_product', 'memcmp', 'strlen',
    'ref', 'cref', 'to_address', 'forward_as_tuple', 'tie', 'apply', 'invoke')} | {'memcmp', 'strlen', 'strcmp', 'strncmp'}
DEST = {'std::copy': 2, 'std::copy_n': 2, 'std::copy_if': 2, 'std::transform': 2, 'std::fill': 0, 'std::fill_n': 0,
        'std::generate': 0, 'std::generate_n': 0, 'std::iota': 0, 'std::reverse': 0, 'std::sort': 0, 'std::rotate': 0,
        'std::back_inserter': 0, 'std::inserter': 0, 'std::front_inserter': 0, 'memcpy': 0, 'std::memcpy': 0, 'memset': 0,
        'std::memset': 0, 'memmove': 0, 'std::memmove': 0, 'std::move': 0, 'std::swap': 0, 'std::exchange': 0,
        'std::copy_backward': 2, 'std::replace': 0, 'std::remove': 0, 'std::unique': 0, 'snprintf': 0, 'std::snprintf': 0,
        'sprintf': 0, 'std::sprintf': 0, 'std::iter_swap': 0, 'std::swap_ranges': 0, 'std::reverse_copy': 2, 'fread': 0,
        'std::fread': 0, 'strftime': 0, 'std::strftime': 0, 'gmtime_r': 1, 'localtime_r': 1}
FLAGS = {'hex', 'dec', 'oct', 'fixed', 'scientific', 'hexfloat', 'defaultfloat', 'boolalpha', 'showbase', 'uppercase', 'left',
         'right', 'internal', 'showpos', 'showpoint', 'unitbuf', 'setprecision', 'setfill', 'setbase', 'setiosflags'}


def short(q):
    return q.replace(NS, '')


def const(t):
    """a value of this type cannot be changed through its name"""
    t = (t or '').strip()
    return t.startswith('const ') or t.endswith(' const') or t.endswith('*const')


def handle(t):
    """something through which other memory is changed"""
    t = (t or '').replace('const std::', 'std::').strip()
    if t.startswith(('std::shared_ptr<const ', 'std::unique_ptr<const ')):
        return False
    if t.startswith(('std::shared_ptr<', 'std::unique_ptr<', 'std::reference_wrapper<')):
        return True
    b = t[:-len('const')].strip() if t.endswith('const') else t
    return b.endswith('*') and not b.startswith('const ') and '(' not in b


def flags(e):
    """the value of an expression of constants joined by |"""
    if e["k"] == "cast":
        return flags(e["e"])
    if e["k"] == "bin" and e.get("op") == "|":
        a, b = flags(e["a"]), flags(e["b"])
        return None if a is None or b is None else a | b
    v = e.get("v")
    return int(v) if e["k"] in ("int", "lit", "num", "const") and v is not None else None


class Scan:
    """one function"""

    def __init__(self, prog, f, own):
        self.p, self.f, self.own = prog, f, own
        self.alias = {}          # declaration of a reference or pointer -> the static variable behind it
        self.statics = {}        # declaration -> variable
        self.out = []
        self.uses = 0
        self.opened, self.exclusive = [], False
        bodies = [f.get("body"), f.get("inits", [])]
        for b in bodies:
            for n in nodes(b):
                if n["k"] == "decl":
                    for v in n["vars"]:
                        if v.get("static"):
                            self.statics[v["d"]] = v
        for b in bodies:
            self.walk(b)

    def root(self, e):
        """the static variable an lvalue belongs to: (name, type of the variable, was a handle followed)"""
        through = False
        while isinstance(e, dict):
            k = e["k"]
            if k == "ref":
                if e.get("dk") == "static" or e.get("d") in self.statics and e.get("dk") != "global":
                    v = self.statics.get(e["d"])
                    return (e["n"], (v or e).get("t"), through)
                if e.get("dk") == "global":
                    if e.get("q", "").startswith(NS) or self.own(e.get("q")):
                        return (short(e["q"]), e.get("t"), through)
                    return None
                return self.alias.get(e.get("d"))
            if k == "cast":
                e = e["e"]
            elif k in ("mem", "idx"):
                e = e.get("b")
            elif k == "un" and e.get("op") in ("*", "&", "++", "--"):
                through = through or e["op"] == "*"
                e = e["a"]
            elif k == "opcall" and e.get("op") in ("[]", "*", "->") and e.get("args"):
                through = through or e["op"] != "[]"
                e = e["args"][0]
            elif k == "mcall" and e.get("q", "").rsplit('::', 1)[-1] in ('at', 'front', 'back', 'data', 'begin', 'end', 'find', 'get'):
                e = e.get("obj")
            elif k == "call" and e.get("q") in ('std::begin', 'std::end', 'std::data', 'std::addressof', 'std::get', 'std::next',
                                                'std::ref', 'std::move', 'std::forward') and e.get("args"):
                e = e["args"][0]
            elif k == "cond":
                return self.root(e.get("a")) or self.root(e.get("b"))
            else:
                return None
        return None

    def hit(self, e, r, how):
        if r and (not const(r[1]) or r[2] or handle(r[1])):
            self.out.append((r[0], how, e.get("l", self.f.get("line"))))

    def walk(self, x):
        if isinstance(x, list):
            for y in x:
                self.walk(y)
            return
        if not isinstance(x, dict):
            return
        k = x.get("k")
        if k == "ref" and (x.get("dk") == "static" or x.get("dk") == "global" and x.get("q", "").startswith(NS)):
            self.uses += 1
        if k == "decl":
            for v in x["vars"]:
                t = v.get("t", "")
                if v.get("static"):
                    self.kept(v)
                elif v.get("init") is not None:
                    r = self.root(v["init"])
                    if r and (t.endswith('&') and not t.startswith('const ') or t.endswith('*') and not t.startswith('const ')):
                        self.alias[v["d"]] = r
        elif k == "rfor":
            v = x.get("var") or {}
            r = self.root(x.get("range"))
            if r and v.get("t", "").endswith('&') and not v["t"].startswith('const '):
                self.alias[v.get("d")] = r
        elif k in ("bin", "assign") and x.get("op", "").endswith("=") and x.get("op") not in ("==", "!=", "<=", ">="):
            self.hit(x, self.root(x["a"]), "is assigned")
        elif k == "un" and x.get("op") in ("++", "--", "p++", "p--", "++p", "--p", "post++", "post--"):
            self.hit(x, self.root(x["a"]), "is stepped")
        elif k == "delete":
            self.hit(x, self.root(x.get("e")), "is deleted")
        elif k == "mcall":
            n = x.get("q", "").rsplit('::', 1)[-1]
            g = self.p.fns.get(x.get("fn"))
            r = self.root(x.get("obj"))
            isconst = g.get("const") if g else None
            if r and not isconst and not x.get("cm") and n not in READS:
                self.hit(x, r, "is changed by %s()" % n)
            self.args(x, g)
        elif k == "opcall":
            a = x.get("args") or []
            op = x.get("op")
            r = self.root(a[0]) if a else None
            if r and op in ("=", "+=", "-=", "|=", "&=", "^=", "<<=", ">>=", "++", "--", "*=", "/="):
                self.hit(x, r, "is assigned")
            elif r and op == "[]" and not const(r[1]) and r[1].replace('const std::', 'std::').startswith(
                    ("std::map<", "std::unordered_map<")):
                self.hit(x, r, "is changed by [], which adds what it does not find")
            elif r and op in ("<<", ">>"):
                self.hit(x, r, "is written to")
            if op == "<<" and len(a) == 2:
                s = a[0]
                while isinstance(s, dict) and s["k"] == "opcall" and s.get("args"):
                    s = s["args"][0]
                m = a[1]
                while isinstance(m, dict) and m["k"] == "cast":
                    m = m["e"]
                nm = (m.get("n") or m.get("q", "").rsplit('::', 1)[-1]) if isinstance(m, dict) else None
                if isinstance(s, dict) and s.get("k") == "ref" and s.get("q") in ("std::cout", "std::cerr", "std::clog") and nm in FLAGS:
                    self.out.append((s["q"], "keeps the format set by %s" % nm, x.get("l")))
            if op == ">>" and len(a) == 2:
                self.hit(x, self.root(a[1]), "is read into")
            self.args(x, self.p.fns.get(x.get("fn")), 1)
        elif k in ("call", "ctor"):
            q = x.get("q", "")
            if k == "call":
                if q in HIDDEN or q.startswith('::') and q[2:] in HIDDEN:
                    self.out.append((q + '()', "has a result or an effect shared by the whole process", x.get("l")))
                elif q in PROCESS:
                    self.out.append((q + '()', "changes a setting of the whole process", x.get("l")))
                elif q in OPENS:
                    self.fixed(x, x["args"][1 if q in ("openat",) else 0] if x.get("args") else None)
                    self.notown(x, q)
                elif q.rsplit('::', 1)[-1] in EXCLUSIVE:
                    self.exclusive = True
            elif q in ("std::basic_ofstream", "std::basic_fstream") and x.get("args"):
                self.fixed(x, x["args"][0])
                if q == "std::basic_ofstream":
                    self.opened.append(x.get("l"))
            self.args(x, self.p.fns.get(x.get("fn")))
        elif k == "return" and isinstance(x.get("e"), dict):
            t = self.f.get("ret", "")
            if t.endswith(('&', '*')) and not t.startswith('const ') or handle(t):
                r = self.root(x["e"])
                if not r and x["e"]["k"] == "ctor" and x["e"].get("args"):
                    r = self.root(x["e"]["args"][0])
                self.hit(x, r, "is handed out")
        elif k == "new" and isinstance(x.get("t"), str):
            pass
        for kk, y in x.items():
            if isinstance(y, (dict, list)):
                self.walk(y)

    def args(self, x, g, skip=0):
        q = x.get("q", "")
        a = x.get("args") or []
        if q in DEST:
            if len(a) > DEST[q]:
                self.hit(x, self.root(a[DEST[q]]), "is written by %s()" % q)
            return
        if q in STDREADS or q.startswith(('fmt::', 'spdlog::')):
            return
        ps = (g or {}).get("params", [])
        if skip and len(ps) == len(a):
            skip = 0                               # a free operator
        if x.get("copy"):
            return
        for i, e in enumerate(a):
            j = i - skip
            if j < 0 or j >= len(ps):
                continue
            t = ps[j].get("t", "")
            if t.endswith('&&') or t.endswith(('&', '*')) and not t.startswith('const '):
                self.hit(x, self.root(e), "is handed to %s(), which can change it" % short(q))

    def fixed(self, x, e):
        """a file opened under a name that has no part of the arguments or members"""
        if e is None:
            return
        for n in nodes(e):
            if n["k"] == "this" or n["k"] == "mem" or n["k"] == "ref" and n.get("dk") in ("param", "local", "binding"):
                if n["k"] == "ref" and n.get("dk") == "local" and self.literal(n.get("d")):
                    continue
                return
        self.out.append(("a file of a fixed name", "is opened: every caller uses the same", x.get("l")))

    def notown(self, x, q):
        """a file is created, or emptied, although it may be another one's"""
        a = x.get("args") or []
        if q.endswith(('fopen', 'fopen64', 'freopen')):
            m = next((n["v"] for n in nodes(a[1]) if n["k"] == "str"), "") if len(a) > 1 else ""
            if isinstance(m, str) and m[:1] in ("w", "a") and "x" not in m:
                self.opened.append(x.get("l"))
            self.exclusive = self.exclusive or isinstance(m, str) and "x" in m
        elif q == 'creat':
            self.opened.append(x.get("l"))
        else:
            i = 2 if q == 'openat' else 1
            v = flags(a[i]) if len(a) > i else None
            if v is not None and v & os.O_CREAT:
                if v & os.O_EXCL:
                    self.exclusive = True
                else:
                    self.opened.append(x.get("l"))

    def literal(self, d):
        """is some value a local takes nothing but text of the program, and is it then left as it is?"""
        got, touched = [], False
        for b in (self.f.get("body"), self.f.get("inits", [])):
            for n in nodes(b):
                if n["k"] == "decl":
                    got += [v["init"] for v in n["vars"] if v.get("d") == d and v.get("init") is not None]
                elif n["k"] in ("opcall", "assign", "bin") and n.get("op") == "=":
                    a, x = (n["args"] + [None])[:2] if n["k"] == "opcall" else (n.get("a"), n.get("b"))
                    if isinstance(a, dict) and a["k"] == "ref" and a.get("d") == d and isinstance(x, dict):
                        got.append(x)
                elif n["k"] == "mcall" and isinstance(n.get("obj"), dict) and n["obj"]["k"] == "ref" and n["obj"].get("d") == d:
                    touched = touched or n.get("q", "").rsplit('::', 1)[-1] not in READS
                elif n["k"] == "opcall" and n.get("op") == "+=" and n.get("args") and n["args"][0].get("d") == d:
                    touched = True
                elif n["k"] in ("call", "mcall", "ctor") and not n.get("copy") and n["k"] != "ctor":
                    ps = (self.p.fns.get(n.get("fn")) or {}).get("params", [])
                    for x, q in zip(n.get("args") or [], ps):
                        if x.get("k") == "ref" and x.get("d") == d and q.get("t", "").endswith(('&', '*')) and \
                                not q["t"].startswith('const '):
                            touched = True
        def pure(x):
            ks = list(nodes(x))
            return any(n["k"] == "str" and n.get("v") for n in ks) and \
                not any(n["k"] in ("this", "mem", "ref", "call", "mcall") for n in ks)
        return not touched and any(pure(x) for x in got)

    def kept(self, v):
        """a static variable set from the first call's arguments"""
        if v.get("init") is None:
            return
        inner = {y["d"] for n in nodes(v["init"]) if n["k"] == "lambda" for y in n.get("params", []) if "d" in y}
        inner |= {y["d"] for n in nodes(v["init"]) if n["k"] == "decl" for y in n["vars"]}
        for n in nodes(v["init"]):
            if n["k"] == "this" or n["k"] == "ref" and n.get("dk") in ("param", "local", "binding") and n.get("d") not in inner:
                self.out.append((v["n"], "keeps what the first call computed from its arguments", v.get("l")))
                return


def shared(prog, res):
    fns = uses = 0
    own = set()
    for q, g in prog.globals.items():
        if str(g.get("file", "")).startswith(prog.repo) and '/cli' not in g["file"]:
            own.add(q)
    import rules.lints as L
    opened, exclusive = [], False
    for f in L.library(prog):
        s = Scan(prog, f, own.__contains__)
        exclusive = exclusive or s.exclusive
        opened += [(f, line) for line in s.opened]
        fns += 1
        uses += s.uses
        for what, how, line in s.out:
            res.violation("%s:%s:%s" % (short(f["q"]), what, how[:40]),
                          "%s: %s %s (%s:%s)" % (short(f["q"]), what, how, prog.rel(f.get("file", "?")), line))
    for f, line in opened if not exclusive else ():
        res.violation("%s:a file that need not be its own" % short(f["q"]),
                      "%s: a file is created or emptied without making sure that no other object uses it (%s:%s)" %
                      (short(f["q"]), prog.rel(f.get("file", "?")), line))
    res.coverage.update({"files_opened_for_writing": len(opened) + exclusive, "functions_scanned": fns, "uses_of_static_variables": uses, "static_variables_of_the_library": len(own)})
    res.assumptions += ["calls into the standard library, fmt and spdlog keep no state of the caller except those named in "
                        "engine/rules/shared.py"]
    res.explanation = ("Every function of the library is searched for constructs that leave something behind outside the "
                       "objects it was given: changed or handed-out static and thread-local variables, static variables "
                       "initialised from one call's arguments, C functions with hidden buffers, process-wide settings, files "
                       "of a fixed name.")
