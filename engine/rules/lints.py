"""Rules that need no reference: they look at every function of the library and report a construct that breaks the
property by itself."""
import concurrent.futures
import multiprocessing
import os
import signal
import sys

import cosim as C
import evalt as E
import interp as I
import model as M
import summ as S
import terms as T
import units as U
import rules.loops as endings
import rules.own as own
import rules.shared as sharedstate
from rules.own import nodes

NS = U.NS
_G = {}
LIMIT = 120


def alarm(*a):
    raise TimeoutError


def guarded(job):
    """(findings, undecided, numbers) of one function"""
    what, k = job
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    try:
        return _G[what](k)
    except C.Undecided as u:
        return [], ["%s: not followed: %s" % (k[0], u.args[0])], ()
    except TimeoutError:
        return [], ["%s: takes too long" % k[0]], ()
    except Exception as x:
        return [], ["%s: not followed: %s" % (k[0], type(x).__name__)], ()
    finally:
        signal.alarm(0)


def each(what, keys, fun, res):
    """fun for every key, in processes of their own; the sums of the numbers and how many functions were followed"""
    _G[what] = fun
    ctx = multiprocessing.get_context("fork")
    sums, n = [], 0
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=ctx) as ex:
        for found, und, nums in ex.map(guarded, [(what, k) for k in keys], chunksize=8):
            for key, text in found:
                res.violation(key, text)
            for u in und:
                res.undecide(u)
            n += not und
            for i, x in enumerate(nums):
                sums += [0] * (i + 1 - len(sums))
                sums[i] += x
    return n, sums


def name(q):
    return q.replace(NS, '')


def library(prog):
    """functions of the library itself (not of the command line tool)"""
    for fid, f in sorted(prog.fns.items()):
        if "body" in f and f["q"].startswith(NS) and '/cli' not in f.get("file", ""):
            yield f


def where(prog, f, e=None):
    return "%s:%s, in %s" % (prog.rel(f.get("file", "?")), (e or {}).get("l", f.get("line", 0)), name(f["q"]))


def code_of(f):
    yield from nodes(f.get("body"))
    yield from nodes(f.get("inits", []))


# ---------------------------------------------------------------- C09: ownership
def owners(prog):
    """classes with a destructor that deletes a member and a copy operation the compiler makes (or a base that has)"""
    out = set()
    for f in prog.fns.values():
        c = f.get("cls")
        if c and '::~' in f["q"] and "body" in f and any(n["k"] == "delete" for n in nodes(f["body"])):
            out.add(c)
    more = set(out)
    for c in out:
        more |= set(prog.descendants(c, concrete=False))
    own_copy = {f["cls"] for f in prog.fns.values() if f.get("copy") and "body" in f and f.get("cls") and not f.get("implicit")
                and not f.get("defaulted")}
    return {c for c in more if c not in own_copy and c.startswith(NS)}


def ownership(prog, res):
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    n, found, und = own.analyse(prog, con, ctors)
    for f, kind, msg, info, at, conds in found:
        where_ = "%s:%s" % (info[0], info[1]) if info else "%s:%s" % (at[0], at[1])
        text = "%s: %s (%s)" % (name(f["q"]), msg, where_)
        cs = [M.T.show(c)[:120] for c in conds][:8]
        if cs:
            text += "\n  when " + " and ".join(cs)
        res.violation("%s:%s:%s" % (name(f["q"]), kind, msg.split(" when")[0].split(" made at")[0][:60]), text)
    for u in und:
        res.undecide(u)
    oc = owners(prog)
    copies = 0
    for f in library(prog):
        if f.get("copy") or f.get("move") or f.get("implicit"):
            continue
        for e in code_of(f):
            if e["k"] == "opcall" and e.get("op") == "=" and e["q"].rsplit('::', 1)[0] in oc:
                res.violation("%s:assign:%s" % (name(f["q"]), name(e["q"])),
                              "%s assigns a %s, whose destructor deletes what the copy points to as well (%s)" %
                              (name(f["q"]), name(e["q"].rsplit('::', 1)[0]), where(prog, f, e)))
            if e["k"] == "ctor":
                copies += 1
                if e.get("copy") and e["q"] in oc:
                    res.violation("%s:copy:%s" % (name(f["q"]), name(e["q"])),
                                  "%s copies a %s, whose destructor deletes what its copy points to as well (%s)" %
                                  (name(f["q"]), name(e["q"]), where(prog, f, e)))
    res.coverage.update({"functions_with_owned_objects": n, "constructions_checked_for_copies": copies,
                         "owning_classes": len(oc)})


# ---------------------------------------------------------------- C13: counts that fit their field
def sizes_in(t, acc):
    if isinstance(t, tuple):
        if t and t[0] == 'size' or t and t[0] == 'init' and isinstance(t[-1], tuple) and t[-1][-1:] == ('#',):
            acc.add(t)
            return acc
        for x in t:
            sizes_in(x, acc)
    return acc


def counts(prog, res):
    """every field of fewer than 32 bits a serialiser fills with the length of a list or string: on no path can the
    length exceed the field (an error is raised first)"""
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    ci = M.index(prog)

    def events(path, conds=()):
        for e in path.ev:
            if isinstance(e, S.LoopEv):
                for q in S.walk(e.body, e.base.child('x')):
                    yield from events(q, conds + path.pc.conds)
            elif e[0] == 'W':
                yield e, conds + path.pc.conds

    def one(k):
        out, fields = [], 0
        T.reset()
        tr, _, _ = M.Side(prog, con, ctors).trace(ci[k], {})
        for e, conds in [x for p in S.walk(tr, S.Path(C.PC(), '')) for x in events(p)]:
            w, v = e[3], e[4]
            if not isinstance(w, int) or w >= 32:
                continue
            for x in sizes_in(v, set()):
                try:
                    if T.bits(v, w) != T.bits(x, w):
                        continue
                except Exception:
                    continue
                fields += 1
                if E.feasible(conds + (T.lt((1 << w) - 1, x),)):
                    at = e[-1] if isinstance(e[-1], tuple) else ("?", 0)
                    out.append(("%s:count:%s" % (k[0], T.show(x)[:60]),
                                "%s writes %s into a field of %d bits without rejecting larger values (%s:%s)" %
                                (k[0], T.show(x), w, at[0], at[1])))
        return out, [], (fields,)

    n, sums = each("counts", [k for k in sorted(ci) if k[0].split('::')[-1].startswith('write') and 'bitio' not in k[0] and
                              not k[0].startswith(('writer::', 'cli'))], one, res)
    res.coverage.update({"serialisers_followed": n, "count_fields_on_paths": sum(sums)})


# ---------------------------------------------------------------- C25: accesses inside live objects
LARGE = 1 << 40         # no container and no stream has that many elements


def nullable_members(prog):
    """pointer members that callers may leave null: the class itself tells its callers so with an exception"""
    out = set()
    for f in library(prog):
        for e in code_of(f):
            if e["k"] == "if" and any(x["k"] == "throw" for x in list(nodes(e.get("a"))) + list(nodes(e.get("t"))) + list(nodes(e.get("then")))):
                for x in nodes(e["c"]):
                    if x["k"] == "mem" and x.get("c") and prog.ty(prog.strip_ref(x["t"]))["k"] == "ptr":
                        out.add(x["f"])
    return out


def atoms(t, acc):
    if isinstance(t, tuple):
        if t in T.ATOM_TYPE:
            acc.add(t)
        for x in t:
            atoms(x, acc)
    return acc


def carried(t):
    """does a term depend on what an earlier iteration of a loop left, or on something not modelled?"""
    if not isinstance(t, tuple):
        return False
    if t and t[0] in ('u', 'op') and t[:2] not in (('op', '>>'), ('op', 'div'), ('op', '<<'), ('op', '%'), ('op', 'mod')):
        return True
    if t and t[0] in ('uninit', 'nd'):
        return True
    if t and t[0] == 'size' and any(isinstance(x, tuple) and x and x[0] == 'call' for x in t[1:]):
        return True
    if t and t[0] == 'call' and not t[1].startswith((NS + 'stream::', NS + 'track::find_next')):
        return True
    if t and t[0] == 'lv' and len(t) > 2:
        return True
    return any(carried(x) for x in t)


def accesses(prog, res):
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    members = nullable_members(prog)
    ci = M.index(prog)
    recursive = {f["q"] for f in library(prog) if any(e.get("fn") == f["id"] for e in code_of(f))}

    def events(p, pre=()):
        for e in p.ev:
            if isinstance(e, S.LoopEv):
                r = ()
                if e.kind != 'while':
                    i = ('ix', e.L)
                    r = (T.lt(i, e.N), T.le(0, i))
                for q in S.walk(e.body, e.base.child('x')):
                    yield from events(q, pre + p.pc.conds + r)
            elif e[0] == 'AT':
                yield e, pre + p.pc.conds

    def can(conds, c):
        if T.is_int(c):
            if not c:
                return False
            cs = conds
        else:
            cs = conds + (c,)
        cs = tuple(x for x in cs if not T.is_int(x))
        small = tuple(T.lt(a, LARGE) for x in cs for a in atoms(x, set()) if T.ATOM_TYPE[a][0] > 41)
        return E.feasible(cs + tuple(sorted(set(small), key=T.skey))) is True

    def one(k):
        f = ci[k]
        out, obligations, skipped = [], 0, 0
        T.reset()
        null = I.null_tested(prog, f)
        opts = {"bounds": True, "nullable": null, "intrinsics": not k[0].startswith('bitio::')}
        op = (con - {x for x in con if x.rsplit('::', 1)[0] == f.get("cls")}) if not k[0].startswith('bitio::') else \
            con | {g["q"] for g in prog.fns.values() if g["q"].startswith(NS + 'bitio::') and g.get("cls") != f.get("cls")}
        seen = set()
        tr, _, it = M.Side(prog, op | {f["q"]} | recursive, ctors).trace(f, opts)
        for e, conds in [x for p in S.walk(tr, S.Path(C.PC(), '')) for x in events(p)]:
            size, upto, what, at = e[1:5]
            if what == 'null':
                if upto[0] != 'init' or not (upto[1][0] == 'param' and not upto[2] or upto[2] and
                                             upto[2][-1] in members and upto[1] == ('this',)):
                    continue
                bad = T.cnot(T.truth(upto))
                text = "%s is used as a pointer where it can be null" % T.show(upto)
            else:
                if carried(size) or carried(upto):
                    skipped += 1
                    continue
                bad = T.lt(size, upto)
                text = "%s of %s elements is accessed up to element %s" % (what, T.show(size), T.show(upto))
            key = (at[:2], text, conds)
            if key in seen:
                continue
            seen.add(key)
            obligations += 1
            hit = can(conds, bad)
            if not hit and what in ('a container', 'an array') and T.is_int(T.sub(upto, size)):
                hit = can(conds, T.lt(T.sub(upto, 1), 0) if T.is_int(size) else T.lt(size, T.sub(1, T.sub(upto, size))))
            if hit:
                out.append(("%s:%s" % (k[0], text[:80]),
                            "%s: %s (%s:%s)\n  when %s" % (k[0], text, at[0], at[1],
                                                           " and ".join(T.show(c)[:100] for c in conds[:8]))))
        return out, [], (obligations, skipped)

    # a helper that a change introduces is judged where it is used, with what its callers make sure of
    known, used = M.index(mod), {e["fn"] for f in prog.fns.values() if "body" in f for e in code_of(f) if e.get("fn")}

    def entry(k):
        return '/cli' not in ci[k].get("file", "") and (k in known or ci[k]["id"] not in used)
    n, sums = each("accesses", [k for k in sorted(ci) if entry(k)], one, res)
    res.coverage.update({"functions_followed": n, "accesses_with_a_bound_on_paths": sums[0] if sums else 0,
                         "accesses_left_to_the_comparison": sums[1] if len(sums) > 1 else 0})


# ---------------------------------------------------------------- C12: the size in a header
def header_size(prog, res):
    """a header writes its size before it takes the bytes the header itself grows by into account: on a path where
    both differ, the size written is not the size of the box (the comparison with the model decides everything else
    about that function, this rule names the recorded finding)"""
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    n = 0
    for k, f in M.index(prog).items():
        if k[0] != 'BoxHeader::write':
            continue
        T.reset()
        tr, _, _ = M.Side(prog, con - {f["q"]}, ctors).trace(f, {})
        old = ('init', ('this',), ('m_size',))
        for p in S.walk(tr, S.Path(C.PC(), '')):
            w = [e for e in p.ev if not isinstance(e, S.LoopEv) and e[0] == 'W']
            new = p.mem.get((('this',), ('m_size',)))
            if not w or new is None:
                continue
            n += 1
            eof = T.truth(('init', ('this',), ('m_extend_to_eof',)))
            if E.differ(new, old, tuple(p.pc.conds) + (T.cnot(eof),)):
                at = w[-1][5]
                res.violation("BoxHeader::write:size_written_before_the_header_grew",
                              "BoxHeader::write: the size becomes %s after it was written (%s:%s)" %
                              (T.show(new)[:160], at[0], at[1]))
    res.coverage["header_size_updates_after_writing"] = n


# ---------------------------------------------------------------- C09: file handles
OPENED = {'open': -1, 'open64': -1, 'openat': -1, 'creat': -1, 'mkstemp': -1, 'mkostemp': -1, 'mkstemps': -1, 'dup': -1,
          'memfd_create': -1, 'fopen': 0, 'fopen64': 0, 'fdopen': 0, 'tmpfile': 0, 'opendir': 0, 'popen': 0}
CLOSES = {'close', 'fclose', 'closedir', 'pclose', 'fdopen', 'freopen'}
BORROWS = {'fread', 'fwrite', 'fseek', 'fseeko', 'ftell', 'ftello', 'feof', 'ferror', 'fflush', 'fileno', 'rewind', 'read', 'write',
           'lseek', 'fsync', 'ftruncate', 'fstat', 'fchmod', 'setvbuf', 'clearerr', 'fgets', 'fputs', 'fputc', 'fgetc', 'pread',
           'pwrite', 'fcntl', 'fgetpos', 'fsetpos', 'fdatasync'}


def plain(q):
    return q.lstrip(':').replace('std::', '')


def mentions(t, a):
    return t == a or isinstance(t, tuple) and any(mentions(x, a) for x in t)


def bare(f, name):
    """is a local variable a number or a plain pointer, which closes nothing when it goes?"""
    for e in code_of(f):
        for v in e["vars"] if e["k"] == "decl" else ():
            if v.get("n") == name:
                t = v.get("t", "").replace('const', '').strip()
                return t == 'int' or t.endswith('*')
    return False


def handles(prog, res):
    """what opens a file is closed, handed on or kept on every way out of the function; an object whose constructor
    fails keeps nothing"""
    mod = M.model()
    con, _ = U.contracts(mod)
    ctors = {q for q in mod.recs if mod.derives(q, NS + 'Box') or q == NS + 'BoxInfo'}
    n = paths = 0
    for k, f in sorted(M.index(prog).items()):
        if '/cli' in f.get("file", "") or not any(e["k"] == "call" and plain(e.get("q", "")) in OPENED for e in code_of(f)):
            continue
        T.reset()
        tr, _, _ = M.Side(prog, con - {f["q"]}, ctors).trace(f, {})
        n += 1
        for p in S.walk(tr, S.Path(C.PC(), '')):
            paths += 1
            held = {}
            for e in p.ev:
                if isinstance(e, S.LoopEv):
                    held = {h: v for h, v in held.items() if str(h) not in str(e.body)}
                    continue
                if e[0] != 'X':
                    continue
                q = plain(e[1])
                for h in [h for h in held if any(mentions(x, h) for x in e[3])]:
                    if q == 'fdopen':
                        held[h] = (held[h][0], held[h][1], e[4])      # the stream's, unless there is none
                    elif q in CLOSES or q not in BORROWS:
                        del held[h]
                if q in OPENED and isinstance(e[4], tuple) and e[4]:
                    held[e[4]] = (q, e[5], None)
            for h, (q, at, stream) in held.items():
                ctor = f.get("ctor") or f["q"].rsplit('::', 1)[-1] == (f.get("cls") or '').rsplit('::', 1)[-1]
                end = p.end or ('ret', None, None)
                keeps = [loc for loc, v in p.mem.items() if mentions(v, h) and
                         not (loc[0][0] == 'v' and bare(f, loc[0][-1]) or end[0] == 'throw' and ctor and loc[0] == ('this',))]
                if keeps or end[0] == 'ret' and mentions(end[1], h):
                    continue
                conds = tuple(p.pc.conds) + ((T.le(0, h) if OPENED[q] else T.cnot(T.eq(h, 0))),)
                if stream is not None:
                    conds += (T.eq(stream, 0),)
                if E.feasible(tuple(c for c in conds if not T.is_int(c))) is True and not any(c == 0 for c in conds):
                    where_ = "%s:%s" % (at[0], at[1])
                    res.violation("%s:%s:%s" % (k[0], q, end[0]),
                                  "%s: what %s() opened at %s is neither closed nor kept when the function is left%s" %
                                  (k[0], q, where_, " by an exception (%s:%s)" % tuple(end[2][:2]) if end[0] == 'throw' else ""))
    res.coverage.update({"functions_opening_files": n, "ways_through_functions_opening_files": paths})


# ---------------------------------------------------------------- C22: UTC
LOCAL = {'localtime', 'localtime_r', 'mktime', 'timelocal', 'localtime_s'}


def utc(prog, res):
    """a time stamped Z is computed without the time zone of the process"""
    n = 0
    for f in library(prog):
        for e in code_of(f):
            if e["k"] in ("call", "mcall"):
                n += 1
                q = e.get("q", "").lstrip(':')
                if q.replace('std::', '').replace('fmt::', '') in LOCAL or q.endswith(('::current_zone', '::to_local')):
                    res.violation("%s:%s" % (f["q"].replace(NS, ''), q),
                                  "%s: %s depends on the time zone of the process (%s:%s)" %
                                  (f["q"].replace(NS, ''), q, prog.rel(f.get("file", "?")), e.get("l")))
    res.coverage["calls_searched_for_local_time"] = n


EXTRA = {"C22": [utc], "C25": [accesses], "C09": [ownership, handles], "C13": [counts], "C12": [header_size], "C20": [sharedstate.shared],
         "C08": [lambda prog, res: endings.loops(prog, res, each)]}


def run(pid, prog, res):
    for r in EXTRA.get(pid, ()):
        r(prog, res)
