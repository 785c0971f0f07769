"""Properties decided by comparing what functions of /repo do, path by path, with the reviewed reference model
(spec/model): events, values, members left changed, results and exceptions. Written for the code's behaviour: names of
locals, helper functions, temporaries, the form of conditions and the order of independent pure computations do not matter."""
import concurrent.futures
import multiprocessing
import os
import signal
import sys
import traceback

import cosim as C
import model as M
import summ as S
import units as U

_S = {}
LIMIT = 120


def setup(prog):
    mod = M.model()
    con, pure = U.contracts(mod)
    S.PURE.clear()
    S.PURE.update(pure)
    ctors = {q for q in mod.recs if mod.derives(q, U.NS + 'Box') or q == U.NS + 'BoxInfo'}
    _S.update(code=prog, mod=mod, ci=M.index(prog), mi=M.index(mod), con=con, ctors=ctors)
    S.CHANGED.clear()
    S.CHANGED.update(changed(prog))
    _S["ren"], _S["bad"], _S["narrow"] = M.renames(prog, mod)


def changed(prog):
    """names of members that something other than a constructor may change"""
    out = set()

    def lv(e):
        while isinstance(e, dict):
            if e["k"] == "mem":
                out.add(e["f"])
                e = e["b"]
            elif e["k"] in ("cast",):
                e = e["e"]
            elif e["k"] in ("idx",):
                e = e["b"]
            elif e["k"] == "un":
                e = e["a"]
            elif e["k"] == "opcall" and e.get("args"):
                e = e["args"][0]
            elif e["k"] == "mcall":
                e = e.get("obj")
            else:
                return
    from rules.own import nodes
    for f in prog.fns.values():
        if "body" not in f or not f["q"].startswith(U.NS) or f["n"] == (f.get("cls") or '?').rsplit('::', 1)[-1]:
            continue
        for n in nodes(f["body"]):
            k = n["k"]
            if k == "assign":
                lv(n["a"])
            elif k == "un" and n.get("op") in ("++", "--", "&"):
                lv(n["a"])
            elif k == "mcall" and not n.get("cm"):
                lv(n.get("obj"))
            elif k == "opcall" and n.get("args") and n.get("op") not in ("==", "!=", "<", "<=>", "[]", "*", "->"):
                for a in n["args"]:
                    lv(a)
            elif k in ("call", "ctor"):
                ps = (prog.fns.get(n.get("fn")) or {}).get("params")
                for i, a in enumerate(n.get("args") or []):
                    t = ps[i]["t"] if ps and i < len(ps) else '&'
                    if t.endswith(('&', '*')) and not t.startswith('const ') and a.get("lv"):
                        lv(a)
            if k == "mcall":
                ps = (prog.fns.get(n.get("fn")) or {}).get("params")
                for i, a in enumerate(n.get("args") or []):
                    t = ps[i]["t"] if ps and i < len(ps) else '&'
                    if t.endswith(('&', '*')) and not t.startswith('const ') and a.get("lv"):
                        lv(a)
    return out


def alarm(*a):
    raise TimeoutError


def one(job):
    k, opts = job
    sys.setrecursionlimit(20000)
    signal.signal(signal.SIGALRM, alarm)
    signal.alarm(LIMIT)
    s = _S
    try:
        v, u, st = M.unit(s["code"], s["ci"], s["mod"], s["mi"], k, opts, s["con"], s["ctors"], s["ren"])
        if v:
            v = (v[0], v[1], where(v[2]), [M.T.show(c)[:120] for c in v[3]][:12])
        return k, v, u, (st.paths, st.effects, st.loops) if st else (0, 0, 0)
    except TimeoutError:
        return k, None, "%s: takes too long" % k[0], (0, 0, 0)
    except Exception as e:
        return k, None, "%s: analysis error %s: %s" % (k[0], type(e).__name__, traceback.format_exc(limit=-2)[-300:]), (0, 0, 0)
    finally:
        signal.alarm(0)


def where(info):
    return " (%s:%s, in %s)" % (info[0], info[1], info[2].replace(U.NS, '')) if info else ""


def jobs(units):
    out, seen = [], set()
    for u in units:
        u, o = u if isinstance(u, tuple) else (u, {})
        ks = M.expand(_S["mi"], u)
        if not ks:
            raise RuntimeError("no such unit: %s" % u)
        for k in ks:
            if k not in seen:
                seen.add(k)
                out.append((k, o))
    return out


def compare(todo):
    """results of all jobs, in their order"""
    if len(todo) < 4:
        return [one(j) for j in todo]
    ctx = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(min(8, os.cpu_count() or 1), mp_context=ctx) as ex:
        return list(ex.map(one, todo))


def report(res, todo, pick=None):
    """compares the jobs and reports what differs"""
    n = [0, 0, 0]
    done = 0
    for k, v, u, st in compare(todo):
        n = [a + b for a, b in zip(n, st)]
        done += st[0] > 0
        if v and (pick is None or pick(v[0], v[1])):
            name, msg, at, conds = v
            text = "%s %s%s" % (name, msg, at)
            if conds:
                text += "\n  when " + " and ".join(conds)
            res.violation("%s:%s" % (name, msg[:100]), text)
        if u and (pick is None or pick(k[0], u)):
            res.undecide(u)
    return n, done


PRIMITIVES = [(u, {"intrinsics": False, "also": ["bitio::"]}) for u in ("bitio::*", "bitio::Reader::*", "bitio::Writer::*")]


def helpers(pid, prog, res):
    """the codec rules take the bit-level primitives for what they are documented to do, and leave a class they do not
    understand undecided: the primitives are compared here, and so are the functions of such a class"""
    setup(prog)
    write = [(u, o) for u, o in jobs(PRIMITIVES) if 'write' in u[0] or 'Writer' in u[0] or '_from_' in u[0]]
    parse = [(u, o) for u, o in jobs(PRIMITIVES) if 'read' in u[0] or 'Reader' in u[0]]
    count = None
    todo = []
    if pid == "C01":
        todo = jobs(PRIMITIVES)
    elif pid == "C02":
        todo = jobs(SIZES)
    elif pid == "C03":
        todo = jobs(PRIMITIVES)
    elif pid == "C04":
        todo, count = write, lambda n, m: ' bits)' in m or 'returns' in m or 'm_' in m
    elif pid == "C15":
        todo = write + [j for j in jobs(["*::writeData"]) if j[0] not in {x[0] for x in write}]
    elif pid == "C14":
        todo = parse
    n, done = report(res, todo, count)
    res.coverage["primitives_compared"] = done
    if pid == "C03":
        n2, d2 = report(res, jobs(["*::readData", "*::writeData", "reader::SimpleReader::readBox"]),
                        lambda n, m: m.startswith("returns") or 'not confirmed: returns' in m or 'seek' in m)
        res.coverage["returned_counts_compared"] = n2[0]
    und = {u.split(' ')[0].split(':')[0].split('(')[0] for u in res.undecided}
    names = {"C01": ("readData", "writeData"), "C02": ("getDataSize", "writeData"), "C04": ("writeData",),
             "C15": ("writeData", "")}.get(pid, ())
    more = []
    for c in sorted(und):
        for m in names:
            for q in ("box::%s::%s" % (c, m or c),):
                more += [(k, {}) for k in M.expand(_S["mi"], q) if k in _S["ci"]]
    if more:
        report(res, more)
        res.coverage["undecided_classes_compared_with_the_reference"] = sorted(und)[:40]


SIZES = ["BoxHeader::BoxHeader(BoxHeaderParameters)", "BoxHeader::getDataSize", "BoxHeader::getHeaderSize", "BoxHeader::getSize",
         "BoxHeader::setOffsetAndDataSize", "BoxHeader::write", "Box::getHeaderSize", "Box::setOffsetAndDataSize", "Box::getSize",
         "Box::write", "BoxInfo::adjustOffsetAndSize", "BoxInfo::getSize", "BoxInfo::write"]


# of a unit listed for several properties, the part that belongs to one of them
ENDLESS = ('repeats', 'for ever', 'never ends', 'loop', 'iteration')
PICK = {"C20": lambda n, m: 'mkstemp' in m,
        "C08": lambda n, m: n in U.ENDINGS or any(x in m for x in ENDLESS),
        "C13": lambda n, m: 'throw' in m or 'size(' in m or 'takes too long' in m}


def run(pid, prog, res, tier):
    setup(prog)
    todo = jobs(U.UNITS.get(pid) or [])
    n, done = report(res, todo, PICK.get(pid))
    classes = {k[0].rsplit('::', 1)[0] for k, _ in todo}
    for q, m, b, a in _S["narrow"]:
        if q[len(U.NS):] in classes:
            res.violation("%s:narrow:%s" % (q, m), "%s.%s has %s bits, must have %s: values the rest of the code keeps "
                          "there are truncated" % (q.replace(U.NS, ''), m, b, a))
    res.coverage.update({"functions_compared": done, "functions_listed": len(todo), "path_pairs_compared": n[0],
                         "effects_compared": n[1], "loop_bodies_compared": n[2]})
    res.assumptions += ["the reference model in spec/model was reviewed by hand (DESIGN.md) and is the oracle",
                        "loops are compared by one arbitrary iteration from equal loop-carried state"]
    res.explanation = ("Every listed function is interpreted abstractly (all paths, symbolic values, loops by an arbitrary "
                       "iteration) and its effects - calls on other objects, bytes read and written, positions, members left "
                       "changed, results, exceptions - are compared path pair by path pair with the reference. A difference "
                       "is reported only when a concrete assignment satisfies the path conditions and separates the values.")
