"""C15: what a box built from its parameters puts on the wire, compared with the format tables of spec/wire.json."""
import json
import os
import re
import sys
import traceback

import cosim as C
import interp as I
import terms as T
import evalt as E
import wire as W
from rules.codec import at, foreign, short

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(os.path.dirname(os.path.dirname(HERE)), "spec", "wire.json")


def members(t, out):
    """member names in parameter atoms"""
    at_ = set()
    W.params_in(t, at_)
    for a in at_:
        for p in a[2]:
            if isinstance(p, str) and p != '#' and not p.startswith('<') and not p.isdigit():
                out.add(p)


def run(pid, prog, res, tier):
    sys.setrecursionlimit(20000)
    spec = json.load(open(SPEC))
    cf = C.const_fields(prog, prog.descendants('shiguredo::mp4::box::Descriptor'))
    cm = W.canon_map(prog, cf)
    names = set()
    for q in prog.recs:
        for f in prog.recs[q]["fields"]:
            names.add(f["n"])
    have = set(W.units(prog))
    n = {"constructors": 0, "fields": 0, "paths": 0, "lists": 0, "defaults": 0}
    gone = 0
    for q in sorted(spec["units"]):
        if q not in have:
            res.undecide("%s: no such class any more" % short(q))
            gone += 1
            continue
        cs = {W.ctor_key(prog, c): c for c in W.ctors(prog, q)}
        for key, sp in spec["units"][q].items():
            c = cs.get(key)
            if c is None:
                res.undecide("%s(%s): no such constructor any more" % (short(q), key))
                gone += 1
                continue
            one(prog, res, q, key, c, sp, cf, cm, names, n)
    if gone > 40:
        from prog import AnalysisBroken
        raise AnalysisBroken("%d constructors of the format tables are gone" % gone)
    now = W.default_values(prog)
    for q in sorted(spec["defaults"]):
        for f, v in sorted(spec["defaults"][q].items()):
            if any(m not in names for m in re.findall(r'\bm_\w+', v)):
                continue
            have_f = q in prog.recs and any(x["n"] == f for x in prog.recs[q]["fields"])
            if not have_f:
                res.undecide("%s.%s: gone" % (short(q), f))
                continue
            got = now.get(q, {}).get(f)
            n["defaults"] += 1
            if got is None:
                fl = [x for x in prog.recs[q]["fields"] if x["n"] == f][0]
                if "init" in fl:
                    res.undecide("default of %s.%s is not understood" % (short(q), f))
                else:
                    res.violation("%s:default:%s" % (short(q), f), "%s.%s has no default any more; an omitted value must "
                                  "be %s" % (short(q), f, v))
            elif got != v:
                if 'unk' in got or 'call' in got:
                    res.undecide("default of %s.%s: %s" % (short(q), f, got[:80]))
                else:
                    res.violation("%s:default:%s" % (short(q), f), "an omitted %s.%s becomes %s, must be %s" %
                                  (short(q), f, got, v))
    res.coverage.update({"classes": len(spec["units"]), "constructors": n["constructors"], "fields_compared": n["fields"],
                         "paths_compared": n["paths"], "lists_compared": n["lists"], "defaults_compared": n["defaults"]})
    res.assumptions += ["the format tables in spec/wire.txt were reviewed by hand against ISO/IEC 14496-12, -14, -15 and "
                        "the codec mappings, from memory (no network)",
                        "constructing Esds is specified descriptor by descriptor"]
    res.explanation = ("For every public constructor of every box, entry and descriptor the construction is composed with "
                       "the serialiser into an effect tree over the constructor's parameters and compared, path by path "
                       "and bit by bit, with the frozen format table; so are the values of omitted parameters.")


def one(prog, res, q, key, c, sp, cf, cm, names, n):
    label = "%s(%s)" % (short(q), key)
    T.reset()
    I._ctr[0] = 0
    try:
        tr, notes = W.build(prog, q, c, cf)
        if not prog.derives(q, W.BOX) or has_params(prog, c):
            pass
        else:
            tr = [e for e in tr if e[0] == 'W'][:4]
        tr = C.map_trace(tr, W.canonical(prog, cm, c))
        want = W.from_json(sp["tree"])
        ms = set()
        members(want, ms)
        missing = sorted(m for m in ms if m not in names)
        if missing:
            res.undecide("%s: members of the format table are gone: %s" % (label, ', '.join(missing)))
            return
        for a, t in sp["types"]:
            T.ATOM_TYPE.setdefault(W.from_json(a), tuple(t))
        for a, k in sp["lens"]:
            T.ARRAY_LEN.setdefault(W.from_json(a), k)
        bad = foreign(sorted(set(str(x) for x in notes)))
        cmp_ = W.Cmp()
        try:
            cmp_.trees(tr, W.unprune(want))
        except W.Differ as e:
            text = "%s %s%s" % (label, e.msg, at(e.info))
            conds = [T.show(x)[:120] for x in e.pc][:12]
            if conds:
                text += "\n  when " + " and ".join(conds)
            if e.ab and E.differ(*e.ab, e.pc) is not True:
                bad.append("no values that tell them apart")
            if bad:
                res.undecide("%s (not reported: %s)" % (text.split("\n")[0], bad[0]))
            else:
                res.violation("%s:%s" % (label, e.msg[:100]), text)
        n["constructors"] += 1
        n["fields"] += cmp_.fields
        n["paths"] += cmp_.paths
        n["lists"] += cmp_.loops
        for b in bad:
            res.undecide("%s: not modelled: %s" % (label, b))
    except (I.Unsupported, C.Undecided) as e:
        res.undecide("%s: %s" % (label, e))
    except Exception as e:
        res.undecide("%s: analysis error %s: %s" % (label, type(e).__name__, traceback.format_exc(limit=-2)[-300:]))


def has_params(prog, c):
    return short(c["q"]) == 'CttsEntry' or any('arameters' in W.prm_type(prog, x) or 'armeters' in W.prm_type(prog, x)
                                               for x in c["params"])
