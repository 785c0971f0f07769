"""C01..C04: serialiser, parser and declared size of every box class, compared on their effect trees."""
import concurrent.futures
import multiprocessing
import os
import sys
import time
import traceback

import cosim as C
import domain
import interp as I
import rcount
import terms as T

BOX = 'shiguredo::mp4::Box'
RULES = {
    "C01": ("layout", "value", "reject"),
    "C02": ("size",),
    "C03": ("wcount", "rcount"),
    "C04": ("align",),
}
_P = None
_CF = None


def one(q):
    sys.setrecursionlimit(20000)
    t0 = time.time()
    T.reset()
    I._ctr[0] = 0
    out = {"cls": q, "t": 0, "findings": [], "undecided": [], "cases": 0, "fields": 0, "loops": 0, "members": [],
           "notes": [], "sizes": 0, "paths": 0, "bounded": 0}
    try:
        dm, miss = domain.cases(_P, q)
        if miss:
            out["undecided"].append("%s: a member named in the format table is gone: %s" % (short(q), sorted(set(miss))))
            return out
        r = C.check_class(_P, q, _CF, domain=dm)
        out["cases"], out["fields"], out["loops"], out["sizes"] = r.cases, r.fields, r.loops, r.sizes
        out["members"] = sorted(r.members)
        out["notes"] = sorted(set(str(n) for n in r.notes))
        for u in r.undecided:
            out["undecided"].append("%s %s: %s%s" % (short(q), u[0], u[1], at(u[2])))
        for rule, msg, info, winfo, pc in r.findings:
            out["findings"].append((rule, msg, at(info), at(winfo), [T.show(c)[:120] for c in pc][:12]))
        for msg, info, pc in rejections(q, r):
            out["findings"].append(("reject", msg, at(info), "", [T.show(c)[:120] for c in pc][:12]))
        fs, und, n = rcount.check(_P, q, _CF)
        out["paths"] = n
        for msg, info, pc in fs:
            out["findings"].append(("rcount", msg, at(info), "", [T.show(c)[:120] for c in pc][:12]))
        for u in und:
            if "which the path bounds" in u:
                out["bounded"] += 1
            else:
                out["undecided"].append("%s readData: %s" % (short(q), u))
    except I.Unsupported as e:
        out["undecided"].append("%s: %s" % (short(q), e))
    except Exception as e:
        out["undecided"].append("%s: analysis error %s: %s" % (short(q), type(e).__name__,
                                                               traceback.format_exc(limit=-2)[-300:]))
    out["t"] = time.time() - t0
    return out


def rejections(q, rep):
    """conditions on which the parser throws although the serialiser wrote the data"""
    for ty, info, conds in rep.domain:
        if short(q) == 'Sgpd' and any('m_default_length' in repr(c) and 'm_roll_count' in repr(c) for c in conds):
            continue        # a common length that is not 4 + 4n for some entry cannot be serialised consistently
        last = T.truth(T.canon_cond(conds[-1]))
        if last == 0:
            continue
        yield "may reject what the serialiser writes: %s" % T.show(last)[:200], info, conds


def short(q):
    return q.split('::')[-1]


def at(info):
    if not info or not info[0]:
        return ""
    return " [%s:%s%s]" % (info[0], info[1], " in " + str(info[2]).replace('shiguredo::mp4::', '') if len(info) > 2 and info[2] else "")


# notes the interpreter leaves on the tree these rules were written for; any other means the class uses a
# construct it does not model, and findings for it are then not reported
KNOWN_NOTES = ("call depth/recursion at shiguredo::mp4::box::ESDescriptor::",)


def foreign(notes):
    return [n for n in notes if not any(k in n for k in KNOWN_NOTES)]


def all_reports(prog):
    global _P, _CF
    _P = prog
    _CF = C.const_fields(prog, prog.descendants('shiguredo::mp4::box::Descriptor'))
    boxes = prog.descendants(BOX)
    if len(boxes) < 60:
        from prog import AnalysisBroken
        raise AnalysisBroken("only %d box classes found" % len(boxes))
    order = sorted(boxes, key=lambda q: (short(q) not in ('Esds', 'Sgpd', 'AudioSampleEntry'), q))
    ctx = multiprocessing.get_context("fork")
    with concurrent.futures.ProcessPoolExecutor(max_workers=min(8, os.cpu_count() or 4), mp_context=ctx) as ex:
        return sorted(ex.map(one, order), key=lambda r: r["cls"])


def run(pid, prog, res, tier):
    reps = all_reports(prog)
    rules = RULES[pid]
    n_obl = 0
    for r in reps:
        bad = foreign(r["notes"])
        mine = [f for f in r["findings"] if f[0] in rules]
        for rule, msg, a, w, pc in mine:
            text = "%s: %s%s%s" % (short(r["cls"]), msg, a, "; written at" + w if w else "")
            if pc:
                text += "\n  when " + " and ".join(pc)
            if bad:
                res.undecide("%s (not reported: %s)" % (text.split("\n")[0], bad[0]))
            else:
                res.violation("%s:%s:%s" % (short(r["cls"]), rule, msg[:80]), text)
        for u in r["undecided"]:
            res.undecide(u)
        for n in bad:
            res.undecide("%s: not modelled: %s" % (short(r["cls"]), n))
    cov = res.coverage
    cov["box_classes"] = len(reps)
    cov["path_cases"] = sum(r["cases"] for r in reps)
    if pid == "C01":
        cov["fields_matched"] = sum(r["fields"] for r in reps)
        cov["loops_matched"] = sum(r["loops"] for r in reps)
        cov["members_compared"] = sum(len(r["members"]) for r in reps)
    if pid == "C03":
        cov["reader_only_paths"] = sum(r["paths"] for r in reps)
        cov["size_equations"] = sum(r["sizes"] for r in reps)
    cov["slowest"] = ["%s %.1fs" % (short(r["cls"]), r["t"]) for r in sorted(reps, key=lambda r: -r["t"])[:3]]
    res.assumptions += [
        "the operands of a sum of write calls are evaluated left to right (clang)",
        "the stream delivers the bytes that were written; its good() state is true unless an operation fails",
        "loop bodies are compared for one generic element; widths and counts are compared as symbolic polynomials",
        "field combinations the format itself excludes are listed with reasons in engine/domain.py",
    ]
    res.explanation = {
        "C01": "For every box class the effect tree of the serialiser (each field: width, value, order, loop) is "
               "walked by the effect tree of the parser; every value read must be the value written, every member "
               "written must come back, nothing may be left over or rejected.",
        "C02": "The declared payload size and the number of bytes the serialiser emits are computed as symbolic "
               "terms over the object's members on every path and compared.",
        "C03": "The bit count each serialiser and each parser returns is compared, as a symbolic term, with the "
               "sum of the widths it transfers on that path; parsers also against an arbitrary payload.",
        "C04": "The total width on every serialiser path is a multiple of eight, and byte-wise operations start on "
               "a byte boundary.",
    }[pid]
