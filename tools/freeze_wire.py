#!/usr/bin/env python3
"""Writes spec/wire.json and the readable listing spec/wire.txt from the current tree (reviewed by hand against
ISO/IEC 14496-12/-14/-15 and the codec mapping documents before it is committed; no check runs this)."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "engine"))
sys.setrecursionlimit(20000)
import cosim as C
import interp as I
import terms as T
import wire as W
from prog import Program

SKIP = {"Esds"}     # its descriptors are specified one by one

p = Program()
cf = C.const_fields(p, p.descendants('shiguredo::mp4::box::Descriptor'))
cm = W.canon_map(p, cf)
out = {"units": {}, "defaults": W.default_values(p)}
txt = []


def sh(tr, ind):
    res, buf = [], []

    def fl():
        if buf:
            res.append('  ' * ind + ' | '.join(buf))
            buf.clear()
    for e in tr:
        if e[0] == 'W':
            v = T.show(e[3]).replace('param.$0.', '.').replace('param.', '.')
            buf.append('%s%s=%s' % (e[1], T.show(e[2]).replace('param.$0.', '.'), v))
            continue
        fl()
        if e[0] == 'if':
            res.append('  ' * ind + 'IF ' + T.show(e[1]).replace('param.$0.', '.'))
            res.extend(sh(e[2], ind + 1))
            if e[3]:
                res.append('  ' * ind + 'ELSE')
                res.extend(sh(e[3], ind + 1))
        elif e[0] == 'loop':
            res.append('  ' * ind + 'FOR %s < %s' % (e[1], T.show(e[3]).replace('param.$0.', '.')))
            res.extend(sh(e[4], ind + 1))
        elif e[0] == 'scope':
            res.append('  ' * ind + 'SCOPE')
            res.extend(sh(e[1], ind + 1))
        else:
            res.append('  ' * ind + ' '.join(str(x) for x in e))
    fl()
    return res


for q in W.units(p):
    s = q.split('::')[-1]
    if s in SKIP:
        continue
    d = {}
    for c in W.ctors(p, q):
        key = W.ctor_key(p, c)
        T.reset()
        I._ctr[0] = 0
        tr, notes = W.build(p, q, c, cf)
        if notes:
            print("note", s, notes)
            continue
        if not any('arameters' in W.prm_type(p, x) or 'armeters' in W.prm_type(p, x) for x in c["params"]) and \
                s != 'CttsEntry' or not c["params"]:
            if not p.derives(q, W.BOX):
                continue
            tr = [e for e in tr if e[0] == 'W'][:4]     # only the type code
        tr = C.map_trace(tr, W.canonical(p, cm, c))
        pr = W.rename_loops(W.prune(tr))
        at = set()
        W.params_in(pr, at)
        types = [[W.to_json(a), list(T.ATOM_TYPE[a])] for a in sorted(at, key=repr) if a in T.ATOM_TYPE]
        lens = [[W.to_json(a), T.ARRAY_LEN[a]] for a in sorted(at, key=repr) if a in T.ARRAY_LEN]
        d[key] = {"tree": W.to_json(pr), "types": types, "lens": lens}
        txt.append('## %s(%s)' % (s, key))
        txt += sh(pr, 1)
    if d:
        out["units"][q] = d
json.dump(out, open(os.path.join(VERIF, "spec", "wire.json"), "w"), separators=(',', ':'), sort_keys=True)
txt.append('')
txt.append('## defaults of omitted parameters')
for q in sorted(out["defaults"]):
    for n, v in sorted(out["defaults"][q].items()):
        txt.append('%s.%s = %s' % (q.split('::')[-1], n, v))
open(os.path.join(VERIF, "spec", "wire.txt"), "w").write('\n'.join(txt) + '\n')
print(len(out["units"]), "units", sum(len(v) for v in out["units"].values()), "constructors",
      sum(len(v) for v in out["defaults"].values()), "defaults")
