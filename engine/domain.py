"""Field combinations the format itself forbids, excluded from the serialise/parse agreement.

Each entry is a list of cases.  A case names members of the object (by path) whose value the format
derives from other members ("rewrite") and conditions it demands ("assume").  A name that no longer
exists in the class makes the analysis report the class as undecided instead of using the entry."""
import terms as T

THIS = ('this',)


class Names:
    def __init__(self, prog, cls):
        self.p, self.cls = prog, cls
        self.missing = []

    def __call__(self, path, ix=None):
        """'a.b[i].c' or 'size(a.b)' -> the entry value of that member"""
        sz = path.startswith('size(')
        if sz:
            path = path[5:-1]
        out, cls = [], self.cls
        for part in path.split('.'):
            idx = None
            if part.endswith(']'):
                part, idx = part[:-1].split('[')
            ty = None
            for q, f in self.p.all_fields(cls):
                if f["n"] == part:
                    ty = f["t"]
            if ty is None:
                self.missing.append('%s.%s' % (self.cls, path))
                return ('init', THIS, ('?missing',))
            out.append(part)
            ti = self.p.ty(self.p.strip_ref(ty))
            if idx is not None:
                out.append(('[]', ix if idx == 'i' else int(idx)))
                el = ti.get("to") or (ti.get("targs") or [None])[0]
                ti = self.p.ty(el) if el else {"k": "other"}
            cls = ti.get("q", "")
        if sz:
            out.append('#')
        v = ('init', THIS, tuple(out))
        if sz:
            T.ATOM_TYPE.setdefault(v, (64, False))
        elif ti["k"] in ("int", "enum"):
            T.ATOM_TYPE.setdefault(v, (ti.get("bits", 32), bool(ti.get("sg"))))
        elif ti["k"] == "bool":
            T.ATOM_TYPE.setdefault(v, (1, False))
        return v


def rewriter(rules):
    """rules: [(pattern path, function of the index -> term)]"""
    pats = []
    for pat, fn in rules:
        sz = pat.startswith('size(')
        if sz:
            pat = pat[5:-1]
        p = []
        for part in pat.split('.'):
            if part.endswith(']'):
                part, idx = part[:-1].split('[')
                p += [part, ('[]', None if idx == 'i' else int(idx))]
            else:
                p.append(part)
        if sz:
            p.append('#')
        pats.append((tuple(p), fn))

    def f(x):
        if not x or x[0] != 'init' or x[1] != THIS:
            return None
        path = x[2]
        for p, fn in pats:
            if len(p) != len(path):
                continue
            ix, ok = None, True
            for a, b in zip(p, path):
                if isinstance(a, tuple) and isinstance(b, tuple) and b[0] == '[]':
                    if a[1] is None:
                        ix = b[1]
                    elif a[1] != b[1]:
                        ok = False
                elif a != b:
                    ok = False
                if not ok:
                    break
            if ok:
                return fn(ix)
        return None
    return f


def fourcc(m, name, text):
    return [('%s.m_data[%d]' % (name, i), lambda ix, c=c: ord(c)) for i, c in enumerate(text)]


def cases(prog, cls):
    """(cases, names that do not exist)"""
    short = cls.split('::')[-1]
    fn = TABLE.get(short)
    if fn is None:
        return None, []
    m = Names(prog, cls)
    out = []
    for name, rules, assume in fn(m):
        for pat, f in rules:
            m(pat, 0)
        out.append((name, rewriter(rules) if rules else None, assume))
    return out, m.missing


def t_dops(m):
    # RFC 7845 mapping in MP4: one mapping byte per output channel
    return [("channel mapping has one entry per channel",
             [('size(m_channel_mapping_table.m_channel_mapping)', lambda ix: m('m_output_channel_count'))], [])]


def t_hdlr(m):
    # pre_defined != 0 marks a QuickTime handler, whose name is a pascal string; only the MP4 form is written
    return [("mp4 handler", [('m_pre_defined', lambda ix: 0)], [])]


def t_iods(m):
    # descriptors after the fixed fields are skipped by the parser, none are written
    return [("no nested descriptors", [('m_descriptor_length', lambda ix: 7)], [])]


def t_meta(m):
    # a non-zero version/flags word marks a QuickTime meta, which has none
    return [("mp4 meta", [('m_version', lambda ix: 0)] + [('m_flags[%d]' % i, lambda ix: 0) for i in range(3)], [])]


def t_audio(m):
    qt, uw, v = m('m_is_quick_time_compatible'), m('m_under_wave'), m('m_entry_version')
    n = m('size(m_quick_time_data)')

    def b(x, k):
        return ('m_is_quick_time_compatible' if x is qt else 'm_under_wave', lambda ix, k=k: k)
    out = [("under wave", [b(uw, 1)], [])]
    for t in ('mp4a', 'Opus', 'enca'):
        ty = fourcc(m, 'm_type', t)
        out.append(("plain %s" % t, ty + [b(uw, 0), b(qt, 0)], []))
    ty = fourcc(m, 'm_type', 'mp4a')
    for ver, size in ((1, 16), (2, 36)):
        out.append(("QuickTime version %d" % ver,
                    ty + [b(uw, 0), b(qt, 1), ('m_entry_version', lambda ix, ver=ver: ver),
                          ('size(m_quick_time_data)', lambda ix, size=size: size)], []))
    out.append(("QuickTime, other version", ty + [b(uw, 0), b(qt, 1)],
                [T.cnot(T.eq(v, k)) for k in (0, 1, 2)] + [T.cnot(T.eq(n, 0))]))
    return out


def t_sgpd(m):
    v, dl = m('m_version'), m('m_default_length')
    nodef = T.cand(T.eq(v, 1), T.eq(dl, 0))
    e = 'm_alternative_startup_entries'

    def with_length(c):
        return [(x + '[i].m_with_length', lambda ix: c)
                for x in ('m_roll_distances', 'm_alternative_startup_entries', 'm_visual_random_access_entries',
                          'm_temporal_level_entries')]

    def roll(ix):
        return m(e + '[i].m_roll_count', ix)
    count = [('size(%s[i].m_sample_offsets)' % e, roll)]
    alst = T.eq(m('m_grouping_type[0]'), ord('a'))

    def nopts(ix):
        return T.floordiv(T.sub(T.sub(m('m_default_length'), 4), T.mul(4, roll(ix))), 4)

    def dlen(ix):
        return T.add(4, T.add(T.mul(4, roll(ix)), T.mul(4, m('size(%s[i].m_opts)' % e, ix))))
    return [
        ("grouping types other than alst", with_length(nodef) + count, [T.cnot(alst)]),
        ("alst, length in each entry", with_length(1) + count +
         [('m_version', lambda ix: 1), ('m_default_length', lambda ix: 0), (e + '[i].m_description_length', dlen)],
         [alst]),
        # the length common to all entries determines how many options each one has
        ("alst, default length", with_length(0) + count +
         [('m_version', lambda ix: 1), ('size(%s[i].m_opts)' % e, nopts)], [alst, T.cnot(T.eq(dl, 0))]),
    ]


TABLE = {'DOps': t_dops, 'Hdlr': t_hdlr, 'Iods': t_iods, 'Meta': t_meta, 'AudioSampleEntry': t_audio,
         'Sgpd': t_sgpd}
