"""Builds the exporter when missing, exports every translation unit of /repo's current working tree
and merges the result into one resolved program.  Per-TU results are cached under build/cache, keyed
by the content of the TU, of every header of the repository, the flags and the exporter."""
import concurrent.futures
import hashlib
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
LLVM = "/usr/lib/llvm-18"
FLAGS = [
    "-std=gnu++20", "-DSPDLOG_SHARED_LIB", "-DSPDLOG_COMPILED_LIB", "-DSPDLOG_FMT_EXTERNAL", "-DFMT_SHARED",
    "-resource-dir", LLVM + "/lib/clang/18", "-w",
]


class AnalysisBroken(Exception):
    """The analysis itself cannot run (not a verdict about the code)."""


def exporter_path():
    src = os.path.join(HERE, "exporter.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "exporter-" + h)
    if not os.path.exists(out):
        os.makedirs(BUILD, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + LLVM + "/include", "-D_GNU_SOURCE",
               "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", src, "-o", tmp,
               LLVM + "/lib/libclang-cpp.so.18.1", "-L" + LLVM + "/lib", "-lLLVM-18"]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("cannot build the exporter:\n" + r.stderr[-3000:])
        os.replace(tmp, out)
    return out, h


def tree_files(root, sub, exts):
    out = []
    for d, dirs, files in os.walk(os.path.join(root, sub)):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(exts):
                out.append(os.path.join(d, f))
    return out


def export_all(repo=REPO, fresh=False):
    exe, eh = exporter_path()
    tus = tree_files(repo, "src", (".cpp", ".cc", ".cxx"))
    if not tus:
        raise AnalysisBroken("no translation unit under %s/src" % repo)
    headers = tree_files(repo, "include", (".hpp", ".h", ".hh", ".ipp")) + \
        tree_files(repo, "src", (".hpp", ".h", ".hh", ".ipp", ".inc"))
    hh = hashlib.sha256()
    for f in headers:
        hh.update(os.path.relpath(f, repo).encode() + b"\0" + open(f, "rb").read() + b"\0")
    flags = FLAGS + ["-I" + repo + "/include"]
    base = (eh + hh.hexdigest() + " ".join(flags)).encode()
    cache = os.path.join(BUILD, "cache")
    os.makedirs(cache, exist_ok=True)

    def one(tu):
        key = hashlib.sha256(base + tu.encode() + b"\0" + open(tu, "rb").read()).hexdigest()[:32]
        out = os.path.join(cache, key + ".json")
        if fresh or not os.path.exists(out):
            tmp = out + ".%d.tmp" % os.getpid()
            r = subprocess.run([exe, repo + "/", tu, tmp, "--"] + flags, capture_output=True, text=True)
            if r.returncode != 0 or not os.path.exists(tmp):
                raise AnalysisBroken("cannot parse %s:\n%s" % (tu, r.stderr[-2000:]))
            os.replace(tmp, out)
        with open(out) as f:
            return json.load(f)

    with concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        units = list(ex.map(one, tus))
    return tus, units


def sink_breaks(body):
    """'break' out of a loop at the end of a function is the rest of the function and a return"""
    if body.get("k") != "block":
        return
    for i in range(len(body["s"]) - 1, -1, -1):
        s = body["s"][i]
        if s.get("k") not in ("while", "for", "do", "rfor"):
            continue
        tail = body["s"][i + 1:]
        found = []

        def look(x, key, holder):
            """breaks of this loop"""
            if isinstance(x, list):
                for j, y in enumerate(x):
                    look(y, j, x)
            elif isinstance(x, dict):
                if x.get("k") == "break":
                    found.append((holder, key, x))
                elif x.get("k") not in ("while", "for", "do", "rfor", "switch", "lambda"):
                    for j, y in x.items():
                        if isinstance(y, (dict, list)):
                            look(y, j, x)

        look(s["b"], "b", s)
        if not found or len(found) > 3:
            continue
        ends = bool(tail) and tail[-1].get("k") in ("return", "throw") or \
            bool(tail) and tail[-1].get("k") == "expr" and tail[-1].get("e", {}).get("k") == "throw"
        for holder, key, b in found:
            holder[key] = {"k": "block", "l": b.get("l"), "file": b.get("file"),
                           "s": tail + ([] if ends else [{"k": "return", "l": b.get("l"), "file": b.get("file"), "e": None}])}


class Program:
    def __init__(self, repo=None, fresh=False):
        repo = repo or REPO
        self.repo = repo
        self.tus, units = export_all(repo, fresh)
        self.fns, self.recs, self.globals, self.types, self.enums = {}, {}, {}, {}, {}
        n = 0
        for u in units:
            # declaration ids are per unit: make them unique
            for fid, f in u["functions"].items():
                if f is None:
                    continue
                old = self.fns.get(fid)
                if old is None or ("body" not in old and "body" in f):
                    f["_u"] = n
                    f["id"] = fid
                    self.fns[fid] = f
            for q, r in u["records"].items():
                if q not in self.recs:
                    r["q"] = q
                    self.recs[q] = r
            for q, g in u["globals"].items():
                if g is None:
                    continue
                if q not in self.globals or ("init" not in self.globals[q] and "init" in g):
                    self.globals[q] = g
            for t, i in u["types"].items():
                if i is not None:
                    self.types.setdefault(t, i)
            self.enums.update(u["enums"])
            n += 1
        # class hierarchy
        self.subs = {}
        for q, r in self.recs.items():
            for b in r["bases"]:
                bq = self.types.get(b, {}).get("q", b)
                self.subs.setdefault(bq, []).append(q)
        self.by_q = {}
        for fid, f in self.fns.items():
            self.by_q.setdefault(f["q"], []).append(f)
        self.rev_over = {}
        for fid, f in self.fns.items():
            for o in f.get("overrides", []):
                self.rev_over.setdefault(o, []).append(fid)

        self.separate_shadowed()
        for f in self.fns.values():
            if "body" in f and f.get("body"):
                sink_breaks(f["body"])

    def separate_shadowed(self):
        """a field that hides one of a base class gets a name of its own"""
        ren = {}
        for q, r in self.recs.items():
            if not r["bases"]:
                continue
            inherited = {f["n"] for b in self.bases(q) for _, f in self.all_fields(b)}
            for f in r["fields"]:
                if f["n"] in inherited:
                    ren[(q, f["n"])] = q.split("::")[-1] + "::" + f["n"]
        if not ren:
            return

        def go(x):
            if isinstance(x, dict):
                if x.get("k") == "mem" and (x.get("c"), x.get("f")) in ren:
                    x["f"] = ren[(x["c"], x["f"])]
                if x.get("k") == "ilist" and x.get("q") and "fields" in x:
                    x["fields"] = [ren.get((x["q"], f), f) for f in x["fields"]]
                for v in x.values():
                    if isinstance(v, (dict, list)):
                        go(v)
            elif isinstance(x, list):
                for v in x:
                    if isinstance(v, (dict, list)):
                        go(v)
        for f in self.fns.values():
            go(f.get("body"))
            for i in f.get("inits", []):
                if "f" in i:
                    i["f"] = ren.get((f["cls"], i["f"]), i["f"])
                go(i)
        for q, r in self.recs.items():
            for f in r["fields"]:
                go(f.get("init"))
                f["n"] = ren.get((q, f["n"]), f["n"])

    def rel(self, path):
        return os.path.relpath(path, self.repo) if path and path.startswith(self.repo) else path

    def ty(self, t):
        return self.types.get(t) or {"k": "other"}

    def strip_ref(self, t):
        i = self.ty(t)
        while i.get("k") == "ref":
            t = i["to"]
            i = self.ty(t)
        return t

    def bases(self, q):
        r = self.recs.get(q)
        if not r:
            return []
        return [self.types.get(b, {}).get("q", b) for b in r["bases"]]

    def ancestors(self, q):
        out = [q]
        for b in self.bases(q):
            out += self.ancestors(b)
        return out

    def derives(self, q, base):
        return base in self.ancestors(q)

    def descendants(self, q, concrete=True):
        out, todo = [], [q]
        seen = set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            r = self.recs.get(x)
            if r and not (concrete and r["abs"]):
                out.append(x)
            todo += self.subs.get(x, [])
        return sorted(out)

    def all_fields(self, q):
        """(declaring class, field) of q and its bases, bases first"""
        out = []
        for b in self.bases(q):
            out += self.all_fields(b)
        r = self.recs.get(q)
        if r:
            out += [(q, f) for f in r["fields"]]
        return out

    def overrides_closure(self, fid):
        """all base method ids transitively overridden"""
        out, todo = set(), [fid]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            f = self.fns.get(x)
            if f:
                todo += f.get("overrides", [])
            else:
                for r in ():
                    pass
        return out

    def resolve_virtual(self, cls, fid):
        """final overrider of method fid in class cls"""
        name_params = None
        for q in self.linear(cls):
            r = self.recs.get(q)
            if not r:
                continue
            for m in r["methods"]:
                if m["fn"] == fid:
                    return m["fn"]
                if m["fn"] in self.fns and fid in self.overrides_closure(m["fn"]):
                    return m["fn"]
                if name_params is None:
                    name_params = self.method_sig(fid)
                if name_params and (m["n"], tuple(m["params"]), m["const"]) == name_params:
                    return m["fn"]
        return None

    def method_sig(self, fid):
        if not hasattr(self, "_sig"):
            self._sig = {}
            for q, r in self.recs.items():
                for m in r["methods"]:
                    self._sig[m["fn"]] = (m["n"], tuple(m["params"]), m["const"])
        return self._sig.get(fid)

    def linear(self, q):
        out, todo = [], [q]
        while todo:
            x = todo.pop(0)
            out.append(x)
            todo += self.bases(x)
        return out

    def method(self, cls, name, inherited=True, nparams=None):
        for q in (self.linear(cls) if inherited else [cls]):
            r = self.recs.get(q)
            if not r:
                continue
            for m in r["methods"]:
                if m["n"] == name and (nparams is None or len(m["params"]) == nparams) and m["fn"] in self.fns:
                    return self.fns[m["fn"]]
        return None

    def ctors(self, cls):
        r = self.recs.get(cls)
        return [self.fns[m["fn"]] for m in r["methods"] if m["isctor"] and m["fn"] in self.fns] if r else []


if __name__ == "__main__":
    import time
    t = time.time()
    p = Program()
    print(len(p.tus), "units", len(p.fns), "functions", len(p.recs), "records", len(p.globals), "globals",
          "%.1fs" % (time.time() - t))
