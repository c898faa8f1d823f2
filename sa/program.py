"""Loads the extractor's facts: translation units, functions, records, enums; resolves callees across units."""
import json, os, subprocess, hashlib, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ROTOR_REPO", "/repo")
BUILD = os.environ.get("ROTOR_SA_BUILD", os.path.join(VERIF, ".build"))


class AnalysisError(Exception):
    """the analysis itself is broken (anchor vanished, unit does not parse ...): error exit, never a verdict"""


def extractor():
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(VERIF, "tool", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    exe = os.path.join(BUILD, "rotor-extract-" + h)
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        r = subprocess.run(["bash", os.path.join(VERIF, "tool", "build.sh"), tmp], capture_output=True, text=True)
        if r.returncode:
            raise AnalysisError("extractor does not build:\n" + r.stderr[-3000:])
        os.replace(tmp, exe)
    return exe


def clang_args(extra=()):
    a = ["-std=c++17", "-resource-dir", "/usr/lib/llvm-18/lib/clang/18", "-I" + os.path.join(REPO, "include"),
         "-I" + os.path.join(VERIF, "stubs"), "-DROTOR_STATIC_DEFINE", "-w"]
    for d in sorted(glob.glob("/usr/lib/*/wx/include/gtk*")) + ["/usr/include/wx-3.2"]:
        a += ["-isystem", d]
    a += ["-DWXUSINGDLL", "-D_FILE_OFFSET_BITS=64", "-D__WXGTK__"]
    return a + list(extra)


def tree_hash():
    h = hashlib.sha256()
    for base in ("include", "src"):
        for root, dirs, files in os.walk(os.path.join(REPO, base)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(root, f)
                h.update(p.encode() + b"\0")
                h.update(open(p, "rb").read() + b"\0")
    return h.hexdigest()[:20]


class Func:
    __slots__ = ("tu", "d", "id", "name", "qname", "mangled", "cls", "params", "body", "inits", "file", "line",
                 "noexcept", "virtual", "const", "static", "noreturn", "lam", "op", "targs", "ret", "ctor", "dtor", "overrides",
                 "copymove", "pure", "conv", "access")

    def __init__(self, tu, d):
        g = d.get
        self.tu, self.d, self.id = tu, d, d["id"]
        self.name, self.qname, self.mangled = g("name"), g("qname"), g("mangled") or ""
        self.cls = g("cls") or ""
        self.params = g("params") or []
        self.body, self.inits = g("body"), g("inits")
        self.file, self.line = g("file"), g("l")
        self.noexcept, self.virtual, self.const = g("noexcept"), g("virtual", False), g("const", False)
        self.static, self.noreturn, self.lam = g("static", False), g("noreturn", False), g("lambda", False)
        self.op, self.targs, self.ret = g("op"), g("targs") or [], g("ret")
        self.ctor, self.dtor, self.copymove = g("ctor", False), g("dtor", False), g("copymove", False)
        self.overrides, self.pure, self.conv = g("overrides") or [], g("pure", False), g("conv", False)
        self.access = g("access", 0)

    def __repr__(self):
        return "<%s%s>" % (self.qname, "" if self.body else " (decl)")

    @property
    def where(self):
        f = self.file or "?"
        if f.startswith(REPO + "/"):
            f = f[len(REPO) + 1:]
        return "%s:%s" % (f, self.line)


class TU:
    def __init__(self, prog, name, data, src):
        self.prog, self.name, self.src = prog, name, src
        self.funcs = {int(k): Func(self, v) for k, v in data["functions"].items()}
        self.records, self.enums = data["records"], data["enums"]
        self.vars = {int(k): v for k, v in data["vars"].items() if v}


class Program:
    def __init__(self, units):
        """units: list of (name, json path, source)"""
        self.tus = []
        self.records, self.enums = {}, {}
        self.by_mangled, self.by_qname = {}, {}
        for n, p, s in units:
            with open(p) as f:
                tu = TU(self, n, json.load(f), s)
            self.tus.append(tu)
            for k, r in tu.records.items():
                self.records.setdefault(k, r)
            for k, r in tu.enums.items():
                self.enums.setdefault(k, r)
            for fn in tu.funcs.values():
                if fn.body is not None:
                    if fn.mangled:
                        self.by_mangled.setdefault(fn.mangled, fn)
                    self.by_qname.setdefault(fn.qname, []).append(fn)
        self._derived = None
        self._overriders = None
        self._mod = {}

    # ---------------------------------------------------------------- lookups
    def resolve(self, fn):
        """declaration -> definition (same unit first, then by linkage name)"""
        if fn.body is not None:
            return fn
        return self.by_mangled.get(fn.mangled, fn) if fn.mangled else fn

    def find(self, qname, must=True, **kw):
        """all distinct definitions with this qualified name"""
        out, seen = [], set()
        for f in self.by_qname.get(qname, []):
            key = (f.file, f.line, f.mangled, tuple(f.targs), f.cls)
            if key in seen:
                continue
            seen.add(key)
            out.append(f)
        if not out and must:
            raise AnalysisError("anchor not found: no definition of %s in the analysed units" % qname)
        return out

    def one(self, qname, pick=None):
        r = self.find(qname)
        if pick:
            r = [f for f in r if pick(f)]
        r = {(f.file, f.line): f for f in r}
        if len(r) != 1:
            raise AnalysisError("anchor ambiguous or missing: %s (%d definitions)" % (qname, len(r)))
        return list(r.values())[0]

    def method(self, cls, name, pick=None):
        """the definition of cls::name, looking in base classes as C++ would"""
        c = cls
        while True:
            fs = [f for f in self.by_qname.get(c + "::" + name, []) if not pick or pick(f)]
            if fs:
                return fs[0]
            r = self.records.get(c)
            if not r or not r["bases"]:
                raise AnalysisError("anchor not found: %s::%s" % (cls, name))
            c = r["bases"][0]

    def bases(self, cls):
        out, todo = [], [cls]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            r = self.records.get(c)
            if r:
                todo += r["bases"]
        return out

    def derived(self, cls):
        if self._derived is None:
            self._derived = {}
            for n, r in self.records.items():
                for b in r["bases"]:
                    self._derived.setdefault(b, []).append(n)
        out, todo = [], [cls]
        while todo:
            c = todo.pop()
            if c in out:
                continue
            out.append(c)
            todo += self._derived.get(c, [])
        return out

    def enum_range(self, t):
        """(lowest, highest) enumerator of an enumeration whose values are contiguous and never combined"""
        if not hasattr(self, "_eranges"):
            flags = {x["t"].replace("const ", "").rstrip(" &") for tu in self.tus for f in tu.funcs.values()
                     if f.qname.split("::")[-1] in ("operator&", "operator|") for x in f.params}
            self._eranges = {}
            for k, e in self.enums.items():
                vs = sorted({v for _, v in e["values"]})
                # (an error code may be made from any integer)
                if k not in flags and not k.endswith("_code_t") and vs and vs == list(range(vs[0], vs[-1] + 1)):
                    self._eranges[k] = (vs[0], vs[-1])
        return self._eranges.get(t)

    def enum_val(self, enum, name):
        e = self.enums.get(enum)
        if not e:
            raise AnalysisError("anchor not found: enum " + enum)
        for n, v in e["values"]:
            if n == name:
                return v
        raise AnalysisError("anchor not found: %s::%s" % (enum, name))

    def all_funcs(self):
        seen = set()
        for tu in self.tus:
            for f in tu.funcs.values():
                if f.body is None:
                    continue
                key = (f.file, f.line, f.d.get("c"), f.mangled, f.qname, tuple(f.targs))
                if key in seen:
                    continue
                seen.add(key)
                yield f

    def overriders(self, fn):
        """definitions that a virtual call to fn can reach"""
        if self._overriders is None:
            m = {}
            for f in self.all_funcs():
                if f.virtual:
                    for b in self._roots(f):
                        m.setdefault(b, {})[(f.file, f.line, f.qname)] = f
            self._overriders = m
        out = {}
        for b in self._roots(fn):
            for k, f in self._overriders.get(b, {}).items():
                # only overriders of fn itself or below
                out[k] = f
        return list(out.values())

    # ---------------------------------------------------------------- side effects
    def mods(self, fn, virt=False):
        """fields (class, name) a call to fn may modify, through the call graph"""
        key = (id(self.resolve(fn)), virt)
        r = self._mod.get(key)
        if r is None:
            out, seen, todo = set(), set(), []
            todo = self._targets(fn, virt)
            while todo:
                f = self.resolve(todo.pop())
                if id(f) in seen:
                    continue
                seen.add(id(f))
                d, calls = self._direct(f)
                out |= d
                for g, v in calls:
                    if g is None:        # through a function object or member pointer: any callback
                        out |= self.callback_mods()
                    else:
                        todo += self._targets(g, v)
            r = frozenset(out)
            self._mod[key] = r
        return r

    def _targets(self, fn, virt):
        fn = self.resolve(fn)
        if virt:
            return [f for f in self.overriders(fn)] or [fn]
        return [fn]

    # a callback never re-seats these (assumption, listed in DESIGN.md); direct writes are still followed
    STABLE = {("rotor::plugin::plugin_base_t", "actor"), ("rotor::actor_base_t", "supervisor"), ("rotor::actor_base_t", "address"),
              ("rotor::actor_base_t", "plugins"), ("rotor::supervisor_t", "parent"), ("rotor::supervisor_t", "locality_leader"),
              ("rotor::supervisor_t", "context"), ("rotor::supervisor_t", "manager"), ("rotor::actor_base_t", "lifetime")}

    def callback_mods(self):
        """fields a user callback (or a handler behind one) may modify"""
        return frozenset(x for x in self.handler_mods() - self.STABLE if not x[0].endswith("config_t"))

    def handler_mods(self):
        """anything repository code may modify"""
        if "all" not in self._mod:
            out = set()
            for f in self.all_funcs():
                out |= self._direct(f)[0]
            self._mod["all"] = frozenset(out)
        return self._mod["all"]

    def _direct(self, f):
        key = ("d", id(f))
        r = self._mod.get(key)
        if r is not None:
            return r
        out, calls = set(), []

        def field_of(e, depth=0):
            """members an lvalue expression may denote"""
            if e is None or depth > 12:
                return set()
            k = e["k"]
            if k == "mem":
                if e.get("fn") is not None:
                    return field_of(e.get("b"), depth + 1)
                c = e["cls"]
                s = {(("pair" if c.startswith("std::pair") else c), e["n"])}
                if not e.get("arrow") and e.get("b") is not None:
                    s |= field_of(e["b"], depth + 1)
                return s
            if k in ("rd", "tmp", "cast"):
                return field_of(e["e"], depth + 1)
            if k == "un" and e["op"] in ("++", "--"):
                return field_of(e["e"], depth + 1)
            if k == "idx":
                return field_of(e["a"], depth + 1)
            if k == "call" and e.get("f") is not None:
                g = f.tu.funcs.get(e["f"])
                if g is not None and e.get("vk") == "L":
                    g = self.resolve(g)
                    if g.body is not None:
                        s = set()
                        for st in _stmts(g.body):
                            if st["k"] == "ret" and st.get("e"):
                                s |= field_of(st["e"], depth + 1)
                        return s
                    if e.get("obj") is not None:
                        return field_of(e["obj"], depth + 1)
                    if e.get("args"):
                        return field_of(e["args"][0], depth + 1)
            if k == "ref" and e.get("dk") in ("var", "bind"):
                return refs.get(e["d"], set())
            return set()

        refs = {}

        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
                return
            if not isinstance(n, dict):
                return
            k = n.get("k")
            if k == "decl":
                for v in n["v"]:
                    walk(v.get("init"))
                    if v.get("ref") and v.get("init") is not None:
                        refs[v["id"]] = field_of(v["init"])
                    for b in v.get("binds") or []:
                        refs[b["id"]] = {("pair", "second"), ("pair", "first")}
                return
            if k == "bin" and n["op"] in ("=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="):
                out.update(field_of(n["a"]))
            if k == "un" and n["op"] in ("++", "--", "p++", "p--"):
                out.update(field_of(n["e"]))
            if k == "call" and n.get("callee") is not None:
                calls.append((None, False))
            if k in ("call", "ctor") and n.get("f") is not None:
                g = f.tu.funcs.get(n["f"])
                if g is not None:
                    gr = self.resolve(g)
                    if k == "call" and (g.name in ("invoke", "__invoke", "apply") and g.qname.startswith("std::") or
                                        g.name == "operator()" and (g.cls or "").startswith("std::function")):
                        calls.append((None, False))
                    if gr.body is not None or n.get("virt"):
                        calls.append((g, bool(n.get("virt"))))
                    elif k == "call" and n.get("obj") is not None and not g.const and g.name not in ("begin", "end", "rbegin", "rend", "find", "operator->", "operator*", "get", "at", "front", "back"):
                        out.update(field_of(n["obj"]))
            for x in n.values():
                if isinstance(x, (dict, list)):
                    walk(x)
        walk(f.inits)
        walk(f.body)
        # lambdas created here may run here
        r = (frozenset(x for x in out if x[0] != "pair"), calls)
        self._mod[key] = r
        return r

    def _roots(self, f):
        todo, out, seen = [f], set(), set()
        while todo:
            g = todo.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            if g.overrides:
                todo += [g.tu.funcs[o] for o in g.overrides if o in g.tu.funcs]
            else:
                out.add((g.qname.split("<")[0], g.name) if not g.dtor else (g.cls, "~"))
        return out


def _stmts(n):
    if isinstance(n, dict):
        if n.get("k") == "ret":
            yield n
        for x in n.values():
            if isinstance(x, (dict, list)):
                yield from _stmts(x)
    elif isinstance(n, list):
        for x in n:
            yield from _stmts(x)


# -------------------------------------------------------------------- extraction
def core_sources():
    r = []
    for root, dirs, files in os.walk(os.path.join(REPO, "src", "rotor")):
        dirs.sort()
        for f in sorted(files):
            if f.endswith(".cpp"):
                r.append(os.path.join(root, f))
    return r


def extract(sources, extra=(), all_roots=None, jobs=8):
    """sources: absolute paths; returns Program"""
    exe = extractor()
    key = tree_hash()
    th = hashlib.sha256((key + exe + repr(extra) + repr(all_roots)).encode()).hexdigest()[:20]
    out = os.path.join(BUILD, "facts", th)
    os.makedirs(out, exist_ok=True)
    roots = REPO + "/src/:" + REPO + "/include/:" + VERIF + "/driver/"
    allr = all_roots or (REPO + "/src/:" + REPO + "/include/:" + VERIF + "/driver/")

    def one(src):
        h = hashlib.sha256((src + "\0").encode() + open(src, "rb").read()).hexdigest()[:16]
        p = os.path.join(out, os.path.basename(src) + "." + h + ".json")
        if not os.path.exists(p):
            tmp = p + ".%d.tmp" % os.getpid()
            r = subprocess.run([exe, tmp, roots, allr, src] + clang_args(extra), capture_output=True, text=True)
            if r.returncode or not os.path.exists(tmp):
                raise AnalysisError("unit does not parse: %s\n%s" % (src, r.stderr[-3000:]))
            os.replace(tmp, p)
        return (os.path.basename(src), p, src)

    with ThreadPoolExecutor(jobs) as ex:
        units = list(ex.map(one, sources))
    return Program(units)


def prune_cache(keep=6):
    d = os.path.join(BUILD, "facts")
    if not os.path.isdir(d):
        return
    ds = sorted((os.path.join(d, x) for x in os.listdir(d)), key=os.path.getmtime)
    import shutil
    for x in ds[:-keep]:
        shutil.rmtree(x, ignore_errors=True)


# -------------------------------------------------------------------- whole-program queries
def call_sites(prog):
    """[(caller Func, callee Func (resolved declaration), node, virt)] over repository code"""
    if hasattr(prog, "_sites"):
        return prog._sites
    out = []
    for f in prog.all_funcs():
        def walk(n):
            if isinstance(n, list):
                for x in n:
                    walk(x)
            elif isinstance(n, dict):
                if n.get("k") in ("call", "ctor") and n.get("f") is not None:
                    g = f.tu.funcs.get(n["f"])
                    if g is not None:
                        out.append((f, g, n, bool(n.get("virt"))))
                for x in n.values():
                    if isinstance(x, (dict, list)):
                        walk(x)
        walk(f.inits)
        walk(f.body)
    prog._sites = out
    return out


def field_writers(prog, cls, name):
    """functions whose own body (not callees) may modify cls::name"""
    return [f for f in prog.all_funcs() if (cls, name) in prog._direct(f)[0]]


def load(extra=()):
    """the program every rule looks at: all library units plus the driver that instantiates the header templates"""
    r = extract(core_sources() + sorted(glob.glob(os.path.join(VERIF, "driver", "*.cpp"))), tuple(extra))
    prune_cache()
    return r
