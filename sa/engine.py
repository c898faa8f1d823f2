"""Interprocedural, path-sensitive dataflow over the extracted syntax trees (ESP-style property simulation).

Nothing is executed and no solver is asked: an abstract state is (store, integer-interval facts on terms, history of the
events a rule tracks); branch conditions refine the facts, loops run to a fixpoint with widening, calls to repository
functions are followed, virtual/opaque calls are events that invalidate everything their possible targets may modify.
"""
import re, sys
from program import AnalysisError

sys.setrecursionlimit(20000)

# ------------------------------------------------------------------ terms
class T:
    __slots__ = ("op", "a", "uid", "syms")
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op, a)
    t = T._tab.get(k)
    if t is None:
        t = T()
        t.op, t.a = op, a
        T._n += 1
        t.uid = T._n
        s = frozenset()
        for x in a:
            if isinstance(x, T):
                s |= x.syms
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, T):
                        s |= y.syms
                    elif isinstance(y, tuple):
                        for z in y:
                            if isinstance(z, T):
                                s |= z.syms
        if op == "sym":
            s = s | frozenset([t])
        t.syms = s
        T._tab[k] = t
    return t


def INT(v):
    return mk("int", int(v))


ZERO, ONE = INT(0), INT(1)
VOID = mk("void")


def subst(t, m, memo):
    """replace symbols"""
    if isinstance(t, tuple):
        return tuple(subst(x, m, memo) for x in t)
    if not isinstance(t, T):
        return t
    if t in m:
        return m[t]
    if not (t.syms & m.keys()):
        return t
    r = memo.get(t)
    if r is None:
        r = mk(t.op, *[subst(x, m, memo) for x in t.a])
        memo[t] = r
    return r


def show(t):
    if isinstance(t, str):
        return t
    if isinstance(t, tuple):
        return "(" + ",".join(show(x) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    o, a = t.op, t.a
    if o == "int":
        return str(a[0])
    if o == "str":
        return '"%s"' % a[0]
    if o == "sym":
        return str(a[0]).split("#")[0]
    if o == "fld":
        b = show(a[0])
        return (b if b.endswith("->") else b + ".") + a[2]
    if o == "deref":
        return show(a[0]) + "->" if not (a[0].op == "sym" and a[0].a[0] == "this") else "this->"
    if o == "rd":
        return show(a[0]) if a[1] is None else show(a[0]) + "'"
    if o == "el":
        i = "k" if isinstance(a[1], T) and a[1].op in ("bin", "size", "int") else show(a[1])
        return "%s[%s]" % (show(a[0]), i)
    if o == "var":
        return a[2]
    if o == "addr":
        s = show(a[0])
        return s[:-2] if s.endswith("->") else "&" + s
    if o == "tmp":
        return "tmp"
    if o == "pos":
        return "#%d" % a[0]
    if o == "cmp":
        return "(%s %s %s)" % (show(a[1]), a[0], show(a[2]))
    if o == "not":
        return "!" + show(a[0])
    if o == "bin":
        if a[0] == "+" and a[2].op == "int" and a[2].a[0] < 0:
            return "(%s - %d)" % (show(a[1]), -a[2].a[0])
        return "(%s %s %s)" % (show(a[1]), a[0], show(a[2]))
    if o == "found":
        return "found(%s,%s)%s" % (show(a[0]), show(a[1]), "" if a[2] is None else "'")
    if o == "empty":
        return "empty(%s)%s" % (show(a[0]), "" if a[1] is None else "'")
    if o == "size":
        return "size(%s)" % show(a[0])
    if o == "find":
        return "find(%s,%s)" % (show(a[0]), show(a[1]))
    if o == "end":
        return "end(%s)" % show(a[0])
    if o == "msg":
        return "msg<%s>@%s(%s)" % (short(a[0]), show(a[1]), ",".join(show(x) for x in a[2]))
    if o == "lam":
        return "lambda"
    if o == "fn":
        return short(a[0])
    if o == "obj":
        return "%s{%s}" % (short(a[0]), ",".join(show(v) for _, v in a[1]))
    return "%s(%s)" % (o, ",".join(show(x) for x in a))


def short(q):
    """last component of a qualified (maybe templated) name"""
    q = str(q)
    d, out = 0, ""
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out += ch
    return out.split("::")[-1].strip(" &*")


def base_name(q):
    """qualified name without template arguments"""
    out, d, i = "", 0, 0
    if "operator" in q:
        i0 = q.find("operator")
        head, tail = q[:i0], q[i0:]
        return base_name(head) + tail
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">" and d:
            d -= 1
        elif d == 0:
            out += ch
    return out


SP = re.compile(r"^(const )?(boost::intrusive_ptr|std::unique_ptr|std::shared_ptr)<")
REPO_SP_NAMES = re.compile(r"rotor::.*_ptr_t$")


def strip_t(t):
    t = (t or "").strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    if t.endswith(" const"):
        t = t[:-6]
    if t.startswith("const "):
        t = t[6:]
    return t.strip()


CONT = re.compile(r"^(std|boost)(::__cxx11)?::(unordered::)?(lockfree::)?(vector|list|deque|map|unordered_map|set|unordered_set|queue|multimap|unordered_multimap|unordered_multiset|forward_list|array)<")
CONT_BASE = {"std::vector", "std::list", "std::deque", "std::map", "std::unordered_map", "std::set", "std::unordered_set",
             "boost::lockfree::queue", "boost::unordered::unordered_map", "std::multimap", "std::unordered_multimap",
             "std::__cxx11::list", "std::queue", "boost::unordered::unordered_set", "std::forward_list", "std::array"}
ITER = re.compile(r"(_iterator|_Node_iterator|_Rb_tree|iterator_detail|reverse_iterator|__normal_iterator|_Fwd_list_iter)")
STR = re.compile(r"^(const )?(std::basic_string|std::string|std::basic_string_view)")
LOCKS = re.compile(r"^std::(lock_guard|unique_lock|scoped_lock)<")

INF = 1 << 62
TOP = (-INF, INF, frozenset())


def meet(d, lo=-INF, hi=INF, ex=()):
    l, h, x = d
    l, h = max(l, lo), min(h, hi)
    x = x | frozenset(ex)
    while l in x:
        l += 1
    while h in x:
        h -= 1
    if l > h:
        return None
    x = frozenset(v for v in x if l < v < h)
    return (l, h, x)


class State:
    __slots__ = ("st", "fa", "ver", "hist", "trace", "_key", "made")

    def __init__(self, st=None, fa=None, ver=None, hist=(), trace=None, made=frozenset()):
        self.st, self.fa, self.ver, self.hist, self.trace, self.made = st or {}, fa or {}, ver or {}, hist, trace, made
        self._key = None

    def copy(self):
        return State(dict(self.st), dict(self.fa), dict(self.ver), self.hist, self.trace, self.made)

    def key(self):
        if self._key is None:
            self._key = (frozenset(self.st.items()), frozenset(self.fa.items()), frozenset(self.ver.items()), self.hist)
        return self._key


def dedupe(sts):
    if len(sts) < 2:
        return sts
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    return out


def rsub(v, sym):
    return isinstance(v, T) and sym in v.syms


class Event:
    __slots__ = ("kind", "name", "obj", "args", "fn", "targs", "loc", "stack", "st", "val", "node", "fnctx", "extra")

    def __init__(self, **k):
        for s in self.__slots__:
            setattr(self, s, k.get(s))

    @property
    def where(self):
        return "%s:%s" % self.loc

    def __repr__(self):
        return "<%s %s %s %s>" % (self.kind, self.name, self.obj, self.where)


class Exit:
    __slots__ = ("kind", "val", "st", "loc")

    def __init__(self, kind, val, st, loc):
        self.kind, self.val, self.st, self.loc = kind, val, st, loc

    def __repr__(self):
        return "Exit(%s %s %s)" % (self.kind, self.val, list(self.st.hist))


class Frame:
    __slots__ = ("fid", "fn", "tu", "env", "this", "parent", "site", "depth", "retref", "dyn")

    def __init__(self, fid, fn, tu, env, this, parent, site, depth):
        self.fid, self.fn, self.tu, self.env, self.this = fid, fn, tu, env, this
        self.parent, self.site, self.depth, self.retref, self.dyn = parent, site, depth, False, None


class Out:
    """statement outcomes"""
    __slots__ = ("next", "brk", "cnt", "ret", "thr", "goto")

    def __init__(self):
        self.next, self.brk, self.cnt, self.ret, self.thr, self.goto = [], [], [], [], [], {}

    def absorb(self, o):
        self.brk += o.brk
        self.cnt += o.cnt
        self.ret += o.ret
        self.thr += o.thr
        for k, v in o.goto.items():
            self.goto.setdefault(k, []).extend(v)


class Limit(AnalysisError):
    pass


ROTATED = {}


def same_ast(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        ks = {k for k in list(a) + list(b) if k not in ("c", "l", "le", "id")}
        return all(same_ast(a.get(k), b.get(k)) for k in ks)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same_ast(x, y) for x, y in zip(a, b))
    return a == b


def stored(n):
    """(variable, expression) of `T v = E;` and `v = E`"""
    while isinstance(n, dict) and n.get("k") == "expr":
        n = n["e"]
    if not isinstance(n, dict):
        return None
    if n.get("k") == "decl" and len(n["v"]) == 1 and n["v"][0].get("init") is not None and not n["v"][0].get("static") and not n["v"][0].get("ref"):
        return n["v"][0]["id"], n["v"][0]["init"]
    if n.get("k") == "bin" and n.get("op") == "=" and n["a"].get("k") == "ref":
        return n["a"].get("d"), n["b"]


def rotated(n):
    """for (T v = E; q; v = E): E is evaluated at the head of each turn"""
    if id(n) not in ROTATED:
        a, b = stored(n.get("init")), stored(n.get("inc"))
        w = None
        if a and b and n.get("q") and a[0] == b[0] and same_ast(a[1], b[1]) and calls(a[1]):
            w = {"k": "while", "pre": n["init"], "q": n["q"], "s": n["s"], "l": n.get("l"), "c": n.get("c")}
        ROTATED[id(n)] = (n, w)
    return ROTATED[id(n)][1] is not None


def calls(n):
    if isinstance(n, dict):
        return n.get("k") == "call" or any(calls(x) for x in n.values())
    return isinstance(n, list) and any(calls(x) for x in n)


def continues(n):
    if isinstance(n, dict):
        return n.get("k") in ("cnt", "goto", "label") or any(continues(x) for x in n.values())
    return isinstance(n, list) and any(continues(x) for x in n)


def unrotate(n):
    """T v = E; while (q) { ...; v = E; }: E is evaluated at the head of each turn"""
    if id(n) in ROTATED:
        return ROTATED[id(n)][1]
    body = n["s"]
    out = []
    for x in body:
        w = None
        if x and x.get("k") == "while" and not x.get("cv") and isinstance(x.get("s"), dict) and x["s"].get("k") == "blk" and x["s"]["s"] and out and out[-1]:
            a, b = stored(out[-1]), stored(x["s"]["s"][-1])
            if a and b and a[0] == b[0] and same_ast(a[1], b[1]) and calls(a[1]) and not continues(x["s"]):
                w = dict(x, pre=out[-1], s=dict(x["s"], s=x["s"]["s"][:-1]))
        if w:
            out[-1] = w
        else:
            out.append(x)
    ROTATED[id(n)] = (n, out)
    return out


PMEM = re.compile(r"^\((.*) ->\* ")


def root_op(l):
    while l.op in ("fld", "el"):
        l = l.a[0]
    return l.op


class Engine:
    """one analysis = one entry function + options"""
    MAXD = 16
    CAP = 600

    def __init__(self, prog, tag=None, init=None, atomic=(), inline_virtual=None, devirt=None, models=True,
                 on_event=None, throw_fns=False, cap=None, fcap=12, max_work=400000, noinline=(), seq=None, turns=False):
        self.p = prog
        self.tag = tag
        self.init = init or {}
        self.atomic = set(atomic)
        self.noinline = noinline
        self.turns = turns           # judge each turn of the outermost loops alone: every turn is an exit of its own
        self.turn_exits, self.loopdepth = [], 0
        self.faults = {}             # places where every way on is undefined or never ends (fixed sequences only)
        self.seq = seq or {}         # sequences of a fixed length: displayed path -> number of elements
        self.devirt = devirt or {}
        self.models = models
        self.on_event = on_event
        self.cap = cap or self.CAP
        self.fcap = fcap if not seq else max(fcap, 80)
        self.events = []
        self.frames = []
        self.frame_funcs = set()
        self.trydepth = 0
        self.work = 0
        self.asked = {}
        self.unused = set()     # calls whose value nobody looks at
        self.max_work = max_work
        self.stats = {"states": 0, "calls_inlined": 0, "calls_opaque": 0, "branches": 0, "loops": 0, "merged": 0}
        self.lams = {}
        self.inlined = set()
        self.opaque = set()
        self.pending_thr = None

    # -------------------------------------------------------------- running
    def run(self, fn, this=None, args=None, state=None):
        fn = self.p.resolve(fn)
        if fn.body is None:
            raise AnalysisError("no body for entry %s" % fn.qname)
        st = state or State()
        env = {}
        th = this
        if th is None and fn.cls and not fn.static:
            th = mk("deref", mk("sym", "this"))
        fid = mk("frame", fn.qname)
        fr = Frame(fid, fn, fn.tu, env, th, None, None, 0)
        for i, p in enumerate(fn.params):
            nm = "$%d" % i
            given = (args or {}).get(nm, (args or {}).get(i))
            if given is not None:
                if p["ref"]:
                    env[p["id"]] = given
                else:
                    l = mk("var", fid, p["id"], nm)
                    env[p["id"]] = l
                    st = self.setv(st, l, given)
            elif p["ref"]:
                env[p["id"]] = mk("deref", mk("addr", mk("var", None, i, nm))) if False else mk("var", None, i, nm)
            else:
                env[p["id"]] = mk("var", fid, p["id"], nm)
        self.entry = fn
        self.frames.append(fr)
        sts = [st]
        exits = []
        if fn.ctor:
            sts = self.run_inits(fn, th, [st])
        o = self.stmt(fn.body, sts)
        for s in o.next:
            exits.append(Exit("end", VOID, s, (self.rel(fn.file), fn.body.get("le", fn.line))))
        for s, v, ln in o.ret:
            exits.append(Exit("ret", v, s, (self.rel(fn.file), ln)))
        for s, v, ln in o.thr:
            exits.append(Exit("throw", v, s, (self.rel(fn.file), ln)))
        self.frames.pop()
        return exits + self.turn_exits

    def run_lam(self, lam):
        """the body of a closure, run some time after it has been created"""
        tu, e, caps, this, _ = self.lams[lam]
        ops = [tu.funcs[o] for o in e.get("ops") or [] if o in tu.funcs and tu.funcs[o].body is not None]
        if not ops:
            raise AnalysisError("no body for a closure")
        fn = ops[0]
        env = {d: c.a[0] if c.op == "loc" else mk("val", c.a[0]) for (d, n, c) in caps}
        for i, p in enumerate(fn.params):
            env[p["id"]] = mk("var", None, 100 + i, "@%d" % i)
        fr = Frame(mk("frame", fn.qname), fn, tu, env, mk("deref", mk("sym", "gone")) if this is not None else None, None, None, 0)
        self.entry = fn
        self.frames.append(fr)
        o = self.stmt(fn.body, [State()])
        exits = [Exit("end", VOID, s, (self.rel(fn.file), fn.body.get("le", fn.line))) for s in o.next]
        exits += [Exit("ret", v, s, (self.rel(fn.file), ln)) for s, v, ln in o.ret] + [Exit("throw", v, s, (self.rel(fn.file), ln)) for s, v, ln in o.thr]
        self.frames.pop()
        return exits + self.turn_exits

    def rel(self, f):
        from program import REPO
        f = f or "?"
        return f[len(REPO) + 1:] if f.startswith(REPO + "/") else f

    @property
    def fr(self):
        return self.frames[-1]

    def loc_of(self, node):
        return (self.rel(self.fr.fn.file), node.get("l") or self.fr.fn.line)

    # -------------------------------------------------------------- store
    def ver_of(self, st, loc):
        toks = []
        l = loc
        while True:
            if l.op == "fld":
                t = st.ver.get((l.a[1], l.a[2]))
                if t is not None:
                    toks.append(t)
                l = l.a[0]
            elif l.op == "el":
                l = l.a[0]
            else:
                t = st.ver.get(l)
                if t is not None:
                    toks.append(t)
                break
        return tuple(toks) if toks else None

    def read(self, st, loc):
        v = st.st.get(loc)
        if v is not None:
            return v
        # projection out of an aggregate value stored at an enclosing location
        path, l = [], loc
        while l.op == "fld":
            path.append((l.a[1], l.a[2]))
            l = l.a[0]
            v = st.st.get(l)
            if v is not None:
                for c, n in reversed(path):
                    v = self.project(v, c, n)
                    if v is None:
                        break
                if v is not None:
                    return v
                break
        if loc.op == "tmp" or loc.op == "var":
            return mk("rd", loc, self.ver_of(st, loc))
        return mk("rd", loc, self.ver_of(st, loc))

    def project(self, v, cls, name):
        if v.op == "obj":
            for (c, n), x in v.a[1]:
                if n == name:
                    return x
            return None
        if v.op == "rd":
            return mk("rd", mk("fld", v.a[0], cls, name), v.a[1])
        if v.op in ("sym", "msg", "resp", "reqb", "proj"):
            return mk("proj", v, name)
        return None

    @staticmethod
    def under(l, base):
        while True:
            if l is base:
                return True
            if l.op in ("fld", "el"):
                l = l.a[0]
            else:
                return False

    def setv(self, st, loc, v):
        s = st.copy()
        for k in [k for k in s.st if k is not loc and k.op in ("fld", "el") and self.under(k, loc)]:
            del s.st[k]
        if v.op == "obj" and v.a[1]:
            s.st[loc] = v
        elif v.op == "copyof":
            src = v.a[0]
            s.st.pop(loc, None)
            # member-wise copy of what is known; the rest refers to the source's content
            s.st[loc] = mk("rd", src, self.ver_of(st, src))
            for k, x in list(st.st.items()):
                if k is not src and k.op in ("fld", "el") and self.under(k, src):
                    s.st[self.rebase(k, src, loc)] = x
                elif k is src:
                    s.st[loc] = x
        else:
            s.st[loc] = v
        return s

    def rebase(self, l, src, dst):
        if l is src:
            return dst
        return mk(l.op, self.rebase(l.a[0], src, dst), *l.a[1:])

    def forget(self, st, loc, token):
        """content of loc changed in an unknown way"""
        s = st.copy()
        for k in [k for k in s.st if self.under(k, loc)]:
            del s.st[k]
        if loc.op == "fld":
            s.ver[(loc.a[1], loc.a[2])] = token
        else:
            s.ver[loc] = token
        return s

    def havoc_fields(self, st, fields, token):
        if not fields:
            return st
        s = st.copy()
        for k in list(s.st):
            l = k
            while l.op in ("fld", "el"):
                if l.op == "fld" and (l.a[1], l.a[2]) in fields:
                    del s.st[k]
                    break
                l = l.a[0]
        for f in fields:
            s.ver[f] = token
        return s

    # -------------------------------------------------------------- symbols
    def fresh(self, st, kind, node, extra=""):
        name = "%s#%d:%d%s" % (kind, self.fr.fid.uid, id(node), extra)
        t = mk("sym", name)
        if t in st.made:
            o = mk("sym", name + "~old")
            st = self.rename(st, t, o)
        s = st.copy()
        s.made = s.made | {t}
        return t, s

    def rename(self, st, t, o):
        s = State(hist=st.hist, trace=st.trace, made=st.made)
        memo = {}
        m = {t: o}
        # whatever was known about the previous-but-one generation is dropped
        for k, v in st.st.items():
            if rsub(k, o):
                continue
            s.st[subst(k, m, memo)] = v if not isinstance(v, T) else subst(v, m, memo)
        for k, v in st.fa.items():
            if rsub(k, o):
                continue
            s.fa[subst(k, m, memo)] = v
        for k, v in st.ver.items():
            s.ver[subst(k, m, memo) if isinstance(k, T) else k] = subst(v, m, memo) if isinstance(v, T) else v
        return s

    def token(self, st, node, extra=""):
        return self.fresh(st, "t", node, extra)

    # -------------------------------------------------------------- facts
    def dom(self, st, t):
        if t.op == "int":
            return (t.a[0], t.a[0], frozenset())
        if t.op in ("addr", "lam", "msg", "resp", "reqb", "str", "fn", "obj", "new", "rmsg"):
            return (1, INF, frozenset())
        if t.op == "sym" and t.a[0] == "this":
            return (1, INF, frozenset())
        if t.op == "bin" and t.a[0] == "+" and t.a[2].op == "int":
            l, h, x = self.dom(st, t.a[1])
            n = t.a[2].a[0]
            return (l + n if l > -INF else l, h + n if h < INF else h, frozenset(v + n for v in x))
        d = st.fa.get(t)
        if d is None:
            d = TOP
            if t.op in ("cmp", "found", "empty", "not"):
                d = (0, 1, frozenset())
            if t.op == "bin" and t.a[0] == "&" and t.a[2].op == "int" and 0 <= t.a[2].a[0] < 1 << 31:
                d = (0, t.a[2].a[0], frozenset())
            if t.op == "rd" and t.a[1] is None or t.op in ("found", "empty", "size") and t.a[-1] is None:
                i = self.init.get(show(t))
                if i is not None:
                    d = norm_dom(i)
        if t.op == "size":
            e = self.dom(st, mk("empty", *t.a))
            if e[0] == 1:
                d = meet(d, 0, 0) or d
            elif e[1] == 0:
                d = meet(d, 1) or d
            else:
                d = meet(d, 0) or d
        return d

    def const(self, st, t):
        d = self.dom(st, t)
        return d[0] if d[0] == d[1] else None

    def constrain(self, st, t, lo=-INF, hi=INF, ex=()):
        """returns refined state or None when contradictory"""
        if t.op == "int":
            return st if lo <= t.a[0] <= hi and t.a[0] not in ex else None
        if t.op == "bin" and t.a[0] == "+" and t.a[2].op == "int":
            n = t.a[2].a[0]
            return self.constrain(st, t.a[1], lo - n if lo > -INF else lo, hi - n if hi < INF else hi,
                                  [v - n for v in ex])
        if t.op == "not":
            d = meet((0, 1, frozenset()), lo, hi, ex)
            if d is None:
                return None
            if d[0] == d[1]:
                return self.assume(st, t.a[0], d[0] == 0)
            return st
        if t.op == "size":
            d = meet(self.dom(st, t), lo, hi, ex)
            if d is None:
                return None
            if d[1] == 0:
                st = self.constrain(st, mk("empty", *t.a), 1, 1)
            elif d[0] >= 1:
                st = self.constrain(st, mk("empty", *t.a), 0, 0)
            if st is None:
                return None
            s = st.copy()
            s.fa[t] = d
            return s
        d0 = self.dom(st, t)
        d = meet(d0, lo, hi, ex)
        if d is None:
            return None
        if t.op in ("addr", "lam", "msg", "resp", "reqb", "str", "fn", "obj", "new"):
            return st
        if d == d0:
            return st
        s = st.copy()
        s.fa[t] = d
        if t.op == "cmp" and d[0] == d[1] == 1 and t.a[0] == "==":
            # equal terms share their domain
            a, b = t.a[1], t.a[2]
            for x, y in ((a, b), (b, a)):
                dx = self.dom(s, x)
                if dx != TOP and y.op not in ("int", "addr"):
                    dy = meet(self.dom(s, y), dx[0], dx[1], dx[2])
                    if dy is None:
                        return None
                    if dy != self.dom(s, y):
                        s.fa[y] = dy
        if t.op == "cmp" and t.a[0] == "<" and d[0] == 1:
            e = self.cmp("==", t.a[1], t.a[2])
            s = self.constrain(s, e, 0, 0) if e.op == "cmp" else s
        return s

    def assume(self, st, t, truth):
        self.stats["branches"] += 1
        if t.op == "not":
            return self.assume(st, t.a[0], not truth)
        if t.op == "cmp":
            op, a, b = t.a
            c = st.fa.get(t)
            if b.op == "int" and a.op != "int":
                v = b.a[0]
                if op == "==":
                    return self.constrain(st, a, v, v) if truth else self.constrain(st, a, ex=(v,))
                return self.constrain(st, a, hi=v - 1) if truth else self.constrain(st, a, lo=v)
            if a.op == "int" and b.op != "int":
                v = a.a[0]
                if op == "==":
                    return self.constrain(st, b, v, v) if truth else self.constrain(st, b, ex=(v,))
                return self.constrain(st, b, lo=v + 1) if truth else self.constrain(st, b, hi=v)
            ca, cb = self.dom(st, a), self.dom(st, b)
            if c is None and ca[0] == ca[1] and cb[0] == cb[1]:
                r = (ca[0] == cb[0]) if op == "==" else ca[0] < cb[0]
                return st if r == truth else None
            if op == "==" and truth and (meet(ca, cb[0], cb[1], cb[2]) is None):
                return None
            if op == "==" and (ca[0] == ca[1] and ca != TOP) and b.op not in ("addr",):
                v = ca[0]
                st2 = self.constrain(st, b, v, v) if truth else self.constrain(st, b, ex=(v,))
                return st2 and self.constrain(st2, t, int(truth), int(truth))
            if op == "==" and (cb[0] == cb[1] and cb != TOP) and a.op not in ("addr",):
                v = cb[0]
                st2 = self.constrain(st, a, v, v) if truth else self.constrain(st, a, ex=(v,))
                return st2 and self.constrain(st2, t, int(truth), int(truth))
        return self.constrain(st, t, ex=(0,)) if truth else self.constrain(st, t, 0, 0)

    def truth(self, st, t):
        """True/False/None"""
        a, b = self.assume(st, t, True), self.assume(st, t, False)
        if a is None and b is None:
            return None
        if a is None:
            return False
        if b is None:
            return True
        return None

    def cmp(self, op, a, b):
        if op == "!=":
            return self.neg(self.cmp("==", a, b))
        if op == ">":
            return self.cmp("<", b, a)
        if op == "<=":
            return self.neg(self.cmp("<", b, a))
        if op == ">=":
            return self.neg(self.cmp("<", a, b))
        if a.op == "int" and b.op == "int":
            return INT(a.a[0] == b.a[0]) if op == "==" else INT(a.a[0] < b.a[0])
        if a.op == b.op and a.op in ("ci", "cri") and a.a[0] is b.a[0]:
            x, y = (a.a[1], b.a[1]) if a.op == "ci" else (b.a[1], a.a[1])
            return INT(x == y) if op == "==" else INT(x < y)
        if op == "==":
            for x, y in ((a, b), (b, a)):
                if x.op in ("find",) and y.op == "end":
                    return self.neg(mk("found", x.a[0], x.a[1], x.a[2]))
                if x.op == "begin" and y.op == "end":
                    return mk("empty", x.a[0], x.a[1])
                if x.op == "end" and y.op == "end" and x.a[0] is y.a[0]:
                    return ONE
                if x.op in ("addr", "lam", "new", "msg", "resp") and y is ZERO:
                    return ZERO
            if a is b and not any("~old" in s.a[0] for s in a.syms):
                return ONE
            if a.op == "str" and b.op == "str":
                return INT(a is b)
            if b.op == "int":
                if a.op in ("cmp", "not", "found", "empty"):
                    return a if b.a[0] == 1 else self.neg(a) if b.a[0] == 0 else ZERO
                return mk("cmp", "==", a, b)
            if a.op == "int":
                return self.cmp("==", b, a)
            if (show(a), a.uid) > (show(b), b.uid):
                a, b = b, a
            return mk("cmp", "==", a, b)
        if a is b:
            return ZERO
        return mk("cmp", "<", a, b)

    def neg(self, t):
        if t.op == "int":
            return INT(t.a[0] == 0)
        if t.op == "not":
            x = t.a[0]
            return x if x.op in ("cmp", "found", "empty") else mk("not", t)
        return mk("not", t)

    def binop(self, op, a, b):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return self.cmp(op, a, b)
        if a.op == "int" and b.op == "int":
            x, y = a.a[0], b.a[0]
            try:
                return INT({"+": x + y, "-": x - y, "*": x * y, "&": x & y, "|": x | y, "^": x ^ y,
                            "<<": x << y if 0 <= y < 64 else 0, ">>": x >> y if 0 <= y < 64 else 0,
                            "/": x // y if y else 0, "%": x % y if y else 0}[op])
            except KeyError:
                pass
        if op in ("|", "&", "+", "*") and a.op == "int":
            a, b = b, a
        if op == "&" and b.op == "int":
            m = b.a[0]
            if m == 0:
                return ZERO
            if a.op == "bin" and a.a[0] == "|" and a.a[2].op == "int":
                n = a.a[2].a[0]
                if n & m == 0:
                    return self.binop("&", a.a[1], b)
                if n & m == m:
                    return INT(m)
            if a.op == "bin" and a.a[0] == "&" and a.a[2].op == "int":
                n = a.a[2].a[0] & m
                return self.binop("&", a.a[1], INT(n)) if n != m or True else ZERO
        if op == "|" and b.op == "int":
            if b.a[0] == 0:
                return a
            if a.op == "bin" and a.a[0] == "|" and a.a[2].op == "int":
                return mk("bin", "|", a.a[1], INT(a.a[2].a[0] | b.a[0]))
        if op in ("+", "-") and b is ZERO:
            return a
        if op in ("+", "-") and b.op == "int" and a.op == "bin" and a.a[0] in ("+", "-") and a.a[2].op == "int":
            n = (a.a[2].a[0] if a.a[0] == "+" else -a.a[2].a[0]) + (b.a[0] if op == "+" else -b.a[0])
            return a.a[1] if n == 0 else mk("bin", "+", a.a[1], INT(n))
        if op == "-" and b.op == "int":
            return mk("bin", "+", a, INT(-b.a[0]))
        if op == "-" and a is b:
            return ZERO
        return mk("bin", op, a, b)

    @staticmethod
    def linear(t):
        if t.op == "bin" and t.a[0] == "+" and t.a[2].op == "int":
            return t.a[1], t.a[2].a[0]
        if t.op == "int":
            return None, t.a[0]
        return t, 0

    # -------------------------------------------------------------- events
    def event(self, st, node, kind, name, **k):
        ev = Event(kind=kind, name=name, loc=self.loc_of(node), st=st, node=node,
                   stack=tuple(f.fn for f in self.frames), fnctx=self.fr.fn, **k)
        s = st
        if self.tag:
            tg = self.tag(self, ev)
            if tg:
                s = st.copy()
                for t in (tg if isinstance(tg, (list, tuple)) else [tg]):
                    if s.hist.count(t) < 4:
                        s.hist = s.hist + (t,)
                s.trace = (ev.kind + " " + tag_text(tg) + " at " + ev.where, s.trace)
        if self.on_event:
            self.on_event(self, ev)
        return s

    def note(self, st, text, node):
        st.trace = (text + " at %s:%s" % self.loc_of(node), st.trace)

    # ================================================================ statements
    def stmt(self, n, sts):
        out = Out()
        if n is None:
            out.next = sts
            return out
        sts = self.limit(dedupe(sts))
        if not sts:
            return out
        self.work += len(sts)
        if self.work > self.max_work:
            raise Limit("analysis budget exceeded in %s" % self.entry.qname)
        self.stats["states"] += len(sts)
        k = n["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise AnalysisError("statement kind %r not supported (%s:%s)" % ((k,) + self.loc_of(n)))
        saved, self.pending_thr = self.pending_thr, []
        m(n, sts, out)
        out.thr += self.pending_thr
        self.pending_thr = saved
        return out

    def limit(self, sts):
        if len(sts) <= self.cap:
            return sts
        # merge states with equal history
        groups = {}
        for s in sts:
            groups.setdefault(s.hist, []).append(s)
        out = []
        self.stats["merged"] += len(sts)
        per = max(1, self.cap // max(1, len(groups)) // 2)
        for h, g in groups.items():
            while len(g) > per:
                half = [self.join(g[i], g[i + 1]) if i + 1 < len(g) else g[i] for i in range(0, len(g), 2)]
                g = dedupe(half)
            out += g
        if len(out) > 4 * self.cap:
            raise Limit("too many abstract states in %s" % self.entry.qname)
        return out

    def join(self, a, b, wsite=None, hull=True):
        s = State(hist=a.hist, trace=a.trace, made=a.made | b.made)
        ws = set()
        lin = {}
        for k in sorted(set(a.st) | set(b.st), key=lambda t: t.uid):
            x, y = a.st.get(k), b.st.get(k)
            if x is y:
                s.st[k] = x
            elif x is None or y is None:
                w = mk("sym", "w#%s:%d" % (wsite, k.uid))
                s.st[k] = w
                ws.add(w)
            else:
                # counters that differ by a constant in both states keep doing so
                (xb, xo), (yb, yo) = self.linear(x), self.linear(y)
                g = (xb, yb, xo - yo)
                if g not in lin:
                    lin[g] = (mk("sym", "w#%s:%d" % (wsite, k.uid)), xo)
                    ws.add(lin[g][0])
                w, o = lin[g]
                s.st[k] = w if xo == o else mk("bin", "+", w, INT(xo - o))
        for k in set(a.ver) | set(b.ver):
            x, y = a.ver.get(k), b.ver.get(k)
            if x is y:
                s.ver[k] = x
            else:
                w = mk("sym", "v#%s:%s" % (wsite, k.uid if isinstance(k, T) else k))
                s.ver[k] = w
                ws.add(w)
        for k in a.fa:
            y = b.fa.get(k)
            if y is None:
                continue
            if k.syms & ws:
                continue
            x = a.fa[k]
            if x == y:
                s.fa[k] = x
            else:
                d = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2])
                if d != TOP:
                    s.fa[k] = d
        if not hull:
            # a bound which this turn of the loop did not move is kept, any other is given up
            for w, o in lin.values():
                k = next((k for k, v in s.st.items() if v is w), None)
                if k is None or k not in a.st or k not in b.st:
                    continue
                x, y = self.dom(a, a.st[k]), self.dom(b, b.st[k])
                d = (x[0] if x[0] <= y[0] else -INF, x[1] if x[1] >= y[1] else INF, x[2] & y[2])
                if d != TOP:
                    s.fa[w] = d
        if hull:
            # what both states know about the value now stored at a location, although they name it differently
            def put(v, x, y):
                if v in s.fa or v.op not in ("sym", "rd"):
                    return
                x, y = self.dom(a, x), self.dom(b, y)
                d = (min(x[0], y[0]), max(x[1], y[1]), x[2] & y[2])
                if x[0] > 0 or x[1] < 0:
                    d = (d[0], d[1], d[2] | ({0} if y[0] > 0 or y[1] < 0 or 0 in y[2] else frozenset()))
                elif (y[0] > 0 or y[1] < 0) and 0 in x[2]:
                    d = (d[0], d[1], d[2] | {0})
                if d != TOP:
                    s.fa[v] = d
            for w, o in lin.values():
                k = next((k for k, v in s.st.items() if v is w), None)
                if k is not None:
                    put(w, a.st[k], b.st[k])
            for k in [k for k in a.fa if k.op == "rd"] + [k for k in b.fa if k.op == "rd" and k not in a.fa]:
                l = k.a[0]
                x, y = self.read(a, l), self.read(b, l)
                if x is k or y is k:
                    v = self.read(s, l)
                    if v is not k or v.syms & ws:
                        put(v, x, y)
        return s

    def s_blk(self, n, sts, out):
        decls = []
        body = unrotate(n)
        i = 0
        labels = {x["n"]: j for j, x in enumerate(body) if x and x["k"] == "label"}
        cur = sts
        seen_lab = {}
        heads = {}
        work = [(0, sts)]
        rounds = 0
        while work:
            start, cur = work.pop(0)
            for j in range(start, len(body)):
                x = body[j]
                if x is None:
                    continue
                if x["k"] == "label":
                    # loop head by goto
                    lsite = "%d:%d:%s" % (self.fr.fid.uid, id(n), x["n"])
                    cur = [self.h_fold(s, lsite) if self.h_find(s.hist, lsite) is not None else self.h_open(s, lsite) for s in cur]
                    sl = seen_lab.setdefault(x["n"], set())
                    cur = [s for s in dedupe(cur) if s.key() not in sl]
                    sl.update(s.key() for s in cur)
                if not cur:
                    break
                if x["k"] == "decl" or x.get("pre") and x["pre"]["k"] == "decl":
                    decls += [v for v in x.get("pre", x)["v"] if not v.get("static")]
                o = self.stmt(x, cur)
                g, o.goto = o.goto, {}
                out.absorb(o)
                for lab, ss in g.items():
                    if lab in labels:
                        rounds += 1
                        lsite = "%d:%d:%s" % (self.fr.fid.uid, id(n), lab)
                        ss = [self.h_fold(s, lsite) for s in ss]
                        if rounds > 2:
                            ss = self.h_widen(ss, heads.setdefault(lab, {}), lsite)
                            if rounds > 60:
                                raise Limit("goto loop does not converge")
                        sl = seen_lab.setdefault(lab, set())
                        ss = [s for s in ss if s.key() not in sl]
                        if ss:
                            work.append((labels[lab], ss))
                    else:
                        out.goto.setdefault(lab, []).extend(ss)
                cur = o.next
            else:
                out.next += cur
                continue
        for lab in labels:
            lsite = "%d:%d:%s" % (self.fr.fid.uid, id(n), lab)
            out.next = [self.h_close(s, lsite) for s in out.next]
            out.brk = [self.h_close(s, lsite) for s in out.brk]
            out.cnt = [self.h_close(s, lsite) for s in out.cnt]
            out.ret = [(self.h_close(s, lsite), v, l) for s, v, l in out.ret]
        # scope end: lock releases, then locals die
        locks = [v for v in decls if LOCKS.match(v.get("t") or "")]
        dt = [v for v in decls if v.get("dt") and not v.get("ref")]
        if decls:
            def fin(s):
                for v in reversed(locks):
                    s = self.event(s, n, "dtor", "unlock", obj=mk("var", self.fr.fid, v["id"], v["n"]), val=v.get("t"))
                return self.drop_vars(s, decls)
            out.next = [fin(s) for s in out.next]
            out.brk = [fin(s) for s in out.brk]
            out.cnt = [fin(s) for s in out.cnt]
            if locks:
                out.ret = [(fin(s), v, l) for s, v, l in out.ret]
                out.thr = [(fin(s), v, l) for s, v, l in out.thr]

    def collapse(self, sts, site):
        g = {}
        for s in sts:
            g[s.hist] = self.join(g[s.hist], s, site) if s.hist in g else s
        return list(g.values())

    def drop_vars(self, st, decls):
        ids = set(v["id"] for v in decls)
        for v in decls:
            for b in v.get("binds") or []:
                ids.add(b["id"])
        fid = self.fr.fid
        dead = [k for k in st.st if self.rooted(k, fid, ids)]
        if not dead:
            return st
        s = st.copy()
        for k in dead:
            del s.st[k]
        return s

    @staticmethod
    def rooted(l, fid, ids=None):
        while l.op in ("fld", "el", "len", "gone"):
            l = l.a[0]
        if l.op in ("var", "ref") and l.a[0] is fid:
            return ids is None or l.a[1] in ids
        if ids is None and l.op == "tmp" and l.a[0] is fid:
            return True
        return False

    def s_expr(self, n, sts, out):
        x = n["e"]
        while x and x["k"] in ("cast", "rd", "tmp") and x.get("e"):
            x = x["e"]
        if x and x["k"] == "call":
            self.unused.add(id(x))
        for s in sts:
            for v, s2 in self.ev(n["e"], s):
                out.next.append(s2)

    def outcome_used(self, e):
        """whether somebody looks at the `second` of what an insertion returns"""
        body = self.fr.fn.body
        known = self.asked.get(id(body))
        if known is None:
            def bare(x):
                while isinstance(x, dict) and x.get("k") in ("cast", "rd", "tmp") and x.get("e"):
                    x = x["e"]
                return x
            known, calls, names, parts, refs = set(), {}, set(), {}, set()
            todo = [body]
            while todo:
                x = todo.pop()
                if isinstance(x, list):
                    todo += x
                    continue
                if not isinstance(x, dict):
                    continue
                if x.get("k") == "cast" and x.get("kind") == "ToVoid" and bare(x).get("k") == "ref":
                    continue
                todo += [y for y in x.values() if isinstance(y, (dict, list))]
                if x.get("k") == "ref":
                    refs.add(x.get("d"))
                if x.get("k") == "mem" and x.get("n") == "second" and not x.get("arrow"):
                    b = bare(x.get("b"))
                    if b and b.get("k") == "call":
                        known.add(id(b))
                    elif b and b.get("k") == "ref":
                        names.add(b.get("d"))
                i = bare(x.get("init")) if "id" in x else None
                if i and i.get("k") == "call":
                    calls[x["id"]] = i
                    for b in x.get("binds") or []:
                        if b["i"] == 1:
                            parts[b["id"]] = id(i)
            known |= {id(calls[n]) for n in names if n in calls} | {i for b, i in parts.items() if b in refs}
            self.asked[id(body)] = known
        return id(e) in known

    def s_nop(self, n, sts, out):
        out.next = sts

    def s_other(self, n, sts, out):
        out.next = sts

    def s_label(self, n, sts, out):
        o = self.stmt(n["s"], sts)
        out.next = o.next
        out.absorb(o)

    def s_goto(self, n, sts, out):
        out.goto.setdefault(n["n"], []).extend(sts)

    def s_decl(self, n, sts, out):
        for v in n["v"]:
            nxt = []
            for s in sts:
                nxt += self.declare(v, s, n)
            sts = dedupe(nxt)
        out.next = sts

    def declare(self, v, st, n):
        fr = self.fr
        l = mk("var", fr.fid, v["id"], v["n"])
        if v.get("static"):
            l = mk("glob", v["id"], v["n"])
            fr.env[v["id"]] = l
            return [st]
        init = v.get("init")
        res = []
        if v.get("ref"):
            for loc, s in self.lv(init, st):
                # a reference is an alias: bound per state through an indirection entry
                s = self.bind_ref(s, v["id"], v["n"], loc)
                res.append(self.bind_parts(v, loc, s))
            return res
        fr.env[v["id"]] = l
        if init is None:
            s = st.copy()
            for k in [k for k in s.st if self.under(k, l)]:
                del s.st[k]
            return [s]
        for s in self.construct_at(l, init, st):
            if LOCKS.match(v.get("t") or ""):
                mux = []
                for a in (init.get("args") or []) if isinstance(init, dict) else []:
                    r = self.lv(a, s) if a.get("k") in ("ref", "mem", "rd") or a.get("vk") == "L" else []
                    mux += [mk("addr", m) for m, _ in r[:1]]
                s = self.event(s, init, "lock", short(v["t"]), obj=l, args=mux, val=v.get("t"))
            res.append(self.bind_parts(v, l, s))
        return res

    def bind_ref(self, st, vid, name, loc):
        s = st.copy()
        r = mk("ref", self.fr.fid, vid, name)
        s.st[r] = mk("addr", loc) if loc.op != "deref" else loc.a[0]
        self.fr.env[vid] = r
        return s

    def bind_parts(self, v, loc, st):
        for b in v.get("binds") or []:
            fld = b.get("fld")
            if fld:
                l = mk("fld", loc, "?", fld)
            else:
                l = mk("fld", loc, "pair", "first" if b["i"] == 0 else "second") if b["i"] < 2 else mk("fld", loc, "tuple", str(b["i"]))
            st = self.bind_ref(st, b["id"], b.get("n", "b%d" % b["i"]), l)
        return st

    def construct_at(self, l, e, st):
        """initialise location l from expression e"""
        e2 = e
        while e2["k"] in ("tmp",) or (e2["k"] == "cast" and e2.get("ck") in ("NoOp", "ConstructorConversion") ):
            e2 = e2["e"]
        if self.seq and l.op == "var" and e2["k"] == "ctor" and not e2.get("args") and base_name(strip_t(e2.get("t"))) in ("std::vector", "std::deque", "std::list"):
            st = self.setv(st, mk("len", l), ZERO)
        if e2["k"] == "ctor" and not e2.get("cm"):
            r = self.ctor_into(e2, l, st)
            if r is not None:
                return r
        out = []
        for v, s in self.rv(e, st):
            out.append(self.setv(s, l, v))
        return out

    def s_if(self, n, sts, out):
        if n.get("init"):
            o = self.stmt(n["init"], sts)
            out.absorb(o)
            sts = o.next
        if n.get("constexpr"):
            # the discarded branch is absent in instantiated code
            q = n["q"]
            for s in sts:
                for v, s2 in self.rv(q, s):
                    t = self.truth(s2, v)
                    for b, side in ((True, "a"), (False, "b")):
                        if t is None or t == b:
                            o = self.stmt(n.get(side), [s2])
                            out.next += o.next
                            out.absorb(o)
            return
        T_, F_ = [], []
        if n.get("cv"):
            nx = []
            cv = n["cv"]
            for s in sts:
                for s2 in self.declare(cv, s, n):
                    nx.append(s2)
            sts = nx
        for s in sts:
            a, b = self.cond(n["q"], s)
            T_ += a
            F_ += b
        for s in T_:
            pass
        o = self.stmt(n["a"], T_) if T_ else Out()
        out.next += o.next
        out.absorb(o)
        if F_:
            if n.get("b"):
                o = self.stmt(n["b"], F_)
                out.next += o.next
                out.absorb(o)
            else:
                out.next += F_

    # ---- loop histories: events of an iteration are folded into ("*", site, {iteration, ...})
    def h_open(self, s, site):
        return s if self.seq else self.h_open0(s, site)

    @staticmethod
    def h_open0(s, site):
        s = s.copy()
        s.hist = s.hist + (("*", site, frozenset()),)
        return s

    @staticmethod
    def h_find(h, site):
        for i in range(len(h) - 1, -1, -1):
            if h[i].__class__ is tuple and h[i][1] == site:
                return i
        return None

    def h_fold(self, s, site):
        i = self.h_find(s.hist, site)
        if i is None or i + 1 == len(s.hist):
            return s
        s = s.copy()
        s.hist = s.hist[:i] + (("*", site, s.hist[i][2] | {s.hist[i + 1:]}),)
        return s

    def h_close(self, s, site):
        i = self.h_find(s.hist, site)
        if i is None or s.hist[i][2]:
            return s
        s = s.copy()
        s.hist = s.hist[:i] + s.hist[i + 1:]
        return s

    def h_widen(self, cur, heads, site):
        """one state per history before the loop; iteration sets are united"""
        w = {}
        for s in cur:
            i = self.h_find(s.hist, site)
            g = s.hist[:i] if i is not None else s.hist
            prev = w.get(g) or heads.get(g)
            if prev is not None:
                u = s
                if prev.hist != s.hist and i is not None:
                    its = prev.hist[i][2] | s.hist[i][2]
                    prev, u = prev.copy(), s.copy()
                    prev.hist = u.hist = g + (("*", site, its),)
                s = self.join(prev, u, site, False)
            w[g] = s
        heads.update(w)
        return list(w.values())

    def loop(self, n, sts, cond, body, inc, out, do=False):
        """cond: state -> (true states, false states)"""
        self.loopdepth += 1
        try:
            return (self.loop_turns if self.turns and self.loopdepth == 1 else self.loop_all)(n, sts, cond, body, inc, out, do)
        finally:
            self.loopdepth -= 1

    def loop_turns(self, n, sts, cond, body, inc, out, do):
        self.stats["loops"] += 1
        site = "%d:%d" % (self.fr.fid.uid, id(n))
        cur, seen, it, head = list(sts), set(), 0, None
        while cur:
            it += 1
            cur = [s for s in dedupe(cur) if s.key() not in seen]
            if it > 2 and cur:
                m = head
                for s in cur:
                    m = self.join(m, s, site, False) if m is not None else s
                if head is not None and m.key() == head.key():
                    break
                head = m
                cur = [m]
            seen.update(s.key() for s in cur)
            if it > 40:
                raise Limit("loop does not converge in %s at %s:%s" % ((self.entry.qname,) + self.loc_of(n)))
            Ts = []
            if do and it == 1:
                Ts = cur
            else:
                for s in cur:
                    a, b = cond(s)
                    Ts += a
                    out.next += b
            o = body(Ts)
            out.ret += o.ret
            out.thr += o.thr
            for k_, v_ in o.goto.items():
                out.goto.setdefault(k_, []).extend(v_)
            out.next += o.brk
            nxt = []
            for s in inc(dedupe(o.next + o.cnt)):
                self.turn_exits.append(Exit("turn", VOID, s, self.loc_of(n)))
                s = s.copy()
                s.hist, s.fa = (), {}
                tok = mk("sym", "turn")
                for k in list(s.st):
                    l = k
                    while l.op in ("fld", "el"):
                        l = l.a[0]
                    if l.op not in ("var", "tmp", "ref") and k in s.st:     # the next turn starts from any heap
                        s = self.forget(s, k, tok)
                nxt.append(s)
            cur = dedupe(nxt)
        out.next = dedupe(out.next)

    def loop_all(self, n, sts, cond, body, inc, out, do=False):
        self.stats["loops"] += 1
        site = "%d:%d" % (self.fr.fid.uid, id(n))
        seen = set()
        heads = {}
        cur = [self.h_open(s, site) for s in sts]
        it = 0
        first = do
        ret, thr, nxt, gotos = [], [], [], {}
        turn = {}
        while cur:
            it += 1
            cur = dedupe(cur)
            if it > (2 if not self.seq else 12):
                cur = self.h_widen(cur, heads, site)
            cur = [s for s in cur if s.key() not in seen]
            for s in cur:
                seen.add(s.key())
                i = self.h_find(s.hist, site)
                heads[s.hist[:i] if i is not None else s.hist] = s
            if it > 60:
                raise Limit("loop does not converge in %s at %s:%s" % ((self.entry.qname,) + self.loc_of(n)))
            if first:
                parts = [(None, cur, [])]
                first = False
            elif self.seq and it <= 12:
                parts = [(s.key(),) + tuple(cond(s)) for s in cur]
            else:
                Ts = []
                for s in cur:
                    a, b = cond(s)
                    Ts += a
                    nxt += b
                parts = [(None, Ts, [])]
            cur = []
            for key, Ts, b in parts:
                nxt += b
                o = body(Ts)
                ret += o.ret
                thr += o.thr
                for k_, v_ in o.goto.items():
                    gotos.setdefault(k_, []).extend(v_)
                nxt += o.brk
                back = [self.h_fold(s, site) for s in inc(dedupe(o.next + o.cnt))]
                cur += back
                if key is not None:
                    turn[key] = None if b or o.brk or o.ret or o.thr or o.goto or not back else [s.key() for s in back]
        if turn:
            # turns from which no way leads out of the loop
            ends = {k for k, v in turn.items() if v is None or any(x not in turn for x in v)}
            while True:
                more = {k for k, v in turn.items() if k not in ends and any(x in ends for x in v)}
                if not more:
                    break
                ends |= more
            if any(k not in ends for k in turn):
                self.faults[self.loc_of(n)] = "the loop never ends"
        out.ret += [(self.h_close(s, site), v, l) for s, v, l in ret]
        out.thr += [(self.h_close(x[0], site),) + tuple(x[1:]) for x in thr]
        for k_, v_ in gotos.items():
            out.goto.setdefault(k_, []).extend([self.h_close(s, site) for s in v_])
        out.next = dedupe(out.next + [self.h_close(s, site) for s in nxt])
        if len(out.next) > self.fcap:
            g = {}
            for s in out.next:
                g.setdefault(s.hist, []).append(s)
            out.next = [x for ss in g.values() for x in self.shrink(ss, 4, site + "exit")]

    def shrink(self, ss, keep, site):
        """join states (same history) down to at most `keep`, joining equal stores first"""
        if len(ss) <= keep:
            return ss
        self.stats["merged"] += len(ss)
        g = {}
        for s in ss:
            k = (frozenset(s.st.items()), frozenset(s.ver.items()))
            g[k] = self.join(g[k], s, site) if k in g else s
        ss = list(g.values())
        while len(ss) > keep:
            ss = dedupe([self.join(ss[i], ss[i + 1], site) if i + 1 < len(ss) else ss[i] for i in range(0, len(ss), 2)])
        return ss

    def s_while(self, n, sts, out):
        pre = n.get("pre")

        def c(s):
            if pre is not None:
                a, b = [], []
                o = self.stmt(pre, [s])
                out.thr += o.thr
                for s2 in o.next:
                    x, y = self.cond(n["q"], s2)
                    a += x
                    b += y
                return a, b
            if n.get("cv"):
                a, b = [], []
                for s2 in self.declare(n["cv"], s, n):
                    x, y = self.cond(n["q"], s2)
                    a += x
                    b += y
                return a, b
            return self.cond(n["q"], s)
        self.loop(n, sts, c, lambda ss: self.stmt(n["s"], ss) if ss else Out(), lambda ss: ss, out)

    def s_do(self, n, sts, out):
        self.loop(n, sts, lambda s: self.cond(n["q"], s), lambda ss: self.stmt(n["s"], ss) if ss else Out(), lambda ss: ss, out, do=True)

    def s_for(self, n, sts, out):
        decl = []
        start = sts
        if n.get("init") and rotated(n):
            decl = n["init"]["v"]
        elif n.get("init"):
            o = self.stmt(n["init"], sts)
            sts = o.next
            if n["init"]["k"] == "decl":
                decl = n["init"]["v"]

        def inc(ss):
            if n.get("inc") is None:
                return ss
            r = []
            for s in ss:
                r += [x for _, x in self.ev(n["inc"], s)]
            return r
        if rotated(n):
            w = ROTATED[id(n)]
            self.s_while(w[1], start, out)
            out.next = [self.drop_vars(s, decl) for s in out.next]
            return
        c = (lambda s: self.cond(n["q"], s)) if n.get("q") else (lambda s: ([s], []))
        self.loop(n, sts, c, lambda ss: self.stmt(n["s"], ss) if ss else Out(), inc, out)
        out.next = [self.drop_vars(s, decl) for s in out.next]

    def s_range(self, n, sts, out):
        r = n["r"]
        while r and r["k"] == "tmp":
            r = r["e"]
        if r and r["k"] == "init" and "fields" not in r and len(r.get("args") or ()) <= 8:
            return self.unrolled(n, r["args"], sts, out)
        groups = {}
        for s in sts:
            for C, s2 in self.lv(n["r"], s):
                groups.setdefault(C, []).append(s2)
        v = n["v"]
        snaps = {}
        for C, ss in list(groups.items()):      # a copy that was not changed since: what it was copied from
            for s in ss:
                S, sv = self.snapshot(s, C)
                snaps.setdefault((S, sv), []).append(s)
        for (C, sver), ss in snaps.items():
            mark = mk("var", self.fr.fid, id(n), "__range")  # elements still to visit
            ss = [self.setv(s, mark, INT(len(self.alive(s, C, self.seqn(s, C)))) if self.seqn(s, C) is not None else mk("size", C, self.ver_of(s, C) if sver is False else sver)) for s in ss]

            def c(s, C=C, sver=sver):
                fixed = self.seqn(s, C)
                rem = s.st.get(mark)
                ver = self.ver_of(s, C) if sver is False else sver
                T_, F_ = [], []
                f = self.constrain(s, rem, 0, 0)
                if f is not None:
                    F_.append(f)
                t = self.constrain(s, rem, 1)
                if t is not None:
                    key, t = self.fresh(t, "k", n)
                    if fixed is not None and rem.op == "int":
                        key = mk("pos", self.alive(t, C, fixed)[-rem.a[0]])
                    t = self.setv(t, mark, self.binop("-", rem, ONE))
                    el = mk("el", C, key)
                    f = mk("found", C, key, ver)
                    t = self.constrain(t, f, 1, 1)
                    if t is not None:
                        if v.get("ref"):
                            t = self.bind_ref(t, v["id"], v["n"], el)
                            t = self.bind_parts(v, el, t)
                        else:
                            l = mk("var", self.fr.fid, v["id"], v["n"])
                            self.fr.env[v["id"]] = l
                            t = self.setv(t, l, self.load(t, el, v["t"]))
                            t = self.bind_parts(v, l, t)
                        T_.append(t)
                return T_, F_
            self.loop(n, ss, c, lambda x: self.stmt(n["s"], x) if x else Out(), lambda x: x, out)
        out.next = [self.drop_vars(s, [v, {"id": id(n)}]) for s in out.next]

    def s_switch(self, n, sts, out):
        body = n["s"]
        items = body["s"] if body["k"] == "blk" else [body]
        flat = []
        for x in items:
            labels = []
            while x and x["k"] in ("case", "default"):
                labels.append(x)
                x = x["s"]
            flat.append((labels, x))
        entry = {}
        end = []
        for s in sts:
            for v, s2 in self.rv(n["q"], s):
                rest = self.in_range(n["q"], v, s2)
                dflt = None
                for i, (labels, _) in enumerate(flat):
                    for lab in labels:
                        if lab["k"] == "default":
                            dflt = i
                            continue
                        if rest is None:
                            continue
                        cv = self.rv(lab["v"], rest)[0][0]
                        if lab.get("v2"):
                            continue
                        c = self.cmp("==", v, cv)
                        t = self.assume(rest, c, True)
                        if t is not None:
                            entry.setdefault(i, []).append(t)
                        rest = self.assume(rest, c, False)
                if rest is not None:
                    if dflt is not None:
                        entry.setdefault(dflt, []).append(rest)
                    else:
                        end.append(rest)
        cur = []
        for i, (labels, x) in enumerate(flat):
            cur = dedupe(cur + entry.get(i, []))
            if not cur or x is None:
                continue
            o = self.stmt(x, cur)
            end += o.brk
            o.brk = []
            out.absorb(o)
            cur = o.next
        out.next += dedupe(end + cur)

    def s_case(self, n, sts, out):
        o = self.stmt(n["s"], sts)
        out.next = o.next
        out.absorb(o)

    s_default = s_case

    def s_ret(self, n, sts, out):
        e = n.get("e")
        for s in sts:
            if e is None:
                out.ret.append((s, VOID, n.get("l")))
            elif self.fr.retref and e["k"] != "init":
                for l, s2 in self.lv(e, s):
                    out.ret.append((s2, mk("L", l), n.get("l")))
            else:
                for v, s2 in self.rv(e, s):
                    out.ret.append((s2, v, n.get("l")))

    def unrolled(self, n, elems, sts, out):
        """a loop over a braced list: its body, once for each of the elements"""
        done = []
        for a in elems:
            nxt = []
            for s in sts:
                nxt += self.declare(dict(n["v"], init=a), s, n)
            o = self.stmt(n["s"], dedupe(nxt)) if nxt else Out()
            out.ret += o.ret
            out.thr += o.thr
            for k, v in o.goto.items():
                out.goto.setdefault(k, []).extend(v)
            done += o.brk
            sts = dedupe([self.drop_vars(s, [n["v"]]) for s in o.next + o.cnt])
        out.next = dedupe(sts + [self.drop_vars(s, [n["v"]]) for s in done])

    def s_brk(self, n, sts, out):
        out.brk += sts

    def s_cnt(self, n, sts, out):
        out.cnt += sts

    def s_try(self, n, sts, out):
        self.trydepth += 1
        hs = n["h"]
        self.catch_stack = getattr(self, "catch_stack", []) + [[h.get("t") for h in hs]]
        o = self.stmt(n["s"], sts)
        self.catch_stack = self.catch_stack[:-1]
        self.trydepth -= 1
        thr, o.thr = o.thr, []
        out.next += o.next
        out.absorb(o)
        rest = thr
        for h in hs:
            t = h.get("t")
            tb = strip_t(t) if t else None
            mine = [x for x in rest if t is None or tb == "..." or self.catches(tb, x[1])]
            rest = [x for x in rest if x not in mine]
            if mine:
                ss = dedupe([self.event(x[0], n, "catch", tb or "...") for x in mine])
                o = self.stmt(h["s"], ss)
                out.next += o.next
                out.absorb(o)
        out.thr += rest

    def catches(self, t, v):
        ty = v.a[0] if v.op == "exc" else "?"
        if ty == "any":
            return True
        fam = {"std::out_of_range": ["std::out_of_range", "std::logic_error", "std::exception"]}
        return t in fam.get(ty, [ty, "std::exception"])

    def throw(self, st, node, ty):
        if self.pending_thr is not None:
            self.pending_thr.append((st, mk("exc", ty), node.get("l")))

    def catching(self, ty):
        """would some enclosing try catch this?"""
        for hs in getattr(self, "catch_stack", []):
            for t in hs:
                if t is None or strip_t(t) == "..." or self.catches(strip_t(t), mk("exc", ty)):
                    return True
        return False

    # ================================================================ expressions
    def cond(self, e, st):
        """-> (states where true, states where false)"""
        k = e["k"]
        if k == "bin" and e["op"] in ("&&", "||"):
            a, b = self.cond(e["a"], st)
            if e["op"] == "&&":
                T_, F_ = [], list(b)
                for s in a:
                    x, y = self.cond(e["b"], s)
                    T_ += x
                    F_ += y
            else:
                T_, F_ = list(a), []
                for s in b:
                    x, y = self.cond(e["b"], s)
                    T_ += x
                    F_ += y
            return dedupe(T_), dedupe(F_)
        if k == "un" and e["op"] == "!":
            a, b = self.cond(e["e"], st)
            return b, a
        if k == "cast" and e["e"]["k"] in ("bin", "un", "cast") and strip_t(e.get("t")) == "bool":
            return self.cond(e["e"], st)
        T_, F_ = [], []
        for v, s in self.rv(e, st):
            v = self.boolify(v)
            t = self.assume(s, v, True)
            f = self.assume(s, v, False)
            if t is not None:
                T_.append(t)
            if f is not None:
                F_.append(f)
        return dedupe(T_), dedupe(F_)

    def boolify(self, v):
        return v

    def ev(self, e, st):
        """evaluate for side effects"""
        k = e["k"]
        if k in ("tmp", "rd"):
            return self.ev(e["e"], st)
        if k in ("call",):
            return [(v, s) for v, s in self.call(e, st, e.get("vk") == "L")]
        if k in ("ref", "mem", "this", "lit"):
            return [(VOID, st)]
        if k == "bin" and e["op"] in ASSIGN:
            return self.lv(e, st)
        if k == "bin" and e["op"] == ",":
            return [r for _, s in self.ev(e["a"], st) for r in self.ev(e["b"], s)]
        if k == "cond":
            a, b = self.cond(e["q"], st)
            out = []
            for s in a:
                out += self.ev(e["a"], s)
            for s in b:
                out += self.ev(e["b"], s)
            return out
        if k == "cast" and strip_t(e.get("t")) == "void" and "*" not in e.get("t"):
            return self.ev(e["e"], st)
        return self.rv(e, st)

    def deref(self, v):
        if v.op == "addr":
            return v.a[0]
        return mk("deref", v)

    def nul(self, st, e, v):
        """the use of a pointer that is known to be null here, or to lead to something that is no more"""
        if v is ZERO:
            return self.event(st, e, "null", show(v), val=v)
        if v.op == "stale" or mk("dead", v) in st.fa:
            return self.event(st, e, "stale", show(v), val=v)
        return st

    def gone(self, st, e, C, els, cls=""):
        """the elements `els` of C are no more: what leads to them is stale"""
        out = None
        for el in els:
            for k, v in st.st.items():
                if v.op == "addr" and (v.a[0] is el or self.under(v.a[0], el)) or v.op == "find" and v.a[0] is C and el.op == "el" and v.a[1] is el.a[1] and k.op == "var":
                    out = out or st.copy()
                    out.st[k] = mk("stale", C)
            if "unique_ptr<" in cls:
                for l in (el, mk("fld", el, "pair", "second")):
                    v = st.st.get(l) or self.read(st, l)
                    if v.op not in ("int",):
                        out = out or st.copy()
                        out.fa[mk("dead", v)] = (1, 1, frozenset())
        return out or st

    def dead_at(self, st, loc):
        """a location inside something that is no more"""
        while loc.op in ("fld", "el", "deref"):
            if loc.op == "deref" and mk("dead", loc.a[0]) in st.fa:
                return loc.a[0]
            loc = loc.a[0]
            if loc.op in ("rd", "addr"):
                break
        return None

    def addr(self, loc):
        if loc.op == "deref":
            return loc.a[0]
        return mk("addr", loc)

    def load(self, st, loc, ty=None):
        v = self.read(st, loc)
        if v.op == "rd" and v.a[0] is loc and is_class(ty) and not is_ptrlike(ty):
            return mk("copyof", loc)
        return v

    def lookup(self, vid, name=None):
        for f in reversed(self.frames):
            if vid in f.env:
                return f.env[vid]
            if f is self.frames[0]:
                break
        return None

    # ---- lvalues
    def lv(self, e, st):
        k = e["k"]
        if k == "ref":
            dk = e.get("dk")
            if dk in ("var", "bind"):
                l = self.fr.env.get(e["d"])
                if l is None:
                    l = mk("glob", e["d"], e["n"]) if dk == "var" and not e.get("local") else mk("var", self.fr.fid, e["d"], e["n"])
                if l.op == "ref":
                    p = st.st.get(l)
                    if p is not None:
                        d = self.dead_at(st, p.a[0]) if p.op == "addr" else p
                        if d is not None:
                            st = self.nul(st, e, d)
                    return [(self.deref(p) if p is not None else mk("deref", l), st)]
                if l.op == "val":
                    return [(mk("tmpv", l.a[0]), st)]
                return [(l, st)]
            if dk == "fn":
                return [(mk("fnloc", self.fname(e["ref"]) if isinstance(e.get("ref"), int) else e["n"]), st)]
            return [(mk("glob", e.get("d"), e["n"]), st)]
        if k == "this":
            return [(self.fr.this, st)]
        if k == "mem":
            if e.get("fn") is not None:
                return self.lv(e["b"], st) if e.get("b") else [(VOID, st)]
            out = []
            if e.get("arrow"):
                for p, s in self.rv(e["b"], st):
                    out.append((self.member(self.deref(p), e), self.nul(s, e, p)))
            else:
                for b, s in self.lv(e["b"], st):
                    out.append((self.member(b, e), s))
            if e.get("ref"):  # reference member: an indirection
                return [(self.deref(self.read(s, l)), s) for l, s in out]
            return out
        if k == "un":
            op = e["op"]
            if op == "*":
                return [(self.deref(v), self.nul(s, e, v)) for v, s in self.rv(e["e"], st)]
            if op in ("++", "--"):
                out = []
                for l, s in self.lv(e["e"], st):
                    v = self.binop("+" if op == "++" else "-", self.read(s, l), ONE)
                    out.append((l, self.write(s, l, v, e)))
                return out
            if op == "__extension__":
                return self.lv(e["e"], st)
        if k == "bin":
            op = e["op"]
            if op == "=":
                out = []
                for v, s in self.rv(e["b"], st):
                    for l, s2 in self.lv(e["a"], s):
                        out.append((l, self.write(s2, l, v, e)))
                return out
            if op in ASSIGN:
                out = []
                for v, s in self.rv(e["b"], st):
                    for l, s2 in self.lv(e["a"], s):
                        out.append((l, self.write(s2, l, self.binop(op[:-1], self.read(s2, l), v), e)))
                return out
            if op == ",":
                return [r for _, s in self.ev(e["a"], st) for r in self.lv(e["b"], s)]
        if k == "cast":
            if e.get("ck") in ("LValueBitCast", "NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase", "Dynamic", "ConstructorConversion", "UserDefinedConversion"):
                return self.lv(e["e"], st)
            if is_lvalue_expr(e["e"]):
                return self.lv(e["e"], st)
        if k == "cond":
            a, b = self.cond(e["q"], st)
            return [r for s in a for r in self.lv(e["a"], s)] + [r for s in b for r in self.lv(e["b"], s)]
        if k == "idx":
            out = []
            for a, s in self.rv(e["a"], st):
                for b, s2 in self.rv(e["b"], s):
                    out.append((mk("el", self.deref(a), b), s2))
            return out
        if k == "call" and e.get("vk") == "L":
            out = []
            for v, s in self.call(e, st, True):
                out.append((v.a[0] if v.op == "L" else self.deref(v), s))
            return out
        if k == "rd":
            return self.lv(e["e"], st)
        if k == "tmp":
            return self.materialize(e, st)
        if k == "str":
            return [(mk("strloc", e["v"]), st)]
        return self.materialize(e, st)

    def materialize(self, e, st):
        l = mk("tmp", self.fr.fid, id(e))
        inner = e["e"] if e["k"] == "tmp" else e
        return [(l, s) for s in self.construct_at(l, inner, st)]

    def member(self, base, e):
        cls = e["cls"]
        if cls.startswith("std::pair"):
            cls = "pair"
        if base.op == "tmpv":
            v = self.project(base.a[0], cls, e["n"])
            return mk("tmpv", v) if v is not None else mk("fld", base, cls, e["n"])
        return mk("fld", base, cls, e["n"])

    def fname(self, fid):
        f = self.fr.tu.funcs.get(fid)
        return f.qname if f else str(fid)

    def write(self, st, loc, v, node):
        if v.op == "rd" and loc.op == "fld" and v == self.read(st, loc):
            return st               # what it holds already
        st = self.event(st, node, "write", show(loc), obj=loc, val=v)
        return self.setv(st, loc, v)

    # ---- rvalues
    def rv(self, e, st):
        k = e["k"]
        m = getattr(self, "r_" + k, None)
        if m:
            return m(e, st)
        # glvalue of class type used as a value
        return [(self.load(s, l, e.get("t")), s) for l, s in self.lv(e, st)]

    def r_lit(self, e, st):
        v = e["v"]
        return [(INT(v) if isinstance(v, (int, bool)) else mk("str", str(v)), st)]

    def r_flt(self, e, st):
        return [(mk("str", "flt:" + str(e["v"])), st)]

    def r_str(self, e, st):
        return [(mk("str", e["v"]), st)]

    def r_this(self, e, st):
        return [(self.addr(self.fr.this), st)]

    def r_rd(self, e, st):
        out = []
        for l, s in self.lv(e["e"], st):
            if l.op == "tmpv":
                out.append((l.a[0], s))
            elif l.op == "fnloc":
                out.append((mk("fn", l.a[0]), s))
            elif l.op == "strloc":
                out.append((mk("str", l.a[0]), s))
            else:
                out.append((self.read(s, l), s))
        return out

    def r_ref(self, e, st):
        if e.get("dk") == "fn":
            return [(mk("fn", self.fname(e["ref"]) if isinstance(e.get("ref"), int) and not isinstance(e.get("ref"), bool) else e["n"]), st)]
        out = []
        for l, s in self.lv(e, st):
            out.append((l.a[0] if l.op == "tmpv" else self.load(s, l, e.get("t")), s))
        return out

    def r_tmp(self, e, st):
        return self.rv(e["e"], st)

    def r_un(self, e, st):
        op = e["op"]
        if op == "&":
            if e["e"]["k"] == "ref" and e["e"].get("dk") == "fn" or e["e"]["k"] == "mem" and e["e"].get("fn") is not None:
                return [(mk("fn", e["e"].get("n")), st)]
            return [(mk("fn", l.a[0]) if l.op == "fnloc" else self.addr(l), s) for l, s in self.lv(e["e"], st)]
        if op == "!":
            a, b = self.cond(e["e"], st) if e["e"]["k"] == "bin" and e["e"]["op"] in ("&&", "||") else (None, None)
            if a is not None:
                return [(ZERO, s) for s in a] + [(ONE, s) for s in b]
            return [(self.neg(self.boolify(v)), s) for v, s in self.rv(e["e"], st)]
        if op == "-":
            return [(INT(-v.a[0]) if v.op == "int" else mk("bin", "-", ZERO, v), s) for v, s in self.rv(e["e"], st)]
        if op == "~":
            return [(INT(~v.a[0]) if v.op == "int" else mk("bin", "~", v, ZERO), s) for v, s in self.rv(e["e"], st)]
        if op == "+":
            return self.rv(e["e"], st)
        if op in ("p++", "p--"):
            out = []
            for l, s in self.lv(e["e"], st):
                v = self.read(s, l)
                out.append((v, self.write(s, l, self.binop("+" if op == "p++" else "-", v, ONE), e)))
            return out
        if op in ("*", "++", "--"):
            return [(self.load(s, l, e.get("t")), s) for l, s in self.lv(e, st)]
        return self.rv(e["e"], st)  # __extension__ and the like

    def r_bin(self, e, st):
        op = e["op"]
        if op in ASSIGN or op == ",":
            if op == ",":
                return [r for _, s in self.ev(e["a"], st) for r in self.rv(e["b"], s)]
            return [(self.read(s, l), s) for l, s in self.lv(e, st)]
        if op in ("&&", "||"):
            a, b = self.cond(e["a"], st)
            out = []
            if op == "&&":
                out += [(ZERO, s) for s in b]
                for s in a:
                    out += self.rv(e["b"], s)
            else:
                out += [(ONE, s) for s in a]
                for s in b:
                    out += self.rv(e["b"], s)
            return out
        out = []
        for a, s in self.rv(e["a"], st):
            for b, s2 in self.rv(e["b"], s):
                if op in ("==", "!="):
                    s2 = self.in_range(e["b"], b, self.in_range(e["a"], a, s2))
                    if s2 is None:
                        continue
                out.append((self.binop(op, a, b), s2))
        return out

    def in_range(self, e, v, st):
        """a value of enumeration type is one of the enumerators (enumerations used as bit sets excepted)"""
        if st is None or v.op in ("int", "bin"):
            return st
        while e["k"] in ("rd", "tmp") and not e.get("t"):
            e = e["e"]
        r = self.p.enum_range(strip_t(e.get("t")))
        if r is None:
            return st
        d = self.dom(st, v)
        return self.constrain(st, v, *r) if d[0] < r[0] or d[1] > r[1] else st

    def r_cond(self, e, st):
        a, b = self.cond(e["q"], st)
        return [r for s in a for r in self.rv(e["a"], s)] + [r for s in b for r in self.rv(e["b"], s)]

    def r_cast(self, e, st):
        ck = e.get("ck") or ""
        ty = strip_t(e.get("t"))
        if ty == "void" and "*" not in (e.get("t") or ""):
            return [(VOID, s) for _, s in self.ev(e["e"], st)]
        if ck == "Dynamic" or e.get("kind") == "dynamic":
            out = []
            for v, s in self.rv(e["e"], st):
                t = mk("dyncast", ty, v)
                a, b = self.assume(s, t, True), self.assume(s, t, False)
                if a is not None:
                    out.append((v, a))
                if b is not None:
                    out.append((ZERO, b))
            return out
        if ck == "NullToPointer":
            return [(ZERO, st)]
        if ty == "bool" and ck in ("IntegralToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            out = []
            for v, s in self.rv(e["e"], st):
                if v.op == "int":
                    v = INT(v.a[0] != 0)
                elif v.op not in ("cmp", "not", "found", "empty"):
                    v = self.neg(self.cmp("==", v, ZERO))
                out.append((v, s))
            return out
        if is_lvalue_expr(e["e"]) and is_class(e.get("t")):
            return [(self.load(s, l, e.get("t")), s) for l, s in self.lv(e["e"], st)]
        return self.rv(e["e"], st)

    def r_lam(self, e, st):
        caps = []
        s = st
        for c in e.get("caps") or []:
            if c.get("this"):
                continue
            if c.get("initcap") or c.get("init") is not None and not c.get("byref"):
                if c.get("init") is not None:
                    rs = self.rv(c["init"], s)
                    v, s = rs[0]
                else:
                    v = mk("unk", c["n"])
                caps.append((c["d"], c["n"], mk("val", v)))
                continue
            l = self.fr.env.get(c["d"])
            if l is None:
                l = mk("glob", c["d"], c["n"])
            if l.op == "ref":
                p = s.st.get(l)
                l = self.deref(p) if p is not None else l
            if c.get("byref"):
                caps.append((c["d"], c["n"], mk("loc", l)))
            else:
                v = l.a[0] if l.op == "val" else self.load(s, l)
                caps.append((c["d"], c["n"], mk("val", v)))
        t = mk("lam", id(e), self.fr.fid, tuple(x[2] for x in caps), self.fr.this if self.fr.this is not None else VOID)
        self.lams[t] = (self.fr.tu, e, caps, self.fr.this, self.fr.fn)
        return [(t, s)]

    def r_init(self, e, st):
        args = e.get("args") or []
        fields = e.get("fields")
        rs = [([], st)]
        for a in args:
            rs = [(vs + [v], s2) for vs, s in rs for v, s2 in self.rv(a, s)]
        out = []
        nb = e.get("nb") or 0
        for vs, s in rs:
            if fields is None and len(vs) == 1 and (not is_class(e.get("t")) or (e.get("t") or "").rstrip(" &").endswith("*") or strip_t(e.get("t")) in self.p.enums):
                out.append((vs[0], s))
                continue
            if fields is None and not vs:
                out.append((ZERO if not is_class(e.get("t")) or is_ptrlike(e.get("t")) or (e.get("t") or "").endswith("*") else mk("obj", strip_t(e.get("t")), ()), s))
                continue
            fs = tuple((("?", (fields or [])[i - nb] if fields and i >= nb and i - nb < len(fields) else "a%d" % i), v) for i, v in enumerate(vs))
            out.append((mk("obj", strip_t(e.get("t")), fs), s))
        return out

    def r_throw(self, e, st):
        out = []
        rs = self.rv(e["e"], st) if e.get("e") else [(VOID, st)]
        for v, s in rs:
            s = self.event(s, e, "throw", e.get("t") or "rethrow", val=v)
            self.throw(s, e, strip_t(e.get("t")) or "any")
        return out

    def r_typeid(self, e, st):
        return [(mk("typeid", e.get("t") or str(id(e))), st)]

    def r_new(self, e, st):
        t, s = self.fresh(st, "new<%s>" % short(e.get("t")), e)
        s2 = s.copy()
        s2.fa[t] = (1, INF, frozenset())
        init = e.get("init")
        l = self.deref(t)
        for k in [k for k in s2.st if self.under(k, l)]:
            del s2.st[k]
        if init is None:
            return [(t, s2)]
        if init["k"] == "ctor" and not init.get("cm"):
            r = self.ctor_into(init, l, s2)
            if r is not None:
                return [(t, x) for x in r]
        return [(t, self.setv(x, l, v)) for v, x in self.rv(init, s2)]

    def r_del(self, e, st):
        return [(VOID, self.event(s, e, "delete", show(v), val=v)) for v, s in self.rv(e["e"], st)]

    def r_other(self, e, st):
        return [(mk("unk", id(e)), st)]

    def r_call(self, e, st):
        out = []
        for v, s in self.call(e, st, e.get("vk") == "L"):
            if v.op == "L":
                v = v.a[0].a[0] if v.a[0].op == "tmpv" else self.load(s, v.a[0], e.get("t"))
            out.append((v, s))
        return out

    def r_ctor(self, e, st):
        t = strip_t(e.get("t"))
        args = e.get("args") or []
        if e.get("cm") and len(args) >= 1:
            rs = self.rv(args[0], st)
            if SP.match(t):
                rs = [(v, self.event(s, e, "hold", show(v), val=v) if v.op == "rd" else s) for v, s in rs]
            if SP.match(t) and is_moved(self.fr.tu, args[0]) and not (args[0].get("t") or "").startswith("const "):
                rs = [(v, self.moved_from(args[0], s)) for v, s in rs]
            return rs
        b = base_name(t)
        if SP.match(t):
            if not args:
                return [(ZERO, st)]
            rs = self.rv(args[0], st)
            if len(args) > 1 and t.startswith("boost::intrusive_ptr"):
                out = []
                for v, s in rs:
                    for f, s2 in self.rv(args[1], s):
                        if f is ZERO:
                            s2 = self.event(s2, e, "adopt", show(v), val=v)
                        else:
                            s2 = self.event(s2, e, "share", show(v), val=v)
                        out.append((v, s2))
                return out
            return [(v, self.event(s, e, "share", show(v), val=v)) if v.op not in ("int",) else (v, s) for v, s in rs]
        if b in ("std::function",) or b.startswith("std::variant") or b in ("std::optional", "std::chrono::time_point", "std::chrono::duration") or "iterator" in b.split("::")[-1] or "__normal_iterator" in b:
            if len(args) == 0:
                return [(ZERO, st)]
            if b == "std::reverse_iterator":
                out = []
                for v, s in self.rv(args[0], st):
                    if v.op == "ci":
                        n = self.seqn(s, v.a[0])
                        below = [i for i in self.alive(s, v.a[0], n) if i < v.a[1]] if n is not None else [v.a[1] - 1]
                        v = mk("cri", v.a[0], below[-1] + 1 if below else 0)
                    elif v.op in ("find", "end", "begin"):
                        k, s = self.fresh(s, "rit", e)
                        v = mk("find", v.a[0], k, self.ver_of(s, v.a[0]))
                    out.append((v, s))
                return out
            return self.rv(args[0], st)
        if STR.match(t):
            if not args:
                return [(mk("str", ""), st)]
            return self.rv(args[0], st)
        f = self.fr.tu.funcs.get(e.get("f")) if e.get("f") is not None else None
        if b in ("std::vector", "std::list", "std::deque", "std::set", "std::unordered_set") and len(args) >= 2:
            # a copy of a whole range
            rs = [([], st)]
            for a in args[:2]:
                rs = [(vs + [v], s2) for vs, s in rs for v, s2 in self.rv(a, s)]
            if all(self.whole(s, *vs) for vs, s in rs):
                out = []
                for vs, s in rs:
                    C = self.iter_cont(vs[0])
                    out.append((mk("snap", C, self.ver_of(s, C)), s))
                return out
        if f is not None:
            f = self.p.resolve(f)
            if b == "rotor::request_builder_t" and self.models and "rotor::request_builder_t::request_builder_t" not in self.noinline:
                return self.make_reqb(e, f, st)
            if f.qname.startswith("rotor") and (f.body is not None or f.inits):
                tmp = mk("tmp", self.fr.fid, id(e))
                r = self.ctor_into(e, tmp, st)
                out = []
                for s in r:
                    out.append((self.aggregate(s, tmp, t), s))
                return out
        rs = [([], st)]
        for a in args:
            rs = [(vs + [v], s2) for vs, s in rs for v, s2 in self.rv(a, s)]
        return [(mk("obj", t, tuple((("?", "a%d" % i), v) for i, v in enumerate(vs))), s) for vs, s in rs]

    def aggregate(self, s, tmp, t):
        """value of the object just built at tmp"""
        fs = []
        for k, v in s.st.items():
            if k.op == "fld" and k.a[0] is tmp:
                fs.append(((k.a[1], k.a[2]), v))
        v0 = s.st.get(tmp)
        if not fs and v0 is not None:
            return v0
        fs.sort(key=lambda x: x[0])
        return mk("obj", t, tuple(fs)) if fs else mk("obj", t, ())

    def ctor_into(self, e, l, st):
        """run a repository constructor on location l; None when there is nothing to run"""
        t = strip_t(e.get("t"))
        b = base_name(t)
        f = self.fr.tu.funcs.get(e.get("f")) if e.get("f") is not None else None
        if f is None or SP.match(t):
            return None
        f = self.p.resolve(f)
        if not f.qname.startswith("rotor") or (f.body is None and not f.inits):
            return None
        if b == "rotor::request_builder_t" and self.models and "rotor::request_builder_t::request_builder_t" not in self.noinline:
            return None
        if len(self.frames) > self.MAXD or any(x.fn is f for x in self.frames):
            return None
        out = []
        for argv, s in self.args(e.get("args") or [], f, st):
            s = self.event(s, e, "ctor", base_name(f.cls), obj=l, args=argv, fn=f)
            for _, s2 in self.inline(f, l, argv, e, s, False):
                out.append(s2)
        return out

    def run_inits(self, f, this, sts):
        rec = f.tu.records.get(f.cls) or {"fields": [], "bases": []}
        done = set()
        delegating = any("deleg" in i for i in f.inits or [])
        order = list(f.inits or [])
        for i in order:
            nxt = []
            for s in sts:
                if "field" in i:
                    done.add(i["field"])
                    l = mk("fld", this, f.cls, i["field"])
                    ref = any(x["name"] == i["field"] and (x.get("t") or "").endswith("&") for x in rec["fields"])
                    if i.get("init") is None:
                        nxt.append(s)
                        continue
                    if ref:
                        for loc, s2 in self.lv(i["init"], s):
                            nxt.append(self.setv(s2, l, self.addr(loc)))
                    else:
                        init = i["init"]
                        nxt += [self.event(s2, init, "init", show(l), obj=l, val=self.read(s2, l)) for s2 in self.construct_at(l, init, s)]
                else:
                    init = i.get("init")
                    e2 = init
                    while e2 is not None and e2["k"] in ("tmp", "cast"):
                        e2 = e2["e"]
                    if e2 is not None and e2["k"] == "init" and e2.get("fields") and "base" in i:
                        nxt += self.base_fields(e2, i["base"], this, s)
                        continue
                    r = self.ctor_into(e2, this, s) if e2 is not None and e2["k"] == "ctor" else None
                    nxt += r if r is not None else [s]
            sts = dedupe(nxt)
        if not delegating:
            for x in rec["fields"]:
                if x["name"] not in done and x.get("init") is not None:
                    l = mk("fld", this, f.cls, x["name"])
                    nxt = []
                    for s in sts:
                        nxt += [self.event(s2, x["init"], "init", show(l), obj=l, val=self.read(s2, l)) for s2 in self.construct_at(l, x["init"], s)]
                    sts = dedupe(nxt)
        return sts

    def base_fields(self, e, cls, this, st):
        """an aggregate base class initialized field by field"""
        sts = [st]
        for name, a in list(zip(e["fields"], (e.get("args") or [])[e.get("nb") or 0:])):
            l = mk("fld", this, cls, name)
            nx = []
            for s in sts:
                nx += [self.event(s2, a, "init", show(l), obj=l, val=self.read(s2, l)) for s2 in self.construct_at(l, a, s)]
            sts = dedupe(nx)
        return sts

    # ================================================================ calls
    def args(self, exprs, f, st):
        rs = [([], st)]
        ps = f.params if f is not None else []
        for i, a in enumerate(exprs):
            ref = ps[i]["ref"] if i < len(ps) else is_lvalue_expr(a)
            nx = []
            for vs, s in rs:
                if ref:
                    for l, s2 in self.lv(a, s):
                        nx.append((vs + [mk("L", l)], s2))
                else:
                    for v, s2 in self.rv(a, s):
                        nx.append((vs + [v], s2))
            rs = nx
        return rs

    def V(self, s, a, ty=None):
        """value of an evaluated argument"""
        if a.op == "L":
            if a.a[0].op == "tmpv":
                return a.a[0].a[0]
            if a.a[0].op == "fnloc":
                return mk("fn", a.a[0].a[0])
            if a.a[0].op == "strloc":
                return mk("str", a.a[0].a[0])
            v = self.load(s, a.a[0], ty)
            return v
        return a

    def Lc(self, a, node, s):
        return a.a[0] if a.op == "L" else mk("tmpv", a)

    def inline(self, f, this, argv, node, st, want_l, env=None, tu=None):
        """run f's body in a new frame; [(value, state)]"""
        self.stats["calls_inlined"] += 1
        self.inlined.add((f.file, f.line, f.qname))
        fid = mk("frame", self.fr.fid, id(node), f.id)
        fr = Frame(fid, f, tu or f.tu, dict(env or {}), this, self.fr, node, self.fr.depth + 1)
        fr.retref = want_l
        s = st
        for i, p in enumerate(f.params):
            if i < len(argv):
                a = argv[i]
                if p["ref"]:
                    if a.op == "L":
                        l = a.a[0]
                        if l.op in ("tmpv", "fnloc", "strloc"):
                            fr.env[p["id"]] = l
                            continue
                    else:
                        l = mk("tmp", fid, p["id"])
                        s = self.setv(s, l, a)
                    s = s.copy()
                    r = mk("ref", fid, p["id"], p["name"])
                    s.st[r] = self.addr(l)
                    fr.env[p["id"]] = r
                else:
                    l = mk("var", fid, p["id"], p["name"])
                    s = self.setv(s, l, self.V(s, a, p.get("t")))
                    fr.env[p["id"]] = l
            else:
                fr.env[p["id"]] = mk("var", fid, p["id"], p["name"])
        self.frames.append(fr)
        saved, self.pending_thr = self.pending_thr, []
        try:
            sts = [s]
            if f.ctor:
                sts = self.run_inits(f, this, sts)
            o = self.stmt(f.body, sts) if f.body is not None else None
            if o is None:
                o = Out()
                o.next = sts
        finally:
            self.frames.pop()
            inner, self.pending_thr = self.pending_thr, saved
        thr = inner + o.thr
        for x in thr:
            if self.pending_thr is not None:
                self.pending_thr.append((self.leave(x[0], fid, x[1]), x[1], node.get("l")))
        out = []
        for s in o.next:
            out.append((VOID, s))
        for s, v, _ in o.ret:
            out.append((v, s))
        res, seen = [], set()
        for v, s in out:
            s = self.leave(s, fid, v)
            kk = (v, s.key())
            if kk not in seen:
                seen.add(kk)
                res.append((v, s))
        if len(res) > self.fcap:
            byv = {}
            for v, s in res:
                byv.setdefault((v, s.hist), []).append(s)
            res = []
            for (v, _), ss in byv.items():
                res += [(v, x) for x in self.shrink(ss, 4, (id(node), "ret"))]
        return res

    def leave(self, s, fid, v):
        dead = [k for k in s.st if self.rooted(k, fid)]
        # an object still referred to by the result stays
        if v.op in ("L", "copyof", "addr"):
            l = v.a[0]
            dead = [k for k in dead if not self.under(k, l)]
        if not dead:
            return s
        n = s.copy()
        for k in dead:
            del n.st[k]
        return n

    def call_lambda(self, lam, argv, node, st, want_l=False):
        """-> [(value,state)] or None"""
        if lam.op != "lam" or lam not in self.lams:
            return None
        tu, e, caps, this, fn = self.lams[lam]
        ops = [tu.funcs[o] for o in e.get("ops") or [] if o in tu.funcs]
        ops = [o for o in ops if o.body is not None]
        if not ops:
            return None
        if len(self.frames) > self.MAXD or any(f.fn in ops for f in self.frames):
            return None
        env = {}
        for (d, n, c) in caps:
            env[d] = c.a[0] if c.op == "loc" else mk("val", c.a[0])
        f = ops[0]
        if len(ops) > 1:
            f = self.pick(ops, argv, st) or ops[0]
        env2 = {}
        for d, l in env.items():
            env2[d] = l if l.op != "val" else l
        return self.inline(f, this, argv, node, st, want_l, env=env2, tu=tu)

    def pick(self, ops, argv, st):
        if argv:
            v = self.V(st, argv[0])
            if v.op == "obj":
                for o in ops:
                    if o.params and short(strip_t(o.params[0]["t"])) == short(v.a[0]) and strip_t(o.params[0]["t"]) == v.a[0]:
                        return o
        return None

    def root_name(self, f):
        rs = [r for r in self.p._roots(f)]
        if f.virtual and rs:
            r = sorted(rs)[0]
            return base_name(r[0]) if "::" in r[0] and r[1] != "~" else r[0] + "::~"
        return base_name(f.qname)

    def call(self, e, st, want_l):
        """[(value or L(loc), state)]"""
        # ---- callee
        if "f" not in e or e.get("f") is None:
            return self.call_expr(e, st)
        f0 = self.fr.tu.funcs.get(e["f"])
        if f0 is None:
            return [(mk("unk", id(e)), st)]
        f = self.p.resolve(f0)
        bn = base_name(f.qname)
        cls = f.cls or ""
        # a function pointer made of a lambda stands for that lambda
        if cls.startswith("lambda@") and f.name.startswith("operator ") and "(*)" in f.name and e.get("obj") is not None:
            return self.rv(e["obj"], st)
        # ---- models of std/boost vocabulary and transparent helpers
        if self.models:
            r = self.model(e, f, bn, cls, st, want_l)
            if r is not None:
                return r
        out = []
        for obj, s in self.callobj(e, f, st):
            for argv, s2 in self.args(e.get("args") or [], f, s):
                out += self.dispatch(e, f, bn, obj, argv, s2, want_l)
        return out

    def callobj(self, e, f, st):
        o = e.get("obj")
        if o is None:
            return [(None, st)]
        if e.get("arrow"):
            return [(self.deref(v), self.nul(s, e, v)) for v, s in self.rv(o, st)]
        return self.lv(o, st)

    def call_expr(self, e, st):
        out = []
        c = e.get("callee")
        rs = [(VOID, st)]
        if c is not None:
            rs = self.rv(c, st)
        for cv, s in rs:
            for argv, s2 in self.args(e.get("args") or [], None, s):
                s3 = self.event(s2, e, "pmcall", PMEM.sub(r"(\1-> .* ", show(cv)), args=argv, val=cv)
                s3 = self.havoc_all(s3, e)
                v, s3 = self.fresh(s3, "pm", e)
                out.append((v, s3))
        return out

    def havoc_all(self, st, node):
        tok, s = self.token(st, node)
        return self.havoc_fields(s, self.p.callback_mods(), tok)

    def dispatch(self, e, f, bn, obj, argv, st, want_l):
        if obj is not None and obj.op == "tmpv" and f.cls.startswith("rotor"):
            tl = mk("tmp", self.fr.fid, id(e), "obj")
            st = self.setv(st, tl, obj.a[0])
            obj = tl
        virt = e.get("virt") or False
        target = f
        name = self.root_name(f) if f.virtual else bn
        if virt:
            dv = self.devirt(self, f, obj, st) if callable(self.devirt) else self.devirt.get(name)
            if dv is not None:
                target, virt = dv, False
        ev_name = name
        atomic = ev_name in self.atomic or bn in self.atomic or target.qname in self.atomic
        rec = any(x.fn is target for x in self.frames)
        if not virt and not atomic and target.body is not None and not rec and len(self.frames) <= self.MAXD and target.qname.startswith("rotor") or \
                (not virt and not atomic and target.body is not None and self.local_fn(target) and not rec and len(self.frames) <= self.MAXD):
            s = self.event(st, e, "enter", ev_name, obj=obj, args=argv, fn=target, targs=target.targs)
            this = obj if not target.static else None
            rs = self.inline(target, this, argv, e, s, want_l)
            out = []
            for v, s2 in rs:
                s2 = self.event(s2, e, "leave", ev_name, obj=obj, args=argv, fn=target, val=v)
                out.append((v, s2))
            return out
        # opaque
        self.stats["calls_opaque"] += 1
        self.opaque.add(ev_name)
        s = self.event(st, e, "vcall" if virt else "call", ev_name, obj=obj, args=argv, fn=target, targs=target.targs)
        if f.noreturn or bn == "__assert_fail" or bn in ("std::terminate", "abort", "std::abort"):
            return []
        if f.qname.startswith("rotor") or self.local_fn(f):
            if not target.noexcept and self.catching("any"):
                self.throw(s, e, "any")
            mods = self.p.mods(target, virt)
            if mods:
                tok, s = self.token(s, e)
                s = self.havoc_fields(s, mods, tok)
        # by-reference out-parameters of unknown functions
        for i, a in enumerate(argv):
            if a.op == "L" and i < len(f.params) and not is_const_ref(f.params[i]["t"]) and f.params[i]["t"].endswith("&") and \
                    a.a[0].op in ("var", "tmp", "fld") and not f.qname.startswith("rotor"):
                tok, s = self.token(s, e, ":a%d" % i)
                s = self.forget(s, a.a[0], tok)
        if e.get("t") in (None, "void"):
            return [(VOID, s)]
        v, s = self.fresh(s, "call:" + f.name, e)
        if want_l:
            return [(mk("L", mk("deref", v)), s)]
        return [(v, s)]

    def local_fn(self, f):
        from program import REPO, VERIF
        return bool(f.file) and (f.file.startswith(REPO + "/") or f.file.startswith(VERIF + "/driver/"))

    # ================================================================ models
    def make_reqb(self, e, f, st):
        # request_builder_t<T>(supervisor, actor, destination, reply_to, args...)
        out = []
        t = strip_t(e["t"])
        payload = t[t.index("<") + 1:-1]
        for argv, s in self.args(e.get("args") or [], f, st):
            vals = tuple(self.V(s, a) if i > 1 else mk("addr", a.a[0]) if a.op == "L" else a for i, a in enumerate(argv))
            out.append((mk("reqb", payload, vals), s))
        return out

    def model(self, e, f, bn, cls, st, want_l):
        last = short(bn) if "operator" not in bn else bn[bn.rindex("operator"):]
        op = e.get("op")
        args = e.get("args") or []
        if bn in ("std::move", "std::forward", "std::addressof", "std::as_const", "std::ref", "std::cref", "boost::ref", "std::launder"):
            rs = self.lv(args[0], st)
            if bn == "std::addressof":
                return [(self.addr(l), s) for l, s in rs]
            return [(mk("L", l), s) for l, s in rs]
        ct = strip_t(e.get("objt")) if e.get("objt") else cls
        cb = base_name(cls)
        if SP.match(cls + "<") or cb in ("boost::intrusive_ptr", "std::unique_ptr", "std::shared_ptr", "std::__shared_ptr", "std::__shared_ptr_access"):
            return self.m_sp(e, f, last, op, st, want_l)
        if cb == "std::atomic" or cb.startswith("std::__atomic_base") or cb == "std::atomic_flag":
            return self.m_atomic(e, f, last, op, st)
        if bn in ("boost::operator==", "boost::operator!=", "std::operator==", "std::operator!=", "std::__detail::operator==", "std::__detail::operator!=",
                  "__gnu_cxx::operator!=", "__gnu_cxx::operator==", "std::operator<", "std::operator>", "std::operator<=", "std::operator>=", "std::chrono::operator<",
                  "boost::operators_impl::operator>=", "boost::operators_impl::operator<=", "std::chrono::operator>", "std::chrono::operator>=", "std::chrono::operator<=") or \
                (op in ("==", "!=", "<", ">", "<=", ">=") and not f.qname.startswith("rotor")):
            xs = ([e["obj"]] if e.get("obj") else []) + list(args)
            if len(xs) == 2:
                out = []
                for a, s in self.anyval(xs[0], st):
                    for b, s2 in self.anyval(xs[1], s):
                        out.append((self.cmp(op or last[8:], a, b), s2))
                return out
        if op == "!" and e.get("obj") is None and len(args) == 1:
            return [(self.neg(v), s) for v, s in self.anyval(args[0], st)]
        if op in ("-", "+", "*", "/") and not f.qname.startswith("rotor") and not ITER.search(cls):
            xs = ([e["obj"]] if e.get("obj") else []) + list(args)
            if len(xs) == 2:
                return [(self.binop(op, a, b), s2) for a, s in self.anyval(xs[0], st) for b, s2 in self.anyval(xs[1], s)]
        if ITER.search(cls) and not cls.startswith("rotor"):
            r = self.m_iter(e, f, last, op, st, want_l)
            if r is not None:
                return r
        if cb in CONT_BASE or (CONT.match(cls) and not cls.startswith("rotor")):
            r = self.m_cont(e, f, last, op, cls, st, want_l)
            if r is not None:
                return r
        if STR.match(cls):
            r = self.m_str(e, f, last, op, st)
            if r is not None:
                return r
        if bn in ("std::begin", "std::end", "std::rbegin", "std::rend", "std::cbegin", "std::cend", "std::size", "std::empty"):
            return [(self.iter_of(s, C, last), s) for C, s in self.lv(args[0], st)]
        if bn in ("std::next", "std::prev"):
            out = []
            for it, s in self.anyval(args[0], st):
                for d, s in (self.anyval(args[1], s) if len(args) > 1 and args[1].get("k") != "def" else [(ONE, s)]):
                    if it.op in ("ci", "cri") and d.op == "int" and d.a[0] in (1, -1):
                        nv = self.step(s, it, d.a[0] * (1 if (bn == "std::next") == (it.op == "ci") else -1), e)
                        if nv is not None:
                            out.append((nv, s))
                    else:
                        C = self.iter_cont(it)
                        k, s = self.fresh(s, "adv", e)
                        out.append((mk("find", C, k, self.ver_of(s, C)) if C is not None else mk("adv", k), s))
            return out
        if bn in ("std::distance",):
            return self.opaque_pure(e, f, st)
        if bn in ALGOS:
            r = self.m_algo(e, f, bn[5:], st)
            if r is not None:
                return r
        if bn in ("std::get_if", "std::holds_alternative", "std::get") and args and e.get("t"):
            r = self.m_variant(e, f, bn, st)
            if r is not None:
                return r
        if bn == "std::visit":
            return self.m_visit(e, f, st)
        if cb == "std::function":
            return self.m_function(e, f, last, op, st)
        if cb == "std::optional" or cb == "std::_Optional_base":
            return self.m_optional(e, f, last, op, st, want_l)
        if bn in ("std::make_unique", "std::make_shared"):
            return self.m_make_unique(e, f, st)
        if f.lam and op == "()":
            out = []
            for C, s in self.lv(e["obj"], st):
                v = self.read(s, C) if C.op != "tmpv" else C.a[0]
                for argv, s2 in self.args(args, f, s):
                    r = None
                    if v.op == "lam" and v in self.lams:
                        r = self.call_lambda(v, argv, e, s2, want_l)
                    if r is None:
                        r = self.dispatch(e, f, bn, C, argv, s2, want_l)
                    out += r
            return out
        if op == "=" and not f.qname.startswith("rotor") or (op == "=" and f.copymove and (f.body is None or f.d.get("defaulted"))):
            # assignment of an opaque class value
            out = []
            for v, s in self.rv(args[0], st):
                for l, s2 in self.lv(e["obj"], s):
                    s2 = self.write(s2, l, v, e)
                    out.append((mk("L", l), s2))
            return out
        if last in ("operator bool",) and not f.qname.startswith("rotor"):
            out = []
            for l, s in (self.lv(e["obj"], st) if not e.get("arrow") else [(self.deref(v), s) for v, s in self.rv(e["obj"], st)]):
                v = l.a[0] if l.op == "tmpv" else self.read(s, l)
                out.append((mk("bool", v), s))
            return out
        # ---- rotor vocabulary
        if bn.startswith("rotor::"):
            r = self.m_rotor(e, f, bn, last, st, want_l)
            if r is not None:
                return r
        if bn == "boost::sp_adl_block::intrusive_ptr_add_ref" or bn == "boost::sp_adl_block::intrusive_ptr_release":
            out = []
            for v, s in self.rv(args[0], st):
                out.append((VOID, self.event(s, e, "addref" if last.endswith("add_ref") else "release", show(v), val=v)))
            return out
        if bn == "std::swap":
            out = []
            for a, s in self.lv(args[0], st):
                for b, s2 in self.lv(args[1], s):
                    x, y = self.load(s2, a), self.load(s2, b)
                    s3 = self.write(s2, a, y, e)
                    out.append((VOID, self.write(s3, b, x, e)))
            return out
        if bn in ("std::min", "std::max"):
            return self.opaque_pure(e, f, st)
        if bn in ("std::make_pair", "std::pair"):
            out = []
            for argv, s in self.args(args, f, st):
                out.append((mk("obj", "std::pair", ((("pair", "first"), self.V(s, argv[0])), (("pair", "second"), self.V(s, argv[1])))), s))
            return out
        if bn == "std::exchange":
            out = []
            for l, s in self.lv(args[0], st):
                for v, s2 in self.anyval(args[1], s):
                    old = self.load(s2, l, e.get("t"))
                    out.append((old, self.write(s2, l, v, e)))
            return out
        if not f.qname.startswith("rotor") and f.const and e.get("obj") is not None and e.get("t") != "void":
            # const method of an opaque class: a function of the object's content and arguments
            return self.opaque_pure(e, f, st)
        return None

    def opaque_pure(self, e, f, st):
        out = []
        xs = list(e.get("args") or [])
        rs = [([], st)]
        if e.get("obj") is not None:
            rs = []
            for l, s in self.callobj(e, f, st):
                rs.append(([l.a[0] if l.op == "tmpv" else self.read(s, l)], s))
        for a in xs:
            rs = [(vs + [v], s2) for vs, s in rs for v, s2 in self.anyval(a, s)]
        for vs, s in rs:
            s = self.event(s, e, "call", base_name(f.qname), args=vs, fn=f)
            out.append((mk("fnc", short(base_name(f.qname)), *vs), s))
        return out

    def anyval(self, e, st):
        """value of an operand that may be an lvalue of class type"""
        if is_lvalue_expr(e) or e["k"] in ("tmp",):
            out = []
            for l, s in self.lv(e, st):
                if l.op == "tmpv":
                    out.append((l.a[0], s))
                elif l.op == "strloc":
                    out.append((mk("str", l.a[0]), s))
                elif l.op == "fnloc":
                    out.append((mk("fn", l.a[0]), s))
                else:
                    out.append((self.read(s, l), s))
            return out
        return self.rv(e, st)

    # ---- smart pointers
    def m_sp(self, e, f, last, op, st, want_l):
        out = []
        for l, s in self.callobj(e, f, st):
            v = l.a[0] if l.op == "tmpv" else self.read(s, l)
            if op in ("->",) or last in ("get", "operator->"):
                out.append((v, s))
            elif op == "*":
                out.append((mk("L", self.deref(v)), self.nul(s, e, v)))
            elif op == "!":
                out.append((self.cmp("==", v, ZERO), s))
            elif last == "operator bool":
                out.append((self.neg(self.cmp("==", v, ZERO)), s))
            elif op == "=":
                for a, s2 in self.anyval(e["args"][0], s):
                    s2 = self.write(s2, l, a, e)
                    if is_moved(self.fr.tu, e["args"][0]):
                        s2 = self.moved_from(e["args"][0], s2)
                    out.append((mk("L", l), s2))
            elif last == "reset":
                if e.get("args"):
                    for a, s2 in self.rv(e["args"][0], s):
                        out.append((VOID, self.write(s2, l, a, e)))
                else:
                    out.append((VOID, self.write(s, l, ZERO, e)))
            elif last in ("detach", "release"):
                s = self.event(s, e, "detach", show(l), obj=l, val=v)
                if l.op != "tmpv":
                    s = self.setv(s, l, ZERO)
                out.append((v, s))
            elif op == "[]":
                for a, s2 in self.rv(e["args"][0], s):
                    out.append((mk("L", mk("el", self.deref(v), a)), s2))
            elif last == "swap":
                for b, s2 in self.lv(e["args"][0], s):
                    x, y = v, self.read(s2, b)
                    s2 = self.write(s2, l, y, e)
                    out.append((VOID, self.write(s2, b, x, e)))
            else:
                x, s = self.fresh(s, "sp:" + last, e)
                out.append((x, s))
        return out

    def moved_from(self, arg, s):
        """a moved-from smart pointer is null"""
        for l, s2 in self.lv(arg, s):
            if l.op == "fld" and l.a[1].startswith("rotor") and root_op(l) not in ("var", "tmp"):
                return self.write(s2, l, ZERO, arg)
            if l.op in ("var", "fld", "el", "tmp", "deref"):
                return self.setv(s2, l, ZERO)
        return s

    def m_atomic(self, e, f, last, op, st):
        out = []
        for l, s in self.callobj(e, f, st):
            rs = [([], s)]
            for a in e.get("args") or []:
                rs = [(vs + [v], s2) for vs, s1 in rs for v, s2 in self.anyval(a, s1)]
            for vs, s2 in rs:
                rd = last in ("load", "test") or last.startswith("operator ") and "=" not in last
                s2 = self.event(s2, e, "atomic", last, obj=l, args=vs)
                v, s2 = self.fresh(s2, "atomic:%s(%s)" % (last, show(l)), e)
                out.append((v, s2))
        return out

    # ---- iterators / containers
    def snapshot(self, s, C):
        """(container, version) that C is an unchanged copy of; (C, False) when it is none"""
        v = s.st.get(C)
        if v is not None and v.op in ("rd", "snap") and v.a[0] is not C and (v.op == "snap" or C.op in ("var", "tmp")):
            return v.a[0], v.a[1]
        return C, False

    def iter_of(self, s, C, last):
        ver = self.ver_of(s, C)
        S, sv = self.snapshot(s, C)
        if sv is not False:
            if self.seqn(s, S) is not None:
                C = S
            elif last in ("size", "empty"):
                return mk(last, S, sv)
        n = self.seqn(s, C)
        if n is not None:
            alive = self.alive(s, C, n)
            if last in ("size", "empty"):
                return INT(len(alive)) if last == "size" else INT(not alive)
            if last.lstrip("c") in ("rbegin", "rend"):
                return mk("cri", C, (alive[-1] + 1 if alive else 0) if last.lstrip("c") == "rbegin" else 0)
            return mk("ci", C, (alive[0] if alive else n) if last.lstrip("c") == "begin" else n)
        if last in ("end", "rend", "cend", "crend"):
            return mk("end", C)
        if last == "size":
            return mk("size", C, ver)
        if last == "empty":
            return mk("empty", C, ver)
        return mk("begin", C, ver)

    def seqn(self, s, C):
        """length of a sequence that is fixed: by the rule, or because it was built here, element by element"""
        if not self.seq:
            return None
        n = self.seq.get(show(C))
        if n is None and C.op in ("var", "tmp"):
            v = s.st.get(mk("len", C))
            n = v.a[0] if v is not None and v.op == "int" else None
        return n

    def whole(self, s, a, b):
        """two iterators that enclose all of a container"""
        return (a.op in ("begin", "end") and b.op == "end" or a.op == b.op == "ci" and a.a[1] == 0 and b.a[1] == self.seqn(s, b.a[0])) and self.iter_cont(a) is self.iter_cont(b)

    def unlen(self, s, C):
        k = mk("len", C)
        if k in s.st:
            s = s.copy()
            del s.st[k]
        return s

    def alive(self, s, C, n):
        """indices of a fixed sequence that have not been erased"""
        g = s.st.get(mk("gone", C))
        return [i for i in range(n) if g is None or i not in g.a]

    def kill(self, s, C, i):
        g = s.st.get(mk("gone", C))
        return self.setv(s, mk("gone", C), mk("goneset", *sorted(set(g.a if g is not None else ()) | {i})))

    def step(self, s, it, d, e):
        """the neighbour of an iterator into a fixed sequence, erased elements skipped"""
        i = it.a[1] + d
        n = self.seqn(s, it.a[0])
        if n is not None:
            al = self.alive(s, it.a[0], n)
            off = 0 if it.op == "ci" else 1
            while 0 <= i - off < n and i - off not in al and 0 <= i <= n:
                i += d
            if not 0 <= i <= n:
                self.faults[self.loc_of(e)] = "an iterator leaves %s" % show(it.a[0])
                return None
        return mk(it.op, it.a[0], i)

    def seq_index(self, s, C, key):
        """which element of a fixed sequence an iterator or a key value names"""
        n = self.seqn(s, C)
        if n is None:
            return None
        if key.op == "ci" and key.a[0] is C:
            return key.a[1]
        for i in range(n):
            el = mk("el", C, mk("pos", i))
            if key is self.read(s, mk("fld", el, "pair", "first")) or key is self.read(s, el):
                return i
        return None

    def el_of(self, it):
        if it.op == "ci":
            return mk("el", it.a[0], mk("pos", it.a[1]))
        if it.op == "cri":
            return mk("el", it.a[0], mk("pos", it.a[1] - 1))
        if it.op == "find":
            return mk("el", it.a[0], it.a[1])
        if it.op == "begin":
            return mk("el", it.a[0], mk("first", it.a[1] if it.a[1] is not None else ZERO))
        if it.op == "end":
            return mk("el", it.a[0], mk("past"))
        if it.op == "rbase":
            return mk("el", mk("itc", it), it)
        return mk("deref", it)

    def iter_cont(self, it):
        if it.op in ("find", "begin", "end", "ci", "cri"):
            return it.a[0]
        if it.op == "rbase":
            return self.iter_cont(it.a[0])
        return None

    def m_iter(self, e, f, last, op, st, want_l):
        out = []
        if e.get("obj") is None:
            return None
        for l, s in self.callobj(e, f, st):
            it = l.a[0] if l.op == "tmpv" else self.read(s, l)
            if op in ("*",):
                out.append((mk("L", self.el_of(it)), self.nul(s, e, it) if it.op == "stale" else s))
            elif op == "->":
                out.append((self.addr(self.el_of(it)), self.nul(s, e, it) if it.op == "stale" else s))
            elif op in ("++", "--"):
                post = len(e.get("args") or []) > 0
                if it.op in ("ci", "cri"):
                    nv = self.step(s, it, 1 if (op == "++") == (it.op == "ci") else -1, e)
                    if nv is None:
                        continue
                elif it.op == "rbase" and op == "--":
                    nv = it.a[0]
                else:
                    C = self.iter_cont(it)
                    k, s = self.fresh(s, "adv", e)
                    nv = mk("find", C, k, self.ver_of(s, C)) if C is not None else mk("adv", k)
                if l.op != "tmpv":
                    s = self.setv(s, l, nv)
                if post:
                    out.append((it, s))
                elif want_l and l.op != "tmpv":
                    out.append((mk("L", l), s))
                else:
                    out.append((mk("L", mk("tmpv", nv)) if want_l else nv, s))
            elif last == "base" and it.op == "cri":
                out.append((mk("ci", it.a[0], it.a[1]), s))
            elif last == "base":
                out.append((mk("rbase", it), s))
            elif op == "=":
                for v, s2 in self.anyval(e["args"][0], s):
                    out.append((mk("L", l), self.setv(s2, l, v)))
            elif op in ("+", "-", "+=", "-="):
                for v, s2 in self.anyval(e["args"][0], s):
                    C = self.iter_cont(it)
                    k, s2 = self.fresh(s2, "adv", e)
                    if it.op in ("ci", "cri") and v.op == "int":
                        nv = mk(it.op, it.a[0], it.a[1] + v.a[0] * (1 if (op[0] == "+") == (it.op == "ci") else -1))
                    else:
                        nv = mk("find", C, k, self.ver_of(s2, C)) if C is not None else mk("adv", k)
                    if op in ("+=", "-="):
                        s2 = self.setv(s2, l, nv)
                        out.append((mk("L", l), s2))
                    else:
                        out.append((nv, s2))
            elif op == "[]":
                for v, s2 in self.anyval(e["args"][0], s):
                    C = self.iter_cont(it)
                    out.append((mk("L", mk("el", C, v)), s2))
            else:
                return None
        return out

    def is_map(self, cls):
        return "map<" in cls.replace(" ", "")[:60] or base_name(cls).endswith("map")

    def m_cont(self, e, f, last, op, cls, st, want_l):
        name = last
        if op:
            name = "[]" if op == "[]" else op
        out = []
        ismap = base_name(cls).endswith("map")
        isset = base_name(cls).endswith("set")
        for C, s in self.callobj(e, f, st):
            if C.op == "tmpv":
                v = C.a[0]
                C = mk("tmp", self.fr.fid, id(e), "cont")
                s = self.setv(s, C, v)
            ver = self.ver_of(s, C)
            if name in ("begin", "end", "rbegin", "rend", "cbegin", "cend", "crbegin", "crend", "size", "empty"):
                if name == "empty" and base_name(cls) == "boost::lockfree::queue":
                    s = self.event(s, e, "cont", "empty", obj=C, args=[])
                    k, s = self.fresh(s, "lfempty", e)
                    out.append((k, s))
                    continue
                out.append((self.iter_of(s, C, name), s))
                continue
            rs = [([], s)]
            for i, a in enumerate(e.get("args") or []):
                nx = []
                for vs, s1 in rs:
                    if base_name(cls) == "boost::lockfree::queue" and name == "pop":
                        for l, s2 in self.lv(a, s1):
                            nx.append((vs + [mk("L", l)], s2))
                    else:
                        for v, s2 in self.anyval(a, s1):
                            nx.append((vs + [v], s2))
                rs = nx
            for vs, s2 in rs:
                out += self.cont_op(e, f, name, cls, ismap, isset, C, vs, s2, want_l)
        return out

    def bump(self, s, C, node, keep):
        """content of C changed; keep: facts about found() that survive (1: present stays, 0: absent stays)"""
        old = self.ver_of(s, C)
        tok, s = self.token(s, node, ":c")
        old = self.ver_of(s, C)
        n = s.copy()
        if self.snapshot(n, C)[1] is not False:
            del n.st[C]
        if C.op == "fld":
            n.ver[(C.a[1], C.a[2])] = tok
        else:
            n.ver[C] = tok
        new = self.ver_of(n, C)
        for k, d in list(s.fa.items()):
            if k.op == "found" and k.a[0] is C and k.a[2] == old and d[0] == d[1] and d[0] in keep:
                n.fa[mk("found", C, k.a[1], new)] = d
        if 1 in keep:
            d = s.fa.get(mk("empty", C, old))
            if d and d[1] == 0:
                n.fa[mk("empty", C, new)] = d
        # values of iterators into C stay usable
        for k, v in list(n.st.items()):
            if v.op == "find" and v.a[0] is C:
                n.st[k] = mk("find", C, v.a[1], new)
            elif v.op == "begin" and v.a[0] is C:
                n.st[k] = mk("begin", C, new)
            elif v.op == "rd" and v.a[1] == old and self.under(v.a[0], C):
                pass
        return n, new

    def key_of(self, v):
        return v

    def cont_op(self, e, f, name, cls, ismap, isset, C, vs, s, want_l):
        lf = base_name(cls) == "boost::lockfree::queue"
        ver = self.ver_of(s, C)
        if name == "find" or name in ("lower_bound",):
            return [(mk("find", C, vs[0], ver), s)]
        if name in ("count", "contains"):
            return [(mk("found", C, vs[0], ver), s)]
        if name == "at":
            s = self.event(s, e, "cont", "at", obj=C, args=vs)
            if ismap:
                fd = mk("found", C, vs[0], ver)
                if self.catching("std::out_of_range"):
                    nf = self.assume(s, fd, False)
                    if nf is not None:
                        self.throw(nf, e, "std::out_of_range")
                s2 = self.assume(s, fd, True)
                if s2 is None:
                    self.throw(s, e, "std::out_of_range")
                    return []
                return [(mk("L", mk("fld", mk("el", C, vs[0]), "pair", "second")), s2)]
            return [(mk("L", mk("el", C, vs[0])), s)]
        if name in ("[]", "at") and not ismap and not isset:
            C = self.snapshot(s, C)[0]
        if name in ("[]", "at") and not ismap and self.seq and vs and vs[0].op == "int" and self.seqn(s, C) is not None:
            return [(mk("L", mk("el", C, mk("pos", vs[0].a[0]))), s)]
        if name == "[]":
            if ismap:
                fd = mk("found", C, vs[0], ver)
                d = self.dom(s, fd)
                s = self.event(s, e, "cont", "[]", obj=C, args=vs)
                if d[0] != 1:
                    s, nv = self.bump(s, C, e, (1,))
                    s = self.constrain(s, mk("found", C, vs[0], nv), 1, 1) or s
                    s = self.constrain(s, mk("empty", C, nv), 0, 0) or s
                return [(mk("L", mk("fld", mk("el", C, vs[0]), "pair", "second")), s)]
            return [(mk("L", mk("el", C, vs[0])), s)]
        if name in ("front", "back", "pop_front", "pop_back", "erase", "clear") and self.seqn(s, C) is not None:
            r = self.seq_op(e, name, ismap, C, vs, s)
            if r is not None:
                return r
        if name in ("front", "back"):
            k = mk("first", ver if ver is not None else ZERO) if name == "front" else mk("lastk", ver if ver is not None else ZERO)
            s = self.event(s, e, "cont", name, obj=C, args=vs)
            return [(mk("L", mk("el", C, k)), s)]
        if name in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
            if not (ismap or isset):
                # list/vector/deque insert(pos, value)
                if len(vs) == 3 and self.seqn(s, C) == 0 and self.whole(s, *vs[1:]):
                    R = self.iter_cont(vs[1])
                    return [(mk("begin", C, ver), self.setv(self.unlen(s, C), C, mk("snap", R, self.ver_of(s, R))))]
                s = self.unlen(s, C)
                s = self.event(s, e, "cont", "insert", obj=C, args=vs)
                s, nv = self.bump(s, C, e, (1,))
                s = self.constrain(s, mk("empty", C, nv), 0, 0) or s
                k, s = self.fresh(s, "ins", e)
                if len(vs) > 1:
                    s = self.setv(s, mk("el", C, k), vs[1])
                return [(mk("find", C, k, self.ver_of(s, C)), s)]
            key, val = (vs[0] if vs else VOID), (vs[1] if len(vs) > 1 else None)
            if ismap and name == "insert" and len(vs) == 1 and vs[0].op == "obj" and len(vs[0].a[1]) >= 2:
                key, val = vs[0].a[1][0][1], vs[0].a[1][1][1]
            fd = mk("found", C, key, ver)
            d = self.dom(s, fd)
            out = []
            if d[0] != d[1] and name != "insert_or_assign" and self.outcome_used(e):
                # the outcome is looked at: nothing happens when the key is there already
                there, s = self.constrain(s, fd, 1, 1), self.constrain(s, fd, 0, 0)
                if there is not None:
                    out.append((mk("obj", "std::pair", ((("pair", "first"), mk("find", C, key, ver)), (("pair", "second"), ZERO))), there))
                if s is None:
                    return out
                d = (0, 0, frozenset())
            s = self.event(s, e, "cont", "emplace" if name in ("insert", "emplace_hint") else name, obj=C, args=[key] + ([val] if val is not None else []))
            s, nv = self.bump(s, C, e, (1,))
            fd2 = mk("found", C, key, nv)
            s2 = s.copy()
            s2.fa[fd2] = (1, 1, frozenset())
            s2.fa[mk("empty", C, nv)] = (0, 0, frozenset())
            s = s2
            el = mk("el", C, key)
            if ismap and (d[0] != 1 or name == "insert_or_assign") and val is not None:
                s = self.setv(s, mk("fld", el, "pair", "second"), val)
            k, s = self.fresh(s, "inserted", e)
            it = mk("find", C, key, self.ver_of(s, C))
            if d[0] == d[1]:
                k = INT(d[0] == 0)
            return out + [(mk("obj", "std::pair", ((("pair", "first"), it), (("pair", "second"), k))), s)]
        if name in ("push_back", "emplace_back", "push_front", "emplace_front", "push", "enqueue", "unsynchronized_push", "bounded_push"):
            nm = {"emplace_back": "push_back", "emplace_front": "push_front"}.get(name, name)
            s = self.event(s, e, "cont", nm, obj=C, args=vs, extra="lf" if lf else None)
            if self.seq and nm == "push_back" and mk("len", C) in s.st and len(vs) == 1 and self.seqn(s, C) is not None:
                n = self.seqn(s, C)
                el = mk("el", C, mk("pos", n))
                s = self.setv(self.setv(s, el, vs[0]), mk("len", C), INT(n + 1))
                return [(VOID if e.get("t") in (None, "void") else mk("L", el), s)]
            s = self.unlen(s, C)
            s, nv = self.bump(s, C, e, (1,))
            s2 = s.copy()
            s2.fa[mk("empty", C, nv)] = (0, 0, frozenset())
            s = s2
            k = mk("lastk", nv if nv is not None else ZERO) if "back" in nm else mk("first", nv if nv is not None else ZERO)
            el = mk("el", C, k)
            if len(vs) >= 1 and not lf:
                s = self.setv(s, el, vs[0])
            if e.get("t") in (None, "void"):
                return [(VOID, s)]
            if lf:
                k, s = self.fresh(s, "push", e)
                return [(k, s)]
            return [(mk("L", el), s)]
        if name == "pop" and lf:
            s = self.event(s, e, "cont", "pop", obj=C, args=[])
            out = []
            v, s1 = self.fresh(s, "popped", e)
            l = vs[0].a[0]
            s1 = self.event(s1, e, "popped", show(C), obj=C, val=v)
            s1 = self.setv(s1, l, v)
            c = s1.copy()
            c.fa[v] = (1, INF, frozenset())
            out.append((ONE, c))
            out.append((ZERO, self.event(s, e, "popempty", show(C), obj=C)))
            return out
        if name in ("pop_front", "pop_back", "pop"):
            s = self.event(s, e, "cont", name, obj=C, args=vs)
            s = self.gone(s, e, C, [mk("el", C, mk("lastk" if name == "pop_back" else "first", ver if ver is not None else ZERO))], cls)
            s, nv = self.bump(s, C, e, (0,))
            return [(VOID, s)]
        if name == "erase":
            a = vs[0]
            key = a.a[1] if a.op == "find" and a.a[0] is C else (self.el_of(a).a[1] if a.op in ("begin",) else a)
            byit = a.op in ("find", "begin", "rbase", "adv", "sym") and not (isset and a.op == "sym" and False)
            out = []
            if not byit and len(vs) == 1 and (ismap or isset) and id(e) not in self.unused:
                # the outcome is looked at: nothing happens when the key is not there
                fd = mk("found", C, key, ver)
                none, s = self.constrain(s, fd, 0, 0), self.constrain(s, fd, 1, 1)
                if none is not None:
                    out.append((ZERO, none))
                if s is None:
                    return out
            s = self.event(s, e, "cont", "erase", obj=C, args=[key] + list(vs[1:]))
            s = self.gone(s, e, C, [mk("el", C, key)], cls)
            s, nv = self.bump(s, C, e, (0,))
            s2 = s.copy()
            el = mk("el", C, key)
            for k in [k for k in s2.st if self.under(k, el)]:
                del s2.st[k]
            if len(vs) == 1:
                s2.fa[mk("found", C, key, nv)] = (0, 0, frozenset())
            s = s2
            if e.get("t") in (None, "void"):
                return [(VOID, s)]
            if not byit and len(vs) == 1 and (ismap or isset):
                return out + [(ONE, s)]
            k, s = self.fresh(s, "er", e)
            if "iterator" in (e.get("t") or "") or "_Node" in (e.get("t") or "") or "_Rb" in (e.get("t") or ""):
                return [(mk("find", C, k, self.ver_of(s, C)), s)]
            return [(k, s)]
        if name == "clear":
            s = self.event(s, e, "cont", "clear", obj=C, args=[])
            s = self.gone(s, e, C, [C])
            s, nv = self.bump(s, C, e, (0,))
            s2 = s.copy()
            s2.fa[mk("empty", C, nv)] = (1, 1, frozenset())
            for k in [k for k in s2.st if k is not C and self.under(k, C)]:
                del s2.st[k]
            return [(VOID, s2)]
        if name in ("=", "swap"):
            s = self.unlen(self.event(s, e, "cont", "assign", obj=C, args=vs), C)
            tok, s = self.token(s, e)
            return [(mk("L", C), self.forget(s, C, tok))]
        if name in ("resize", "reserve", "reserve_unsafe", "remove_if", "remove", "sort", "merge", "splice", "assign", "shrink_to_fit", "extract", "unique", "reverse"):
            if name == "assign" and len(vs) == 2 and mk("len", C) in s.st and self.whole(s, *vs):
                R = self.iter_cont(vs[0])
                return [(VOID, self.setv(self.unlen(s, C), C, mk("snap", R, self.ver_of(s, R))))]
            s = self.event(s, e, "cont", name, obj=C, args=vs)
            if not name.startswith("reserve") and name != "shrink_to_fit":
                s = self.unlen(s, C)
            if name not in ("reserve", "reserve_unsafe", "shrink_to_fit", "sort", "reverse"):
                s, nv = self.bump(s, C, e, ())
            if e.get("t") in (None, "void"):
                return [(VOID, s)]
            v, s = self.fresh(s, name, e)
            return [(v, s)]
        return None

    def seq_bump(self, s, C, e):
        old = {k.a[1]: d for k, d in s.fa.items() if k.op == "found" and k.a[0] is C and k.a[1].op == "pos"}
        n, nv = self.bump(s, C, e, (0,))
        n = n.copy()
        for key, d in old.items():
            n.fa[mk("found", C, key, nv)] = d
        return n

    def seq_op(self, e, name, ismap, C, vs, s):
        n = self.seqn(s, C)
        al = self.alive(s, C, n)
        if name == "clear":
            for i in al:    # the same as to erase them one by one
                s = self.event(s, e, "cont", "erase", obj=C, args=[self.read(s, mk("fld", mk("el", C, mk("pos", i)), "pair", "first")) if ismap else mk("pos", i)])
                s = self.kill(s, C, i)
            return [(VOID, self.bump(s, C, e, (0,))[0])]
        if name == "erase":
            if len(vs) != 1:
                return None
            i = self.seq_index(s, C, vs[0])
            if i is None or i not in al:
                return None
            key = self.read(s, mk("fld", mk("el", C, mk("pos", i)), "pair", "first")) if ismap else mk("pos", i)
            s = self.event(s, e, "cont", "erase", obj=C, args=[key])
            s = self.seq_bump(self.kill(s, C, i), C, e)
            if e.get("t") in (None, "void"):
                return [(VOID, s)]
            if vs[0].op == "ci":
                return [(self.step(s, vs[0], 1, e), s)]
            return [(ONE, s)]
        if not al:
            return None
        i = al[0] if "front" in name else al[-1]
        if name in ("front", "back"):
            s = self.event(s, e, "cont", name, obj=C, args=vs)
            return [(mk("L", mk("el", C, mk("pos", i))), s)]
        s = self.event(s, e, "cont", name, obj=C, args=vs)
        return [(VOID, self.seq_bump(self.kill(s, C, i), C, e))]

    def m_str(self, e, f, last, op, st):
        out = []
        if op == "=" or last in ("assign",):
            for l, s in self.callobj(e, f, st):
                for v, s2 in self.anyval(e["args"][0], s):
                    out.append((mk("L", l), self.write(s2, l, v, e)))
            return out
        for l, s in self.callobj(e, f, st):
            v = l.a[0] if l.op == "tmpv" else l.a[0] if l.op == "strloc" else self.read(s, l)
            rs = [([], s)]
            for a in e.get("args") or []:
                rs = [(vs + [x], s2) for vs, s1 in rs for x, s2 in self.anyval(a, s1)]
            for vs, s2 in rs:
                if last == "empty":
                    out.append((mk("empty", mk("strof", v), None), s2))
                elif op in ("+=",) or not f.const and last in ("append", "push_back", "clear"):
                    s2 = self.event(s2, e, "str", last, obj=l, args=vs)
                    out.append((mk("L", l), self.write(s2, l, mk("strcat", v, *vs), e)))
                else:
                    out.append((mk("fnc", last, v, *vs), s2))
        return out

    def m_algo(self, e, f, name, st):
        args = e["args"]
        rs = [([], st)]
        for a in args:
            rs = [(vs + [v], s2) for vs, s in rs for v, s2 in self.anyval(a, s)]
        out = []
        for vs, s in rs:
            if len(vs) > 2 and vs[0].op == vs[1].op and vs[0].op in ("ci", "cri") and (vs[2].op == "lam" and name in (
                    "find_if", "any_of", "none_of", "all_of", "find_if_not", "for_each", "count_if") or name in ("find", "count") or name in ("lower_bound", "upper_bound") and len(vs) > 3 and vs[3].op == "lam"):
                out += self.m_algo_seq(e, name, vs, s)
                continue
            C = self.iter_cont(vs[0])
            if C is None:
                return None
            ver = self.ver_of(s, C)
            pred = vs[2] if len(vs) > 2 else None
            same = None
            if name in ("find", "count"):
                name, same, pred = name + "_if", self.V(s, vs[2]), None
            if name == "accumulate":
                v = mk("sum", C, ver, *vs[2:])
                out.append((v, s))
                continue
            if name == "copy":
                s = self.event(s, e, "call", "std::copy", args=vs)
                out.append((VOID, s))
                continue
            neg = name == "none_of"
            if name in ("find_if", "any_of", "none_of", "all_of", "find_if_not", "count_if"):
                want = name not in ("all_of", "find_if_not")
                key, s1 = self.fresh(s, "fk", e)
                s1 = self.constrain(s1, mk("found", C, key, ver), 1, 1)
                el = mk("el", C, key)
                hits = []
                rr = self.call_lambda(pred, [mk("L", el)], e, s1) if pred is not None else None
                if same is not None:
                    rr = [(self.binop("==", self.read(s1, el), same), s1)]
                if rr is None:
                    hits = [s1]
                else:
                    for v, s2 in rr:
                        h = self.assume(s2, v, want)
                        if h is not None:
                            hits.append(h)
                # nobody matches: universally quantified, kept as an opaque fact
                allf = mk("forall", name, C, ver, key if False else mk("lamid", pred.a[0] if pred is not None and pred.op == "lam" else 0))
                miss = s
                emp = self.constrain(s, mk("empty", C, ver), 0, 0)
                if emp is None:
                    hits = []
                hits = [self.constrain(h, mk("empty", C, ver), 0, 0) for h in hits]
                hits = [h for h in hits if h is not None]
                hits = [self.event(h, e, "algo", name + ":hit", obj=C) for h in hits]
                miss = self.event(miss, e, "algo", name + ":miss", obj=C)
                if name in ("find_if", "find_if_not"):
                    out += [(mk("find", C, key, ver), h) for h in dedupe(hits)]
                    m = miss
                    k2 = mk("find", C, mk("none"), ver)
                    out.append((mk("end", C), m))
                elif name == "count_if":
                    for h in dedupe(hits):
                        k, h = self.fresh(h, "cnt", e)
                        h = h.copy()
                        h.fa[k] = (1, INF, frozenset())
                        out.append((k, h))
                    out.append((ZERO, miss))
                else:
                    yes = ONE if name == "any_of" else ZERO
                    no = ZERO if name == "any_of" else ONE
                    out += [(yes, h) for h in dedupe(hits)]
                    out.append((no, miss))
                continue
            if name == "for_each":
                mark = mk("var", self.fr.fid, id(e), "__range")
                whole = vs[0].op == "begin" and vs[1].op == "end"
                s = self.setv(s, mark, mk("size", C, ver)) if whole else s

                def head(c):
                    if whole:
                        rem = c.st.get(mark)
                        no, go = self.constrain(c, rem, 0, 0), self.constrain(c, rem, 1)
                        go = self.setv(go, mark, self.binop("-", rem, ONE)) if go is not None else None
                    else:
                        no = go = c
                    if go is not None:
                        key, go = self.fresh(go, "k", e)
                        go = self.constrain(go, mk("found", C, key, self.ver_of(go, C)), 1, 1)
                        cell[0] = key
                    return [go] if go is not None else [], [no] if no is not None else []
                cell = [None]

                def each(ss):
                    o = Out()
                    for c in ss:
                        rr = self.call_lambda(pred, [mk("L", mk("el", C, cell[0]))], e, c) if cell[0] is not None else [(VOID, c)]
                        o.next += [x for _, x in (rr if rr is not None else [(VOID, self.havoc_all(c, e))])]
                    return o
                o = Out()
                self.loop(e, [s], head, each, lambda ss: ss, o)
                self.pending_thr += o.thr
                out += [(VOID, self.drop_vars(x, [{"id": id(e)}])) for x in dedupe(o.next)]
                continue
            return None
        return out

    def m_algo_seq(self, e, name, vs, s):
        """algorithm over a sequence of fixed length: element by element"""
        a, b, pred = vs[:3]
        # on a sorted sequence (as it has to be): the first element not less than / greater than the value
        bound = name if name in ("lower_bound", "upper_bound") else None
        if bound:
            pred = vs[3]
        name = {"find": "find_if", "count": "count_if", "upper_bound": "find_if", "lower_bound": "find_if_not"}.get(name, name)
        step = 1 if a.op == "ci" else -1
        done, cur, i = [], [(s, 0)], a
        while i is not b:
            nxt = []
            for c, n in cur:
                x = mk("L", self.el_of(i))
                rr = self.call_lambda(pred, [vs[2], x] if bound == "upper_bound" else [x, vs[2]] if bound else [x], e, c) if pred.op == "lam" else [(self.binop("==", self.read(c, self.el_of(i)), self.V(c, pred)), c)]
                for v, c2 in rr:
                    if name == "for_each":
                        nxt.append((c2, n))
                        continue
                    for want in (True, False):
                        h = self.assume(c2, v, want)
                        if h is None:
                            continue
                        stop = want != (name in ("all_of", "find_if_not"))
                        if name == "count_if":
                            nxt.append((h, n + want))
                        elif stop:
                            done.append((i if name.startswith("find") else INT(name == "any_of"), h))
                        else:
                            nxt.append((h, n))
            cur = nxt
            i = mk(i.op, i.a[0], i.a[1] + step)
        for c, n in cur:
            done.append((VOID if name == "for_each" else b if name.startswith("find") else INT(n) if name == "count_if" else INT(name != "any_of"), c))
        return done

    def m_variant(self, e, f, bn, st):
        """std::get_if, std::holds_alternative and std::get by type"""
        args0 = e["args"][0]
        ta = getattr(f, "targs", None) or []
        if not ta or re.match(r"\d+", ta[0]):
            return None
        alt = strip_t(ta[0])
        out = []
        for v, s in self.anyval(args0, st):
            if bn == "std::get_if":
                v = self.V(s, mk("L", v.a[0])) if v.op == "addr" else None
                if v is None:
                    return None
            l = mk("tmpv", v) if v.op == "obj" else mk("fld", mk("tmpv", v), "variant", short(alt))
            hit = {"std::get_if": mk("addr", l), "std::get": mk("L", l)}.get(bn, ONE)
            if v.op == "obj":
                if strip_t(v.a[0]) == alt:
                    out.append((hit, s))
                elif bn != "std::get":
                    out.append((ZERO, s))
                continue
            t = mk("holds", v, alt)
            # at most one alternative is held
            other = any(k.op == "holds" and k.a[0] is v and k is not t and (d[0] > 0 or 0 in d[2]) for k, d in s.fa.items())
            a = None if other else self.assume(s, t, True)
            b = self.assume(s, t, False)
            if a is not None:
                out.append((hit, self.event(a, e, "visit", short(alt), val=v)))
            if b is not None and bn != "std::get":
                out.append((ZERO, b))
        return out

    def m_visit(self, e, f, st):
        out = []
        for argv, s in self.args(e["args"], f, st):
            lam, var = self.V(s, argv[0]), self.V(s, argv[1])
            if lam.op != "lam" or lam not in self.lams:
                out.append((VOID, self.havoc_all(s, e)))
                continue
            tu, le, caps, this, fn = self.lams[lam]
            ops = [tu.funcs[o] for o in le.get("ops") or [] if o in tu.funcs and tu.funcs[o].body is not None]
            env = {}
            for (d, n, c) in caps:
                env[d] = c.a[0] if c.op == "loc" else mk("val", c.a[0])
            mine = None
            if var.op == "obj":
                mine = [o for o in ops if o.params and strip_t(o.params[0]["t"]) == var.a[0]]
            elif var.op not in ("sym", "rd"):
                mine = None
            todo = mine or ops
            for o in todo:
                alt = strip_t(o.params[0]["t"])
                s2 = s
                if not mine:
                    t = mk("holds", var, alt)
                    s2 = self.assume(s, t, True)
                    if s2 is None:
                        continue
                s2 = self.event(s2, e, "visit", short(alt), val=var)
                l = mk("L", mk("tmpv", var)) if var.op == "obj" else mk("L", mk("fld", mk("tmpv", var), "variant", short(alt)))
                for v, s3 in self.inline(o, this, [l], e, s2, False, env=env, tu=tu):
                    out.append((v, s3))
        return out

    def m_function(self, e, f, last, op, st):
        out = []
        for l, s in self.callobj(e, f, st):
            v = l.a[0] if l.op == "tmpv" else self.read(s, l)
            if op == "()":
                for argv, s2 in self.args(e.get("args") or [], f, s):
                    r = self.call_lambda(v, argv, e, s2) if v.op == "lam" else None
                    if r is not None:
                        out += r
                        continue
                    s3 = self.event(s2, e, "callback", show(l), obj=l, args=argv, val=v)
                    if self.catching("any"):
                        self.throw(s3, e, "any")
                    s3 = self.havoc_all(s3, e)
                    x, s3 = self.fresh(s3, "cb", e)
                    out.append((x, s3))
            elif last == "operator bool":
                out.append((self.neg(self.cmp("==", v, ZERO)), s))
            elif op == "=":
                for a, s2 in self.anyval(e["args"][0], s):
                    out.append((mk("L", l), self.write(s2, l, a, e)))
            else:
                x, s = self.fresh(s, "fn:" + last, e)
                out.append((x, s))
        return out

    def m_optional(self, e, f, last, op, st, want_l):
        out = []
        for l, s in self.callobj(e, f, st):
            v = l.a[0] if l.op == "tmpv" else self.read(s, l)
            if last in ("operator bool", "has_value"):
                out.append((mk("has", v) if v.op == "rd" else INT(v is not ZERO), s))
            elif op in ("*",) or last == "value":
                out.append((mk("L", l if l.op != "tmpv" else l), s))
            elif op == "->":
                out.append((self.addr(l), s))
            elif op == "=":
                for a, s2 in self.anyval(e["args"][0], s):
                    out.append((mk("L", l), self.write(s2, l, a, e)))
            elif last == "reset":
                out.append((VOID, self.write(s, l, ZERO, e)))
            else:
                x, s = self.fresh(s, "opt:" + last, e)
                out.append((x, s))
        return out

    def m_make_unique(self, e, f, st):
        out = []
        t = strip_t(e.get("t"))
        inner = t[t.index("<") + 1:-1] if "<" in t else t
        for argv, s in self.args(e.get("args") or [], f, st):
            v, s = self.fresh(s, "new<%s>" % short(inner), e)
            s = s.copy()
            s.fa[v] = (1, INF, frozenset())
            l = self.deref(v)
            for k in [k for k in s.st if self.under(k, l)]:
                del s.st[k]
            vals = [self.V(s, a) for a in argv]
            s = self.event(s, e, "make", base_name(inner), obj=l, args=vals)
            for i, x in enumerate(vals):
                s.st[mk("fld", l, "ctorarg", str(i))] = x
            # construct through the repository constructor when it is known
            c = self.find_ctor(inner, len(argv))
            if c is not None and not any(x.fn is c for x in self.frames):
                for _, s2 in self.inline(c, l, argv, e, s, False):
                    out.append((v, s2))
            else:
                out.append((v, s))
        return out

    def find_ctor(self, cls, n):
        for tu in [self.fr.tu] + self.p.tus:
            if not hasattr(tu, "_ctors"):
                tu._ctors = {}
                for g in tu.funcs.values():
                    if g.ctor and not g.copymove and (g.body is not None):
                        tu._ctors.setdefault(g.cls, []).append(g)
            for g in tu._ctors.get(cls, []):
                if len(g.params) == n:
                    return g
        return None

    # ---- rotor vocabulary
    def m_rotor(self, e, f, bn, last, st, want_l):
        if bn in self.noinline:
            return None
        args = e.get("args") or []
        if bn in ("rotor::make_message", "rotor::make_routed_message"):
            out = []
            for argv, s in self.args(args, f, st):
                vs = [self.V(s, a) for a in argv]
                k = 1 if bn == "rotor::make_message" else 2
                s = self.event(s, e, "make_message", short(f.targs[0]), args=vs, targs=f.targs)
                if k == 1:
                    out.append((mk("msg", f.targs[0], vs[0], tuple(vs[1:])), s))
                else:
                    out.append((mk("rmsg", f.targs[0], vs[0], vs[1], tuple(vs[2:])), s))
            return out
        if bn == "rotor::actor_base_t::make_response":
            out = []
            for obj, s in self.callobj(e, f, st):
                for argv, s2 in self.args(args, f, s):
                    req = argv[0].a[0] if argv[0].op == "L" else argv[0]
                    vs = [self.V(s2, a) for a in argv[1:]]
                    # the error overload takes exactly an extended error
                    err = len(f.params) == 2 and len(f.targs) <= 1
                    out.append((mk("resp", "err" if err else "ok", req, tuple(vs)), s2))
            return out
        if bn == "rotor::request_builder_t::send":
            out = []
            for b, s in self.lv(e["obj"], st):
                v = b.a[0] if b.op == "tmpv" else self.read(s, b)
                for argv, s2 in self.args(args, f, s):
                    s2 = self.event(s2, e, "request", show(v), val=v, args=[self.V(s2, a) for a in argv])
                    r, s2 = self.fresh(s2, "reqid", e)
                    s2 = s2.copy()
                    s2.fa[r] = (1, INF, frozenset())
                    mods = self.p.mods(f, False)
                    if mods:
                        tok, s2 = self.token(s2, e)
                        s2 = self.havoc_fields(s2, mods, tok)
                    out.append((r, s2))
            return out
        if bn == "rotor::supervisor_t::put":
            out = []
            for obj, s in self.callobj(e, f, st):
                for v, s2 in self.anyval(args[0], s):
                    s2 = self.event(s2, e, "put", show(v), obj=obj, val=v)
                    out.append((VOID, s2))
            return out
        return None


ASSIGN = {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
ALGOS = {"std::find_if", "std::any_of", "std::none_of", "std::all_of", "std::find", "std::for_each", "std::count_if",
         "std::accumulate", "std::find_if_not", "std::count", "std::lower_bound", "std::upper_bound"}
SCALAR = re.compile(r"^(const )?(unsigned |signed )?(bool|char|short|int|long|long long|float|double|size_t|void|std::nullptr_t|unsigned|wchar_t)( int| long)?$")


def is_ptrlike(t):
    t = (t or "").strip()
    while t and t[-1] in "& ":
        t = t[:-1]
    return t.endswith("*") or bool(SP.match(t)) or bool(ITER.search(base_name(t))) or t.startswith("std::function") or t.startswith("std::optional")


def is_class(t):
    t = strip_t(t)
    return bool(t) and not SCALAR.match(t) and not t.endswith("*")


def is_const_ref(t):
    return bool(re.match(r"^const .*&$", t or ""))


def is_lvalue_expr(e):
    k = e["k"]
    if k in ("ref", "mem", "idx", "this") and k != "this":
        return not (k == "ref" and e.get("dk") == "fn" and False)
    if k == "un":
        return e["op"] in ("*", "++", "--")
    if k == "bin":
        return e["op"] in ASSIGN or (e["op"] == "," and is_lvalue_expr(e["b"]))
    if k == "call":
        return e.get("vk") == "L"
    if k == "tmp":
        return True
    if k == "cast":
        return e.get("ck") in ("LValueBitCast", "NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase") and is_lvalue_expr(e["e"])
    if k == "cond":
        return is_lvalue_expr(e["a"]) and is_lvalue_expr(e["b"])
    if k == "str":
        return True
    return False


def is_moved(tu, e):
    while e["k"] in ("tmp", "ctor", "cast"):
        if e["k"] == "ctor":
            if len(e.get("args") or []) != 1 or not e.get("cm"):
                return False
            e = e["args"][0]
        else:
            e = e["e"]
    if e["k"] == "call" and e.get("f") is not None:
        f = tu.funcs.get(e["f"])
        return f is not None and base_name(f.qname) == "std::move"
    return False


def norm_dom(i):
    if isinstance(i, bool):
        return (int(i), int(i), frozenset())
    if isinstance(i, int):
        return (i, i, frozenset())
    if i == "null":
        return (0, 0, frozenset())
    if i == "nonnull":
        return (1, INF, frozenset())
    if isinstance(i, tuple) and len(i) == 2:
        return (i[0], i[1], frozenset())
    if isinstance(i, frozenset) or isinstance(i, set):
        lo, hi = min(i), max(i)
        return (lo, hi, frozenset(v for v in range(lo, hi + 1) if v not in i))
    return i


def tag_text(t):
    if isinstance(t, (list, tuple)):
        return ",".join(tag_text(x) for x in t)
    return show(t) if isinstance(t, T) else str(t)
