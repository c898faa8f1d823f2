"""What the rules are written with: canonical event texts, decision tables, guards, who-may scans, obligations."""
import re, time, os, sys
import program as P
import engine as E
from program import AnalysisError
from engine import show, mk, T, short, INT, ZERO, ONE, INF


REGISTRY = {}
ASSUMPTIONS = [
    "clang's AST of each translation unit (C++17, the build's include paths, stubs for generated export headers) is the program",
    "standard library and boost containers, smart pointers and queues behave as modelled in sa/engine.py",
    "an assert() that fails ends the path (configuration 'default'); user callbacks may do anything the public API allows",
    "no data races inside one locality: message handlers of one locality run one after another",
]


def prop(*ids):
    def deco(f):
        for i in ids:
            REGISTRY.setdefault(i, []).append(f)
        return f
    return deco


def pretty(eng, st, v, d=0):
    """show, with error objects and temporaries spelled out"""
    if isinstance(v, T) and v.op == "L":
        v = eng.V(st, v)
    if isinstance(v, T) and v.op in ("rd", "copyof"):
        l = v.a[0]
        if l.op in ("tmp", "var") and l.a[0] is not None:
            fs = {}
            for k, x in st.st.items():
                if k.op == "fld" and k.a[0] is l:
                    fs[k.a[2]] = pretty(eng, st, x, d + 1)
            if fs:
                return "{%s}" % ",".join("%s=%s" % (n, fs[n]) for n in sorted(fs))
    if not isinstance(v, T) or d > 4:
        return show(v)
    if v.op == "sym" and v.a[0].startswith("new<extended_error_t>"):
        l = eng.deref(v)
        g = lambda n: st.st.get(mk("fld", l, "rotor::extended_error_t", n))
        parts = [code(eng, st, g("ec"))]
        for n in ("next", "request"):
            x = g(n)
            if x is not None and x is not ZERO:
                parts.append("%s %s" % (n, pretty(eng, st, x, d + 1)))
        return "error(%s)" % ", ".join(parts)
    if v.op in ("msg", "rmsg", "resp", "reqb", "obj", "copyof"):
        if v.op == "obj":
            if short(v.a[0]) == "error_code":
                return code(eng, st, v)
            return "%s{%s}" % (short(v.a[0]), ",".join(pretty(eng, st, x, d + 1) for _, x in v.a[1]))
    return show(v)


def code(eng, st, v):
    if v is None:
        return "?"
    if v.op == "obj" and len(v.a[1]) == 2:
        (_, n), (_, cat) = v.a[1]
        m = re.search(r"rotor::(\w+)_category", show(cat))
        if m and n.op == "int":
            en = {"error": "rotor::error_code_t", "shutdown": "rotor::shutdown_code_t"}.get(m.group(1))
            for k, x in (eng.p.enums.get(en) or {"values": []})["values"]:
                if x == n.a[0]:
                    return k
    return show(v)


AT = re.compile(r"c \S+\.at \(")


def text(ev, eng=None):
    """canonical, version-free text of an event"""
    def show(x, _s=globals()["show"]):
        return pretty(eng, ev.st, x) if eng is not None else _s(x)
    k, v = ev.kind, ev.val
    if k == "put":
        if v.op == "msg":
            t = "send %s -> %s (%s)" % (short(v.a[0]), show(v.a[1]), ", ".join(show(x) for x in v.a[2]))
        elif v.op == "rmsg":
            t = "route %s -> %s via %s (%s)" % (short(v.a[0]), show(v.a[1]), show(v.a[2]), ", ".join(show(x) for x in v.a[3]))
        elif v.op == "resp":
            t = "reply %s %s (%s)" % (v.a[0], show(v.a[1]), ", ".join(show(x) for x in v.a[2]))
        else:
            t = "put " + show(v)
        if ev.obj is not None:
            t += " by " + show(ev.obj).rstrip("->")
    elif k == "request":
        if v.op == "reqb":
            xs = v.a[1]
            t = "request %s -> %s from %s (%s)" % (short(v.a[0]), show(xs[2]), show(xs[3]) if len(xs) > 3 else "?", ", ".join(show(x) for x in xs[4:]))
            t += " timeout " + ", ".join(show(a) for a in ev.args or [])
        else:
            t = "request " + show(v)
    elif k == "write":
        t = "w %s = %s" % (ev.name, show(v))
    elif k == "init":
        t = "init %s = %s" % (ev.name, show(v))
    elif k == "cont":
        t = "c %s (%s)" % (show(ev.obj) + "." + ev.name if ev.obj is not None else ev.name, ", ".join(show(a) for a in ev.args or []))
    elif k in ("vcall", "call", "enter", "leave"):
        t = "%s %s on %s (%s)" % (k, ev.name.replace("rotor::", "").replace("plugin::", ""), show(ev.obj).rstrip("->") if ev.obj is not None else "-",
                                  ", ".join(show(a) for a in ev.args or []))
    else:
        t = "%s %s" % (k, ev.name)
        if ev.obj is not None:
            t += " on " + show(ev.obj).rstrip("->")
        if ev.args:
            t += " (%s)" % ", ".join(show(a) for a in ev.args if isinstance(a, T))
    t = t.replace("'", "")
    return ANYKEY.sub("[*]", t)


ANYKEY = re.compile(r"\[(k|er|fk|w|adv|ins|lastk?\([^\]]*\)|first\([^\]]*\))\]")


def is_local(ev):
    return ev.kind in ("write", "init") and not heapy(ev.obj)


def heapy(l):
    """a location that outlives the function: reached through this / a parameter / a pointer"""
    while isinstance(l, T) and l.op in ("fld", "el"):
        l = l.a[0]
    return isinstance(l, T) and (l.op in ("deref", "glob") or l.op == "var" and l.a[0] is None)


class Violation:
    def __init__(self, rule, where, msg, trace=(), key=None):
        self.rule, self.where, self.msg, self.trace = rule, where, msg, list(trace)
        self.key = key or "%s|%s" % (rule, re.sub(r":\d+", "", msg))


class Ctx:
    def __init__(self, pid, prog, tier="quick"):
        self.pid, self.p, self.tier = pid, prog, tier
        self.obligations, self.discharged = 0, 0
        self.violations, self.samples = [], []
        self.funcs, self.paths, self.sites, self.entries = set(), 0, 0, []
        self.rules = {}
        self.state_names = ["UNKNOWN", "NEW", "INITIALIZING", "INITIALIZED", "OPERATIONAL", "SHUTTING_DOWN", "SHUT_DOWN"]

    # ------------------------------------------------------------ bookkeeping
    def ob(self, rule, ok, where, msg, trace=(), sample=None, key=None):
        self.obligations += 1
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if ok:
            self.discharged += 1
            r[1] += 1
            if sample and len(self.samples) < 40:
                self.samples.append("%s: %s" % (rule, sample))
        else:
            self.violations.append(Violation(rule, where, msg, trace, key))
        return ok

    def need(self, cond, msg):
        if not cond:
            raise AnalysisError(msg)

    def fn(self, q, pick=None):
        return self.p.one(q, pick) if pick or "<" not in q else self.p.one(q)

    def E(self, enum, name):
        return self.p.enum_val(enum, name)

    def S(self, name):
        return self.p.enum_val("rotor::state_t", name)

    # ------------------------------------------------------------ path runs
    def run(self, f, keep=None, init=None, guard=None, tagger=None, args=None, this=None, **kw):
        """exits of the function; tags = canonical texts matching `keep`; guard(eng, ev, text) may report"""
        if isinstance(f, str):
            f = self.p.one(f)
        rx = re.compile(keep) if keep else None

        def tag(eng, ev):
            if is_local(ev):
                return None
            t = text(ev, eng)
            if guard:
                guard(eng, ev, t)
            if tagger:
                r = tagger(eng, ev, t)
                if r is not False:
                    return r
            if rx and rx.search(t) and not (quiet and AT.match(t)):
                return t
            return None
        quiet = keep and "\\.at" not in keep        # looking an item up is no event of its own
        eng = E.Engine(self.p, tag=tag, init=init, **kw)
        if isinstance(f, Later):
            eng.lams.update(f.lams)
            xs = eng.run_lam(f.lam)
        else:
            xs = eng.run(f, this=this, args=args)
        for at, m in eng.faults.items():
            self.ob("goes-on", False, "%s:%s" % at, "%s: %s" % (f.qname, m), key="goes-on|%s|%s" % (f.qname, m))
        if getattr(f, "ret", None) == "bool":
            xs = [y for x in xs for y in self.yes_no(eng, x)]
        self.funcs.add(f.qname)
        for fl, ln, q in eng.inlined:
            if fl and fl.startswith(P.REPO):
                self.funcs.add(q)
        self.paths += len(xs)
        self.entries.append("%s%s" % (f.qname, " " + repr(init) if init else ""))
        return xs

    @staticmethod
    def yes_no(eng, x):
        """an exit that answers with a condition is one exit for either outcome"""
        if x.kind != "ret" or x.val is None or x.val.op == "int":
            return [x]
        v = eng.V(x.st, x.val)
        if re.match(r"!?\(?\(?!?(call:|cb\b|atomic:)", show(v)):
            return [x]          # the answer of somebody else
        out = []
        for b in (True, False):
            st = eng.assume(x.st, v, b)
            if st is not None:
                out.append(E.Exit(x.kind, E.ONE if b else E.ZERO, st, x.loc))
        return out or [x]

    def laters(self, f, keep, callee, argn, **kw):
        """the function objects that `f` hands to calls of `callee` (regex on the event) as argument `argn`, each to
        be analysed as code that runs some time later: whatever it captured by value is what it was, everything else
        may have changed, and the object that created it (`gone`) may be no more"""
        found = {}

        def look(eng, ev, t):
            if re.search(callee, t):
                for a in getattr(ev, "args", ()) or ():
                    v = eng.V(ev.st, a) if ev.st is not None else a
                    if v.op == "lam" and v in eng.lams:
                        found[v] = (eng.lams, t)
            return False
        self.run(f, keep, tagger=look, **kw)
        fn = self.p.one(f) if isinstance(f, str) else f
        return [Later(fn, v, lams) for v, (lams, t) in sorted(found.items(), key=lambda x: x[0].uid)]

    @staticmethod
    def trace_of(st):
        out, t = [], st.trace
        while t:
            out.append(t[0])
            t = t[1]
        return out[::-1]

    def table(self, rule, f, keep, cases, order=(), ignore=None, **kw):
        """cases: list of (name, init, [alternatives]); an alternative is a list of regexes that the kept events of
        an exit must match one-to-one (order free unless `order` says otherwise).  An alternative that is a tuple
        ("some", [...]) must be seen at least once."""
        if isinstance(f, str):
            f = self.p.one(f)
        for name, init, alts in cases:
            xs = self.run(f, keep, init, **kw)
            if not xs:
                self.ob(rule, False, getattr(f, "where", f.qname), "no way through %s in case %s: every path ends in a failing assertion or never ends" % (f.qname, name))
            seen = [0] * len(alts)
            for x in xs:
                tags = list(x.st.hist)
                hit = None
                for i, a in enumerate(alts):
                    if match(tags, a):
                        hit = i
                        break
                if hit is not None:
                    seen[hit] += 1
                ok = hit is not None
                why = ""
                if ok:
                    for a, b in order:
                        if not before(tags, a, b):
                            ok, why = False, "; expected order: /%s/ before /%s/" % (a, b)
                            break
                self.ob(rule, ok, "%s:%s" % x.loc, "%s, case '%s': on a path leaving at %s:%s the function does %s, allowed: %s%s" % (
                    f.qname, name, x.loc[0], x.loc[1], fmt(tags), " or ".join(fmt(a) for a in alts), why),
                    self.trace_of(x.st), sample="%s [%s] => %s" % (short_q(f.qname), name, fmt(tags)),
                    key="%s|%s|%s|%s" % (rule, f.qname, name, fmt(tags)))
            for i, a in enumerate(alts):
                self.ob(rule, seen[i] > 0, f.where, "%s, case '%s': no path does %s" % (f.qname, name, fmt(a)),
                        key="%s|%s|%s|missing %s" % (rule, f.qname, name, fmt(a)))

    def decide(self, rule, f, keep, conds, expect, order=(), init=None, ret=None, **kw):
        """The function as a total decision: `conds` names input conditions (regex of a fact, optional range; see
        truth()), expect(v) gives for every assignment of the conditions the events that have to happen (None: the
        assignment is impossible).  `maybe`: assignments that no path need to
        stand for; for every other that asks for events there has to be a path (one that ends in a failing assertion or
        never ends is none).  On each path the conditions the path does not look at range over both values."""
        if isinstance(f, str):
            f = self.p.one(f)
        last = kw.pop("net", False)
        maybe = kw.pop("maybe", None)
        xs = self.run(f, keep, init, **kw)
        if not xs:
            self.ob(rule, False, getattr(f, "where", f.qname), "no way through %s: every path ends in a failing assertion or never ends" % f.qname)
        covered, met = set(), set()
        names = sorted(conds)
        for x in xs:
            met.update(n for n in names if spec0(conds[n])[:1] == "~" and truth(x.st, conds[n]))
            tags = net(x.st.hist) if last else list(x.st.hist)
            val = {n: truth(x.st, conds[n]) for n in names}
            free = [n for n in names if val[n] is None]
            bad = None
            for bits in range(1 << len(free)):
                v = dict(val)
                for i, n in enumerate(free):
                    v[n] = bool(bits >> i & 1)
                w = expect(NS(v))
                if w is None:
                    continue
                open_ = [n for n in names if spec0(conds[n])[:1] == "~" and truth(x.st, strip(conds[n])) is None]
                for b2 in range(1 << len(open_)):
                    v2 = dict(v)
                    v2.update((n, bool(b2 >> i & 1)) for i, n in enumerate(open_))
                    covered.add(tuple(v2[n] for n in names))
                alts = w if isinstance(w, tuple) else (w,)
                if not any(match(tags, a) for a in alts):
                    bad = (v, " or ".join(fmt(a) for a in alts), "")
                    break
                for a, b in order:
                    if not before(tags, a, b):
                        bad = (v, "/%s/ before /%s/" % (a, b), "")
                if bad:
                    break
                if ret is not None:
                    m = ret(NS(v), x)
                    if m:
                        bad = (v, m, "")
                        break
            cs = ", ".join("%s%s" % ("" if v else "not ", n) for n, v in (bad[0] if bad else val).items() if v is not None)
            self.ob(rule, bad is None, "%s:%s" % x.loc, "%s: when %s the function does %s (leaving at %s:%s), expected %s" % (
                f.qname, cs or "called", fmt(tags), x.loc[0], x.loc[1], bad[1] if bad else ""), self.trace_of(x.st),
                sample="%s when %s => %s" % (short_q(f.qname), cs or "called", fmt(tags)),
                key="%s|%s|%s|%s" % (rule, f.qname, cs, fmt(tags)))
        for n in names:
            if spec0(conds[n])[:1] == "~" and n not in met and not (maybe and maybe(NS({m: m == n for m in names}))):
                self.ob(rule, False, getattr(f, "where", f.qname), "%s never finds %s (%s)" % (f.qname, n, spec0(conds[n])), key="%s|%s|never %s" % (rule, f.qname, n))
        for bits in range(1 << len(names)):
            v = {n: bool(bits >> i & 1) for i, n in enumerate(names)}
            w = None if tuple(v[n] for n in names) in covered else expect(NS(v))
            w = w if isinstance(w, tuple) else (w,)
            if all(w) and not (maybe and maybe(NS(v))):
                cs = ", ".join("%s%s" % ("" if v[n] else "not ", n) for n in names)
                self.ob(rule, False, getattr(f, "where", f.qname), "%s: no way through the function when %s, expected %s" % (f.qname, cs, " or ".join(fmt(a) for a in w)), key="%s|%s|%s|none" % (rule, f.qname, cs))
        return xs

    def every(self, rule, f, keep, init, check, what, **kw):
        """check(tags, exit) -> None | message"""
        if isinstance(f, str):
            f = self.p.one(f)
        xs = self.run(f, keep, init, **kw)
        if not xs:
            self.ob(rule, False, getattr(f, "where", f.qname), "no way through %s: every path ends in a failing assertion or never ends" % f.qname)
        for x in xs:
            m = check(list(x.st.hist), x)
            self.ob(rule, m is None, "%s:%s" % x.loc, "%s: %s (%s)" % (f.qname, m, what), self.trace_of(x.st),
                    sample="%s => %s" % (short_q(f.qname), fmt(x.st.hist)), key="%s|%s|%s" % (rule, f.qname, m))
        return xs


def net(tags):
    """the events without the writes that a later write to the same place makes void"""
    at = {}
    for i, t in enumerate(tags):
        m = re.match(r"(?:w|init) (\S+) = ", t) if isinstance(t, str) else None
        if m:
            at[m.group(1)] = i
    gone = {i for i, t in enumerate(tags) if isinstance(t, str) for m in [re.match(r"(?:w|init) (\S+) = ", t)] if m and at[m.group(1)] != i}
    return [t for i, t in enumerate(tags) if i not in gone]


class Later:
    """a function object met in the code of `fn`, to be run later"""
    def __init__(self, fn, lam, lams):
        self.lam, self.lams = lam, lams
        self.qname = fn.qname + "::(callback)"
        self.where = fn.where


class NS:
    def __init__(self, d):
        self.__dict__.update(d)


def truth(st, spec):
    """value of a condition in the facts of a path: True, False or None (the path does not say).
    spec: regex matched against the whole text of a fact [, lo, hi]; default: non-zero"""
    rx, lo, hi = (spec, None, None) if isinstance(spec, str) else spec
    val = None
    if rx.startswith("~"):      # a path that never establishes the fact counts as "no"
        rx, val = rx[1:], False
    anyver = rx[:1] in ("*", "<")   # whatever version of the values involved, the latest (<: the first) fact counts
    first = rx.startswith("<")
    r = re.compile(rx[1:] if anyver else rx)
    for k, d in st.fa.items():
        if not r.fullmatch(show(k).replace("'", "") if anyver else show(k)):
            continue
        if lo is None:
            v = False if d[0] == d[1] == 0 else True if d[0] > 0 or d[1] < 0 or 0 in d[2] else None
        else:
            a, b = max(lo, d[0]), min(hi, d[1])
            v = True if d[0] >= lo and d[1] <= hi else False if a > b or b - a < 64 and all(n in d[2] for n in range(a, b + 1)) else None
        if v is not None:
            val = v
            if first:
                break
    return val


def spec0(spec):
    return spec if isinstance(spec, str) else spec[0]


def strip(spec):
    return spec[1:] if isinstance(spec, str) else (spec[0][1:],) + tuple(spec[1:])


def short_q(q):
    return "::".join(q.split("::")[-2:])


def fmt(ts):
    """a history (or an allowed pattern) as text"""
    def one(t):
        if isinstance(t, str):
            return t
        if isinstance(t, Loop):
            return "(%s)*" % " | ".join(sorted(fmt(x)[1:-1] for x in t.alts))
        return "(%s)*" % " | ".join(sorted(fmt(x)[1:-1] for x in t[2]))
    return "{" + "; ".join(one(t) for t in ts) + "}" if ts else "{nothing}"


class Loop:
    """pattern for what the iterations of a loop may do; iterations without tracked events always match.
    must: some iteration has to have events; seq: events inside an iteration come in the given order"""
    def __init__(self, *alts, must=False):
        self.alts, self.must = alts, must


def is_loop(t):
    return isinstance(t, tuple)


def flat(tags):
    for t in tags:
        if is_loop(t):
            for it in sorted(t[2], key=repr):
                yield from flat(it)
        else:
            yield t


def match(tags, pats):
    """one-to-one match of events and patterns, order free; a Loop pattern also matches no loop at all; what a pattern
    that starts with `?` matches may be there or not"""
    maybe = [p[1:] for p in pats if isinstance(p, str) and p.startswith("?")]
    if maybe:
        pats = [p for p in pats if not (isinstance(p, str) and p.startswith("?"))]
        tags = [t for t in tags if not (isinstance(t, str) and any(re.search(m, t) for m in maybe))]
    tags = list(tags)
    if sum(isinstance(t, str) for t in tags) != sum(isinstance(p, str) for p in pats):
        return False
    if sum(is_loop(t) for t in tags) > sum(isinstance(p, Loop) for p in pats):
        return False
    loops = [t for t in tags if is_loop(t)]
    lp = [p for p in pats if isinstance(p, Loop)]

    def loop_ok(t, p):
        return all(any(match(it, alt) for alt in p.alts) for it in t[2])

    def lgo(i, left):
        if i == len(loops):
            return not any(p.must for p in left)
        for j, p in enumerate(left):
            if loop_ok(loops[i], p) and lgo(i + 1, left[:j] + left[j + 1:]):
                return True
        return False
    if not lgo(0, lp):
        return False
    plain = [t for t in tags if isinstance(t, str)]

    def go(ps):
        if not ps:
            return True
        for i, t in enumerate(plain):
            if t is not None and re.search(ps[0], t):
                plain[i] = None
                if go(ps[1:]):
                    return True
                plain[i] = t
        return False
    return go([p for p in pats if isinstance(p, str)])


def before(tags, a, b):
    """in this history and in every iteration, no b-event precedes an a-event (`?a`: no b-event precedes all a-events)"""
    if a.startswith("?"):
        ts = list(flat(tags))
        ib = [i for i, t in enumerate(ts) if re.search(b, t)]
        return not ib or any(re.search(a[1:], t) for t in ts[:ib[0]])
    for t in tags:
        if is_loop(t) and not all(before(it, a, b) for it in t[2]):
            return False
    has = lambda t, r: re.search(r, t) if isinstance(t, str) else any(re.search(r, x) for x in flat([t]))
    ia = [i for i, t in enumerate(tags) if has(t, a)]
    ib = [i for i, t in enumerate(tags) if has(t, b)]
    ib = [i for i in ib if not (is_loop(tags[i]) and i in ia)]
    ia = [i for i in ia if not (is_loop(tags[i]) and has(tags[i], b))]
    return not ia or not ib or max(ia) < min(ib)


# ---------------------------------------------------------------------- locating state
def _strip(t):
    t = (t or "").replace("const ", "").strip()
    t = t.rstrip("&* ").strip()
    m = re.match(r"(?:boost::intrusive_ptr|std::unique_ptr|std::shared_ptr)<(.*)>$", t)
    if m:
        t = m.group(1)
        if t.startswith("rotor::") and ", std::default_delete" in t:
            t = t[:t.index(", std::default_delete")]
        return _strip(t)
    return t


def field_owner(prog, cls, name):
    for b in prog.bases(cls):
        r = prog.records.get(b)
        for f in (r or {}).get("fields", []):
            if f["name"] == name:
                return b, f["t"]
    raise AnalysisError("anchor not found: field %s::%s" % (cls, name))


def family(c, q, pick=None, least=1):
    """the definitions of a function template's instantiations (one each), or of a plain function"""
    out = {}
    for f in c.p.all_funcs():
        if base(f.qname) == q and (pick is None or pick(f)):
            out.setdefault((f.qname, f.line, tuple(p["t"] for p in f.params)), f)
    c.need(len(out) >= least, "anchor not found: no definition of %s" % q)
    return [out[k] for k in sorted(out)]


def at(eng, st, path, cls=None):
    """current value of e.g. this->actor->state (declared types drive the field lookup)"""
    toks = re.findall(r"->|\.|[^.\->]+", path)
    cls = cls or eng.entry.cls
    assert toks[0] == "this"
    l = mk("deref", mk("sym", "this"))
    i = 1
    ty = cls
    v = None
    while i < len(toks):
        sep, name = toks[i], toks[i + 1]
        if v is not None:
            if sep == "->":
                l = eng.deref(v)
            ty = _strip(ty)
        owner, t = field_owner(eng.p, ty, name)
        l = mk("fld", l, owner, name)
        v = eng.read(st, l)
        ty = t
        i += 2
    return v


def dom_at(eng, st, path, cls=None):
    return eng.dom(st, at(eng, st, path, cls))


def is_const(d, n):
    return d[0] == d[1] == n


def _callers(prog):
    if not hasattr(prog, "_callers"):
        m = {}
        for caller, g, n, virt in P.call_sites(prog):
            m.setdefault(base(prog.resolve(g).qname), set()).add(caller)
            m.setdefault((id(g.tu), g.id), set()).add(caller)
        # trivial accessors hand the call on: their callers are the callers
        for q, cs in m.items():
            for f in [f for f in cs if f.name == "access"]:
                cs.discard(f)
                cs.update(x for x in m.get((id(f.tu), f.id), ()) if x.name != "access")
        prog._callers = m
    return prog._callers


def base(q):
    return E.base_name(q)


def owner_fn(prog, f):
    """the named function a lambda sits in"""
    if f.qname.startswith("lambda@") or "::lambda@" in f.qname or f.lam or (f.cls or "").startswith("lambda@"):
        m = re.match(r"lambda@(.*?):(\d+):", f.cls or f.qname)
        if m:
            best = None
            for g in prog.all_funcs():
                if (g.cls or "").startswith("lambda@") or not g.body or g.file != m.group(1):
                    continue
                if g.line <= int(m.group(2)) <= (g.body.get("le") or g.line):
                    if best is None or g.line > best.line:
                        best = g
            if best is not None:
                return best
    return f


def helper_of(prog, f, allowed, seen=None):
    """f is one of the allowed functions, sits in one, or is a helper that only allowed functions call"""
    seen = seen if seen is not None else set()
    f = owner_fn(prog, f)
    q = base(f.qname)
    if q in allowed or "/driver/" in (f.file or ""):     # the driver stands for user code
        return True
    if q in seen:
        return True
    seen.add(q)
    if f.virtual and not f.d.get("final"):
        return False
    cs = _callers(prog).get(q)
    if not cs or q in taken(prog):
        return False
    return all(helper_of(prog, c, allowed, seen) for c in cs)


def taken(prog):
    """functions whose address is taken (callbacks): callable from anywhere"""
    if not hasattr(prog, "_taken"):
        out = set()
        for f in prog.all_funcs():
            callee = set()

            def walk(n):
                if isinstance(n, list):
                    for x in n:
                        walk(x)
                elif isinstance(n, dict):
                    if n.get("k") == "ref" and n.get("dk") == "fn" and n.get("d") is not None:
                        g = f.tu.funcs.get(n["d"])
                        if g is not None:
                            out.add(base(f.tu.prog.resolve(g).qname))
                    for x in n.values():
                        if isinstance(x, (dict, list)):
                            walk(x)
            walk(f.inits)
            walk(f.body)
        prog._taken = out
    return prog._taken


def only_written_by(c, rule, cls, name, allowed, least=1):
    """who-may-write: every function whose body modifies cls::name is allowed, or a helper of allowed functions"""
    field_owner(c.p, cls, name)
    ws = P.field_writers(c.p, cls, name)
    if not ws and least:
        c.ob(rule, False, cls, "nobody modifies %s::%s any more" % (short(cls), name))
    for f in ws:
        c.sites += 1
        c.funcs.add(f.qname)
        c.ob(rule, helper_of(c.p, f, allowed), f.where, "%s::%s is modified by %s, which is none of the operations that may: %s" % (
            short(cls), name, f.qname, ", ".join(sorted(short_q(a) for a in allowed))),
            sample="%s::%s written by %s" % (short(cls), name, short_q(f.qname)), key="%s|%s|%s" % (rule, name, base(f.qname)))


def only_called_by(c, rule, callee, allowed, least=1):
    n = 0
    sites = []
    _callers(c.p)
    for caller, g, node, virt in P.call_sites(c.p):
        if base(c.p.resolve(g).qname) == callee or any(base(r[0]) == callee for r in c.p._roots(g) if g.virtual):
            if caller.name == "access":
                sites += [(x, node) for x in c.p._callers.get((id(caller.tu), caller.id), ())]
            else:
                sites.append((caller, node))
    if True:
        for caller, node in sites:
            n += 1
            c.sites += 1
            c.funcs.add(caller.qname)
            c.ob(rule, helper_of(c.p, caller, allowed), "%s:%s" % (caller.where.split(":")[0], node.get("l") or caller.line),
                 "%s is called by %s, which is none of the places that may: %s" % (short_q(callee), caller.qname, ", ".join(sorted(short_q(a) for a in allowed))),
                 sample="%s called by %s" % (short_q(callee), short_q(caller.qname)), key="%s|%s|%s" % (rule, callee, base(caller.qname)))
    c.need(n >= least, "no call of %s found" % callee)


def guarded_calls(c, rule, callee, cond, what, skip=(), least=1, **kw):
    """at every call of `callee` the condition cond(eng, ev) holds; a caller that cannot show it alone is judged in
    the context of its own callers"""
    todo, done, n = [], set(), 0
    for f in _callers(c.p).get(callee, ()):
        todo.append(owner_fn(c.p, f))
    atomic = set(kw.pop("atomic", ())) | {callee}
    keep = kw.pop("keep", "^$")
    while todo:
        f = todo.pop()
        if id(f) in done or base(f.qname) in skip:
            continue
        done.add(id(f))
        bad, good = [], [0]

        def guard(eng, ev, t):
            if ev.kind in ("call", "vcall") and ev.name == callee:
                if cond(eng, ev):
                    good[0] += 1
                else:
                    bad.append((eng.rel(eng.fr.fn.file), ev, Ctx.trace_of(ev.st)))
        try:
            c.run(f, keep, None, guard=guard, atomic=atomic, **kw)
        except E.Limit as e:
            raise
        n += good[0] + len(bad)
        ups = _callers(c.p).get(base(f.qname))
        if bad and ups and not f.virtual and base(f.qname) not in taken(c.p) and all(base(u.qname) != base(f.qname) for u in ups):
            todo += [owner_fn(c.p, u) for u in ups]
            continue
        c.sites += 1
        for w, ev, tr in bad[:1]:
            c.ob(rule, False, "%s:%s" % (w, ev.node.get("l") if hasattr(ev, "node") and ev.node else "?"),
                 "%s calls %s on a path where %s is not established" % (f.qname, short_q(callee), what), tr,
                 key="%s|%s|%s" % (rule, callee, base(f.qname)))
        if not bad:
            c.ob(rule, True, f.where, "", sample="%s -> %s only when %s" % (short_q(f.qname), short_q(callee), what))
    c.need(n >= least, "no call of %s reached" % callee)


# ---------------------------------------------------------------------- who uses a field, directly or by an accessor
def _walk(n):
    if isinstance(n, list):
        for x in n:
            yield from _walk(x)
    elif isinstance(n, dict):
        yield n
        for x in n.values():
            if isinstance(x, (dict, list)):
                yield from _walk(x)


def mentions_field(f, owner, name):
    return any(n.get("k") == "mem" and n.get("n") == name and short(_strip(n.get("cls") or owner)) == short(owner) for n in _walk([f.body, f.inits]))


def is_accessor(f, owner, name):
    b = f.body
    ss = b.get("s") if b and b.get("k") == "blk" else None
    return bool(ss) and len(ss) == 1 and ss[0] and ss[0].get("k") == "ret" and (ss[0].get("e") or {}).get("k") == "mem" and ss[0]["e"].get("n") == name


def users_of(prog, owner, name):
    """functions that touch the field, trivial accessors replaced by their callers"""
    owner, _ = field_owner(prog, owner, name)
    key = (owner, name)
    if not hasattr(prog, "_users"):
        prog._users = {}
    if key in prog._users:
        return prog._users[key]
    acc, out = set(), {}
    for f in prog.all_funcs():
        if f.body is None or not mentions_field(f, owner, name):
            continue
        if is_accessor(f, owner, name):
            acc.add((f.tu, f.id))
        else:
            out[owner_fn(prog, f).qname, owner_fn(prog, f).line] = owner_fn(prog, f)
    ids = set((id(t), i) for t, i in acc)
    for caller, g, n, virt in P.call_sites(prog):
        if (id(g.tu), g.id) in ids:
            o = owner_fn(prog, caller)
            out[o.qname, o.line] = o
    prog._users[key] = [out[k] for k in sorted(out)]
    return prog._users[key]


def judged(c, rule, fns, judge, **kw):
    """judge(f) -> list of (where, message, trace, key) failures, or [] when fine, or None when f has nothing to say;
    a private helper that fails alone is judged inside its callers"""
    todo, done, n = list(fns), set(), 0
    while todo:
        f = todo.pop()
        if (f.qname, f.line) in done:
            continue
        done.add((f.qname, f.line))
        r = judge(f)
        if r is None:
            continue
        ups = _callers(c.p).get(base(f.qname))
        if r and ups and not f.virtual and base(f.qname) not in taken(c.p) and all(base(u.qname) != base(f.qname) for u in ups):
            todo += [owner_fn(c.p, u) for u in ups]
            continue
        n += 1
        c.sites += 1
        for w, m, tr, k in r:
            c.ob(rule, False, w, m, tr, key=k)
        if not r:
            c.ob(rule, True, f.where, "", sample="%s" % short_q(f.qname))
    return n


def installed(c, rule, f, handlers, bits=(), some=False, why="", init=None):
    """on every path of `f` (some: on every path that subscribes anything, and there is one) each of the named methods
    is subscribed to the address of its own actor, every one with a subscription of its own; at the end the given
    reactions (values) are switched on"""
    def name(eng, st, v):
        l = eng.deref(v)
        for k, x in st.st.items():
            if k.op == "fld" and k.a[0] is l and k.a[2] == "handler":
                m = re.search(r"\{(\w+)\}", show(x))
                return m.group(1) if m else "?"

    def tag(eng, ev, t):
        if ev.kind in ("call", "enter") and ev.name == "rotor::supervisor_t::subscribe" and len(ev.args or ()) >= 2:
            n = name(eng, ev.st, eng.V(ev.st, ev.args[0]))
            a, s = show(eng.V(ev.st, ev.args[1])).replace("'", ""), show(ev.obj).replace("'", "")
            m = re.match(r"^(.*)->address$", a)
            own = m and s.startswith(m.group(1) + "->supervisor")
            return "subscribe %s%s" % (n, "" if own else " of %s at %s" % (s, a))
        if ev.kind == "write" and ev.name.endswith("reaction"):
            return "reaction %s" % show(ev.val)
        return False
    any_ = [False]

    def check(tags, x):
        ts = list(flat(tags))
        subs = [t for t in ts if t.startswith("subscribe ")]
        if some and not subs:
            return None
        any_[0] = True
        for h in handlers:
            n = subs.count("subscribe " + h)
            if n != 1:
                return "%s is subscribed %d times%s" % (h, n, "; got: " + "; ".join(subs) if subs else "")
        last = [t for t in ts if t.startswith("reaction ")]
        on_ = 0
        for t in last:
            m = re.search(r"\| (\d+)\)$|^reaction (\d+)$", t)
            if m:
                on_ |= int(m.group(1) or m.group(2))
            m = re.search(r"& (\d+)\)$", t)
            if m:
                on_ &= int(m.group(1))
        for b in bits:
            if not on_ & b:
                return "reaction %d is not switched on" % b
    c.every(rule, f, None, init or {}, check, why or "messages reach the methods that handle them", tagger=tag, atomic={"rotor::supervisor_t::subscribe"})
    if some and handlers:
        c.ob(rule, any_[0], "%s:%s" % (f.file, f.line) if not isinstance(f, str) else f, "nothing is subscribed any more")


def switched(ev, bit):
    """a write to the reactions of a plugin in `plugins`: is it that exactly this reaction goes off?"""
    k = re.search(r"plugins\[(.*?)\]", ev.name).group(1).lstrip("#")
    m = re.search(r"& (-?\d+)\)$", show(ev.val))
    if m and not int(m.group(1)) & bit and int(m.group(1)) & (15 ^ bit) == 15 ^ bit:
        return "off " + k
    return "reactions of %s become %s" % (k, show(ev.val))
