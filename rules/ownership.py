"""C29: references taken by hand are given back exactly once, and nothing is used that is gone"""
from rulekit import *
from rulekit import _callers, _walk
import os, re
from multiprocessing import get_context
import engine as E
import program as P

# calls that hand a reference, taken by hand, over to the event loop; and that take it back unfired
ARM = {"ev_timer_start": "this", "Fl::add_timeout": "this", "Fl::repeat_timeout": "this", "Fl::awake": None}
DISARM = {"ev_timer_stop": "this", "Fl::remove_timeout": "this"}
# the argument of a registration that is the callback, owning the reference which was handed over
CALLBACK = {"Fl::add_timeout": 1, "Fl::repeat_timeout": 0, "Fl::awake": 0}
ATOMIC = {"rotor::actor_base_t::get_plugin",      # finds each plugin: C32's plugin lists
          "rotor::actor_config_builder_t::finish"}    # of the library's own, valid, configurations


def plain(v):
    v = re.sub(r"^\(?(copyof\()?|\)$", "", v) if v.startswith("(") and v.endswith(")") else v
    return v.replace("'", "").rstrip("->") if v.endswith("->") else v.replace("'", "")


def counting(eng, ev, t):
    """+ x: one reference of x is now owned by this code; - x: it was given away"""
    k = ev.kind

    def show(v):
        v = plain(pretty(eng, ev.st, v))
        return v[1:] if v.startswith("&") else v
    if k in ("null", "stale"):
        if k == "null" and ev.fnctx.qname.startswith("rotor::plugin::lifetime_plugin_t::") and truth(ev.st, r"empty\(this->own_subscriptions\)"):
            return None         # its own subscriptions go last
        return "%s %s" % (k, plain(pretty(eng, ev.st, ev.val)))
    if k == "addref":
        return "+ " + show(ev.val)
    if k in ("release", "adopt"):
        return "- " + show(ev.val)
    if k == "detach":
        return None if ev.val is E.ZERO else "+ " + show(ev.val)
    if k == "popped":
        return "+ " + show(ev.val)
    if k == "popempty":
        return None
    if k == "cont" and ev.args and ev.name in ("push", "push_back", "push_front", "emplace", "insert", "bounded_push", "unsynchronized_push"):
        a = list(ev.args)
        if ev.extra == "lf" or len(a) == 2 and a[1] is E.ZERO and ev.name.startswith("push"):
            return "- " + show(a[0])
        return None
    if k == "call":
        n = ev.name.split("::")[-1] if ev.name.startswith("ev_") else ev.name
        if n in ARM:
            if n == "Fl::awake":
                return "- " + show(ev.args[1]) if len(ev.args or ()) > 1 else None
            return "- this"
        if n in DISARM:
            return "+ this"
    if k in ("init", "write") and ev.name.endswith("->actor_ptr") and ev.val is not None and any(base(f.qname) == "rotor::handler_base_t::handler_base_t" for f in ev.stack):
        return "- " + show(ev.val)
    return None


PROG = CTX = None


def work(i):
    f = JOBS[i]
    c = Ctx("C29", PROG, "quick")
    try:
        xs = c.run(f, None, tagger=lambda eng, ev, t: counting(eng, ev, t), atomic=ATOMIC)
    except P.AnalysisError as e:
        return i, None, str(e), 0
    except Exception as e:
        return i, None, "%s %s" % (type(e).__name__, e), 0
    out = {}
    for x in xs:
        h = tuple(x.st.hist)
        if h not in out:
            out[h] = ("%s:%s" % x.loc, [t for t in c.trace_of(x.st)][-12:])
    return i, out, None, len(xs)


JOBS = []


def callbacks(c):
    """functions and lambdas that the loop calls back with a reference of their own"""
    out = set()
    for f in c.p.all_funcs():
        if not f.body or not (f.file or "").startswith(P.REPO):
            continue

        def look(n, f=f):
            if n.get("k") == "ref" and n.get("dk") == "fn":
                h = f.tu.funcs.get(n.get("d"))
                h = h and c.p.resolve(h)
                if h is not None and len(h.params) > 1 and re.search(r"\bev_timer \*", h.params[1]["t"]) and (h.file or "").startswith(P.REPO):
                    out.add(h.qname + "@" + h.where)
                return
            if n.get("k") != "call":
                return
            g = f.tu.funcs.get(n.get("f")) if isinstance(n.get("f"), int) else None
            if g is None or g.qname not in CALLBACK:
                return
            args = n.get("args") or []
            i = CALLBACK[g.qname]
            if len(args) <= i or (g.qname == "Fl::awake" and len(args) < 2):
                return
            for r in nodes(args[i]):
                if r.get("k") == "ref" and r.get("dk") == "fn":
                    h = f.tu.funcs.get(r.get("d"))
                    if h is not None:
                        out.add(c.p.resolve(h).qname + "@" + c.p.resolve(h).where)
        for n in nodes(f.body):
            look(n)
    return out


def nodes(n):
    if isinstance(n, dict):
        yield n
        for y in n.values():
            yield from nodes(y)
    elif isinstance(n, list):
        for y in n:
            yield from nodes(y)


@prop("C29")
def references(c):
    global PROG
    PROG = c.p
    cbs = callbacks(c)
    c.need(len(cbs) >= 3, "the callbacks of the event loops are not found: %s" % sorted(cbs))
    JOBS.clear()
    seen = set()
    for f in c.p.all_funcs():
        if not (f.file or "").startswith((P.REPO + "/src/rotor", P.REPO + "/include/rotor")) or f.lam:
            continue
        k = (f.file, f.line, f.qname if not f.targs and "<" not in f.qname else None)
        if k not in seen:
            seen.add(k)
            JOBS.append(f)
    c.need(len(JOBS) > 400, "hardly any function of the library is known")
    with get_context("fork").Pool(8) as pool:
        res = pool.map(work, range(len(JOBS)), chunksize=4)
    verdict, by = {}, {}
    for i, out, err, n in res:
        f = JOBS[i]
        c.funcs.add(f.qname)
        c.paths += n
        if out is None:
            continue            # out of the budget: judged in its parts
        bad, lives = [], []
        owner = f.qname + "@" + f.where in cbs
        for h, (at, tr) in out.items():
            net, turns = total(h)
            lives += [(at, t, tr) for t in flat(h) if t[0] not in "+-"]
            bad += [(at, "each turn of the loop leaves " + nets(w), tr) for w in turns]
            if base(f.qname) == "rotor::handler_base_t::~handler_base_t":
                net["this->actor_ptr"] = net.get("this->actor_ptr", 0) + 1
                net = {k: v for k, v in net.items() if v}
            if owner:       # the reference that came with the call
                if list(net.values()) != [-1]:
                    bad.append((at, "the reference handed over with the callback is not given back exactly once%s" % (": " + nets(net) if net else ""), tr))
            elif net:
                bad.append((at, nets(net), tr))
        verdict[i] = (bad, lives)
        by.setdefault(base(f.qname), []).append(i)

    for q in sorted({base(f.qname) for f in JOBS if any(n.get("k") == "call" and isinstance(n.get("f"), int) and f.tu.funcs.get(n["f"]) is not None and f.tu.funcs[n["f"]].qname == "Fl::awake" for n in nodes(f.body))}):
        for f in family(c, q):
            for l in c.laters(f, None, r"^call Fl::awake on - \(", 0):
                for x in c.run(l, None, tagger=lambda eng, ev, t: counting(eng, ev, t), atomic=ATOMIC):
                    net, turns = total(x.st.hist)
                    c.ob("given-back-once", list(net.values()) == [-1] and not turns, "%s:%s" % x.loc, "%s: the reference handed over with the callback is not given back exactly once%s" % (l.qname, (": " + nets(net)) if net else ""),
                         c.trace_of(x.st), sample=short_q(l.qname), key="given-back-once|%s" % l.qname)

    def up(i, which):
        """private helpers that fail alone are judged inside their callers"""
        f = JOBS[i]
        ups = _callers(c.p).get(base(f.qname)) or []
        if not ups or f.virtual or base(f.qname) in taken(c.p) or not verdict[i][which]:
            return False
        if not ((f.file or "").endswith(".cpp") or f.access == 2 or f.targs):
            return False
        for u in ups:
            u = owner_fn(c.p, u)
            for j in by.get(base(u.qname), []):
                if j == i or verdict[j][which] and not up(j, which):
                    return False
            if base(u.qname) not in by:
                return False
        return True
    for i in sorted(verdict):
        f = JOBS[i]
        bad, lives = verdict[i]
        ops = any(t[0] in "+-" for h in (next(o for k, o, e, n in [res[i]]) or {}) for t in flat(h))
        for which, rule, fails in ((0, "given-back-once", bad), (1, "not-used-when-gone", lives)):
            if fails and up(i, which):
                continue
            for at, m, tr in fails[:3]:
                m = m if which == 0 else ("a null pointer is used: %s" if m.startswith("null") else "something is used after it was removed: %s") % m.split(" ", 1)[1]
                c.ob(rule, False, at, "%s: %s" % (short_q(f.qname), m), tr, key="%s|%s|%s" % (rule, base(f.qname), m))
            if not fails and (which == 1 or ops):
                c.ob(rule, True, f.where, "", sample=short_q(f.qname))


def total(tags):
    """(what is owned in the end, what the turns of the loops leave over)"""
    net, turns = {}, []
    for t in tags:
        if is_loop(t):
            for it in t[2]:
                n, w = total(it)
                turns += w
                if n:
                    turns.append(n)
        elif isinstance(t, str) and t[0] in "+-":
            net[t[2:]] = net.get(t[2:], 0) + (1 if t[0] == "+" else -1)
    return {k: v for k, v in net.items() if v}, turns


def nets(net):
    return ", ".join("%s of %s" % ("%d reference(s) never given back" % v if v > 0 else "%d reference(s) given back that were not taken" % -v, k) for k, v in sorted(net.items()))
