"""C16, C17, C35, C36, C40: the event-loop back ends (asio, libev, fltk, wx, plain threads)"""
from rulekit import *
from rulekit import _walk
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
S = "rotor::supervisor_t::"
IS = re.escape
AS, EV, FL, WX = ("rotor::%s::supervisor_%s_t::" % (n, n) for n in ("asio", "ev", "fltk", "wx"))
TH = "rotor::thread::supervisor_thread_t::"
TC = "rotor::thread::system_context_thread_t::"
FIRE = A + "on_timer_trigger"
PROCESS = {S + "do_process", AS + "do_process"}
TIMED = PROCESS | {FIRE}
PROC = r"^call (\w+::)*supervisor_(asio_)?t::do_process on "


def hooked(c, f, rx, **kw):
    """the functions `f` hands out in events matching rx (function pointers and function objects): to be called later
    -> [(function, text of the event)]"""
    out, lams = {}, []

    def look(eng, ev, t):
        if re.search(rx, t):
            vals = list(getattr(ev, "args", ()) or ())
            if getattr(ev, "val", None) is not None:
                vals.append(ev.val)
            for v in vals:
                v = eng.V(ev.st, v) if ev.st is not None else v
                if v.op == "lam" and v in eng.lams:
                    out[v] = (eng.lams, t)
                elif v.op == "fn":
                    out[v] = (v.a[0], t)
        return False
    c.run(f, "^$", tagger=look, **kw)
    fn = c.p.one(f) if isinstance(f, str) else f
    res = []
    for v, (x, t) in sorted(out.items(), key=lambda i: i[0].uid):
        if v.op == "lam":
            res.append((Later(fn, v, x), t))
            continue
        fs = [g for g in c.p.all_funcs() if g.body is not None and (g.qname == x or g.qname.endswith("::" + x)) and g.file.startswith(P.REPO)]
        near = [g for g in fs if g.file == fn.file] or fs
        c.need(near, "the function %s handed out by %s is not found" % (x, fn.qname))
        res.append((near[0], t))
    return res


def arg(g, i):
    """the i-th argument of a function called by the loop, as its texts name it"""
    return "%s%d" % ("@" if isinstance(g, Later) else r"\$", i)


def captures(l):
    """what a function object carries: (text, type, by value)"""
    tu, e, caps, this, fn = l.lams[l.lam]
    vals = {n: v for d, n, v in caps}
    out = []
    for k in e.get("caps") or []:
        if k.get("this"):
            out.append(("this", "raw", False))
            continue
        v = vals.get(k["n"])
        out.append((E.show(v.a[0]).replace("'", "") if v is not None and v.a else "?", k.get("t") or "", not k.get("byref")))
    return out


def carries(c, rule, l, wants, what):
    """the function object owns all it uses: nothing by reference, and these by an owning pointer"""
    cs = captures(l)
    bad = [x for x in cs if not x[2]]
    miss = [w for w in wants if not any(re.fullmatch(w, t) and "intrusive_ptr<" in ty for t, ty, _ in cs)]
    m = "keeps only a reference to %s" % bad[0][0] if bad else "does not keep %s alive" % miss[0] if miss else None
    c.ob(rule, m is None, l.where, "%s %s" % (what, m), sample="%s carries %s" % (what, ", ".join(t for t, _, _ in cs)), key="%s|%s" % (rule, l.qname))


# ------------------------------------------------------------------------------------------- units of time
SCALE = {"total_milliseconds": 1000, "total_microseconds": 1000000, "total_nanoseconds": 1000000000, "total_seconds": 1}


def unit_uses(p, f):
    """where durations are converted: (line, call, what the number becomes, its scale or None)"""
    body = [f.body, f.inits]
    inits = {}
    for n in _walk(body):
        if n.get("k") == "var" or "init" in n and "id" in n:
            if isinstance(n.get("init"), dict):
                inits[n.get("id")] = n["init"]

    def ticks(n, seen=()):
        for m in _walk(n):
            if m.get("k") == "call" and isinstance(m.get("f"), int):
                g = f.tu.funcs.get(m["f"])
                if g is not None and g.name in SCALE:
                    return g.name
            if m.get("k") == "ref" and m.get("d") in inits and m["d"] not in seen:
                r = ticks(inits[m["d"]], seen + (m["d"],))
                if r:
                    return r
        return None
    out = []
    for n in _walk(body):
        if n.get("k") == "ctor" and str(n.get("t")).startswith("std::chrono::duration<") and n.get("args"):
            r = ticks(n["args"])
            m = re.search(r"std::ratio<1, (\d+)>", n["t"])
            if r and "duration<" not in str((n["args"][0] or {}).get("t", "")):
                out.append((n.get("l"), r, n["t"], SCALE[r] == (int(m.group(1)) if m else 1)))
        if n.get("k") == "bin" and n.get("op") == "/" and ticks(n.get("a")):
            v = (n.get("b") or {}).get("v")
            r = ticks(n["a"])
            out.append((n.get("l"), r, "%s divided by %s as %s" % (r, v, n.get("t")), v == SCALE[r] and n.get("t") in ("double", "float", "long double")))
    return out


def units(c):
    n = 0
    for f in c.p.all_funcs():
        if f.body is None or not re.match(re.escape(P.REPO) + r"/(src|include)/rotor/(asio|ev|fltk|wx|thread)/", f.file or ""):
            continue
        for line, call, what, ok in unit_uses(c.p, f):
            n += 1
            c.sites += 1
            c.funcs.add(f.qname)
            c.ob("unit-of-time", ok, "%s:%s" % (f.where.split(":")[0], line), "%s takes %s for another unit: %s" % (f.qname, call, what), sample="%s: %s as %s" % (short_q(f.qname), call, what))
    c.need(n >= 3, "no conversion of durations found")


# ------------------------------------------------------------------------------------------- C16 timers
N = r"new<timer_t>?"


def put_in(m, k, v):
    return r"^c %s\.(emplace|try_emplace|insert|insert_or_assign)\w* \((pair\{)?%s,? ?%s|^w %s\[%s\](\.second)? = %s$" % (m, k, v, m, k, v)


ARM = {
    AS: [r"^(init|w) %s->handler = &\$1$" % N, r"expires_(after|from_now) on %s \(" % N, r"async_wait on %s \(" % N, put_in("this->timers_map", r"\$1\.request_id", N)],
    EV: [r"^(init|w) %s->handler = &\$1$" % N, r"^(init|w) %s->data = this$" % N, r"^call ev_timer_start on - \(this->loop, %s\)" % N, "^addref this$", put_in("this->timers_map", r"\$1\.request_id", N)],
    FL: [r"^(init|w) %s->handler = &\$1$" % N, r"^(init|w) %s->sup = this$" % N, r"^call Fl::add_timeout on - \(\S.*, %s\)$" % N, "^addref this$", put_in("this->timers_map", r"\$1\.request_id", N)],
    WX: [r"^(init|w) %s->handler = &\$1$" % N, r"^(init|w) %s->sup = this$" % N, r"^call wxTimer::Start(Once)? on %s \(" % N, put_in("this->timers_map", r"\$1\.request_id", N)],
}
ARMED = r"^(init|w) new<timer_t>->(handler|data|sup) |expires_|async_wait|^call (ev_timer_|Fl::(add|repeat|remove)_timeout|wxTimer::)|^(v?call) \S*wxTimer|^(addref|release|detach|adopt) |^(c|w) this->timers_map\S*(\.(emplace|try_emplace|insert|erase|clear|swap)\w* \(| = )"
STOP = {
    AS: r"^call \S*basic_waitable_timer::cancel on this->timers_map\[\$0\]\.second",
    EV: r"^call ev_timer_stop on - \(this->loop, this->timers_map\[\$0\]\.second\)",
    FL: r"^call Fl::remove_timeout on - \(\S+, this->timers_map\[\$0\]\.second\)",
    WX: r"^v?call \S*::Stop on this->timers_map\[\$0\]\.second",
}
STOPS = r"basic_waitable_timer::cancel|ev_timer_stop|Fl::remove_timeout|::Stop on"
ENDED = r"%s|on_timer_trigger|timers_map\S*\.(erase|clear|extract|swap)|^(addref|release|detach|adopt) |^(v?call|c|w) .*async_wait|ev_timer_start|add_timeout|::Start" % STOPS


def fired(owner, rid, flag):
    return r"^call actor_base_t::on_timer_trigger on %s->owner \(%s, %d\)" % (owner, rid, flag)


def erased(m, rid):
    return r"^c %s\.erase \((it:)?(%s|find\(%s,%s\)|fk)\)" % (m, rid, m, rid)


def ended_well(extra, last):
    """order within the end of a timer: stopped before destroyed, messages processed and references dropped at last"""
    return [(STOPS, r"\.erase \("), (r"on_timer_trigger", r"do_process|Fl::awake"), (r"\.erase \(|on_timer_trigger|do_process|Fl::awake", r"^release ")]


@prop("C16")
def timers(c):
    # ---- armed: for the given duration, with the given handler, and filed under its request
    for cls, want in ARM.items():
        c.every("armed", cls + "do_start_timer", ARMED, {}, lambda t, x, want=want: None if match([y for y in flat(t)], want) else "the timer is not armed, filed and owned once", "start of a timer",
                atomic=TIMED)
    DUR = {AS: r"call:duration_cast|fnc\(total_\w+,\$0\)", EV: None, FL: r'^call Fl::add_timeout on - \(\(fnc\(total_(nano|micro|milli)seconds,\$0\) / "?(flt:)?\d+"?\)', WX: r"Start(Once)? on %s \(fnc\(total_milliseconds,\$0\)(, 1)?\)" % N}
    units(c)
    for cls, rx in DUR.items():
        if cls == AS:
            rx = r"expires_(after|from_now) on %s \((call:duration_cast|fnc\(total_\w+,\$0\))\)" % N
            c.every("armed-for", AS + "do_start_timer", r"duration_cast on -", {}, lambda t, x: None if all(re.search(r"\(fnc\(total_\w+,\$0\)\)$", y) for y in flat(t)) else "the timer is not armed for the duration given", "duration of a timer", atomic=TIMED)
        if cls == EV:
            rx = r'^w %s->at = \(?fnc\(total_(nano|micro|milli)seconds,\$0\) / "?(flt:)?\d+"?' % N
        c.every("armed-for", cls + "do_start_timer", rx, {}, lambda t, x: None if len(list(flat(t))) == 1 else "the timer is not armed for the duration given", "duration of a timer", atomic=TIMED)
    # ---- the loop's callbacks report the expiry once, then forget the timer
    for cls, rx, sup, tm, extra in (
            (EV, r"^w %s->cb = " % N, "%s->data", "%s", 1), (FL, r"^call Fl::add_timeout", "%s->sup", "%s", 0), (WX, None, "this->sup", "this", None)):
        gs = [(c.fn("rotor::wx::supervisor_wx_t::timer_t::Notify"), "")] if rx is None else hooked(c, cls + "do_start_timer", rx, atomic=TIMED)
        c.need(gs, "no expiry callback of %s" % cls)
        for g, t in gs:
            a = arg(g, extra) if extra is not None else None
            sp, tp = (sup % a, tm % a) if a else (sup, tm)
            m, rid = sp + "->timers_map", tp + "->handler->request_id"
            hs = r"(%s\[%s\]\.second|%s)->handler" % (m, rid, tp)
            up = r"^call Fl::awake on - \(0\)|%s%s " % (PROC, sp) if cls == FL else PROC + sp
            drop = [] if cls == WX else ["^release %s$" % sp]
            c.decide("expired", g, ENDED + r"|do_process|Fl::awake", {"known": r"found\(%s,%s\)" % (m, rid)}, lambda v: [fired(hs, rid, 0), erased(m, rid), up] + drop if v.known else drop, order=ended_well(0, 0), atomic=TIMED)
    # asio: the wait ends in a hand-over to the strand unless it was aborted
    waits = [l for l, t in hooked(c, AS + "do_start_timer", "async_wait", atomic=TIMED)]
    c.need(waits, "asio waits for the timer without a function object")
    for l in waits:
        carries(c, "expiry-owns", l, ["&?this"], "the completion handler of an asio timer")
        c.decide("expired", l, r"boost::asio::(defer|post|dispatch)|on_timer_trigger|timers_map\S*\.erase|do_process", {"failed": r"bool\(@0\)"},
                 lambda v: [] if v.failed else [r"^call boost::asio::(defer|post|dispatch) on - \((this->strand->|fnc\(get_strand,this\)), lambda"], atomic=TIMED)
        ls = c.laters(l, "^$", "boost::asio::(defer|post|dispatch)", 0, atomic=TIMED)
        c.ob("expiry-deferred", len(ls) == 1, l.where, "an expired asio timer is not handed over to the strand", sample="handed over")
        for g in ls:
            carries(c, "expiry-owns", g, ["&?this"], "the deferred expiry of an asio timer")
            rid, m = r"\$1\.request_id", "this->timers_map"
            c.decide("expired", g, ENDED + r"|do_process", {"known": r"found\(%s,%s\)" % (m, rid)}, lambda v: [fired(r"%s\[%s\]\.second->handler" % (m, rid), rid, 0), erased(m, rid), PROC + "this"] if v.known else [],
                     order=ended_well(0, 0), atomic=TIMED)
    # ---- cancelled: stopped, reported once as cancelled, forgotten
    for cls, stop in STOP.items():
        m = "this->timers_map"
        base_ = [fired(m + r"\[\$0\]\.second->handler", r"\$0", 1), erased(m, r"\$0")] + (["^release this$"] if cls in (EV, FL) else [])
        # the native timers of asio and wx stop by themselves when destroyed
        c.decide("cancelled", cls + "do_cancel_timer", ENDED, {"known": r"found\(%s,\$0\)" % m}, lambda v, cls=cls, base_=base_, stop=stop: ([], ["^$never"])[:1] if not v.known else ((base_ + [stop], base_) if cls in (AS, WX) else base_ + [stop]),
                 order=ended_well(0, 0), atomic=TIMED)
    same = set()
    for g, t in hooked(c, FL + "do_start_timer", r"^call Fl::add_timeout", atomic=TIMED):
        same.add(g.qname)
    for g, t in hooked(c, FL + "do_cancel_timer", r"^call Fl::remove_timeout", atomic=TIMED):
        c.ob("same-callback", g.qname in same, g.where, "fltk timers are removed by another callback than they were added with", sample="remove_timeout names the callback of add_timeout")
    # ---- who may report timers and touch the maps
    only_called_by(c, "who-fires", FIRE, {AS + "do_start_timer", AS + "do_cancel_timer", EV + "do_cancel_timer", "timer_cb", FL + "do_cancel_timer", "on_timeout", WX + "do_cancel_timer", "rotor::wx::supervisor_wx_t::timer_t::Notify",
                                          TC + "update_time", TC + "cancel_timer"})
    thread_timers(c)


NODE = r"this->timer_nodes\[(first\([^\]]*\)|adv|fk|\*)\]"
NOW = r"(this->now|call:now)"
DEADLINE = r"\(%s \+ fnc\(total_microseconds,\$0\)\)" % NOW
EXPIRED = (r"*\(%s\.deadline < %s\)" % (NODE, NOW), r"*\(%s < %s\.deadline\)" % (NOW, NODE))


def due(st):
    a, b = truth(st, EXPIRED[0]), truth(st, EXPIRED[1])
    return a if a is not None else None if b is None else not b


def thread_timers(c):
    """the ordered list of deadlines of the thread loop"""
    UT, ST, CT = TC + "update_time", TC + "start_timer", TC + "cancel_timer"
    at_ = TIMED | {UT}
    later = (r"*\(%s < %s\.deadline\)" % (DEADLINE, NODE), r"*\(%s\.deadline < %s\)" % (NODE, DEADLINE))
    # a timer goes in front of the first one which is due later
    places = set()

    def files(n):
        def late(x, k):
            """is timer k due later than the new one? Each of the two may be known to be (not) before the other"""
            node = r"this->timer_nodes\[#%d\]\.deadline" % k
            return truth(x.st, r"*\(%s < %s\)" % (DEADLINE, node)), truth(x.st, r"*\(%s < %s\)" % (node, DEADLINE))

        def place(t, x):
            t = [y for y in t if not y.startswith("algo ")]
            m = re.match(r"c this->timer_nodes\.(?:insert|emplace) \((?:ci\(this->timer_nodes,|#)(\d+)\)?, deadline_info_t\{&\$1,%s\}\)$" % DEADLINE, t[0]) if len(t) == 1 else None
            if m is None:
                m = re.match(r"c this->timer_nodes\.(?:push|emplace)_(back|front) \(deadline_info_t\{&\$1,%s\}\)$" % DEADLINE, t[0]) if len(t) == 1 else None
                if m is None:
                    return "the timer is not filed once with its deadline: %s" % t
                k = n if m.group(1) == "back" else 0
            else:
                k = int(m.group(1))
            places.add((n, k))
            # the list is sorted: its neighbours there decide
            if k < n and not (late(x, k)[0] is True or late(x, k)[1] is False):
                return "the timer is filed before one which is not due later"
            if k and not (late(x, k - 1)[0] is False or late(x, k - 1)[1] is True):
                return "the timer is filed behind one which is due later"
            return None
        return place
    for n in (0, 1, 2):
        c.every("armed-in-order", ST, r"^c this->timer_nodes\.(insert|emplace|push|erase|pop|clear)", {}, files(n), "before the first of %d timers due later, or at the end" % n, atomic=at_, seq={"this->timer_nodes": n})
    c.ob("armed-in-order", len(places) == 6, c.fn(ST).where, "%s does not file a timer at every place: %s" % (ST, sorted(places)))
    # expiry: one after the other from the front, the timer is forgotten before its owner hears of it
    for x in c.run(UT, r"^c this->timer_nodes\.(insert|emplace|push|erase|pop|clear)|on_timer_trigger", turns=True, atomic=TIMED):
        t = list(x.st.hist)
        if x.kind == "turn":
            ok = due(x.st) is True and match(t, [r"^c this->timer_nodes\.(pop_front|erase \((begin|first\())", fired(NODE + r"\.handler", NODE + r"\.handler->request_id", 0)]) and before(t, r"^c ", r"on_timer_trigger")
            c.ob("expired", ok, "%s:%s" % x.loc, "%s: a turn of the loop does %s with a timer that is%s due, expected: forget it, then report it once" % (UT, fmt(t), "" if due(x.st) else " not known to be"), c.trace_of(x.st),
                 sample="forgets the first timer, then reports it")
        else:
            ok = not t and (truth(x.st, r"*empty\(this->timer_nodes\)") is True or due(x.st) is False)
            c.ob("expired", ok, "%s:%s" % x.loc, "%s is left although a timer may be due" % UT, c.trace_of(x.st), sample="left when no timer is due")
    c.every("clock", UT, r"^w this->now", {}, lambda t, x: None if match(t, [r"^w this->now = call:now"]) else "the time is not updated", "now", atomic=TIMED)
    # cancel: exactly the timer of this request
    some = []

    def cancels(n):
        own = lambda k: truth(x_.st, r"*\((%s == \$0|\$0 == %s)\)" % ((r"this->timer_nodes\[#%d\]\.handler->request_id" % k,) * 2))

        def cancelled(t, x):
            nonlocal x_
            x_ = x
            t = [y for y in t if not y.startswith("algo ")]
            if not t:
                return None if all(own(k) is False for k in range(n)) else "nothing is cancelled although the timer may be known"
            for k in range(n):
                if match(t, [r"^c this->timer_nodes\.erase \(#%d\)" % k, fired(r"this->timer_nodes\[#%d\]\.handler" % k, r"(\$0|this->timer_nodes\[#%d\]\.handler->request_id)" % k, 1)]) and before(t, r"\.erase", r"on_timer_trigger"):
                    some.append(k)
                    return None if own(k) else "the timer cancelled may be one of another request"
            return "a timer is not forgotten and then reported as cancelled, once"
        x_ = None
        return cancelled

    for n in (0, 1, 2):
        c.every("cancelled", CT, r"^c this->timer_nodes\.(insert|emplace|push|erase|pop|clear)|on_timer_trigger", {}, cancels(n), "cancel of a timer, %d known" % n, atomic=at_, seq={"this->timer_nodes": n})
    c.ob("cancelled", len(set(some)) == 2, c.fn(CT).where, "%s does not cancel every timer" % CT, sample="each of two timers can be cancelled")
    for f, q, n in ((TH + "do_start_timer", ST, 2), (TH + "do_cancel_timer", CT, 1)):
        c.every("handed-on", f, r"^v?call \S*(start|cancel)_timer", {}, lambda t, x, q=q, n=n: None if match(t, [r"^v?call thread::system_context_thread_t::%s on this->context \((&?\$0)%s\)" % (q.split("::")[-1], r", &?\$1" if n == 2 else "")]) else
                "the timer is not handed on to the loop", "thread supervisor", atomic={ST, CT})
    only_written_by(c, "who-files", "rotor::thread::system_context_thread_t", "timer_nodes", {ST, CT, UT})


# ------------------------------------------------------------------------------------------- C17 inbound queues
IQ = r"(\S+->)inbound_queue"


def moving(t, x, lq, process):
    """every message taken out of the inbound queue is put, once, at the end of the queue of the locality; the queue is
    found empty before messages are processed, and what has been moved is processed"""
    def seq(ts, moved):
        have = adopted = 0
        for y in ts:
            if is_loop(y):
                ms = [seq(it, 0) for it in y[2]]
                bad = next((m for m in ms if isinstance(m, str)), None)
                if bad:
                    return bad
                moved |= any(ms)
            elif y.startswith("popped "):
                if have:
                    return "a message taken out of the inbound queue is lost"
                have = 1
            elif y.startswith("adopt popped"):
                adopted = 1
            elif re.match(r"c %s\.(push_back|emplace_back) \(popped(, 0)?\)" % lq, y):
                if not have:
                    return "a message is queued twice"
                if not y.endswith(", 0)") and not adopted:
                    return "the reference of the message taken out is leaked"
                have, moved = 0, 1
            elif re.match(r"c %s\." % lq, y):
                return "the queue is changed by %s" % y
            elif process and re.search(process, y):
                moved = 0
        return "a message taken out of the inbound queue is lost" if have else moved
    m = seq(t, 0)
    if isinstance(m, str):
        return m
    if process and m and truth(x.st, r"*empty\(%s\)" % lq) is not True:
        return "messages moved are not processed"
    first = next((y for y in t if not is_loop(y) and process and re.search(process, y)), None)
    empt = next((i for i, y in enumerate(t) if not is_loop(y) and y.startswith("popempty ")), None)
    if empt is None:
        return "the inbound queue is not emptied"
    if first is not None and t.index(first) < empt:
        return "messages are processed before the inbound queue was emptied"
    return None


POPS = r"^popped |^popempty |^adopt popped|^c \S+->queue\.(push|emplace|insert|pop|erase|clear|swap|assign)\w* \("
TAKEN = r"^c %s\.push \(\$0\)$|^(put|c \S+->queue\.)" % IQ
INBOUND = r"^c %s\.(push|pop|consume\w*|unsynchronized_\w+|bounded_push) |^(put|c \S+->queue\.)" % IQ


@prop("C17")
def inbound(c):
    # ---- a message goes into the queue of the leader of the locality, then the loop is woken
    wake = {AS: r"^call boost::asio::(defer|post) on - \(this->strand->, lambda", EV: r"^call ev_async_send on - \(this->loop, &this->async_watcher\)"}
    for cls, w in wake.items():
        c.every("enqueue", cls + "enqueue", INBOUND + r"|^call boost::asio::\w+ on|^call ev_", {}, lambda t, x, w=w: None if match(t, [r"^c this->locality_leader->inbound_queue\.push \(\$0\)$", w]) and before(t, "push", "^call ") else
                "the message is not queued at the leader and then the loop woken", "messages from anywhere reach the loop", atomic=PROCESS, **({"devirt": {"rotor::supervisor_t::start": c.fn(EV + "start")}} if cls == EV else {}))
    ls = [l for l, t in hooked(c, AS + "enqueue", r"boost::asio::(defer|post)", atomic=PROCESS)]
    c.need(ls, "asio wakes its loop without a function object")
    for l in ls:
        carries(c, "wake-up-owns", l, ["&?this"], "the wake-up of an asio supervisor")
        c.every("wake-up", l, PROC, {}, lambda t, x: None if match(t, [r"^call asio::supervisor_asio_t::do_process on this "]) else "the woken loop does not process its messages", "wake-up", atomic=PROCESS)
    inb = r"^c this->locality_leader->inbound_queue\.push \(\$0\)$"
    c.every("enqueue", TH + "enqueue", INBOUND + r"|^(lock|dtor unlock|call std::(mutex|unique_lock)\S*) |condition_variable", {}, lambda t, x:
            None if match(t, [inb, r"^lock ", r"notify_(one|all) on this->context->cv", r"^dtor unlock "]) and before(t, "push", "notify") and before(t, "^lock", "notify") else
            "the message is not queued at the leader, and then, with the mutex taken after it (or around both), the loop notified", "a waiting loop sees the message")
    locks(c, "lock-of-loop")
    # fltk: at most one wake-up is pending; the flag is raised after the message was queued
    fl = r"this->context->supervisor"
    flag = r"atomic:exchange\(%s->wakeup_pending\)" % fl
    c.decide("enqueue", FL + "enqueue", INBOUND + r"|^atomic |^(addref|release|detach this|adopt) |Fl::awake", {"root": fl, "pending": flag}, lambda v:
             ([], [r"^c %s->inbound_queue\.push" % fl]) if not v.root else [r"^c %s->inbound_queue\.push \(\$0\)" % fl, r"^atomic exchange on %s->wakeup_pending \(1" % fl] + ([] if v.pending else ["^addref %s$" % fl, r"^call Fl::awake on - \(\S+, %s\)" % fl]),
             order=[("push", "^atomic"), ("^atomic", "Fl::awake"), ("^addref", "Fl::awake")])
    gs = hooked(c, FL + "enqueue", "Fl::awake")
    c.need(gs, "fltk is not woken by a callback")
    for g, t in gs:
        a = arg(g, 0)
        c.every("wake-up", g, r"^atomic |^(adopt|release|addref) |^popped |^popempty ", {}, lambda t, x, a=a: None if match([y for y in t if not is_loop(y) and not y.startswith("pop")], [r"^atomic (operator=|store|exchange|clear) on %s->wakeup_pending( \(0.*)?" % a, r"^(adopt|release) %s$" % a]) and
                before(t, "^atomic", "^pop") and before(t, "^pop", "^release") else "the wake-up flag is not cleared before the queue is emptied, or the reference of the wake-up not given back", "fltk wake-up", atomic=PROCESS)
        c.every("moves-all", g, POPS + "|" + PROC, {}, lambda t, x, a=a: moving(t, x, a + "->queue", PROC + a), "messages from other threads", atomic=PROCESS)
    # wx: the message travels in the event
    ls = [l for l, t in hooked(c, WX + "enqueue", "CallAfter", atomic=PROCESS)]
    c.need(ls, "wx is not woken by a function object")
    c.every("enqueue", WX + "enqueue", r"CallAfter|^put |^c ", {}, lambda t, x: None if match(t, [r"CallAfter on this->handler \(lambda"]) else "not exactly one event is queued", "wx enqueue", atomic=PROCESS)
    for l in ls:
        carries(c, "wake-up-owns", l, ["&?this", r"\$0"], "the event of a wx supervisor")
        c.every("wake-up", l, r"^put |" + PROC, {}, lambda t, x: None if match(t, [r"^put \$0 by this", PROC + "this"]) and before(t, "^put", "do_process") else "the message is not put into the queue and processed", "wake-up", atomic=PROCESS)
    # ---- draining
    c.every("moves-all", AS + "do_process", POPS + r"|^call supervisor_t::do_process", {}, lambda t, x: moving(t, x, r"this->locality_leader->queue", r"^call supervisor_t::do_process on this "), "messages from other threads", atomic={S + "do_process"})
    c.every("moves-all", EV + "on_async", POPS + "|" + PROC, {}, lambda t, x: moving(t, x, r"this->locality_leader->queue", PROC + "this"), "messages from other threads", atomic=PROCESS)
    c.every("moves-rest", EV + "shutdown_finish", POPS + "|ev_async_stop", {}, lambda t, x: moving([y for y in t if is_loop(y) or "ev_async" not in y], x, r"this->locality_leader->queue", None) or
            (None if before(t, "ev_async_stop", "^pop") and "ev_async_stop" in fmt(t) else "the queue is emptied before the watcher is stopped"), "messages arriving during the shutdown", atomic={S + "shutdown_finish"})
    c.every("moves-all", TC + "check", POPS, {}, lambda t, x: moving(t, x, r"this->supervisor->queue", None), "messages arriving while blocking", atomic={TC + "update_time"})
    # ---- ev: the watcher belongs to the supervisor and lives from its initialization to its shutdown
    c.every("watcher", EV + "do_initialize", r"^w this->async_watcher|^call ev_|::do_initialize", {}, lambda t, x: None if match(t, [r"^w this->async_watcher\.data = this$", r"^call ev_async_start on - \(this->loop, &this->async_watcher\)", r"::do_initialize on this \(\$0\)"]) and
            before(t, "^w ", "ev_async_start") and before(t, "ev_async_start", "::do_initialize") else "the watcher is not started, for this supervisor, before the initialization", "ev wake-ups", atomic={S + "do_initialize", A + "do_initialize"})
    ctor = [f for f in c.p.find("rotor::ev::supervisor_ev_t::supervisor_ev_t") if not f.copymove]
    for f in ctor:
        gs = hooked(c, f, r"^(init|w) this->async_watcher\.cb = ")
        c.ob("watcher", bool(gs), f.where, "the watcher has no callback", sample="callback")
        for g, t in gs:
            c.every("wake-up", g, r"on_async|" + POPS + "|" + PROC, {}, lambda t, x, g=g: None if match(t, [r"^v?call ev::supervisor_ev_t::on_async on %s->data " % arg(g, 1)]) else moving(t, x, arg(g, 1) + "->data->locality_leader->queue", PROC), "ev wake-up", atomic=PROCESS)
    # ---- the first wake-up: messages put before the loop runs are processed once it does
    c.every("start", EV + "start", r"^call ev_", {}, lambda t, x: None if match(t, [wake[EV]]) else "the loop is not woken", "start")
    for cls, rx in ((AS, r"boost::asio::(defer|post)"), (FL, "Fl::awake"), (WX, "CallAfter")):
        ls = hooked(c, cls + "start", rx, atomic=PROCESS)
        c.ob("start", len(ls) == 1, c.fn(cls + "start").where, "start does not hand one function to the loop", sample="start hands over")
        for l, t in ls:
            who = {AS: r"\S+", FL: arg(l, 0), WX: "this"}[cls]
            c.every("start", l, PROC + "|^(release|adopt) ", {}, lambda t, x, who=who, cls=cls: None if match(t, [PROC + who] + (["^(release|adopt) %s$" % who] if cls == FL else [])) and (cls != FL or before(t, "do_process", "^release")) else "the loop does not process its messages", "start", atomic=PROCESS)
            if cls == WX:
                carries(c, "wake-up-owns", l, ["&?this"], "the start of a wx supervisor")
    c.every("start", FL + "start", r"^addref |Fl::awake", {}, lambda t, x: None if match(t, ["^addref this$", r"^call Fl::awake on - \(\S+, this\)"]) else "the supervisor is not kept alive until the wake-up", "start")
    # ---- messages nobody will process any more are released
    for q in ("rotor::supervisor_t::~supervisor_t", "rotor::system_context_t::~system_context_t"):
        c.every("rest-released", q, r"^(popped|popempty|release popped|adopt popped)", {}, given_back, "messages left in the inbound queue", atomic=set())
    # ---- nobody else takes messages out
    outs = {AS + "do_process", EV + "move_inbound_queue", EV + "on_async", EV + "shutdown_finish", TC + "run", TC + "check", "rotor::supervisor_t::~supervisor_t", "rotor::system_context_t::~system_context_t", "rotor::plugin::locality_plugin_t::activate"} | {base(g.qname) for g, t in gs if isinstance(g, P.Func)}
    ins = {AS + "enqueue", EV + "enqueue", TH + "enqueue", FL + "enqueue", "rotor::fltk::system_context_fltk_t::enqueue", "rotor::supervisor_t::supervisor_t"}
    outs |= {base(g.qname) for g, t in hooked(c, FL + "enqueue", "Fl::awake") if isinstance(g, P.Func)}
    for f in users_of(c.p, "rotor::supervisor_t", "inbound_queue"):
        c.sites += 1
        c.ob("who-drains", helper_of(c.p, f, outs | ins), f.where, "%s uses the inbound queue" % f.qname, sample=short_q(f.qname), key="who-drains|%s" % base(f.qname))


def given_back(t, x):
    n = [0, 0]
    for y in t:
        for it in (y[2] if is_loop(y) else [[y]]):
            k = [sum(z.startswith(w) for z in it if isinstance(z, str)) for w in ("popped ", "release popped", "adopt popped")]
            if k[0] != k[1] + k[2]:
                return "a message taken out of the inbound queue is not released exactly once"
            n[0] += k[0]
    if truth(x.st, "~this->supervisor") is False and not t:
        return None
    return None if any(isinstance(y, str) and y.startswith("popempty ") for y in t) else "the inbound queue is not emptied"


def locks(c, rule):
    """the lock taken is the one the loop waits with"""
    seen = []

    def look(eng, ev, t):
        if t.startswith("lock "):
            seen.append(", ".join(E.show(eng.V(ev.st, a)) for a in ev.args))
    c.run(TH + "enqueue", "^$", None, guard=look)
    c.ob(rule, seen and all("this->context->mutex" in s for s in seen), c.fn(TH + "enqueue").where, "enqueue takes %s" % seen, sample="the mutex of the loop: %s" % seen)


# ------------------------------------------------------------------------------------------- C35 forwarders
@prop("C35")
def forwarders(c):
    fs = family(c, "rotor::asio::forwarder_t::operator()", least=4)
    shapes = set()
    for f in fs:
        errs = bool(f.params) and "error_code" in f.params[0]["t"]
        n = len(f.params)
        shapes.add((errs, n))
        got = []

        def look(eng, ev, t):
            m = re.match(r"call boost::asio::(\w+) on", t)
            if m:
                ls = [Later(f, eng.V(ev.st, a), eng.lams) for a in ev.args if eng.V(ev.st, a).op == "lam"]
                got.append((t, ls, truth(ev.st, r"bool\(\$0\)") if errs else False, c.trace_of(ev.st)))
                return t
            return None
        xs = c.run(f, r"pmcall|do_process", tagger=look, atomic=PROCESS)
        for x in xs:
            c.ob("through-strand", match(list(x.st.hist), [r"^call boost::asio::(defer|post) on - \(this->typed_actor->supervisor->strand->, lambda"]), "%s:%s" % x.loc,
                 "%s does not hand the completion, once, over to the strand of the actor's supervisor: %s" % (f.qname, fmt(x.st.hist)), c.trace_of(x.st), sample="forwarder of %d argument(s)%s hands over to the strand" % (n, " with error" if errs else ""))
        c.need(got or c.violations, "%s hands nothing over" % f.qname)
        both = set()
        for t, ls, failed, tr in got:
            if failed is None:
                c.ob("by-outcome", False, f.where, "%s hands over the same function whether or not there is an error" % f.qname, tr, key="by-outcome|%s" % f.qname)
                continue
            both.add(failed)
            for l in ls:
                carries(c, "owns", l, [r"this->typed_actor"], "the completion forwarded by a forwarder of %d argument(s)%s" % (n, " with error" if errs else ""))
                args = ["0"] if failed else [str(i) for i in range(1 if errs else 0, n)]
                call = r"^pmcall \(\S*this->typed_actor->?\)? \.\* this->%s\)%s$" % ("err_handler" if failed else "handler", r" \(%s\)" % ", ".join(r"(?:copyof\()?\$%s\)?" % a for a in args) if args else r"( \(\))?")
                c.every("by-outcome", l, r"^pmcall|do_process", {}, lambda t, x, call=call: None if match(t, [call, PROC + r"this->typed_actor->supervisor"]) and before(t, "^pmcall", "do_process") else
                        "%s: %s is expected, and then the processing of the messages" % (fmt(t), "the error handler" if failed else "the handler with all arguments"), "forwarder of %d argument(s), %s" % (n, "error" if failed else "success"), atomic=PROCESS)
        c.ob("by-outcome", both == ({True, False} if errs else {False}), f.where, "%s does not distinguish success and error" % f.qname, sample="outcomes of a forwarder of %d argument(s)" % n)
    c.need({(False, 0), (False, 1), (True, 1), (True, 2)} <= shapes, "not all kinds of forwarders are instantiated: %s" % sorted(shapes))
    for f in family(c, "rotor::asio::forwarder_base_t::forwarder_base_t", least=2):
        if f.copymove:
            continue
        want = [r"^init this->typed_actor = &?\$0$", r"^init this->handler = (.*\{)?\$1\}?$"] + ([r"^init this->err_handler = (.*\{)?\$2\}?$"] if len(f.params) > 2 else [])
        c.every("keeps", f, r"^init this->(typed_actor|handler|err_handler)", {}, lambda t, x, want=want: None if match(t, want) else "actor and handlers are not kept as given", "forwarder")


# ------------------------------------------------------------------------------------------- C36 shutdown from outside
HANDOFF = r"boost::asio::(defer|post)|Fl::awake|CallAfter|supervisor_t::enqueue"
TOUCH = r"^(w|c|put|send|route|atomic|popped|timer|subscribe|unsubscribe|request|reply) (?!new<)|^v?call "
QUIET = r"^call (\S*::)?(get_address|get_supervisor|get_strand|category|value|message|what|c_str|str|to_string|make_error|make_error_code|identity)\b|^w new<"


@prop("C36")
def from_outside(c):
    st = A + "start_timer"
    poll = r"^call actor_base_t::start_timer on this \(this->shutdown_poll_frequency, (this->|\*this|this), (\S+)\)$"
    at_ = {A + "on_start", st}
    c.decide("polls-flag", S + "on_start", r"start_timer|::on_start", {"flag": r"this->shutdown_flag"}, lambda v: [r"^call actor_base_t::on_start on this"] + ([poll] if v.flag else []), order=[("on_start", "start_timer")], atomic=at_)
    gs = hooked(c, S + "on_start", r"::start_timer on this", atomic=at_)
    c.need(gs, "the supervisor does not poll its shutdown flag")
    names = set()
    for g, t in gs:
        names.add(g.qname)
        c.decide("checks-flag", g, r"start_timer|do_shutdown|do_process", {"cancelled": r"\$1", "set": r"*atomic:(operator bool|load)\(this->shutdown_flag->?\)"}, lambda v:
                 [] if v.cancelled else [r"^v?call actor_base_t::do_shutdown on this \("] if v.set else [poll], atomic=at_)
        for h, t2 in hooked(c, g, r"::start_timer on this", atomic=at_):
            c.ob("checks-flag", h.qname == g.qname, g.where, "the flag is polled the next time by %s" % h.qname, sample="polled again by the same check")
    # ---- the calls: hand over, and nothing else, on the caller's thread
    trig = r"^vcall supervisor_t::enqueue on this->supervisor \(msg<shutdown_trigger_t>@this->supervisor->address\(this->address,(error\(normal\)|new<extended_error_t>)\)\)$"
    hand = {AS: r"^call boost::asio::(defer|post) on - \(\S+->strand->, lambda", EV: trig, TH: trig, FL: r"^call Fl::awake on - \(\S+, this\)$", WX: r"CallAfter on this->handler \(lambda"}
    for cls, h in hand.items():
        def quiet(t, x, h=h, cls=cls):
            rest = [y for y in t if not re.search(QUIET, y)]
            if not match(rest, [h] + (["^addref this$"] if cls == FL else [])):
                return "more or less than one hand-over to the loop happens in the thread of the caller"
            return None if before(t, "^addref", "Fl::awake") else "the supervisor may be gone when the loop calls back"
        c.every("thread-safe", cls + "shutdown", TOUCH + "|^(addref|release) this", {}, quiet, "shutdown from any thread", atomic=PROCESS | {A + "do_shutdown"})
    for cls, rx in ((FL, "Fl::awake"), (WX, "CallAfter")):
        gs = hooked(c, cls + "shutdown", rx, atomic=PROCESS)
        c.need(gs, "shutdown of %s hands over no function" % cls)
        for g, t in gs:
            who = arg(g, 0) if cls == FL else "this"
            w = [r"^v?call actor_base_t::do_shutdown on %s \(" % who, PROC + who] + (["^(release|adopt) %s$" % who] if cls == FL else [])
            c.every("handed-over", g, r"do_shutdown|do_process|^(release|adopt) ", {}, lambda t, x, w=w: None if match(t, w) and before(t, "do_shutdown", "do_process") and before(t, "do_process", "^release") else "the loop does not shut the supervisor down and process the messages", "shutdown in the loop", atomic=PROCESS)
            if cls == WX:
                carries(c, "owns", g, ["&?this"], "the shutdown event of a wx supervisor")
    # asio: through a forwarder (judged by C35) or a function of its own
    gs = hooked(c, AS + "shutdown", r"^ctor rotor::asio::forwarder_t", atomic=PROCESS) or hooked(c, AS + "shutdown", "boost::asio::(defer|post)", atomic=PROCESS)
    c.need(gs, "shutdown of asio hands over no function")
    for g, t in gs:
        c.every("handed-over", g, r"do_shutdown", {}, lambda t, x: None if match(t, [r"^v?call actor_base_t::do_shutdown on this \((error\(normal\)|0|new<)"]) else "the loop does not shut the supervisor down", "shutdown in the loop", atomic=PROCESS)
        if isinstance(g, Later):
            carries(c, "owns", g, ["&?this"], "the shutdown of an asio supervisor")


# ------------------------------------------------------------------------------------------- C40 thread loop
@prop("C40")
def thread_loop(c):
    f, UT = TC + "run", TC + "update_time"
    sd = c.S("SHUT_DOWN")
    at_ = TIMED | {UT}
    down = (r"*\S+->state", sd, sd)
    keep = POPS + r"|^(lock|dtor unlock|vcall) |do_process|update_time|^(v?call|c) std::condition_variable|^c this->timer_nodes\.(front|back|begin)|^c \S*inbound_queue\.empty"
    none = r"*empty\(\S+->queue\)"
    notimer = r"*empty\(this->timer_nodes\)"
    front = r"this->timer_nodes\[(\*|first\(.*\))\]\.deadline"
    waits = [0]

    def at_wait(eng, ev, t):
        if not re.search(r"condition_variable(_any)?::wait", t):
            return
        waits[0] += 1
        where = "src/rotor/thread/system_context_thread.cpp:%s" % ((ev.node or {}).get("l", "?") if ev.node else "?")
        tr = c.trace_of(ev.st)
        hist = [y for y in ev.st.hist if isinstance(y, str)]
        lk = [y for y in hist if y.startswith(("lock ", "dtor unlock "))]
        c.ob("waits-locked", lk and re.search(r"^lock \S+ on \S+ \(&this->mutex", lk[-1]) and re.search(r" on this->cv \(", t), where, "%s waits without holding the mutex of the loop: %s" % (f, t), tr, sample="waits with the mutex held")
        c.ob("waits-idle", truth(ev.st, none) is True, where, "%s waits although messages may be queued" % f, tr, sample="waits only when no message is queued")
        args = [E.show(eng.V(ev.st, a)).replace("'", "") for a in ev.args]
        since = hist[len(hist) - hist[::-1].index(lk[-1]):] if lk else []
        looked = any("inbound_queue.empty" in y for y in since) and truth(ev.st, r"*lfempty") is True
        c.ob("waits-for-messages", looked or any(eng.V(ev.st, a).op == "lam" for a in ev.args), where, "%s waits without looking at the inbound queue" % f, tr, sample="the inbound queue is looked at under the lock")
        timer = truth(ev.st, notimer) is not True
        lim = [a for a in args if re.search(front, a)]
        ok = not timer or (lim and not re.search(r"timer_nodes\.back", fmt(hist)) and "wait(" not in t)
        c.ob("waits-to-deadline", ok, where, "%s waits with a pending timer, but not until the first deadline: %s" % (f, t), tr, sample="waits until %s" % (lim[0] if lim else "something happens, there is no timer"))

    for x in c.run(f, keep, guard=at_wait, turns=True, atomic=at_):
        t = list(x.st.hist)
        where, tr = "%s:%s" % x.loc, c.trace_of(x.st)
        procs = [i for i, y in enumerate(t) if not is_loop(y) and re.search(PROC, y)]
        if x.kind != "turn":
            c.ob("ends-shut-down", truth(x.st, down) is True, where, "%s ends although its supervisor may not be shut down" % f, tr, sample="ends only when shut down")
            c.ob("ends-processed", procs and procs[-1] == len(t) - 1, where, "%s ends without processing the last messages" % f, tr, sample="processes the last messages")
            continue
        c.ob("processes", bool(procs) and not any("popped" in y or "wait" in y for y in list(flat(t))[:procs[0] if procs else 0]), where, "a turn of %s does not process the queued messages first: %s" % (f, fmt(t)), tr, sample="each turn processes the queue first")
        if truth(x.st, down) is True:
            continue
        m = moving([y for y in t if is_loop(y) or re.match("pop|adopt|c \\S+->queue", y)], x, r"\S+->queue", None)
        c.ob("moves-inbound", m is None, where, "a turn of %s: %s" % (f, m), tr, sample="each turn moves the inbound messages")
        ut = [i for i, y in enumerate(t) if not is_loop(y) and "update_time" in y]
        wt = [i for i, y in enumerate(t) if any("condition_variable" in z for z in flat([y]))]
        c.ob("fires-timers", ut and (not wt or ut[-1] > wt[-1]), where, "a turn of %s does not fire the timers due%s" % (f, " after waiting" if wt else ""), tr, sample="each turn fires the due timers")
        # a busy wait is no longer than the next deadline either
        for k, d in x.st.fa.items():
            s = E.show(k).replace("'", "")
            if re.match(r"\(call:now < .*total_microseconds", s) and truth(x.st, notimer) is not True and not re.match(r"\(call:now < fnc\(min,.*timer_nodes\[", s):
                bound = "fnc(" not in s.replace("fnc(total", "") and any("timer_nodes[" in E.show(k2) and "total_microseconds" in E.show(k2) for k2 in x.st.fa)
                c.ob("spins-to-deadline", bound, where, "%s polls until %s whatever the first deadline" % (f, s), tr, sample="polls to the deadline at most")
    c.need(waits[0], "the thread loop does not wait")
    for l, t in hooked(c, f, r"condition_variable(_any)?::wait", atomic=at_):
        c.every("wakes-for-messages", l, "^w ", {}, lambda t, x: None if re.fullmatch(r"!(lfempty|empty\(\S*inbound_queue\)|\S*inbound_queue\S*)|\(?(lfempty|empty\(\S*inbound_queue\)) == 0\)?", E.show(x.val).replace("'", "")) and not t else "the loop is woken by %s" % E.show(x.val), "wait condition")
    # blocking handlers: timers and messages are looked at before and after
    io = r"\(\$1 == glob\(\d+,rotor::tags::io\)\)|\(glob\(\d+,rotor::tags::io\) == \$1\)"
    con = r"^call supervisor_t::intercept on this \(\$0, \$1, \$2\)"
    w = r"^w this->context->intercepting = "
    chk = r"^call thread::system_context_thread_t::check on this->context"
    c.decide("blocking", TH + "intercept", r"intercepting|::check|::intercept on", {"io": io}, lambda v: [w + "1", chk, con, w + "0", chk] if v.io else [con], order=[(w + "1", con), (con, w + "0")], atomic={TC + "check", S + "intercept", UT})
    for x in c.run(TH + "intercept", r"::check|::intercept on", atomic={TC + "check", S + "intercept", UT}):
        t = [y.split(" on ")[0].split("::")[-1] for y in x.st.hist]
        c.ob("blocking", t in (["check", "intercept", "check"], ["intercept"]), "%s:%s" % x.loc, "the loop looks at timers and messages not before and after a blocking handler: %s" % t, c.trace_of(x.st), sample="before and after")
    c.every("blocking", TC + "check", r"update_time", {}, lambda t, x: None if match(t, ["update_time"]) else "timers are not looked at", "blocking handlers", atomic={UT})
    fresh = r"^call thread::system_context_thread_t::update_time on this "
    for q in (TC + "start_timer", TC + "cancel_timer"):
        c.decide("clock-of-blocking", q, "update_time", {"blocking": r"this->intercepting"}, lambda v: [fresh] if v.blocking else ([], [fresh]), atomic=at_)
