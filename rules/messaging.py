"""C08..C12, C30, C31, C38: queues, delivery, subscriptions, localities"""
from rulekit import *
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
S = "rotor::supervisor_t::"
PL = "rotor::plugin::"
T_ = "rotor::subscription_t::"
IS = re.escape
LD = PL + "local_delivery_t::delivery"
ILD = PL + "inspected_local_delivery_t::"
GR = T_ + "get_recipients"
MSG = r"this->queue->\[\*\]"
PROC = {LD, ILD + "delivery", ILD + "discard", GR}


def turns(c, rule, f, keep, conds, expect, rest, **kw):
    """each turn of the loop is judged like decide(); an exit that is no turn satisfies rest(tags, exit)"""
    names = sorted(conds)
    n = 0
    for x in c.run(f, keep, None, turns=True, **kw):
        tags = list(x.st.hist)
        if x.kind != "turn":
            m = rest(tags, x)
            c.ob(rule, m is None, "%s:%s" % x.loc, "%s: %s (%s)" % (f.qname, m, fmt(tags)), c.trace_of(x.st), sample="%s leaves the loop: %s" % (short_q(f.qname), fmt(tags)))
            continue
        n += 1
        val = {k: truth(x.st, conds[k]) for k in names}
        free = [k for k in names if val[k] is None]
        bad = None
        for bits in range(1 << len(free)):
            v = dict(val)
            for i, k in enumerate(free):
                v[k] = bool(bits >> i & 1)
            w = expect(NS(v))
            if w is not None and not match(tags, w):
                bad = (v, fmt(w))
                break
        cs = ", ".join("%s%s" % ("" if v else "not ", k) for k, v in (bad[0] if bad else val).items() if v is not None)
        c.ob(rule, bad is None, "%s:%s" % x.loc, "%s: a turn of the loop with %s does %s, expected %s" % (f.qname, cs, fmt(tags), bad[1] if bad else ""), c.trace_of(x.st),
             sample="%s, a turn with %s => %s" % (short_q(f.qname), cs, fmt(tags)), key="%s|%s|%s|%s" % (rule, base(f.qname), cs, fmt(tags)))
    c.need(n, "%s has no loop" % f.qname)


def process_fns(c):
    fs = family(c, PL + "delivery_plugin_t::process", least=2)
    return fs


PCONDS = {"local": r"*\(this->queue->\[first\(.*\)\]->address->locality == this->address->locality\)|\(this->address->locality == this->queue->\[first\(.*\)\]->address->locality\)",
          "known": r"*call:get_recipients", "routed": r"*this->queue->\[first\(.*\)\]->next_route", "last": (r"*fnc\(use_count,this->queue->\[first\(.*\)\]->\)", 1, 1)}


# ------------------------------------------------------------------------------------------- C08 queue
@prop("C08")
def queue(c):
    # a turn of the delivery loop takes exactly the first message out; the loop ends only when nothing is left
    def rest(tags, x):
        if tags:
            return "messages are touched on the way out"
        return None if truth(x.st, r"*empty\(this->queue->\)") or truth(x.st, (r"*size\(this->queue->\)", 0, 0)) else "the loop is left although the queue may still hold messages"

    def expect(v):
        out = [r"^c this->queue->\.pop_front \(\)"]
        if not v.local:
            out.append(r"^vcall supervisor_t::enqueue on %s->address->supervisor \(%s\)" % (MSG, MSG))
        return out
    for f in process_fns(c):
        turns(c, "one-message-per-turn", f, r"^c this->queue->\.(pop|push|erase|clear|emplace|insert|assign|swap|resize)|^vcall \S*enqueue", PCONDS, expect, rest, atomic=PROC)
    c.every("put-appends", S + "put", r"^(c|w) .*queue", {}, lambda t, x: None if match(t, [r"^c this->locality_leader->queue\.push_back \(\$0\)"]) else "message not appended once to the queue of the locality", "send order")
    c.every("uplift", S + "uplift_last_message", r"^c \S*queue\S*\.(pop|push|erase|insert|clear|emplace)", {}, lambda t, x: None if
            match(t, [r"^c this->locality_leader->queue\.push_front \(this->locality_leader->queue\[\*\]\)", r"^c this->locality_leader->queue\.pop_back \(\)"]) else
            "the last message is not moved exactly once to the front", "responses overtake as documented")
    c.every("drain-leader", S + "do_process", r"^v?call \S*process", {}, lambda t, x: None if match(t, [r"^vcall \S*process on this->locality_leader->delivery"]) else "the queue of the locality is not processed", "draining")
    only_called_by(c, "who-uplifts", S + "uplift_last_message", {"rotor::request_builder_t::install_handler"})
    # sending puts exactly the new message into the queue
    sent = lambda rx: (lambda t, x: None if match(t, [rx]) else "not exactly one message is put into the queue")
    for f in family(c, A + "send"):
        c.every("send", f, r"^(put|send|route|c \S*queue)", {}, sent(r"^send \S+ -> \$0 \("), "send puts one message for the given address")
    for f in family(c, A + "route"):
        c.every("route", f, r"^(put|send|route|c \S*queue)", {}, sent(r"^route \S+ -> \$0 via \$1 \("), "route puts one message for the given address")
    c.every("redirect", A + "redirect", r"^(put|send|route|w \$0->|c \S*queue)", {}, lambda t, x: None if match(t, [r"^w \$0->address = \$1$", r"^w \$0->next_route = \$2$", r"^put \$0 "]) and before(t, "^w", "^put") else
            "the message is not redirected and put once", "redirect")
    # nobody else touches the queue: senders append through put, back ends move their inbound messages
    allowed = {S + "put", S + "uplift_last_message"} | {base(f.qname) for f in process_fns(c)} | {PL + "delivery_plugin_base_t::activate"}
    for f in users_of(c.p, "rotor::supervisor_t", "queue"):
        c.sites += 1
        c.funcs.add(f.qname)
        if helper_of(c.p, f, allowed):
            c.ob("queue-users", True, f.where, "", sample=short_q(f.qname))
            continue
        # any other function may only append, and only what it took from an inbound queue
        bad = []

        def guard(eng, ev, t):
            if ev.kind == "cont" and re.match(r"c \S*->queue\.", t) and ev.name not in ("size", "empty", "begin", "end", "back", "front"):
                if not re.match(r"c \S*->queue\.(emplace|push)_back \(", t):
                    bad.append(t)
        c.run(f, "^$", None, guard=guard, atomic={S + "do_process"} | PROC)
        c.ob("queue-users", not bad, f.where, "%s changes the message queue other than by appending: %s" % (f.qname, "; ".join(bad[:2])), sample="%s only appends" % short_q(f.qname), key="queue-users|%s" % base(f.qname))


# ------------------------------------------------------------------------------------------- C09 delivery
@prop("C09")
def delivery(c):
    def expect(v):
        return [r"^call (inspected_)?local_delivery_t::delivery on - \(%s, call:get_recipients->" % MSG] if v.local and v.known else []

    for f in process_fns(c):
        turns(c, "deliver-local", f, r"^call \S*delivery_t::delivery", PCONDS, expect, lambda t, x: None if not t else "delivers outside of the loop", atomic=PROC)

        def lookup(eng, ev, t):
            if ev.kind == "call" and ev.name == GR:
                c.ob("lookup", re.match(r"call subscription_t::get_recipients on this->subscription_map \(this->queue->\[\*\]->\)", t), f.where, "%s looks recipients up by %s" % (f.qname, t), sample=t)
        c.run(f, "^$", None, guard=lookup, atomic=PROC, turns=True)
    # everybody in the list, the handlers of other supervisors through their own supervisor
    out = []
    for i in range(2):
        out.append(r"^vcall supervisor_t::enqueue on \$1\.external\[#%d\]->actor_ptr->supervisor \(msg<handler_call_t>@\$1\.external\[#%d\]->actor_ptr->supervisor->address\(\$0,\$1\.external\[#%d\]\)\)" % (i, i, i))
        out.append(r"^vcall handler_base_t::call on \$1\.internal\[#%d\] \(\$0\)" % i)
    for q, extra in ((LD, ()), (ILD + "delivery", ())):
        c.every("every-handler", q, r"^vcall (handler_base_t|supervisor_t)::", {}, lambda t, x: None if match(t, out) else "with 2 internal and 2 external handlers the message is not offered once to each",
                "each subscribed handler gets the message once", seq={"$1.external": 2, "$1.internal": 2}, atomic={"atoi"})
        c.every("nobody-else", q, r"^vcall (handler_base_t|supervisor_t)::", {}, lambda t, x: None if not t else "calls a handler although none is subscribed", "no handler, no call", seq={"$1.external": 0, "$1.internal": 0})
    # the lookup: exactly the entry of this type and address
    key = r"subscription_key_t\{\$0\.address,\$0\.type_index\}"
    fd = r"found\(this->mine_handlers,%s\)" % key
    c.decide("recipients", GR, "^$", {"f": fd}, lambda v: [], ret=lambda v, x: None if (re.fullmatch(r"&?this->mine_handlers\[%s\]\.second" % key, E.show(x.val)) if v.f else x.val is E.ZERO) else "returns %s" % E.show(x.val))
    same = c.fn("rotor::address_t::same_locality")
    c.every("same-locality", same, "^$", {}, lambda t, x: None if truth(x.st, r"\((this->locality == \$0\.locality|\$0\.locality == this->locality)\)") is (E.show(x.val) == "1") else "compares %s" % E.show(x.val), "locality identity")
    # messages and handlers of one type, and only those, carry the same type index
    for f in c.p.all_funcs():
        if f.ctor and base(f.qname) == "rotor::message_t::message_t" and f.inits is not None:
            c.every("type-index", f, r"^init this->type_index", {}, lambda t, x, f=f: None if len(t) == 1 and re.search(r"= (glob\(\d+,)?%s::message_type\)?$" % IS(f.cls), t[0]) else "type index %s" % fmt(t), "a message carries its own type")
    for f in family(c, "rotor::handler_t::message_type"):
        c.every("handler-type", f, "^$", {}, lambda t, x: None if re.search(r"rotor::message_t<.*>::message_type\)?$", E.show(x.val)) else "returns %s" % E.show(x.val), "a handler is filed under its message type")


def found_exactly(c):
    # the subscription is found exactly when handler type, actor and address agree
    find = c.fn("rotor::subscription_container_t::find")
    for n in (0, 1, 2):
        hits = set()
        for x in c.run(find, "^$", None, seq={"this->": n}):
            m = re.search(r"^ci\(.*,(\d+)\)$", E.show(x.val).replace("'", ""))
            c.need(m, "what %s returns" % find.qname)
            at, fa = int(m.group(1)), {E.show(k).replace("'", ""): d for k, d in x.st.fa.items()}
            hits.add(at)
            for i in range(n):
                eqs = {w: next((d[0] for k, d in fa.items() if d[0] == d[1] and "==" in k and re.search(r"\[#%d\]\S*\b%s\b" % (i, w), k) and re.search(r"\$0\S*\b%s\b" % w, k)), None) for w in ("handler_type", "actor_ptr", "address")}
                if i == at:
                    miss = [w for w, d in eqs.items() if d != 1]
                    c.ob("same-subscription", not miss, find.where, "a subscription is found although %s may differ" % ", ".join(miss), sample="found only when handler type, actor and address agree")
                elif at == n:
                    c.ob("same-subscription", 0 in eqs.values(), find.where, "a subscription is not found although handler type, actor and address may agree", sample="not found only when no subscription agrees")
        c.ob("same-subscription", hits == set(range(n + 1)), find.where, "among %d subscriptions, only the outcomes %s occur" % (n, sorted(hits)), sample="each of %d subscriptions can be found" % n)


@prop("C10")
def remote(c):
    # handlers are called by the delivery of their own locality or by the forwarder of their own supervisor, nobody else
    only_called_by(c, "who-calls-handlers", "rotor::handler_base_t::call", {LD, PL + "foreigners_support_plugin_t::on_call"})
    only_called_by(c, "who-calls-unchecked", "rotor::handler_base_t::call_no_check", {"rotor::continuation_impl_t::operator()", "continuation_impl_t::operator()", "rotor::handler_intercepted_t::call_no_check"} | {"rotor::handler_t::call"})
    f = PL + "foreigners_support_plugin_t::on_call"
    h = r"\$0\.payload\.handler"
    pts = h + r"->actor_ptr->lifetime->points"
    c.decide("forward", f, r"^vcall handler_base_t::|subscription_container_t::find on", {
        "alive": r"found\(this->actor->alive_actors,%s->actor_ptr\)" % h, "up": (h + "->actor_ptr->state", -E.INF, c.S("SHUTTING_DOWN")), "lifetime": h + "->actor_ptr->lifetime",
        "gone": r"~\(call:find == end\(%s\)\)" % pts},
        lambda v: [r"find on %s \(\{address=\$0\.payload\.orig_message->address,handler=%s,.*\}\)" % (pts, h)] * (v.alive and v.up and v.lifetime) + (
            [r"^vcall handler_base_t::call on call:find->->handler \(\$0\.payload\.orig_message\)"] if v.alive and v.up and v.lifetime and not v.gone else []), atomic={"rotor::subscription_container_t::find"})
    found_exactly(c)
    # a wrapped call keeps handler and message alive
    r = c.p.records.get("rotor::payload::handler_call_t") or c.need(False, "handler_call_t not found")
    for n in ("orig_message", "handler"):
        t = next((f["t"] for f in r["fields"] if f["name"] == n), "")
        c.ob("kept-alive", "intrusive_ptr" in t, "include/rotor/messages.hpp", "handler_call_t::%s is %s, not an owning pointer" % (n, t), sample="%s: %s" % (n, t))
    for f in c.p.find("rotor::handler_base_t::handler_base_t"):
        if f.copymove:
            continue
        c.every("handler-owns-actor", f, r"^(call|own) .*intrusive_ptr_(add_ref|release)|^(addref|release)", {}, lambda t, x: None if len(t) == 1 and "release" not in t[0] else "a handler does not take one reference to its actor", "handlers keep their actor alive")


# ------------------------------------------------------------------------------------------- C11 table
def same_loc(a, b):
    return r"\((?:%s->locality == %s->locality|%s->locality == %s->locality)\)" % (a, b, b, a)


@prop("C11")
def table(c):
    f = T_ + "materialize"
    own = r"this->main_address"
    ia, ih = same_loc(r"\$0\.address", own), same_loc(r"\$0\.handler->actor_ptr->address", own)
    key = r"subscription_key_t\{\$0%saddress,call:message_type\}"
    C = r"^(c|w) this->(internal_infos|mine_handlers)\S*(\.(push|pop|emplace|try_emplace|insert|erase|clear|assign|swap|resize|insert_or_assign)\w*)? (\(|=)"
    what = (r"^c this->(internal_infos|mine_handlers)\S*\.(push|pop|emplace|insert|erase|clear|assign|swap|resize)\w* \(|^w this->(internal_infos|mine_handlers)")
    mh = r"this->mine_handlers\[%s\]\.second\." % key
    c.decide("materialize", f, what, {"ia": ia, "ih": ih}, lambda v: [
        r"^c this->internal_infos\[\$0\.address\]\.second\.push_back \(new<subscription_info_t>\)$",
        r"^c %s%s\.push_back \(\$0\.handler\)$" % (mh % r"\.", "internal" if v.ih else "external")] if v.ia else [],
        ret=lambda v, x: None if E.show(x.val) == "new<subscription_info_t>" else "returns something else than the new record")
    est, sub = (c.E("rotor::subscription_info_t::state_t", n) for n in ("ESTABLISHED", "SUBSCRIBING"))
    nw = r"^init new<subscription_info_t>->"
    c.decide("record", f, nw, {"ia": ia, "ih": ih}, lambda v: [nw + r"%s = \$0\.%s$" % (n, n) for n in ("handler", "address", "owner_ptr", "owner_tag")] + [
        nw + r"internal_address = (%s|%d)$" % (ia, v.ia), nw + r"internal_handler = (%s|%d)$" % (ih, v.ih), nw + r"state = %d$" % (est if v.ia else sub)])
    for n in ("internal_address", "internal_handler"):
        only_written_by(c, "info-fixed", "rotor::subscription_info_t", n, {"rotor::subscription_info_t::subscription_info_t"}, least=0)
    # forget: exactly the one record and the one handler; lists of one and two stand for any length, each entry is looked at on its own
    i0 = "this->internal_infos[$0->address].second"
    m0 = "this->mine_handlers[subscription_key_t{$0->address,call:message_type}].second."

    def forgets(n, ni, ne):
        def cut(tags, x, C, m, suffix):
            """the position taken out of C, None for a wrong one, False when no entry can be the one"""
            same = [truth(x.st, "*" + eqn(C + "[#%d]" % k + suffix, "$0->handler")) for k in range(m)]
            if all(v is False for v in same):
                return False
            at = [t for t in tags if t.startswith("c %s.erase (" % C)]
            return at[0] if len(at) == 1 and any(at[0] == "c %s.erase (#%d)" % (C, k) and same[k] for k in range(m)) else None

        def judge(tags, x):
            ts = list(flat(tags))
            ia, ih = truth(x.st, r"\$0->internal_address"), truth(x.st, r"\$0->internal_handler")
            if ia is False:
                return None if not ts else "does %s for an address of another supervisor" % fmt(tags)
            if ia is None or ih is None:
                return "does not look where the subscription is recorded"
            lst, m = (m0 + "internal", ni) if ih else (m0 + "external", ne)
            a, b = cut(ts, x, i0, n, "->handler"), cut(ts, x, lst, m, "")
            if a is False or b is False:
                return None     # the record is in the table
            some.append(1)
            want = [a, b] + (["c this->internal_infos.erase ($0->address)"] if n == 1 else []) + (["c this->mine_handlers.erase (subscription_key_t{$0->address,call:message_type})"] if ni + ne == 1 else [])
            return None if None not in want and sorted(ts) == sorted(want) else "does %s with %d records, %d own and %d foreign handlers" % (fmt(tags), n, ni, ne)
        return judge
    eqn = lambda a, b: r"\((%s == %s|%s == %s)\)" % (*map(re.escape, (a, b)), *map(re.escape, (b, a)))
    some = []
    for n, ni, ne in ((1, 1, 0), (1, 0, 1), (2, 2, 0), (2, 0, 2), (2, 1, 1), (1, 2, 1), (1, 1, 2)):
        c.every("forget", T_ + "forget", what, None, forgets(n, ni, ne), "exactly the one record and the one handler", seq={i0: n, m0 + "internal": ni, m0 + "external": ne})
    c.ob("forget", len(some) >= 10, c.fn(T_ + "forget").where, "no record is ever taken out of the table")
    # update: the handler is replaced in place
    ia, ih = same_loc(r"\$0\.address", own), same_loc(r"\$0\.handler->actor_ptr->address", own)
    c.decide("update", T_ + "update", what + r"|^w \$0\.handler = ", {"ia": ia, "ih": ih}, lambda v: ([
        r"^w %s%s\[.*\] = \$1$" % (mh % r"\.", "internal" if v.ih else "external")] if v.ia else []) + [r"^w \$0\.handler = \$1$"])
    # the table belongs to these operations
    for n in ("internal_infos", "mine_handlers"):
        for g in users_of(c.p, "rotor::subscription_t", n):
            c.ob("table-users", helper_of(c.p, g, {T_ + x for x in ("materialize", "forget", "update", "get_recipients", "empty")}), g.where, "%s touches the subscription table" % g.qname, sample=short_q(g.qname), key="table-users|%s" % base(g.qname))
    only_called_by(c, "who-materializes", T_ + "materialize", {S + "subscribe"})
    only_called_by(c, "who-forgets", T_ + "forget", {S + "commit_unsubscription"})
    # handlers of an actor in the list of active subscriptions: exactly those subscribed through its own supervisor
    lv = r"\$0->actor_ptr->lifetime->points"
    c.decide("registered-with-actor", S + "subscribe", r"^c \S*points\.(push|emplace|insert|erase)", {"ih": same_loc(r"\$0->actor_ptr->address", "this->address") + r"|new<subscription_info_t>->internal_handler", }, lambda v: ([], [r"^c %s\.push_back \(new<subscription_info_t>\)$" % lv]))


# ------------------------------------------------------------------------------------------- C12 (un)subscription protocol
LT = PL + "lifetime_plugin_t::"
PB = PL + "plugin_base_t::"
FS = PL + "foreigners_support_plugin_t::"
SEND = r"^(send|route|put|reply|request|c \S*queue)"


@prop("C12")
def protocol(c):
    EN = lambda n: c.E("rotor::owner_tag_t", n)
    UNSUB = c.E("rotor::subscription_info_t::state_t", "UNSUBSCRIBING")
    # subscribing: recorded once, one confirmation or one request to the owner of the address
    f = S + "subscribe"
    pt = r"\(\{address=\$1,handler=\$0,owner_ptr=\$2,owner_tag=\$3\}\)"
    ctx = {"ia": r"new<subscription_info_t>->internal_address|" + same_loc(r"\$1", r"this->locality_leader->subscription_map\.main_address"),
           "ih": r"new<subscription_info_t>->internal_handler|" + same_loc(r"\$0->actor_ptr->address", r"this->locality_leader->subscription_map\.main_address")}
    c.decide("subscribe", f, SEND + r"|^call \S*subscription_t::materialize|^c \S*points\.", {
        "ia": r"call:materialize->internal_address", "ih": r"call:materialize->internal_handler"}, lambda v: [
        r"materialize on this->locality_leader->subscription_map \(" + pt[2:], r"^send subscription_confirmation_t -> \$0->actor_ptr->address " + pt if v.ia else r"^send external_subscription_t -> \$1->supervisor->address " + pt] + (
        [r"^c \$0->actor_ptr->lifetime->points\.push_back \(call:materialize\)"] if v.ih else []), atomic={T_ + "materialize"},
        ret=lambda v, x: None if E.show(x.val) == "call:materialize" else "returns another record")
    c.every("forget", S + "commit_unsubscription", r"^v?call ", {}, lambda t, x: None if match(t, [r"^call subscription_t::forget on this->locality_leader->subscription_map \(\$0\)"]) else
            "the record is not taken out of the table of the locality exactly once", "removal", atomic={T_ + "forget"})
    c.every("activate-list", LT + "initate_subscription", r"^c ", {}, lambda t, x: None if match(t, [r"^c this->points\.push_back \(\$0\)"]) else "the subscription is not listed once", "own list")
    # users and plugins subscribe for themselves, at the address asked for, and a plugin remembers what it subscribed
    H = r"new<handler_t>"
    for g in family(c, A + "subscribe", least=2):
        adr = r"\$1" if len(g.params) > 1 else "this->address"
        c.every("actor-subscribe", g, r"^v?call supervisor_t::subscribe", {}, lambda t, x, adr=adr: None if match(t, [r"on this->supervisor \(%s, %s, this, %d\)" % (H, adr, EN("ANONYMOUS"))]) else "%s" % fmt(t), "an actor subscribes for itself", atomic={f})
    for q, extra in ((PB + "subscribe", []), (PL + "starter_plugin_t::subscribe_actor", [r"^c this->tracked\.push_back \(call:subscribe\)"])):
        for g in family(c, q, least=2):
            adr = r"\$1" if len(g.params) > 1 else "this->actor->address"
            c.every("plugin-subscribe", g, r"^v?call supervisor_t::subscribe|^c this->", {}, lambda t, x, adr=adr, extra=extra: None if match(t, [
                r"on this->actor->supervisor \(%s, %s, this->actor, %d\)" % (H, adr, EN("PLUGIN")), r"^c this->own_subscriptions\.push_back \(call:subscribe\)"] + extra) else "%s" % fmt(t), "a plugin keeps what it subscribed", atomic={f})
    for g in family(c, A + "unsubscribe", least=3):
        h = H if g.targs else r"\$0"
        adr = r"\$1" if len(g.params) > 1 else "this->address"
        c.every("actor-unsubscribe", g, r"^v?call \S*(unsubscribe|forget_subscription)\w* on", {}, lambda t, x, adr=adr, h=h: None if match(t, [r"lifetime_plugin_t::unsubscribe on this->lifetime \(%s, %s\)" % (h, adr)]) else "%s" % fmt(t),
                "an actor unsubscribes from its own subscriptions", atomic={LT + "unsubscribe"})
    # unsubscribing: once per record, to the subscriber
    for g in c.p.find(LT + "unsubscribe"):
        rec = None
        if len(g.params) == 1:
            rec = r"\$0"
        elif len(g.params) == 2:
            rec = "call:find->"
        if rec:
            k = rec
            c.decide("unsubscribe", g, SEND + r"|^w \S*->state = |subscription_container_t::find on", {"done": (k + "->state", UNSUB, UNSUB), "foreign": (k + "->owner_tag", EN("FOREIGN"), EN("FOREIGN")), "ia": k + "->internal_address"},
                     lambda v: ([] if rec == r"\$0" else [r"find on this->points \(\{address=\$1,handler=\$0,.*\}\)"]) + ([] if v.done else [r"^w %s->state = %d$" % (rec, UNSUB)] + ([] if v.foreign else [r"^send %s -> %s->handler->actor_ptr->address \(%s->\)" % (
                         "unsubscription_confirmation_t" if v.ia else "external_unsubscription_t", rec, rec)])), atomic={"rotor::subscription_container_t::find"})
        else:
            # everything that is left
            end = []

            def rest(tags, x):
                end.append(1)
                return None if not any("lifetime_plugin_t::unsubscribe on" in t or ".erase" in t for t in tags) else "a subscription is handled outside of the loop"
            turns(c, "unsubscribe-all", g, r"^call \S*lifetime_plugin_t::unsubscribe on|^c this->points", {"plug": (r"*(this->points\[.*\]|w->|adv\(adv\)->)->owner_tag", EN("PLUGIN"), EN("PLUGIN"))},
                  lambda v: [r"^c this->points\.erase"] if v.plug else [r"lifetime_plugin_t::unsubscribe on this \((this->points\[.*\]|w->|adv\(adv\)->)\)"], rest, atomic={LT + "unsubscribe"} | {PB + "deactivate"})
    found_exactly(c)
    # what was unsubscribed is forgotten, once, by the plugin that keeps it; a foreign supervisor is told
    f = PB + "handle_unsubscription"
    told = r"^send commit_unsubscription_t -> \$0\.address->supervisor->address \(\$0\)"
    at = {PB + "forget_subscription", PB + "deactivate", "rotor::subscription_container_t::find", PB + "handle_unsubscription"}
    c.decide("plugin-forgets", f, SEND + r"|^v?call \S*forget_subscription on", {"ext": r"\$1", "mine": r"call:forget_subscription"}, lambda v: [r"forget_subscription on this \(\$0\)"] + ([told] if v.ext and v.mine else []),
             ret=lambda v, x: None if E.show(x.val) in ("call:forget_subscription", str(int(v.mine))) else "does not report whether the subscription was its own", atomic=at - {f})
    f = LT + "handle_unsubscription"
    c.decide("lifetime-forgets", f, SEND + r"|^v?call \S*((forget|handle|commit_un)\w*subscription|deactivate) on|^c this->points|^hold call:find->$", {"plug": (r"\$0\.owner_tag", EN("PLUGIN"), EN("PLUGIN")), "ext": r"\$1", "last": r"*empty\(this->points\)"}, lambda v:
             [r"plugin_base_t::handle_unsubscription on this \(\$0, \$1\)"] if v.plug else
             [r"(forget_subscription on this|commit_unsubscription on this->actor->supervisor) \(call:find->\)", r"^c this->points\.erase \(call:find\)", r"?^hold call:find->$"] + ([told] if v.ext else []) + ([r"plugin_base_t::deactivate on this"] if v.last else []),
             order=[("?(forget_subscription|commit_unsubscription) on|^hold", r"points\.erase"), (r"points\.erase", "deactivate")], atomic=at,
             ret=lambda v, x: None if (E.show(x.val) == "call:handle_unsubscription" if v.plug else E.show(x.val) == "1") else "returns %s" % E.show(x.val))
    for n, ext in (("on_unsubscription", 0), ("on_unsubscription_external", 1)):
        def order(tags, x, ext=ext):
            ts = list(flat(tags))
            got = [re.search(r"plugins\[#(\d)\] \(\$0\.payload\.point, %d\)" % ext, t) for t in ts]
            if any(g is None for g in got) or [int(g.group(1)) for g in got] != [2, 1, 0][:len(got)]:
                return "the plugins are not asked one after another, last one first: %s" % fmt(tags)
            if len(ts) < 3 and truth(x.st, r"*call:handle_unsubscription") is not True:
                return "stops although no plugin owned the subscription"
            return None
        c.every("owner-asked", A + n, r"^vcall plugin_base_t::handle_unsubscription", {}, order, "the owner of the subscription handles it", seq={"this->plugins": 3})
        stop = c.run(c.fn(A + n), r"^vcall plugin_base_t::handle_unsubscription", None, seq={"this->plugins": 3})
        c.ob("owner-once", any(len(list(flat(x.st.hist))) < 3 for x in stop), c.fn(A + n).where, "%s goes on after a plugin has handled the unsubscription" % (A + n), sample="stops at the owner")
        c.every("reaches-actor", LT + n, r"^v?call actor_base_t::on_", {}, lambda t, x, n=n: None if match(t, [r"actor_base_t::%s on this->actor \(\$0\)" % n]) else fmt(t), "unsubscriptions reach the plugins", atomic={A + n})
    c.every("reaches-actor", LT + "on_subscription", r"^v?call actor_base_t::on_", {}, lambda t, x: None if match(t, [r"actor_base_t::on_subscription on this->actor \(\$0\)"]) else fmt(t), "confirmations reach the plugins", atomic={A + "on_subscription"})
    # the own supervisor of a foreign address
    c.decide("foreign-subscribe", FS + "on_subscription_external", r"^v?call supervisor_t::subscribe|^c this->", {}, lambda v: [
        r"supervisor_t::subscribe on this->actor \(\$0\.payload\.point\.handler, \$0\.payload\.point\.address, \$0\.payload\.point\.owner_ptr, %d\)" % EN("FOREIGN"), r"^c this->foreign_points\.push_back \(call:subscribe\)"], atomic={S + "subscribe"})
    c.decide("foreign-release", FS + "on_unsubscription", r"^v?call supervisor_t::|^c this->|^call \S*(find|deactivate) on", {"last": r"*empty\(this->foreign_points\)", "down": (r"*this->actor->state", c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN"))}, lambda v: [
        r"find on this->foreign_points \(\$0\.payload\.point\)", r"supervisor_t::commit_unsubscription on this->actor \(call:find->\)", r"^c this->foreign_points\.erase \(call:find\)"] + ([r"plugin_base_t::deactivate on this"] if v.last and v.down else []),
        order=[("commit_unsubscription on", r"foreign_points\.erase")], atomic=at)
    turns(c, "foreign-shutdown", c.fn(FS + "deactivate"), r"^call \S*(lifetime_plugin_t::unsubscribe|plugin_base_t::deactivate) on", {}, lambda v: [r"unsubscribe on this->actor->lifetime \(this->foreign_points\[\*\]\)"],
          lambda t, x: None if match(t, [r"plugin_base_t::deactivate on this"]) else "the plugin itself is not deactivated", atomic=at | {LT + "unsubscribe"})
    # shutdown of an actor waits for its subscriptions and takes them down
    c.decide("shutdown-waits", LT + "handle_shutdown", r"^v?call \S*(lifetime_plugin_t::unsubscribe) on this", {"none": r"empty\(this->points\)", "own": r"empty\(this->own_subscriptions\)"}, lambda v: [] if v.none and v.own else [r"lifetime_plugin_t::unsubscribe on this \(\)"],
             ret=lambda v, x: None if (E.show(x.val) != "0") == (v.none and v.own) else "returns %s" % E.show(x.val), atomic={LT + "unsubscribe"})


# ------------------------------------------------------------------------------------------- C30 interception
HI = "rotor::handler_intercepted_t::"


@prop("C30")
def interception(c):
    f = HI + "call"
    c.decide("interceptor-asked", f, r"^v?call (?!handler_base_t::select|actor_base_t::get)", {"sel": r"call:select"}, lambda v: [r"^vcall supervisor_t::intercept on this->actor_ptr->supervisor \(\$0, this->tag, continuation_impl_t\{this->,\$0\}\)"] if v.sel else [])
    # every interceptor of this code base continues exactly once; a continuation calls the handler once
    base_i = c.fn(S + "intercept")
    for g in [base_i] + [x for x in c.p.overriders(base_i) if "/driver/" not in (x.file or "")]:
        c.every("continued-once", g, r"^call continuation_t::operator\(\) on", {}, lambda t, x: None if match(t, [r"on \$2 \(\)"]) else "the call is continued %d times" % len(list(flat(t))), "an intercepted call goes on", atomic={"rotor::thread::system_context_thread_t::check"})
    only_called_by(c, "who-intercepts", S + "intercept", {f} | {x.qname for x in c.p.overriders(base_i)})
    co = [g for g in c.p.all_funcs() if g.qname.endswith("continuation_impl_t::operator()")]
    c.need(co, "continuation not found")
    for g in co[:1]:
        c.every("continuation", g, r"^v?call handler_", {}, lambda t, x: None if match(t, [r"^vcall handler_base_t::call_no_check on this->handler \(this->message(->)?\)|^call handler_intercepted_t::call_no_check on this->handler \(this->message(->)?\)|^vcall handler_base_t::call_no_check on this->handler->backend \(this->message(->)?\)"]) else
                "does %s" % fmt(t), "the continuation calls the handler with the message")
    for n in ("select", "call_no_check", "message_type"):
        c.every("proxy", HI + n, r"^v?call handler_", {}, lambda t, x, n=n: None if match(t, [r"^vcall handler_base_t::%s on this->backend \(%s\)" % (n, r"" if n == "message_type" else r"\$0")]) and (
            n == "call_no_check" or E.show(x.val) == "call:" + n) else "does %s, returns %s" % (fmt(t), E.show(x.val)), "the proxy hands on to the proxied handler")
    # tagging
    nw = r"^init new<handler_intercepted_t>->(backend|tag|actor_ptr|handler_type) = "
    mk_ = [r"->backend = this$", r"->tag = \$0$", r"->actor_ptr = this->actor_ptr(->)?$", r"->handler_type = this->handler_type$"]
    ret = lambda v, x: None if ("new<handler_intercepted_t>" in E.show(x.val)) == (not v.same) else "returns %s" % E.show(x.val)
    c.decide("tag", "rotor::handler_base_t::upgrade", nw, {}, lambda v: mk_, ret=lambda v, x: None if "new<handler_intercepted_t>" in E.show(x.val) else "returns %s" % E.show(x.val))
    c.decide("tag-again", HI + "upgrade", nw, {"same": r"\(\$0 == this->tag\)|\(this->tag == \$0\)"}, lambda v: [] if v.same else mk_, ret=ret)
    c.decide("tagged-in-table", "rotor::subscription_info_t::tag", r"^v?call (handler_base_t::upgrade|subscription_t::update) on", {}, lambda v: [
        r"upgrade on this->handler \(\$0\)", r"update on this->handler->actor_ptr->supervisor->locality_leader->subscription_map \(this->, call:upgrade\)"], atomic={T_ + "update"})
    # the thread context: I/O handlers run marked as intercepting, and the mark is taken back
    g = c.fn("rotor::thread::supervisor_thread_t::intercept")

    def mark(tags, x):
        ts = list(flat(tags))
        io = truth(x.st, r"\(\$1 == glob\(\d+,\S*io\)\)|\(glob\(\d+,\S*io\) == \$1\)")
        want = ["=1", "call", "=0"] if io else ["call"]
        got = ["=%s" % t[-1] if t.startswith("w ") else "call" for t in ts]
        return None if got == want else "with%s the I/O tag: %s" % ("" if io else "out", fmt(tags))
    c.every("io-mark", g, r"^w \S*->intercepting = |^call continuation_t::operator\(\) on", {}, mark, "I/O handlers are marked", atomic={"rotor::thread::system_context_thread_t::check"})


# ------------------------------------------------------------------------------------------- C31 routed messages
@prop("C31")
def routed(c):
    def cleared(f):
        def g(eng, ev, t):
            if ev.kind == "put" or ev.kind == "vcall" and ev.name == S + "enqueue" and ev.st is not None:
                v = ev.val if ev.kind == "put" else ev.args[0]
                if v is None or v.op in ("msg", "rmsg", "resp"):
                    return
                d = eng.dom(ev.st, eng.read(ev.st, E.mk("fld", eng.deref(v), "rotor::message_base_t", "next_route")))
                out.append((t, d))
        return g

    for f in process_fns(c):
        out = []
        turns(c, "route-after-delivery", f, r"^w \S*->address = |^put |^send ", PCONDS, lambda v: [
            r"^w %s->address = %s->next_route$" % (MSG, MSG), r"^put %s by this->actor" % MSG] if v.local and v.routed and v.last else [], lambda t, x: None if not t else "touches messages outside of the loop", atomic=PROC, guard=cleared(f))
        for x in c.run(f, r"^w \S*->address = |^put |^call \S*delivery_t::delivery", None, turns=True, atomic=PROC):
            c.ob("order", before(list(x.st.hist), "delivery_t::delivery", "^put") and before(list(x.st.hist), "^w ", "^put"), f.where, "%s routes a message before it is delivered: %s" % (f.qname, fmt(x.st.hist)))
        c.need([1 for t, d in out if t.startswith("put")], "no message is routed by %s" % f.qname)
        for t, d in out:
            if t.startswith("put"):
                c.ob("routed-once", d[0] == d[1] == 0, f.where, "%s: the route of a message is not taken off when it is sent on" % f.qname, sample=t)
    # the wrapper that carries a message to another locality hands it on when it was the last
    g = [x for x in c.p.all_funcs() if x.qname == "rotor::payload::handler_call_t::~handler_call_t"]
    c.need(g, "destructor of handler_call_t not found")
    g = g[0]
    out = []
    m = r"this->orig_message"
    c.decide("route-after-remote", g, r"^w \S*->address = |^put |^send |^vcall ", {"msg": m, "routed": m + "->next_route", "last": (r"fnc\(use_count,%s->\)" % m, 1, 1)}, lambda v: [
        r"^w %s->address = %s->next_route$" % (m, m), r"^vcall supervisor_t::enqueue on this->handler->actor_ptr->supervisor \(%s\)" % m] if v.msg and v.routed and v.last else [], order=[("^w ", "^vcall")], guard=cleared(g))
    for t, d in out:
        c.ob("routed-once", d[0] == d[1] == 0, g.where, "%s: the route of a message is not taken off when it is sent on" % g.qname, sample=t)
    c.need(out, "no message is routed by %s" % g.qname)
    # nobody else decides on routes
    ok = {base(f.qname) for f in process_fns(c)} | {g.qname, A + "redirect", "rotor::make_routed_message"}
    for f in users_of(c.p, "rotor::message_base_t", "next_route"):
        c.ob("who-routes", helper_of(c.p, f, ok), f.where, "%s touches the route of a message" % f.qname, sample=short_q(f.qname), key="who-routes|%s" % base(f.qname))
    for f in family(c, "rotor::make_routed_message"):
        c.every("route-recorded", f, r"^w \S*next_route = ", {}, lambda t, x: None if x.val.op == "rmsg" and E.show(x.val.a[1]) == "$0" and E.show(x.val.a[2]) == "$1" or match(t, [r"next_route = \$1$"]) else "the route is not recorded in the message", "the route is recorded")
    for f in family(c, A + "route"):
        c.every("route-sent", f, r"^route|^put|^send", {}, lambda t, x: None if match(t, [r"^route \S+ -> \$0 via \$1 "]) else fmt(t), "a routed message is sent")


# ------------------------------------------------------------------------------------------- C38 localities
@prop("C38")
def localities(c):
    f = PL + "locality_plugin_t::activate"
    LL = r"^w \$0->locality_leader = |^c \S*(reserve|resize)\w* \("
    c.decide("leader", f, LL, {"nested": r"\$0->parent", "same": r"\((\$0->parent->address->locality == \$0->address->locality|\$0->address->locality == \$0->parent->address->locality)\)"},
             lambda v: [r"= \$0->parent->locality_leader$"] if v.nested and v.same else [r"= (\$0->?|\$0)$", r"^c \$0->inbound_queue\.reserve_unsafe \(\$0->inbound_queue_size\)"])
    only_written_by(c, "who-leads", "rotor::supervisor_t", "locality_leader", {f})
    # addresses belong to the supervisor that made them
    c.every("address", S + "instantiate_address", "^$", {}, lambda t, x: None if re.fullmatch(r"new<address_t>", E.show(x.val)) else "returns %s" % E.show(x.val), "a new address")
    c.decide("address-owner", S + "instantiate_address", r"^ctor rotor::address_t|^init new<address_t>->", {}, lambda v: [r"^ctor rotor::address_t on new<address_t>? \(this(->)?, \$0\)", r"->locality = \$0$"])
    only_written_by(c, "address-fixed", "rotor::address_t", "locality", set(), least=0)
    fld = next((x for x in (c.p.records.get("rotor::address_t") or c.need(False, "address_t not found"))["fields"] if x["name"] == "supervisor"), None)
    c.ob("address-fixed", fld is not None and "&" in fld["t"], "include/rotor/address.hpp", "address_t::supervisor may change", sample="%s supervisor" % (fld and fld["t"]))
    ov = [g for g in c.p.overriders(c.fn(S + "make_address")) if "/driver/" not in (g.file or "")]
    for g in ov:
        c.every("own-address", g, r"^v?call \S*instantiate_address", {}, lambda t, x: None if match(t, [r"instantiate_address on this \("]) and "instantiate_address" in E.show(x.val) else "does %s" % fmt(t), "the supervisor creates the address itself", noinline={S + "instantiate_address"})

    def root(tags, x):
        ts = list(flat(tags))
        return None if len(ts) == 1 and re.match(r"^vcall supervisor_t::instantiate_address on this \(", ts[0]) else "does %s" % fmt(tags)
    c.every("own-address", S + "make_address", r"^v?call \S*instantiate_address", {}, root, "the supervisor creates the address itself", noinline={S + "instantiate_address"})
    for depth in range(4):
        path = "this" + "->parent" * depth
        env = {"this" + "->parent" * n: "nonnull" for n in range(1, depth + 1)}
        env[path + "->parent"] = 0
        for x in c.run(c.fn(S + "make_address"), None, env, tagger=lambda eng, ev, t: t if "instantiate_address on" in t else None, noinline={S + "instantiate_address"}, seq={"(levels)": 0}):
            c.ob("nested-locality" if depth else "root-locality", match(list(x.st.hist), [r"instantiate_address on this \(%s(->)?\)" % path]), c.fn(S + "make_address").where,
                 "a supervisor %d levels below the root gives its addresses another locality than the root's: %s" % (depth, fmt(x.st.hist)), sample=fmt(x.st.hist))
    c.every("actor-address", PL + "address_maker_plugin_t::create_address", r"^vcall ", {}, lambda t, x: None if match(t, [r"^vcall supervisor_t::make_address on this->actor->supervisor \(\)"]) and E.show(x.val) == "call:make_address" else "does %s" % fmt(t), "addresses of an actor come from its supervisor")
    c.decide("main-address", PL + "address_maker_plugin_t::activate", r"^w \S*->address = |^vcall supervisor_t::make_address", {"has": r"\$0->address"}, lambda v: [] if v.has else [r"^w \$0->address = call:create_address$"], atomic={A + "init_start", A + "configure", PL + "address_maker_plugin_t::set_identity", PL + "address_maker_plugin_t::generate_identity"})
    only_written_by(c, "who-names", "rotor::actor_base_t", "address", {PL + "address_maker_plugin_t::activate"})
    # delivery works on the queue of the leader and on the own table
    c.decide("delivery-queue", PL + "delivery_plugin_base_t::activate", r"^w (this->(queue|address|subscription_map)|\S*->delivery|\S*main_address) = ", {}, lambda v: [
        r"^w this->queue = &?(\$0|this->actor)(->supervisor)?->locality_leader->queue$", r"^w this->address = (\$0|this->actor)->address", r"^w this->subscription_map = &?(\$0|this->actor)->subscription_map$", r"main_address = (\$0|this->actor)->address", r"^w (\$0|this->actor)->delivery = this"])
