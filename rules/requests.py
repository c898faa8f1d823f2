"""C13..C15: requests, time-outs, timers"""
from rulekit import *
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
S = "rotor::supervisor_t::"
RB = "rotor::request_builder_t::"
NEXT = S + "next_request_id"
AM = "rotor::address_mapping_t::"
MADE = {NEXT, AM + "get_mapped_address", S + "make_address"}


def one(*pats, order=()):
    """check for every(): exactly these events, in the given pairs' order"""
    def chk(tags, x):
        if not match(tags, list(pats)):
            return "does %s" % fmt(tags)
        for a, b in order:
            if not before(tags, a, b):
                return "does %s in the wrong order" % fmt(tags)
        return None
    return chk


def answer_handlers(c):
    """the handlers that requests install for the responses"""
    fs = family(c, "rotor::handler_t::call", pick=lambda f: "lambda_holder_t<rotor::message_t<rotor::wrapped_response_t" in (f.cls or "") and "include/rotor/supervisor.h" in f.cls)
    c.need(fs, "no response handler is instantiated")
    return fs


# ------------------------------------------------------------------------------------------- C13 one outcome
@prop("C13")
def outcome(c):
    # a request gets a fresh id: counted up, never one that is still tracked
    only_written_by(c, "id-writers", "rotor::supervisor_t", "last_req_id", {NEXT, S + "supervisor_t"})

    def fresh(tags, x):
        bad = [t for t in flat(tags) if not re.match(r"w this->locality_leader->last_req_id = (\(.* \+ \d+\)|\(.*\)\+\d+)$", t)]
        if bad or not tags:
            return "the counter does not count up: %s" % fmt(tags)
        v = E.show(x.val).replace("'", "")
        now = [w for k, w in x.st.st.items() if E.show(k) == "this->locality_leader->last_req_id"]
        if not now or E.show(now[0]).replace("'", "") != v:
            return "returns %s, which is not the counter" % v
        if truth(x.st, r"*found\(this->locality_leader->request_map,%s\)" % re.escape(v)) is not False:
            return "returns an id that may still be tracked"
        return None
    c.every("fresh-id", NEXT, r"^w this->locality_leader->last_req_id", None, fresh, "identifiers are counted up")
    # the request message carries the tracked id, goes to the destination, is answered to the address that has the handler
    for f in family(c, RB + "request_builder_t"):
        c.decide("request-made", f, r"^(w|init) this->(imaginary_address|do_install_handler|request_id|req) = (?!0$)|^v?call \S*(next_request_id|get_mapped_address|make_address)|^init new<message_t>->(address|payload\.(id|reply_to|origin))", {"mapped": r"call:get_mapped_address"},
                 lambda v: [r"^call supervisor_t::next_request_id on ", r"^init this->request_id = call:next_request_id", r"^call address_mapping_t::get_mapped_address on (tmp\.|\$0->?|\$0\.|this->sup->|get_mapped_address on \S+address_mapping\$0->)address_mapping \(\$1, .*wrapped_response_t<.*message_type",
                            r"^init new<message_t>->address = (intrusive_ptr\{)?\$2", r"^init new<message_t>->payload\.id = call:next_request_id", r"^init new<message_t>->payload\.origin = \$3", r"^w this->req = new<message_t>"] +
                 ([r"^w this->imaginary_address = call:get_mapped_address", r"^init new<message_t>->payload\.reply_to = call:get_mapped_address"] if v.mapped else
                  [r"^vcall supervisor_t::make_address", r"^w this->imaginary_address = call:make_address", r"^w this->do_install_handler = 1", r"^init new<message_t>->payload\.reply_to = call:make_address"]), atomic=MADE, net=True)
    # sending tracks the request, then puts it, arms its timer and notes it in the actor
    for f in family(c, RB + "send"):
        c.decide("send-tracks", f, r"^(put|send|route|c |call \S*(install_handler|start_timer))", {"h": r"this->do_install_handler"},
                 lambda v: ([r"^call request_builder_t::install_handler on this \(\)"] if v.h else []) +
                 [r"^c this->sup->request_map\.(emplace|try_emplace|insert)\w* \(.*this->request_id, .*request_curry_t\{make_error_response,this->reply_to(->)?,this->req,this->actor\}", r"^put this->req by this->sup",
                  r"^call actor_base_t::start_timer on this->sup \(this->request_id, \$0, this->sup->, on_request_trigger\)", r"^c this->actor->active_requests\.(emplace|insert) \(this->request_id\)"],
                 ret=lambda v, x: None if E.show(x.val) == "this->request_id" else "returns %s" % E.show(x.val), atomic={RB + "install_handler", A + "start_timer"})
    for f in family(c, RB + "install_handler"):
        c.every("handler-installed", f, r"^call (supervisor_t::subscribe|address_mapping_t::set)|^init \S+->actor_ptr", None, one(
            r"^call supervisor_t::subscribe on this->sup \(new<handler_t>, this->imaginary_address, this->actor, %d\)" % c.E("rotor::owner_tag_t", "SUPERVISOR"),
            r"^call address_mapping_t::set on this->sup->address_mapping \(this->actor(->)?, call:subscribe\)", r"^init new<handler_t>->actor_ptr = this->sup$"),
            "the handler for responses listens at the reply address, on the supervisor that tracks the request", atomic={S + "subscribe", AM + "set"})
    # a response: tracked -> delivered once and forgotten; otherwise dropped
    G = r"glob\(\d+,supervisor\)"
    for f in answer_handlers(c):
        rid = r"\$0->payload\.req->payload\.id"
        c.decide("response-once", f, r"^(put|send|route|c |reply|call \S*(discard_request|uplift_last_message))",
                 {"tracked": r"*found\(\S*->request_map,%s\)" % rid, "mine": r"\(\$0->type_index == .*\)|\(.* == \$0->type_index\)"},
                 lambda v: [r"^send wrapped_response_t -> \S+->request_map\[%s\]\.second\.origin \(\$0->payload\)" % rid, r"^call supervisor_t::discard_request on \S+ \(%s\)" % rid, r"^call supervisor_t::uplift_last_message"] if v.tracked and v.mine else
                 None if v.tracked else [], order=[(r"^send", r"uplift_last_message")], atomic={S + "discard_request", S + "uplift_last_message"})
    # forgetting: with the timer; on the timer
    c.every("discard", S + "discard_request", r"^(c this->request_map|call \S*cancel_timer)", None, one(r"^call actor_base_t::cancel_timer on this \(\$0\)", r"^c this->request_map\.erase \(\$0\)"),
            "discarding a request stops its timer and forgets it", atomic={A + "cancel_timer"})
    c.decide("timer-forgets", S + "on_request_trigger", r"^c this->request_map\.", {"t": r"found\(this->request_map,\$0\)"}, lambda v: [r"^c this->request_map\.erase \(\$0\)"] if v.t else [])
    c.decide("timer-clears-actor", S + "on_request_trigger", r"^c \S*active_requests", {"t": r"found\(this->request_map,\$0\)"}, lambda v: [r"^c this->request_map\[\$0\]\.second\.source->active_requests\.erase \((\$0|.*active_requests\[\$0\].*)\)"] if v.t else [])
    only_written_by(c, "tracking-writers", "rotor::supervisor_t", "request_map", {base(f.qname) for f in family(c, RB + "send")} | {S + "on_request_trigger", S + "discard_request"})
    only_written_by(c, "actor-tracking-writers", "rotor::actor_base_t", "active_requests", {base(f.qname) for f in family(c, RB + "send")} | {S + "on_request_trigger"})
    # the end of an actor cancels every request it has still running
    def cancels(tags, x):
        if not truth(x.st, r"*empty\(this->active_requests\)"):
            return "finishes while requests of the actor may be tracked"
        bad = [t for t in flat(tags) if "this->active_requests" not in t]
        return "cancels %s" % bad[0] if bad else None
    c.every("actor-end", A + "shutdown_finish", r"^vcall supervisor_t::do_cancel_timer", None, cancels, "nothing of the actor stays tracked", atomic={A + "cancel_timer"})


# ------------------------------------------------------------------------------------------- C14 time-out
@prop("C14")
def timeout(c):
    it = r"this->request_map\[\$0\]\.second"
    c.decide("timeout-answer", S + "on_request_trigger", r"^(put|send|reply|pmcall|route)", {"t": r"found\(this->request_map,\$0\)", "cancelled": r"\$1"},
             lambda v: [r"^pmcall %s\.fn \(%s\.origin, %s\.request_message->, error\(request_timeout, request %s\.request_message\)\)" % (it, it, it, it), r"^put pm by this"] if v.t and not v.cancelled else [],
             order=[(r"^pmcall", r"^put")])
    for f in family(c, "rotor::request_traits_t::make_error_response"):
        c.every("error-response", f, r"^init new<message_t>->(address|payload\.(ee|req)) ", None, lambda t, x: None if match(t, [r"address = \$0$", r"payload\.ee = \$2$", r"payload\.req = &\$1$"]) and "new<message_t>" in E.show(x.val) else
                "builds %s" % fmt(t), "an error response goes to the given address, with the error and the request")
    for f in family(c, RB + "send"):
        c.every("timer-armed", f, r"^call \S*start_timer", None, one(r"^call actor_base_t::start_timer on this->sup \(this->request_id, \$0, this->sup->, on_request_trigger\)"),
                "the time-out given is armed for this request", atomic={RB + "install_handler", A + "start_timer"})
    # the address the requester wants the answer at is what is tracked
    for f in family(c, RB + "send"):
        c.every("origin-tracked", f, r"^c \S*request_map", None, one(r"request_curry_t\{make_error_response,this->reply_to(->)?,this->req,this->actor\}"), "requester's reply address is tracked",
                atomic={RB + "install_handler", A + "start_timer"})
    for q, want in ((A + "request", r"reqb\([^(]*,\(this->supervisor,this,\$0,this->address\b.*"), (A + "request_via", r"reqb\([^(]*,\(this->supervisor,this,\$0,\$1\b.*")):
        for f in family(c, q):
            c.every("reply-address", f, "^$", None, lambda t, x, want=want: None if re.match(want, E.show(x.val)) else "builds %s" % E.show(x.val), "answers come to the actor itself, or to the address it gave")
    # answers: for the request given, to its reply address
    for f in family(c, A + "make_response"):
        err = [p["t"] for p in f.params][1:2] and "extended_error_t" in f.params[1]["t"]
        c.every("response-made", f, r"^(init new<message_t>->(address|payload\.(ee|req))|make_message) ", None, lambda t, x, err=err: None if
                match(t, [r"address = \$0\.payload\.reply_to", r"payload\.ee = \$1", r"payload\.req = &\$0$"]) or
                match(t, [r"make_message \S+ \(\$0\.payload\.reply_to, (\S*\{)?&\$0"]) or
                match(t, [r"make_message \S+ \(\$0\.payload\.reply_to, (\S*\{)?&\$0", r"address = \$0\.payload\.reply_to", r"payload\.ee = (0|\$1)$", r"payload\.req = &\$0$"]) else "answers with %s" % fmt(t), "an answer goes to the reply address of the request")
    for q in (A + "reply_to", A + "reply_with_error"):
        for f in family(c, q):
            c.every("reply", f, r"^(put|send|reply|route|request) ", None, one(r"^reply (ok|err) \$0 .*by this->supervisor"), "one answer to the request given")
    for f in family(c, "rotor::wrapped_request_t::wrapped_request_t", pick=lambda f: f.inits and len(f.params) >= 3 and "address_t" in f.params[1]["t"]):
        c.every("request-payload", f, r"^init this->(id|reply_to|origin) ", None, one(r"this->id = \$0$", r"this->reply_to = \$1$", r"this->origin = \$2$"), "a request remembers its id and reply address")
    for f in family(c, "rotor::wrapped_response_t::request_id"):
        c.every("response-id", f, "^$", None, lambda t, x: None if E.show(x.val) == "this->req->payload.id" else "returns %s" % E.show(x.val), "a response names its request")


# ------------------------------------------------------------------------------------------- C15 timers
@prop("C15")
def timers(c):
    fired = r"found\(this->timers_map,\$0\)"
    c.decide("fires-once", A + "on_timer_trigger", r"^(vcall \S*trigger|c this->timers_map)", {"t": fired},
             lambda v: [r"^vcall timer_handler_base_t::trigger on this->timers_map\[\$0\]\.second \(\$1\)", r"^c this->timers_map\.(erase|extract) \(\$0\)"] if v.t else [])
    for f in family(c, "rotor::timer_handler_t::trigger"):
        c.every("callback", f, r"invoke|^(v?call|pmcall) ", None, lambda t, x: None if match(t, [r"^call std::invoke on - \(this->method, this->object, this->request_id, \$0\)"]) or match(t, [r"^pmcall .*this->method.*this->request_id, \$0"]) else "does %s" % fmt(t),
                "the callback is invoked once with the timer's id and the outcome")
    started = family(c, A + "start_timer")
    for f in started:
        if len(f.params) == 4:
            c.every("armed", f, r"^(init new<timer_handler_t>|vcall \S*do_start_timer|c this->timers_map)", None, one(
                r"->owner = this$", r"->request_id = \$0$", r"->object = &\$2$", r"->method = .*\$3", r"^vcall supervisor_t::do_start_timer on this->supervisor \(\$1, new<timer_handler_t>->\)", r"^c this->timers_map\.(emplace|try_emplace) \(\$0, new<timer_handler_t>\)"),
                "starting a timer arms it for the time given and remembers its handler under its id")
        else:
            c.every("fresh-id", f, r"^(call (supervisor_t::next_request_id|actor_base_t::start_timer))", None, lambda t, x: None if
                    match(t, [r"^call supervisor_t::next_request_id on this->supervisor", r"^call actor_base_t::start_timer on this \(call:next_request_id, \$0, (&?\$1(->)?), "]) and E.show(x.val) == "call:next_request_id" else
                    "does %s and returns %s" % (fmt(t), E.show(x.val)), "a timer gets a fresh id, which is returned", atomic={NEXT, A + "start_timer"})
    c.every("cancelled", A + "cancel_timer", r"^(v?call|c) ", None, one(r"^vcall supervisor_t::do_cancel_timer on this->supervisor \(\$0\)"), "cancelling goes to the event loop once")
    only_written_by(c, "timer-writers", "rotor::actor_base_t", "timers_map", {A + "start_timer", A + "on_timer_trigger"})
    only_written_by(c, "id-writers", "rotor::supervisor_t", "last_req_id", {NEXT, S + "supervisor_t"})

    def ends(tags, x):
        if not truth(x.st, r"*empty\(this->timers_map\)"):
            return "finishes while timers of the actor may be active"
        bad = [t for t in flat(tags) if t.startswith("call actor_base_t::cancel_timer") and not re.search(r"on this \(this->timers_map\[", t)]
        return "cancels %s" % bad[0] if bad else None
    c.every("actor-end", A + "shutdown_finish", r"^call \S*cancel_timer", None, ends, "no timer outlives its actor", atomic={A + "cancel_timer"})
