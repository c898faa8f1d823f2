"""C01..C06: actor life cycle"""
from rulekit import *
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
OUT = r"^(send|route|reply|request|put) "
STATE = r"^w \S*->state = "
LIFE = {A + n for n in ("init_start", "init_finish", "on_start", "shutdown_start", "shutdown_finish")}


@prop("C01")
def states(c):
    S = c.S
    # who may change the state, and what each operation stores
    only_written_by(c, "state-writers", "rotor::actor_base_t", "state", LIFE, least=5)
    for op, st in (("init_start", "INITIALIZING"), ("init_finish", "INITIALIZED"), ("on_start", "OPERATIONAL"),
                   ("shutdown_start", "SHUTTING_DOWN"), ("shutdown_finish", "SHUT_DOWN")):
        init = {"this->init_request": "nonnull"} if op == "init_finish" else {}
        c.every("state-value", A + op, STATE, init,
                lambda tags, x, st=st: None if list(flat(tags)) == ["w this->state = %d" % S(st)] else
                "the operation stores %s instead of exactly %s" % (fmt(tags), st), "each life-cycle operation moves to its own state",
                atomic={"rotor::extended_error_t::root"})
    ctor = [f for f in c.p.find("rotor::actor_base_t::actor_base_t") if f.params and "config" in f.params[0]["t"]]
    c.need(ctor, "constructor of actor_base_t not found")
    for f in ctor:
        c.every("state-initial", f, r"^(w|init) this->state = ", None,
                lambda tags, x: None if list(flat(tags)) == ["init this->state = %d" % S("NEW")] else "a new actor does not start in state NEW", "initial state")
    # where the operations may be invoked from
    only_called_by(c, "who-inits", A + "init_start", {"rotor::plugin::address_maker_plugin_t::activate"})
    only_called_by(c, "who-finishes-init", A + "init_finish", {A + "init_continue"})
    only_called_by(c, "who-starts", A + "on_start", {"rotor::plugin::starter_plugin_t::handle_start", "rotor::supervisor_t::on_start"})
    only_called_by(c, "who-shuts", A + "shutdown_start", {"rotor::plugin::init_shutdown_plugin_t::on_shutdown", "rotor::plugin::child_manager_plugin_t::on_shutdown_trigger",
                                                          "rotor::plugin::child_manager_plugin_t::handle_shutdown"})
    only_called_by(c, "who-finishes", A + "shutdown_finish", {A + "shutdown_continue"} | {f.qname for f in c.p.overriders(c.fn(A + "shutdown_finish"))})
    # preconditions of each transition at every call site
    at_ = lambda path, name, lo=None: (lambda eng, ev: ok(eng, ev, path, name, lo))

    def ok(eng, ev, path, name, lo):
        o = ev.obj
        l = E.mk("fld", o, "rotor::actor_base_t", "state")
        d = eng.dom(ev.st, eng.read(ev.st, l))
        return d[0] == d[1] == S(name) if lo is None else d[1] < lo
    guarded_calls(c, "init-polled-while-initializing", A + "init_continue", at_("", "INITIALIZING"), "the actor is INITIALIZING")
    shutting = at_("", "SHUTTING_DOWN")

    def started(eng, ev):
        """SHUTTING_DOWN by a test, or because this very path has started the shutdown of the same actor"""
        o = E.show(ev.obj).rstrip("->").replace("'", "")
        return shutting(eng, ev) or any(re.search(r"shutdown_start on %s \(" % re.escape(o), t) for t in flat(ev.st.hist))
    guarded_calls(c, "shutdown-polled-while-shutting-down", A + "shutdown_continue", started, "the actor is SHUTTING_DOWN",
                  keep=r"^(v?call|enter) \S*shutdown_start on", devirt=dict(SHUT(c)))
    # operational only out of INITIALIZED: the start trigger is ignored in every other state
    f = "rotor::plugin::starter_plugin_t::on_start"
    for st in ("NEW", "INITIALIZING", "OPERATIONAL", "SHUTTING_DOWN", "SHUT_DOWN"):
        c.table("start-only-initialized", f, r"^vcall .*handle_start", [(st, {"this->actor->state": S(st)}, [[]])])


def SHUT(c):
    return {A + "shutdown_start": c.fn(A + "shutdown_start"), A + "on_start": c.fn(A + "on_start")}.items()


# ------------------------------------------------------------------------------------------- polling of plugins
def at(t):
    return re.search(r"plugins\[(.*?)\]", t).group(1).lstrip("#")


def polls(c, rule, f, hook, bit, forward, finish):
    """the plugins are asked one after another (in the given direction, those that react), the first refusal stops the
    round, and `finish` happens exactly when nobody refused"""
    n = 3

    def tag(eng, ev, t):
        if ev.kind == "vcall" and ev.name.endswith("::" + hook) and "plugins[" in E.show(ev.obj):
            return answer(ev.st) + ["ask %s" % at(E.show(ev.obj))]
        if ev.kind == "write" and ev.name.endswith("->reaction") and "plugins[" in ev.name:
            return answer(ev.st) + [switched(ev, bit)]
        if ev.kind == "vcall" and ev.name == finish:
            return answer(ev.st) + ["finish"]
        return False

    def answer(st):
        """what is known about the answer to the last question"""
        if not list(flat(st.hist))[-1:] or not list(flat(st.hist))[-1].startswith("ask"):
            return []
        r = truth(st, r"call:%s" % hook)
        return ["-> %s" % {True: "agreed", False: "refused", None: "answer not looked at"}[r]]

    def check(tags, x):
        ts = list(flat(tags))
        if not ts or ts[-1] != "finish":
            ts += answer(x.st)
        order = list(range(n)) if forward else list(range(n))[::-1]
        want, i = [], 0
        for k in order:
            asked = i < len(ts) and ts[i] == "ask %d" % k
            if asked:
                if truth(x.st, r"\(this->plugins\[#%d\]'*->reaction'* & %d\)" % (k, bit)) is False:
                    return "asks a plugin that does not take part"
                if i + 1 < len(ts) and ts[i + 1] == "-> agreed":
                    if ts[i + 2:i + 3] != ["off %d" % k]:
                        return "plugin #%d of %d agreed but would be asked again: %s" % (k, n, "; ".join(ts))
                    i += 3
                    continue
                if i + 1 < len(ts) and ts[i + 1] == "-> refused":
                    return None if i + 2 == len(ts) else "goes on after plugin #%d of %d refused: %s" % (k, n, "; ".join(ts))
                return "does not respect the answer: %s" % "; ".join(ts)
            if truth(x.st, r"\(this->plugins\[#%d\]'*->reaction'* & %d\)" % (k, bit)) is not False:
                return "plugin #%d of %d is not asked although it may take part: %s" % (k, n, "; ".join(ts) or "nothing")
        if ts[i:] != ["finish"]:
            return "nobody refused but the round ends with %s" % ("; ".join(ts[i:]) or "nothing")
        return None
    c.every(rule, f, None, {}, check, "plugins take part in order and all have to agree", tagger=tag, seq={"this->plugins": n})


def seq_calls(c, rule, f, hook, forward, cond=None, pre=None, arg=None):
    """`hook` is called on every plugin (that satisfies cond), in the given direction"""
    n = 3

    def tag(eng, ev, t):
        if pre and re.search(pre, t):
            return "pre"
        if ev.kind == "vcall" and ev.name.endswith("::" + hook) and "plugins[" in E.show(ev.obj):
            return "%s %s" % (hook, at(E.show(ev.obj)))
        return False

    def check(tags, x):
        ts = list(flat(tags))
        i = 0
        for k in (range(n) if forward else range(n - 1, -1, -1)):
            skip = truth(x.st, cond % k) is False if cond else False
            want = ([] if not pre else ["pre"]) + ["%s %d" % (hook, k)]
            if ts[i:i + len(want)] == want and not skip:
                i += len(want)
            elif not skip:
                return "%s expected on plugin #%d of %d next, got %s" % (hook, k, n, "; ".join(ts) or "nothing")
        return None if i == len(ts) else "superfluous calls: %s" % "; ".join(ts)
    c.every(rule, f, None, {}, check, "every plugin, in order", tagger=tag, seq={"this->plugins": n})


IS = re.escape


@prop("C02")
def init_polling(c):
    S = c.S
    polls(c, "poll-init", A + "init_continue", "handle_init", 1, True, A + "init_finish")
    # the request that asked for the initialization is answered exactly once, and forgotten with the answer
    c.decide("init-answered", A + "init_finish", OUT + r"|^w this->init_request", {}, lambda v: [
        r"^reply ok this->init_request-> \(\)", r"^w this->init_request = 0"], init={"this->init_request": "nonnull"})
    asked = lambda eng, ev: truth_at(eng, ev, "init_request")
    guarded_calls(c, "polled-only-when-asked", A + "init_continue", asked, "the initialization request is there")
    # an early (or late) init request is remembered, and polled only while initializing
    f = "rotor::plugin::init_shutdown_plugin_t::on_init"
    c.decide("on-init", f, OUT + r"|^w this->actor->init_request|^call \S*init_continue", {"initializing": (IS("this->actor->state"), S("INITIALIZING"), S("INITIALIZING"))},
             lambda v: [r"^w this->actor->init_request = &\$0"] + ([r"^call \S*init_continue on this->actor"] if v.initializing else []),
             order=[("^w", "^call")], atomic=POLL)
    c.every("init-needs-request", "rotor::plugin::init_shutdown_plugin_t::handle_init", None, {},
            lambda t, x: None if E.show(x.val) in ("!(this->actor->init_request == 0)", "bool(this->actor->init_request)", "(0 != this->actor->init_request)", "(this->actor->init_request != 0)") or
            truth(x.st, IS("this->actor->init_request")) is not None and truth(x.st, IS("this->actor->init_request")) == (E.show(x.val) == "1") else "agrees with %s" % E.show(x.val),
            "ready only once the request has arrived")
    # answering with an error is an answer, too: the request is forgotten at every place that does so
    answered_once(c, "init-error-answers", "init_request")
    # what can keep an actor initializing: own resources, tracked subscriptions, pending links, pending names
    c.every("starter-waits", "rotor::plugin::starter_plugin_t::handle_init", None, {}, waits(r"empty\(this->tracked\)'*"), "subscriptions outstanding")
    c.every("links-wait", "rotor::plugin::link_client_plugin_t::handle_init", None, {}, pending(
        lambda st: truth(st, (r"this->servers_map\[[^\]]+\]\.second\.state'*", 0, 0))), "links pending")
    c.every("children-wait", "rotor::plugin::child_manager_plugin_t::handle_init", None, {}, pending(
        lambda st: truth(st, r"this->actors_map\[[^\]]+\]\.second->initialized") is False and truth(st, r"\(this->actor->address == this->actors_map\[[^\]]+\]\.first\)") is False and
        truth(st, (r"this->actors_map\[[^\]]+\]\.second->actor->state", -E.INF, S("INITIALIZING")))), "children initializing")
    c.every("names-wait", "rotor::plugin::registry_plugin_t::handle_init", None, {}, lambda t, x:
            "agrees although names are still to be discovered" if E.show(x.val) != "0" and truth(x.st, r"empty\(this->discovery_map\)'*") is not True else
            "agrees although a name is still being registered" if E.show(x.val) != "0" and truth(x.st, (r"this->register_map\[[^\]]+\]\.second\.state'*", 0, 0)) else None, "names pending")


POLL = {A + "init_continue", A + "shutdown_continue"}


def truth_at(eng, ev, name):
    o, t = field_owner(eng.p, "rotor::actor_base_t", name)
    d = eng.dom(ev.st, eng.read(ev.st, E.mk("fld", ev.obj, o, name)))
    return d[0] > 0 or d[1] < 0 or 0 in d[2]


def waits(rx):
    def chk(tags, x):
        t = truth(x.st, rx)
        if t is None:
            return "decides without looking at what is outstanding"
        if t is False and E.show(x.val) != "0":
            return "agrees although something is outstanding"
        if t is True and E.show(x.val) == "0" and truth(x.st, r"\$0") is not False:        # (nobody waits for the answer to no request)
            return "refuses although nothing is outstanding"
    return chk


def pending(fact):
    """refuses exactly on the paths that have found something outstanding"""
    def chk(tags, x):
        t = fact(x.st)
        if t and E.show(x.val) != "0":
            return "agrees although something is outstanding"
        if not t and E.show(x.val) == "0":
            return "refuses although nothing outstanding was found"
    return chk


def answered_once(c, rule, name, atomic=()):
    """wherever the stored request is answered, it is forgotten on the same path before anything else can answer it"""
    def judge(f):
        if "::access" in f.qname or f.name in ("message_type",):
            return None
        xs = c.run(f, r"^reply \w+ (\S*->)?%s-> |^w (\S*->)?%s = |^hold (\S*->)?%s$" % (name, name, name), None, atomic=POLL | {"rotor::extended_error_t::root"})
        out, some = [], False
        for x in xs:
            ts = list(flat(x.st.hist))
            if not any(t.startswith("reply") for t in ts):
                continue
            some = True
            kinds = "".join("0" if t.startswith("w ") and t.endswith("= 0") else t[0] for t in ts)      # a request held by a local may be forgotten first
            if not re.fullmatch(r"h*(rh*0|h0h*r)", kinds):
                out.append(("%s:%s" % x.loc, "%s answers the stored %s without forgetting it, so it can be answered twice: %s" % (f.qname, name, fmt(ts)),
                            Ctx.trace_of(x.st), "%s|%s" % (rule, base(f.qname))))
        return out[:1] if some else None
    n = judged(c, rule, users_of(c.p, "rotor::actor_base_t", name), judge)
    c.need(n >= 1, "no answer to %s found" % name)


# ------------------------------------------------------------------------------------------- C03 shutdown
@prop("C03")
def shutdown_polling(c):
    S = c.S
    polls(c, "poll-shutdown", A + "shutdown_continue", "handle_shutdown", 2, False, A + "shutdown_finish")
    # the confirmation: answered once, all timers and requests are gone before the actor counts as shut down
    V = r"^vcall \S*do_cancel_timer on "
    f = A + "shutdown_finish"
    c.decide("shutdown-confirmed", f, OUT + r"|^w this->(shutdown_request|state) = |" + V, {
        "requested": IS("this->shutdown_request")},
        lambda v: ([r"^reply ok this->shutdown_request-> \(\)", r"^w this->shutdown_request = 0"] if v.requested else []) +
        [r"^w this->state = %d" % S("SHUT_DOWN"), Loop([V + r"this->supervisor \(this->timers_map\[\*\]\.first"]), Loop([V + r"this->supervisor \(this->active_requests\[\*\]"])],
        order=[(V, r"^w this->state")])
    gone = " ".join(fmt(x.st.hist) for x in c.run(f, V, None))
    for n in ("timers_map", "active_requests"):
        c.ob("cancelled", re.search(r"do_cancel_timer on this->supervisor \(this->%s\[" % n, gone), c.fn(f).where, "%s never cancels what is left in %s" % (f, n), sample=n)
    c.every("nothing-pending", f, V, {}, lambda t, x: None if all(truth(x.st, r"empty\(this->%s\)'*" % n) is True for n in ("timers_map", "active_requests") if n != "timers_map" or not any("active_requests[" in y for y in flat(t))) else
            "may leave timers or requests behind", "after the shutdown no timer and no request is active")
    answered_once(c, "shutdown-answers", "shutdown_request")
    # the request is stored, the first reason kept, then the shutdown is started and polled
    c.decide("on-shutdown", "rotor::plugin::init_shutdown_plugin_t::on_shutdown", OUT + r"|^w this->actor->(shutdown_request|shutdown_reason)|^v?call \S*shutdown_(continue|start)",
             {"reasoned": IS("this->actor->shutdown_reason")}, lambda v: [r"^w this->actor->shutdown_request = &\$0"] + (
                 [] if v.reasoned else [r"^w this->actor->shutdown_reason = \$0\.payload\.request_payload\.reason"]) + [r"^vcall \S*shutdown_start on this->actor ", r"^call \S*shutdown_continue on this->actor "],
             order=[(r"^w", r"shutdown_start"), (r"shutdown_start", "shutdown_continue")], atomic=POLL | {A + "shutdown_start"})
    c.every("plugins-deactivated", "rotor::plugin::init_shutdown_plugin_t::handle_shutdown", r"^v?call \S*deactivate_plugins on this->actor ", {},
            lambda t, x: None if len(t) == 1 and E.show(x.val) == "1" else "the last plugin has to deactivate the others and agree", "deactivation", atomic={A + "deactivate_plugins"})
    # who keeps an actor shutting down
    c.every("links-wait", "rotor::plugin::link_server_plugin_t::handle_shutdown", r"^v?call \S*notify_shutdown", {}, lambda t, x: waits(r"empty\(this->linked_clients\)'*")(t, x) or
            (None if len(t) == 1 else "clients are not asked to unlink"), "linked clients", atomic={"rotor::plugin::link_server_plugin_t::notify_shutdown"})
    c.every("servers-wait", "rotor::plugin::link_client_plugin_t::handle_shutdown", None, {}, waits(r"empty\(this->servers_map\)'*"), "servers to unlink from", atomic=POLL)
    from naming import release
    release(c, "names-wait")


# ------------------------------------------------------------------------------------------- C04 start
@prop("C04")
def start(c):
    S = c.S
    f = "rotor::plugin::starter_plugin_t::on_start"
    n = 3

    def tag(eng, ev, t):
        m = re.match(r"vcall \S*handle_start on this->actor->plugins\[#(\d)\]", t)
        if m:
            return "start %s" % m.group(1)
        return False

    def check(tags, x):
        ts, i = list(flat(tags)), 0
        for k in range(n - 1, -1, -1):
            skip = truth(x.st, r"\(this->actor->plugins\[#%d\]'*->reaction'* & 8\)" % k) is False
            if ts[i:i + 1] == ["start %d" % k] and not skip:
                i += 1
            elif not skip:
                return "plugin #%d of %d is not started in turn: %s" % (k, n, "; ".join(ts) or "nothing")
            elif ts[i:i + 1] == ["start %d" % k]:
                return "a plugin that does not take part is started"
        return None if i == len(ts) else "superfluous starts: %s" % "; ".join(ts)
    c.every("start-order", f, None, {"this->actor->state": S("INITIALIZED")}, check, "the reacting plugins are started last to first", tagger=tag, seq={"this->actor->plugins": n})
    c.decide("start-once", f, r"^(vcall \S*handle_start on |w .*->reaction = )", {"initialized": (IS("this->actor->state"), S("INITIALIZED"), S("INITIALIZED"))},
             lambda v: [Loop([r"^vcall \S*handle_start on this->actor->plugins\[\*\] \(&\$0", r"^w this->actor->plugins\[\*\]->reaction = \(this->actor->plugins\[\*\]->reaction & 7\)"])] if v.initialized else [])
    c.decide("start-hook", "rotor::plugin::starter_plugin_t::handle_start", r"^vcall \S*on_start on ", {}, lambda v: [r"on_start on this->actor "])
    # a supervisor starts like any actor, and then watches its shutdown flag
    c.every("supervisor-start", "rotor::supervisor_t::on_start", r"^w this->state = ", {}, lambda t, x: None if list(flat(t)) == ["w this->state = %d" % S("OPERATIONAL")] else
            "does %s" % fmt(t), "supervisor becomes operational")
    # the start trigger is sent only by the supervisor's child manager and the supervisor itself
    callers = {"rotor::plugin::child_manager_plugin_t::on_init", "rotor::plugin::child_manager_plugin_t::handle_start", "rotor::supervisor_t::on_child_init"}
    sends(c, "who-starts", "start_actor_t", callers)


def sends(c, rule, payload, allowed, least=1):
    """the named message is sent from nowhere else"""
    n = 0
    for caller, g, node, virt in P.call_sites(c.p):
        q = c.p.resolve(g).qname
        if base(q) in (A + "send", A + "request", A + "request_via") or base(q).startswith("rotor::make_message") or base(q) == "rotor::make_routed_message":
            if any(payload in str(t) for t in (c.p.resolve(g).targs or [])[:1]):
                o = owner_fn(c.p, caller)
                if base(o.qname) in (A + "send", A + "reply_to", A + "reply_with_error"):
                    continue
                n += 1
                c.sites += 1
                c.ob(rule, helper_of(c.p, o, allowed), "%s:%s" % (o.where.split(":")[0], node.get("l")), "%s is sent by %s, which is none of the places that may: %s" % (
                    payload, o.qname, ", ".join(short_q(a) for a in sorted(allowed))), sample="%s sent by %s" % (payload, short_q(o.qname)), key="%s|%s|%s" % (rule, payload, base(o.qname)))
    c.need(n >= least, "nobody sends %s" % payload)


# ------------------------------------------------------------------------------------------- C05 shutdown trigger and reason
@prop("C05")
def reason(c):
    S = c.S
    alive = (IS("this->state"), -E.INF, S("OPERATIONAL"))
    c.decide("trigger", A + "do_shutdown", OUT, {"alive": alive, "reason": r"\$0"}, lambda v: [
        r"^send shutdown_trigger_t -> this->supervisor->address \(this->address, %s\)" % (r"\$0" if v.reason else r"error\(normal\)")] if v.alive else [])
    c.decide("trigger-supervisor", "rotor::supervisor_t::do_shutdown", OUT, {"alive": alive, "reason": r"\$0", "parent": IS("this->parent")}, lambda v: [
        r"^send shutdown_trigger_t -> %s \(this->address, %s\)" % ("this->parent->address" if v.parent else "this->address", r"\$0" if v.reason else r"error\(normal\)")] if v.alive else [])
    c.decide("first-reason", A + "assign_shutdown_reason", r"^w this->shutdown_reason|" + OUT, {"reasoned": IS("this->shutdown_reason")},
             lambda v: [] if v.reasoned else [r"^w this->shutdown_reason = \$0"])
    only_written_by(c, "reason-writers", "rotor::actor_base_t", "shutdown_reason", {A + "assign_shutdown_reason"})
    only_called_by(c, "reason-assigners", A + "assign_shutdown_reason", {"rotor::plugin::init_shutdown_plugin_t::on_shutdown", "rotor::plugin::child_manager_plugin_t::request_shutdown"})
    c.every("reason-given-by-request", "rotor::plugin::init_shutdown_plugin_t::on_shutdown", r"^w this->actor->shutdown_reason|^vcall \S*shutdown_start", {"this->actor->shutdown_reason": "null"},
            lambda t, x: None if match(list(t), [r"^w this->actor->shutdown_reason = \$0\.payload\.request_payload\.reason", "shutdown_start"]) and before(list(t), "^w", "^vcall") else "reason not taken over before the shutdown starts: %s" % fmt(t),
            "shutdown reason is known before shutdown starts", atomic=POLL | {A + "shutdown_start"})


# ------------------------------------------------------------------------------------------- C06 escalation
@prop("C06")
def escalation(c):
    def want(v):
        out = [r"^w this->state = "]
        to = r"^send shutdown_trigger_t -> this->supervisor->address \(this->supervisor->address, error\(%s, next this->shutdown_reason\)\)"
        if not v.spawned and v.escalate and v.reason and v.failed:
            out.append(to % "failure_escalation")
        if not v.spawned and v.auto:
            out.append(to % "child_down")
        return out
    mask = lambda n: r"\(this->continuation_mask & %d\)" % mask_bit(c, n)
    c.decide("escalate", A + "shutdown_start", OUT + r"|^w this->state", {
        "spawned": IS("this->spawner_address"), "escalate": mask("ESCALATE_FALIURE"), "auto": mask("AUTOSHUTDOWN_SUPERVISOR"),
        "reason": IS("this->shutdown_reason"), "failed": r"bool\(call:root->ec\)"}, want, atomic={"rotor::extended_error_t::root"})
    # the options of the configuration arrive in the actor
    for f in [f for f in c.p.find(A + "actor_base_t") if f.params and "config" in f.params[0]["t"]]:
        for esc in (0, 1):
            for auto in (0, 1):
                c.every("options", f, r"^w this->continuation_mask = ", {"$0.escalate_failure": esc, "$0.autoshutdown_supervisor": auto},
                        lambda t, x, esc=esc, auto=auto: None if sum(int(m) for tt in flat(t) for m in re.findall(r"\| (\d+)\)+$", tt)[-1:]) == esc * mask_bit(c, "ESCALATE_FALIURE") + auto * mask_bit(c, "AUTOSHUTDOWN_SUPERVISOR") or bits_of(t) == esc * mask_bit(c, "ESCALATE_FALIURE") | auto * mask_bit(c, "AUTOSHUTDOWN_SUPERVISOR") else
                        "options escalate=%d autoshutdown=%d are stored as %s" % (esc, auto, fmt(t)), "configuration options")


def bits_of(t):
    ts = list(flat(t))
    if not ts:
        return 0
    ns = [int(n) for n in re.findall(r"\| (\d+)", ts[-1])]
    r = 0
    for n in ns:
        r |= n
    return r


def mask_bit(c, name):
    for t in c.p.tus:
        v = (t.records.get("rotor::actor_base_t") or {}).get("consts", {}).get(name)
        if v is not None:
            return v
    raise P.AnalysisError("anchor not found: flag " + name)


# ------------------------------------------------------------------------------------------- C07 plugin activation
PB = "rotor::plugin::plugin_base_t::"


@prop("C07")
def plugin_activation(c):
    seq_calls(c, "activate-in-order", A + "activate_plugins", "activate", True)
    seq_calls(c, "deactivate-in-reverse", A + "deactivate_plugins", "deactivate", False, cond=r"this->plugins\[#%d\]'*->actor'*", pre=r"^c this->deactivating_plugins\.(emplace|insert)")
    c.every("activation-args", A + "activate_plugins", r"^vcall \S*::activate on ", {}, lambda t, x: None if all(re.search(r"\(this(->|\))", y) for y in flat(t)) else
            "a plugin is activated with %s" % fmt(t), "each plugin gets this actor")
    c.decide("activated", PB + "activate", r"^w this->(actor|phase) =|^v?call \S*commit_plugin_activation on|" + OUT, {}, lambda v: [
        r"^w this->actor = \$0", r"^v?call \S*commit_plugin_activation on \$0 \(this->, 1\)", r"^w this->phase = %d" % 2], atomic={A + "commit_plugin_activation"})

    def committed(name, also=None):
        """the record of exactly this plugin is taken out of the container, when there is one"""
        C = "this->" + name

        def judge(tags, x):
            ts = [t for t in flat(tags) if not t.startswith("algo")]
            cut = [t for t in ts if t.startswith("c %s.erase" % C)]
            if len(ts) != len(cut) or len(cut) > 1:
                return "does %s" % fmt(tags)
            found.update(cut)
            eq = r"\((%s\[%%s\]-> == call:identity->|call:identity-> == %s\[%%s\]->)\)" % (IS(C), IS(C))
            if cut:
                k = cut[0][len("c %s.erase (" % C):-1]
                return None if k == "&" + "call:identity" or k == "call:identity" or truth(x.st, eq.replace("%s", IS(k))) else "takes out %s, which is not known to be the plugin's record" % k
            hit = truth(x.st, eq.replace("%s", r"[^\[\]]*"))
            last = [d for k, d in x.st.fa.items() if re.fullmatch(eq.replace("%s", r"[^\[\]]*"), E.show(k))]
            if any(d[0] == d[1] == 1 for d in last):
                return "leaves the record of the plugin"
            if not last and truth(x.st, r"*(empty|found)\(%s(,[^()]*)?\)" % IS(C)) is None and not any("miss" in t for t in flat(tags)):
                return "does not look for the record of the plugin"
        return judge
    found = set()
    act, deact = committed("activating_plugins"), committed("deactivating_plugins")

    def activation(tags, x):
        ok = truth(x.st, r"\$1")
        down = [t for t in flat(tags) if "deactivate_plugins on this" in t]
        if ok is None:
            return "does not look at the outcome"
        if not ok:
            return None if len(list(flat(tags))) == len(down) == 1 else "does %s after a failure" % fmt(tags)
        return act(tags, x)
    c.every("commit-activation", A + "commit_plugin_activation", r"^algo|^[cw] this->|^v?call \S*deactivate_plugins", None, activation,
            "exactly the plugin's record goes", atomic={A + "deactivate_plugins"})
    c.every("commit-deactivation", A + "commit_plugin_deactivation", r"^algo|^[cw] this->", None, deact, "exactly the plugin's record goes")
    for n in ("activating_plugins", "deactivating_plugins"):
        c.ob("commit-some", any(n in t for t in found), "src/rotor/actor_base.cpp", "no record is ever taken out of %s" % n)
    # finding a plugin by its identity
    same = r"\((\$0 == call:identity->|call:identity-> == \$0)\)"

    def answer(st):
        ts = list(flat(st.hist))
        return ["-> %s" % truth(st, same)] if ts and ts[-1].startswith("who") else []

    def asked(eng, ev, t):
        if ev.kind == "vcall" and ev.name.endswith("::identity"):
            return answer(ev.st) + ["who " + (at(E.show(ev.obj)) if "plugins[" in E.show(ev.obj) else E.show(ev.obj))]
        return False

    def lookup(tags, x):
        ts = list(flat(tags)) + answer(x.st)
        want = []
        for k in range(2):
            want += ["who %d" % k, "-> False"]
        r = E.show(x.val).replace("'", "")
        m = re.fullmatch(r"this->plugins\[#(\d)\]", r)
        if r != "0" and not m:
            return "returns " + r
        if m:
            k = int(m.group(1))
            want = want[:2 * k] + ["who %d" % k, "-> True"]
        return None if ts == want else "returns %s after %s" % (r, "; ".join(ts))
    c.every("lookup", A + "get_plugin", None, {}, lookup, "the plugin with that identity is found", tagger=asked, seq={"this->plugins": 2})
    own = r"empty\(this->own_subscriptions\)"
    L = "rotor::plugin::lifetime_plugin_t::unsubscribe"
    c.decide("deactivate", PB + "deactivate", r"^v?call \S*(commit_plugin_deactivation|lifetime_plugin_t::unsubscribe) on|^w this->(actor|reaction) =|" + OUT,
             {"active": IS("this->actor"), "none_left": own},
             lambda v: [] if not v.active else [r"commit_plugin_deactivation on this->actor \(this", r"^w this->actor = 0", r"^w this->reaction = 0"] if v.none_left else
             [Loop([r"unsubscribe on this->actor->lifetime \(this->own_subscriptions\[\*\]"], must=True)],
             order=[("commit_plugin_deactivation", r"^w this->actor")], atomic={A + "commit_plugin_deactivation", L})
    # the last subscription of a plugin going away completes its deactivation
    last = r"empty\(this->own_subscriptions\)'"
    f = c.p.one(PB + "forget_subscription", lambda f: "point" in f.params[0]["t"])
    c.decide("forget", f, r"^v?call \S*(commit_plugin_deactivation|shutdown_continue|commit_unsubscription|plugin_base_t::forget_subscription) on|^c this->own|^w this->actor =|" + OUT,
             {"known": r"~found\(this->own_subscriptions,\w+\)", "last": last, "down": (r"*this->actor->state", c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN"))},
             lambda v: [] if not v.known else [r"(commit_unsubscription on this->actor->supervisor|forget_subscription on this) \(this->own_subscriptions\[\*\]", r"^c this->own_subscriptions\.erase"] + (
                 [r"commit_plugin_deactivation on this->actor \(this", "^w this->actor = 0"] + (["shutdown_continue on this->actor "] if v.down else []) if v.last else []),
             order=[("commit_plugin_deactivation", "shutdown_continue"), ("shutdown_continue", "^w this->actor")], ret=lambda v, x: None if (E.show(x.val) != "0") == v.known else "returns %s" % E.show(x.val),
             atomic=POLL | {A + "commit_plugin_deactivation", "rotor::supervisor_t::commit_unsubscription"})


# ------------------------------------------------------------------------------------------- C22 resources
@prop("C22")
def resources(c):
    S = c.S
    q = "rotor::plugin::resources_plugin_t::"
    c.decide("acquire", q + "acquire", r"^(c|w) this->(resources|reaction)|" + OUT, {
        "fits": r"\(\$0 < size\(this->resources\)\)", "init": (IS("this->actor->state"), S("INITIALIZING"), S("INITIALIZING")), "late": (IS("this->actor->state"), S("OPERATIONAL"), E.INF)},
        lambda v: None if v.init and v.late else ([] if v.fits else [r"^c this->resources\.resize \(\(\$0 \+ 1\)\)"]) + [r"^w this->resources\[\$0\] = \(this->resources\[\$0\] \+ 1\)"] +
        ([r"^w this->reaction = \(this->reaction \| 1\)"] if v.init else [r"^w this->reaction = \(this->reaction \| 2\)"] if v.late else []))
    poll = r"^call \S*(init|shutdown)_continue on this->actor "
    c.decide("release", q + "release", r"^w this->resources|" + poll + "|" + OUT, {
        "init": (IS("this->actor->state"), S("INITIALIZING"), S("INITIALIZING")), "down": (IS("this->actor->state"), S("SHUTTING_DOWN"), S("SHUTTING_DOWN")),
        "held": r"call:has_any", "in_init": r"\(this->actor->continuation_mask & 1\)", "in_down": r"\(this->actor->continuation_mask & 2\)", "asked": IS("this->actor->init_request")},
        lambda v: None if v.init and v.down else [r"^w this->resources\[\$0\] = \(this->resources\[\$0\] - 1\)"] +
        (["init_continue"] if v.init and not v.held and not v.in_init and v.asked else []) + (["shutdown_continue"] if v.down and not v.held and not v.in_down else []),
        order=[("^w", "continue")], atomic=POLL | {q + "has_any"})
    agree = lambda fact: (lambda t, x: None if E.show(x.val) in ("!call:has_any",) or truth(x.st, fact) is not None and (E.show(x.val) != "0") == (truth(x.st, fact) is False) else
                          "answers %s whether or not resources are held" % E.show(x.val))
    for h in ("handle_init", "handle_shutdown"):
        c.every("hold-" + h, q + h, None, {}, agree(r"call:has_any"), "held resources keep the actor", atomic={q + "has_any"})
    for n in (0, 1, 2):
        c.every("has-any", q + "has_any", None, {}, lambda t, x, n=n: None if E.show(x.val) in ("(0 < sum(this->resources,None,0))", "!(sum(this->resources,None,0) == 0)", "(sum(this->resources,None,0) != 0)") or
                anyres(x, n) else "answers %s with %d counters" % (E.show(x.val), n), "any counter above zero", seq={"this->resources": n})
    c.every("has", q + "has", None, {}, lambda t, x: None if E.show(x.val) == "this->resources[$0]" and truth(x.st, r"\(\$0 < size\(this->resources\)\)") or
            E.show(x.val) == "0" and truth(x.st, r"\(\$0 < size\(this->resources\)\)") is False else "returns %s" % E.show(x.val), "the counter of the resource, zero when never acquired")
    # the polling marks, by which a release inside a poll does not poll again
    for f, hook, bit in ((A + "init_continue", "handle_init", 1), (A + "shutdown_continue", "handle_shutdown", 2)):
        c.every("poll-mark", f, r"^w this->continuation_mask|^vcall \S*(%s|_finish) on" % hook, {}, lambda t, x, bit=bit: marks(t, bit), "polling is marked while plugins are asked")


def anyres(x, n):
    got = E.show(x.val)
    if got not in ("0", "1"):
        return False
    total = truth(x.st, (r"sum\(this->resources,None,0\)'*", 1, E.INF))
    if total is not None:
        return total is (got == "1")
    held = [max((truth(x.st, w) for w in ((e, 1, E.INF), e)), key=lambda h: h is not None) for e in (r"this->resources\[#%d\]'*" % i for i in range(n))]  # counters are unsigned
    return True in held if got == "1" else all(h is False for h in held)


def marks(tags, bit):
    ts = list(flat(tags))
    if not (ts and re.search(r"\| %d\)$" % bit, ts[0])):
        return "plugins are asked without marking the poll: %s" % fmt(tags)
    fin = [i for i, t in enumerate(ts) if "_finish" in t]
    off = [i for i, t in enumerate(ts) if t.startswith("w") and re.search(r"& %d\)$" % (0xffffffff & ~bit), t)]
    if not off or fin and off[-1] > fin[0]:
        return "the mark is not taken back before the round ends: %s" % fmt(tags)
    if any("handle_" in t for t in ts[off[0]:]):
        return "plugins are asked after the mark was taken back"
