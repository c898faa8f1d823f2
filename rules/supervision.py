"""C23-C27, C39: supervisors, their children and spawners"""
from rulekit import *
from requests import one
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
S = "rotor::supervisor_t::"
PB = "rotor::plugin::plugin_base_t::"
CM = "rotor::plugin::child_manager_plugin_t::"
CI = "rotor::detail::child_info_t::"
OUT = r"^(send|route|reply|request|put) "
BY = r" by this->actor->supervisor$"
STEPS = {A + n for n in ("start_timer", "do_shutdown", "shutdown_continue", "init_continue", "cancel_timer", "should_restart", "configure", "do_initialize", "shutdown_start")} | {
    S + n for n in ("discard_request", "make_address")} | {CI + n for n in ("spawn_attempt", "next_spawn")} | {
    PB + n for n in ("handle_shutdown", "handle_start", "handle_unsubscription", "deactivate", "activate", "handle_init")} | {"rotor::extended_error_t::root"} | {
    CM + n for n in ("remove_child", "init_continue", "cancel_init", "has_initializing", "active_actors", "request_shutdown", "on_shutdown_fail", "create_child", "spawn")}
INSERT = r"(emplace|try_emplace|insert|insert_or_assign)"


def at(*fns):
    return STEPS - set(fns)


def some(st, rx, lo, hi):
    """whether some version of the value is known to lie in the range on this path"""
    r = re.compile(rx)
    return any(r.fullmatch(E.show(k).replace("'", "")) and d[0] >= lo and d[1] <= hi for k, d in st.fa.items())


def overload(c, q, n):
    """the definition with that many parameters"""
    return c.fn(q, lambda f: len(f.params) == n)


# ------------------------------------------------------------------------------------------- C23 the policy
RP = "rotor::restart_policy_t"


@prop("C23")
def policy(c):
    pol = {n: c.E(RP, n) for n in ("always", "never", "ask_actor", "normal_only", "fail_only")}
    # an attempt: everything about the previous instance is forgotten, the attempt is counted and may be the last one
    lim, less = "this->max_attempts", r"\(\(this->attempts \+ 1\) < this->max_attempts\)"
    fresh = {"initialized": "0", "started": "0", "attempts": "(this->attempts + 1)", "timer_id": "0", "shutdown": str(c.E("rotor::detail::shutdown_state_t", "none")), "last_instantiation": "call:local_time"}
    for n, p in pol.items():
        def attempt(tags, x):
            w = {}
            for t in flat(tags):
                m = re.match(r"w this->(\w+) = (.*)$", t)
                if not m:
                    return "does %s" % t
                w[m.group(1)] = m.group(2)
            limited, below = truth(x.st, lim), truth(x.st, less)
            last = p == pol["never"] or limited and below is False
            if p != pol["never"] and (limited is None or limited and below is None):
                return "does not look at the budget"
            want = dict(fresh, **({"active": "0"} if last else {}))
            bad = [k for k in set(w) | set(want) if w.get(k) != want.get(k)]
            return "%s becomes %s, expected %s" % (bad[0], w.get(bad[0]), want.get(bad[0])) if bad else None
        c.every("attempt", CI + "spawn_attempt", r"^w |^c ", {"this->policy": p}, attempt, "policy " + n)
        conds = {"timer": "this->timer_id", "esc": "this->escalate_failure", "lim": lim, "below": r"\(this->attempts < this->max_attempts\)", "abn": r"\$0", "active": "this->active",
                 "ask": "call:should_restart", "young": r"\(\(call:local_time - this->last_instantiation\) < this->restart_period\)"}

        def verdict(v):
            if v.timer:
                return "no"
            if v.esc and (v.lim and not v.below or v.abn and (n == "normal_only" or n == "always" and not v.active)):
                return "escalate"
            if not v.active or n == "fail_only" and not v.abn or n == "normal_only" and v.abn or n == "ask_actor" and not v.ask:
                return "no"
            return None if n == "never" else "later" if v.young else "now"

        def says(v, x):
            r, w = E.show(x.val), verdict(v)
            r = {"no{}": "no", "now{}": "now", "escalate_failure{}": "escalate"}.get(r, "later")
            return None if w in (None, r) else "says %s, expected %s" % (r, w)
        def loses(v):
            w = verdict(v)
            return ([], [r"^w this->active = 0$"]) if w in ("no", "escalate") else []
        c.decide("verdict", CI + "next_spawn", r"^w |^c ", conds, lambda v: loses(v) if verdict(v) else None, init={"this->policy": p}, ret=says, atomic=at(CI + "next_spawn"))
    c.every("default-answer", A + "should_restart", OUT + r"|^[cw] ", None, lambda t, x: None if E.show(x.val) == "0" and not t else "says %s" % E.show(x.val), "actors that are not asked to are not restarted")
    consult(c)
    for fld, fs in (("attempts", (CI + "spawn_attempt",)), ("active", (CI + "spawn_attempt", CI + "next_spawn", CM + "on_spawn", CM + "on_spawn_timer")), ("max_attempts", ()), ("policy", ()), ("restart_period", ()),
                    ("escalate_failure", ()), ("factory", ()), ("last_instantiation", (CI + "spawn_attempt",))):
        only_written_by(c, "writers-" + fld, CI[:-2], fld, set(fs) | {CI + "child_info_t"}, least=1 if fs else 0)
    only_called_by(c, "counts", CI + "spawn_attempt", {CI + "child_info_t", CM + "on_spawn"})
    only_called_by(c, "asked", CI + "next_spawn", {CM + "remove_child"})


INFO = r"this->actors_map\[\$0\.address\]\.second"


def consult(c):
    """a child that is gone: the policy is asked once, with how it ended, exactly when it was spawned and the supervisor is up; its word is acted upon"""
    up, f = c.S("OPERATIONAL"), CM + "remove_child"
    KEEP = OUT + r"|^c this->(actors_map|spawning_map)|^w (this->(actors_map|spawning_map)\S* = .*)|^call \S*(next_spawn|start_timer) on"
    reason = INFO + r"->actor->shutdown_reason"
    seen = set()

    def judge(tags, x):
        st = x.st
        tags = [t for t in tags if not t.startswith("reply ") and not re.search(r"second->actor = 0$", t)]
        asks = [t for t in flat(tags) if "next_spawn" in t]
        spawned = truth(st, "*" + INFO + "->factory")
        alive = some(st, r"this->actor->state", -E.INF, up)
        gone = [r"^c this->actors_map\.erase \(\$0\.address\)"]
        if not asks:
            if not (spawned is False or some(st, r"this->actor->state", up + 1, E.INF)):
                return "does not ask the policy although it may be to restart the actor"
            return None if match(tags, gone) else "does %s" % fmt(tags)
        if not spawned or not alive:
            return "asks the policy although %s" % ("the actor was not spawned" if not spawned else "the supervisor may be shutting down")
        has = truth(st, "*" + reason)
        m = re.match(r"call detail::child_info_t::next_spawn on %s(->)? \((.*)\)$" % INFO, asks[0])
        if len(asks) != 1 or not m:
            return "asks by %s" % fmt(asks)
        # an end is abnormal when the root of its reason carries an error
        if has is None or m.group(2) not in (("bool(call:root->ec)", "(call:root->ec != 0)") if has else ("0",)):
            code = truth(st, r"*(bool\(call:root->ec\)|call:root->ec)")
            if not (has and code is not None and m.group(2) == str(int(code))):
                return "tells the policy %s" % m.group(2)
        kinds = [(E.show(k).replace("'", ""), d) for k, d in st.fa.items() if "holds(call:next_spawn," in E.show(k)]
        yes = [k.rsplit(",", 1)[1].rstrip(")").split("::")[-1] for k, d in kinds if d[0] > 0 or 0 in d[2]]
        no = {k.rsplit(",", 1)[1].rstrip(")").split("::")[-1] for k, d in kinds if d[0] == d[1] == 0}
        kind = yes[0] if yes else None
        if kind is None:
            left = {"no", "now", "escalate_failure", "time_duration"} - no
            kind = left.pop() if len(left) == 1 else None
        rest = [t for t in tags if "next_spawn" not in t]
        want = {"no": gone, "now": [r"^send spawn_actor_t -> this->actor->address \(%s->address\)" % INFO + BY],
                "escalate_failure": gone + [r"^send shutdown_trigger_t -> this->actor->address \(this->actor->address, error\(failure_escalation, next %s\)\)" % reason + BY],
                "time_duration": [r"^call actor_base_t::start_timer on this->actor \(%s->restart_period, this->, on_spawn_timer\)" % INFO, r"^w %s->timer_id = call:start_timer" % INFO,
                                  r"^w this->spawning_map\[call:start_timer\]\.second = %s$|^c this->spawning_map\.%s \(call:start_timer, %s\)" % (INFO, INSERT, INFO)]}
        rest = [t for t in rest if not re.match(r"c this->spawning_map\.\[\] \(call:start_timer\)$", t)]
        for k in [kind] if kind else sorted({"no", "now", "escalate_failure", "time_duration"} - no):
            seen.add(k)
            if not match(rest, want[k]):
                return "does %s when the policy says %s, expected %s" % (fmt(rest), k, fmt(want[k]))
        return None
    c.every("consulted", f, KEEP, None, judge, "the policy decides what comes after a child", atomic=at(f))
    c.need(seen == {"no", "now", "escalate_failure", "time_duration"}, "all verdicts of the policy are handled (%s)" % sorted(seen))


# ------------------------------------------------------------------------------------------- C24 spawners
@prop("C24")
def spawner(c):
    SP = "rotor::spawner_t::"
    # the settings arrive where they belong
    for fn, fld in (("restart_period", "period"), ("restart_policy", "policy"), ("max_attempts", "attempts"), ("escalate_failure", "escalate")):
        c.every("settings", SP + fn, r"^[cw] ", None, one(r"^w this->%s = (copyof\()?\$0\)?$" % fld), "each setting is stored as given")
    c.decide("registers-once", SP + "spawn", r"^w this->done|^v?call ", {"done": "this->done"}, lambda v: [] if v.done else [
        r"^w this->done = 1", r"^v?call child_manager_plugin_t::spawn on this->supervisor->manager \(this->factory, this->period, this->policy, this->attempts, this->escalate\)"], atomic=at())
    c.every("registers-at-end", SP + "~spawner_t", r"^v?call \S*spawn on", None, one(r"^v?call spawner_t::spawn on this \(\)"), "a spawner that is done with is registered", atomic=at() | {SP + "spawn"})
    nw = r"^init new<child_info_t>->"
    vals = {"address": "call:make_address", "factory": r"\$0", "actor": "0", "policy": r"\$2", "restart_period": r"\$1", "max_attempts": r"\$3", "escalate_failure": r"\$4", "attempts": "0", "active": "1", "timer_id": "0",
            "shutdown": str(c.E("rotor::detail::shutdown_state_t", "none")), "initialized": "0", "started": "0"}
    # the record keeps everything as given, and the first instance is asked for
    c.every("registered", CM + "spawn", OUT + r"|^c this->actors_map|^w this->actors_map|" + nw, None, lambda t, x: None if match(
        [y for y in t if not re.match(nw + "last_instantiation", y)], [nw + "%s = %s$" % kv for kv in vals.items()] + [
            r"^c this->actors_map\.%s \(call:make_address, new<child_info_t>\)" % INSERT, r"^send spawn_actor_t -> this->actor->address \(call:make_address\)" + BY]) else "does %s" % fmt(t),
        "recorded as given and asked for", atomic=at(CM + "spawn"))
    # an attempt
    f = CM + "on_spawn"
    info = r"this->actors_map\[\$0\.payload\.spawner_address\]\.second->"
    pol = {n: c.E(RP, n) for n in ("always", "never", "ask_actor", "normal_only", "fail_only")}
    SELF = c.E("rotor::supervisor_policy_t", "shutdown_self")
    ST = r"*this->actor->state"
    ir = r"this->actor->init_request"
    made = r"*(%sactor|cb)" % info
    KEEP = OUT + r"|^callback|^c this->(actors_map|spawning_map)|^w |^v?call (?!shutdown_start|root)"

    def spawn(policy):
        def go(v):
            if not v.active:
                return []
            if v.down or v.dead:
                return ([r"^w %sactive = 0" % info] + ([r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if v.down else []))
            return None
        return go
    for n, p in pol.items():
        def judge(tags, x):
            st = x.st
            tags = [t for t in tags if not re.match(r"c this->spawning_map\.\[\] \(call:start_timer\)$", t)]
            active = truth(st, info + "active")
            off = r"^w %sactive = 0$" % info
            if active is None:
                return "does not look whether the spawner is active"
            if not active:
                return None if not tags else "an inactive spawner does %s" % fmt(tags)
            # the first fact about the state is what the message has found
            state = [d for k, d in st.fa.items() if E.show(k).replace("'", "") == "this->actor->state"]
            if not state:
                return "does not look at the state of the supervisor"
            lo, hi, _ = (tuple(state[0]) + (None,))[:3]
            if hi > c.S("OPERATIONAL"):
                if lo <= c.S("OPERATIONAL"):
                    return "may instantiate an actor while the supervisor is shutting down"
                down = any(d[0] == d[1] == c.S("SHUTTING_DOWN") for d in state)
                want = [off] + ([r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if down else [])
                return None if match(tags, want) and before(tags, "^w ", "shutdown_continue") else "does %s while shutting down, expected %s" % (fmt(tags), fmt(want))
            base = [r"^call detail::child_info_t::spawn_attempt on this->actors_map\[\$0\.payload\.spawner_address\]\.second(->)? \(\)",
                    r"^callback %sfactory on \S+ \(this->actor->, \$0\.payload\.spawner_address\)" % info]
            if not before(tags, "spawn_attempt", "^callback"):
                return "instantiates before the attempt is counted"
            took, left = [], list(tags)
            for b in base:
                hit = [t for t in left if re.search(b, t)]
                if len(hit) != 1:
                    return "does %s, expected %s" % (fmt(tags), fmt(base))
                left.remove(hit[0])
            stored = [t for t in left if re.match(r"w %sactor = cb$" % info, t)]
            have = stored or truth(st, "*%sactor" % info) is True
            if have:
                left = [t for t in left if t not in stored]
                if stored and truth(st, "cb") is False:
                    return "stores no actor"
                return None if not left else "does %s although the actor is there" % fmt(left)
            if truth(st, "*%sactor" % info) is None and truth(st, "cb") is not False:
                return "ends without the actor of the factory and without dealing with its absence"
            retry = n in ("always", "fail_only")
            ing = [d for d in state if d[0] == d[1] == c.S("INITIALIZING")]
            no = any(c.S("INITIALIZING") in d[2] or d[0] > c.S("INITIALIZING") or d[1] < c.S("INITIALIZING") for d in state)
            selfp = truth(st, (r"*this->actor->policy", SELF, SELF))
            asked = truth(st, "*" + ir)
            if ing and selfp:
                want = [r"^reply err %s-> \(error\(failure_escalation, request %s\)\)" % (ir, ir) + BY, r"^w %s = 0" % ir] if asked else [r"^vcall actor_base_t::do_shutdown on this->actor \(error\(child_init_failed\)\)"]
                if asked is None:
                    return "does not look whether its initialization is asked for"
                want.append(off)
            elif not no and selfp is None and retry or selfp is None and ing:
                return "ignores the policy of the supervisor"
            elif retry:
                want = [r"^call actor_base_t::start_timer on this->actor \(%srestart_period, this->, on_spawn_timer\)" % info, r"^w %stimer_id = call:start_timer" % info,
                        r"^w this->spawning_map\[call:start_timer\]\.second = %s$|^c this->spawning_map\.%s \(call:start_timer, %s\)" % (info[:-2], INSERT, info[:-2])]
            else:
                want = [off]
            if match(left, want):
                return None
            return "does %s without an actor, expected %s" % (fmt(left), fmt(want))
        c.every("attempted", f, KEEP, {info.replace("\\", "") + "policy": p}, judge, "one attempt under the policy " + n, atomic=at(f))
    # the timer of a pending respawn
    rec = r"this->spawning_map\[\$0\]\.second->"
    c.decide("timer", CM + "on_spawn_timer", OUT + r"|^c this->(actors_map|spawning_map)|^w |^call ", {"cancelled": r"\$1", "down": (ST, c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN")), "up": (ST, -E.INF, c.S("OPERATIONAL"))},
             lambda v: None if v.down and v.up else [r"^w %stimer_id = 0" % rec, r"^c this->spawning_map\.erase \(\$0\)"] + (
                 [r"^w %sactive = 0" % rec] + ([r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if v.down else []) if v.cancelled else
                 [r"^send spawn_actor_t -> this->actor->address \(%saddress\)" % rec + BY] if v.up else []), order=[("^[wc] ", "shutdown_continue")], atomic=at())
    # a new instance takes the place of its spawner's record
    sp = r"(\$0->spawner_address)"
    old = r"this->actors_map\[%s\]\.second" % sp
    c.decide("takes-place", CM + "create_child", r"^c this->actors_map|^w (?!this->reaction|new<)", {"sp": r"*\$0->spawner_address"}, lambda v: [
        r"^c this->actors_map\.erase \(%s\)" % sp, r"^w %s->actor = \$0" % old, r"^w %s->address = \$0->address" % old, r"^w \$0->spawner_address = \$0->address", r"^c this->actors_map\.%s \(\$0->address, %s\)" % (INSERT, old)] if v.sp else [
        r"^c this->actors_map\.%s \(\$0->address, new<child_info_t>\)" % INSERT], order=[("erase", INSERT)], atomic=at(CM + "create_child"))
    consult(c)
    pend(c)


# ------------------------------------------------------------------------------------------- C25 initialization of children
REQ = r"\$0\.payload\.req->address"
CHILD = r"this->actors_map\[%s\]\.second->" % REQ
SELF_ADDR = r"\((%s == this->actor->address|this->actor->address == %s)\)" % (REQ, REQ)


@prop("C25")
def children(c):
    ING, INIT = c.S("INITIALIZING"), c.E(PB + "reaction_t", "INIT")
    SELF = c.E("rotor::supervisor_policy_t", "shutdown_self")
    FAILED = c.E("rotor::supervisor_policy_t", "shutdown_failed")
    ir = r"this->actor->init_request"
    ST = r"*this->actor->state"
    # a new child: initialized at once, recorded as alive, asked for, and waited for
    c.decide("created", CM + "create_child", OUT + r"|^vcall|^c this->actor->alive|^w this->reaction", {"ing": (ST, ING, ING)}, lambda v: [
        r"^vcall actor_base_t::do_initialize on \$0 \(this->actor->context\)", r"^send create_actor_t -> this->actor->address \(\$0, \$0->init_timeout\)" + BY, r"^c this->actor->alive_actors\.%s \(\$0\)" % INSERT] +
        ([r"^w this->reaction = \(this->reaction \| %d\)" % INIT] if v.ing else []), order=[("do_initialize", "^send")], atomic=at(CM + "create_child"))
    c.every("asked", CM + "on_create", OUT + r"|^v?call ", None, one(r"^request initialize_actor_t -> \$0\.payload\.actor->address from this->actor->address \(\) timeout \$0\.payload\.timeout"), "one request with the child's own timeout", atomic=at())
    # the supervisor waits: two children stand for any number, each is looked at on its own
    el = [r"this->actors_map\[#%d\]\." % i for i in range(2)]
    conds = {}
    for i in range(2):
        conds.update({"a%d" % i: "*" + el[i] + "second->actor", "i%d" % i: ("*" + el[i] + "second->actor->state", -E.INF, ING), "d%d" % i: "*" + el[i] + "second->initialized",
                      "s%d" % i: r"*\((this->actor->address == %sfirst|%sfirst == this->actor->address)\)" % (el[i], el[i])})
    def waiting(v):
        return any(getattr(v, "a%d" % i) and getattr(v, "i%d" % i) and not getattr(v, "d%d" % i) and not getattr(v, "s%d" % i) for i in range(2))
    c.decide("waits-for", CM + "has_initializing", OUT + r"|^[cw] this", conds, lambda v: [], ret=lambda v, x: None if E.show(x.val) == str(int(waiting(v))) else "returns %s" % E.show(x.val), seq={"this->actors_map": 2})
    c.every("init-waits", CM + "handle_init", OUT + r"|^[cw] ", None, lambda t, x: None if not t and (E.show(x.val) in ("!call:has_initializing", "(call:has_initializing == 0)") or
            truth(x.st, "call:has_initializing") is not None and E.show(x.val) == str(int(not truth(x.st, "call:has_initializing")))) else "returns %s" % E.show(x.val), "initialization waits for the children", atomic=at())
    c.decide("init-goes-on", CM + "init_continue", OUT + r"|^w |^v?call \S*init_continue on", {"ing": ("this->actor->state", ING, ING), "asked": ir, "more": "call:has_initializing"}, lambda v: [
        r"^w this->reaction = \(this->reaction & %d\)" % (15 & ~INIT), r"^call actor_base_t::init_continue on this->actor \(\)"] if v.ing and v.asked and not v.more else [], order=[("^w", "init_continue")], atomic=at(CM + "init_continue"))
    # the answer of a child
    def answer(v):
        out = []
        if v.err:
            if v.ing and v.self_policy:
                if not v.asked:
                    out.append(r"^vcall actor_base_t::do_shutdown on this->actor \(error\(child_init_failed, next \$0\.payload\.ee\)\)")
                elif v.own:
                    out.append(r"^vcall actor_base_t::do_shutdown on this->actor \(\$0\.payload\.ee\)")
                else:
                    out += [r"^reply err %s-> \(error\(failure_escalation, next \$0\.payload\.ee, request %s\)\)" % (ir, ir) + BY, r"^w %s = 0" % ir]
            else:
                out.append(r"^vcall actor_base_t::do_shutdown on %s \(error\(init_failed, next \$0\.payload\.ee\)\)" % (CHILD + "actor" if v.known else "this->actor"))
        else:
            out += [r"^w %sinitialized = 1" % CHILD] if v.known else []
            out += [r"^call child_manager_plugin_t::init_continue on this \(\)"] if not v.more else []
        return out
    c.decide("answer", CM + "on_init", r"^(reply|request|put) |^c |^w (?!%sstarted)|^v?call \S*(do_shutdown|init_continue) on" % CHILD, {
        "err": r"\$0\.payload\.ee", "known": r"*found\(this->actors_map,%s\)" % REQ, "ing": (ST, ING, ING), "self_policy": (r"*this->actor->policy", SELF, SELF), "asked": "*" + ir,
        "own": r"*\((%s == \$0\.payload\.req|\$0\.payload\.req == %s)\)" % (ir, ir), "more": "*call:has_initializing"}, answer, order=[("initialized = 1", "init_continue")], atomic=at(CM + "on_init"))
    c.decide("reported", CM + "on_init", r"^v?call \S*on_child_init on", {"self": "*" + SELF_ADDR, "known": r"*found\(this->actors_map,%s\)" % REQ}, lambda v: [] if v.self else [
        r"^vcall supervisor_t::on_child_init on this->actor \(%s, \$0\.payload\.ee\)" % (CHILD + "actor" if v.known else "0")], atomic=at(CM + "on_init") | {S + "on_child_init"})
    # a child that is gone before it was started
    KEEP = r"^reply |^v?call \S*(do_shutdown|init_continue) on|^w this->actor->init_request"
    c.decide("lost-early", CM + "remove_child", KEEP, {"ing": ("this->actor->state", ING, ING), "started": INFO + "->started", "failed": ("this->actor->policy", FAILED, FAILED), "asked": ir}, lambda v: (
        [] if not v.ing or v.started else [r"^vcall actor_base_t::do_shutdown on this->actor \(error\(child_down\)\)"] if v.failed else
        [r"^reply err %s-> \(error\(failure_escalation, request %s\)\)" % (ir, ir) + BY, r"^w %s = 0" % ir] if v.asked else []) + [r"^call child_manager_plugin_t::init_continue on this \(\)"],
        order=[("^reply|do_shutdown", "init_continue")], atomic=at(CM + "remove_child"))
    for fld, fs in (("initialized", (CI + "spawn_attempt", CM + "on_init")),):
        only_written_by(c, "writers-" + fld, CI[:-2], fld, set(fs))


# ------------------------------------------------------------------------------------------- C26 start
@prop("C26")
def start(c):
    UP, ING = c.S("OPERATIONAL"), c.S("INITIALIZING")
    ST, SYNC = r"*this->actor->state", r"*this->actor->synchronize_start"
    c.decide("starts", CM + "on_init", r"^send |^w %sstarted" % CHILD, {
        "err": r"\$0\.payload\.ee", "known": r"*found\(this->actors_map,%s\)" % REQ, "self": "<" + SELF_ADDR, "sync": SYNC, "up": (ST, UP, UP), "down": (ST, UP + 1, E.INF)},
        lambda v: None if v.up and v.down else [r"^send start_actor_t -> %s \(\)" % REQ + BY, r"^w %sstarted = 1" % CHILD] if not v.err and v.known and (not v.down if v.self else not v.sync or v.up) else [],
        atomic=at(CM + "on_init"))
    el = [r"this->actors_map\[#%d\]\." % i for i in range(2)]
    conds = {"sync": SYNC}
    for i in range(2):
        conds.update({"a%d" % i: "*" + el[i] + "second->actor", "d%d" % i: "*" + el[i] + "second->initialized", "s%d" % i: r"*\((this->actor->address == %sfirst|%sfirst == this->actor->address)\)" % (el[i], el[i])})
    c.decide("starts-together", CM + "handle_start", OUT + r"|^w |^c |^v?call \S*handle_start on", conds, lambda v: [p for i in range(2) if v.sync and getattr(v, "a%d" % i) and getattr(v, "d%d" % i) and not getattr(v, "s%d" % i) for p in (
        r"^send start_actor_t -> %sfirst \(\)" % el[i] + BY, r"^w %ssecond->started = 1" % el[i])] + [r"^call plugin_base_t::handle_start on this \(\$0\)"], seq={"this->actors_map": 2}, atomic=at(CM + "handle_start"))
    only_written_by(c, "writers-started", CI[:-2], "started", {CI + "spawn_attempt", CM + "on_init", CM + "handle_start"})


# ------------------------------------------------------------------------------------------- C27 shutdown of children
AM = "rotor::address_mapping_t::"
MAP = {AM + n for n in ("has_subscriptions", "each_subscription", "empty", "remove")}


@prop("C13")
def replies_mapped(c):
    """one reply address per actor and type of response, kept as long as it is subscribed"""
    M, SUBS = "this->actor_map", r"^c this->actor_map"
    one = r"%s\[&\$0\]\.second" % M
    key = r"(call:message_type|\$1->handler->message_type)"
    f = AM + "set"
    c.every("reply-address-kept", f, SUBS + r"\S*\.(try_emplace|emplace|insert\w*|erase|clear|swap) |^w this->actor_map|^vcall handler_base_t::message_type", {}, lambda t, x: None if match(t, [
        r"^vcall handler_base_t::message_type on \$1->handler ", r"^c %s\.(try_emplace|emplace|insert\w*) \(%s, \$1\)|^w %s\[%s\]\.second = \$1" % (one, key, one, key)]) or
        truth(x.st, "found\\(%s,%s\\)" % (one, key)) and match(t, [r"^vcall handler_base_t::message_type on \$1->handler "]) else fmt(t), "the subscription is noted under its actor and message type")
    f = AM + "get_mapped_address"
    c.decide("reply-address-found", f, "^[cw] this->", {"actor": r"found\(this->actor_map,&\$0\)", "type": r"found\(%s,\$1\)" % one}, lambda v: None if v.type and not v.actor else [],
             ret=lambda v, x: None if (re.fullmatch(one + r"\[\$1\]\.second->address", E.show(x.val)) if v.actor and v.type else E.show(x.val) in ("0", "null", "nullptr")) else "answers %s" % E.show(x.val))


@prop("C27")
def mapped_until_unsubscribed(c):
    """the book of reply subscriptions, by which a supervisor knows that nothing of a child is left"""
    f = AM + "has_subscriptions"
    c.decide("book-asked", f, "^[cw] this->", {"has": r"found\(this->actor_map,&\$0\)"}, lambda v: [], ret=lambda v, x: None if E.show(x.val) in ("0", "1") and (E.show(x.val) == "1") == v.has else "answers %s" % E.show(x.val))
    c.every("book-empty", AM + "empty", "^[cw] this->", {}, lambda t, x: None if not t and (E.show(x.val) == "empty(this->actor_map)" or truth(x.st, r"empty\(this->actor_map\)") is (E.show(x.val) == "1")) else "answers %s" % E.show(x.val), "whether nothing is subscribed")
    sub = r"this->actor_map[$0.owner_ptr].second"
    f = AM + "remove"
    for n in (1, 2):
        hits = set()

        def same(st, i):
            fa = {E.show(k).replace("'", ""): d for k, d in st.fa.items()}
            r = [next((d[0] for k, d in fa.items() if d[0] == d[1] and "==" in k and "%s[#%d].second->%s" % (sub, i, w) in k and "$0.%s" % w in k), None) for w in ("handler", "address")]
            return True if r == [1, 1] else False if 0 in r else None

        def book(tags, x, n=n, hits=hits):
            ts = [t for t in flat(tags)]
            out = [i for i in range(n) if any(re.search(r"\.second\.erase \(\S*#%d\b" % i, t) for t in ts)]
            whole = [t for t in ts if re.match(r"^c this->actor_map\.(erase|clear)", t)]
            hits.add(tuple(out))
            if len(out) > 1:
                return "forgets %d subscriptions" % len(out)
            if out and same(x.st, out[0]) is not True:
                return "forgets a subscription of another handler or address"
            if not out and not whole and any(same(x.st, i) is not False for i in range(n)):
                return "keeps a subscription which is gone"
            if bool(whole) != (n == 1 and bool(out)):
                return "forgets the whole actor" if whole else "keeps an actor without subscriptions"
            return None
        c.every("book-struck", f, r"^c this->actor_map\S*\.(erase|clear|pop|swap|extract) ", None, book, "exactly the subscription is forgotten, the actor with its last one", seq={sub: n})
        c.ob("book-struck", len(hits) == n + 1, c.fn(f).where, "%s with %d subscriptions: only %s" % (f, n, sorted(hits)), sample="each of %d subscriptions can be forgotten" % n)
    for g in family(c, AM + "each_subscription"):
        c.every("book-walked", g, r"^v?call \S*lifetime_plugin_t::unsubscribe on", None, lambda t, x: None if [m.group(1) for m in (re.search(r"unsubscribe on \S+ \(this->actor_map\[&\$0\]\.second\[#(\d)\]\.second\)", y) for y in flat(t)) if m] == ["0", "1"] and len(list(flat(t))) == 2 else fmt(t),
                "every subscription of the actor", atomic={"rotor::plugin::lifetime_plugin_t::unsubscribe"}, seq={"this->actor_map[&$0].second": 2})


@prop("C27")
def shutdown(c):
    D = "rotor::detail::shutdown_state_t"
    NONE, SENT, CONF = c.E(D, "none"), c.E(D, "sent"), c.E(D, "confirmed")
    DOWN, INIT, SHUT, START = c.S("SHUTTING_DOWN"), *(c.E(PB + "reaction_t", n) for n in ("INIT", "SHUTDOWN", "START"))
    pend(c)
    # one request per child; the supervisor itself goes its own way
    f = overload(c, CM + "request_shutdown", 2)
    me = r"*\((this->actor == \$0\.actor|\$0\.actor == this->actor)\)"
    sd = r"this->actor->shutdown_reason"

    def ask(v):
        if not v.none:
            return []
        out = [r"^call child_manager_plugin_t::cancel_init on this \(\$0\.actor\)", r"^w \$0\.shutdown = %d" % SENT]
        if not v.self:
            return out + [r"^request shutdown_request_t -> \$0\.actor->address from this->actor->address \(error\(supervisor_shutdown, next \$1\)\) timeout \$0\.actor->shutdown_timeout"]
        if v.parent:
            return out + [r"^vcall actor_base_t::do_shutdown on this->actor \(\$1\)"]
        return out if v.down else out + [r"^w \$0\.shutdown = %d" % CONF, r"^vcall actor_base_t::shutdown_start on this->actor \(\)", r"^call child_manager_plugin_t::request_shutdown on this \(\$1\)",
                                         r"^call actor_base_t::shutdown_continue on this->actor \(\)"] + ([] if v.reason else [r"^w %s = \$1" % sd])
    c.decide("asks-once", f, OUT + r"|^[cw] |^v?call ", {"none": (r"\$0\.shutdown", NONE, NONE), "self": me, "parent": r"*this->actor->parent", "down": (r"*this->actor->state", DOWN, DOWN), "reason": "<" + sd},
             ask, order=[("cancel_init", "shutdown_start"), ("^w this->actor->shutdown_reason", "shutdown_start"), ("shutdown_start", "::request_shutdown"), ("::request_shutdown", "shutdown_continue"),
                         (r"^w \$0\.shutdown = %d" % CONF, "shutdown_start|shutdown_continue"), ("shutdown_start", r"^w \$0\.shutdown = %d" % SENT)], atomic=at(A + "assign_shutdown_reason"))
    src = r"this->actors_map\[\$0\.payload\.actor_address\]\.second"
    c.decide("trigger", CM + "on_shutdown_trigger", OUT + r"|^[cw] |^v?call ", {"known": r"found\(this->actors_map,\$0\.payload\.actor_address\)"}, lambda v: [
        r"^call child_manager_plugin_t::request_shutdown on this \(%s->, \$0\.payload\.reason\)" % src] if v.known else [], atomic=at(CM + "on_shutdown_trigger"))
    who = CHILD + "actor"
    first = r"^c this->actors_map\.at \(%s\)" % REQ
    # a confirmation, or the lack of it
    c.decide("confirmed", CM + "on_shutdown_confirm", OUT + r"|^[cw] (?!this->actors_map\.at )|^v?call (?!\S*has_subscriptions)", {
        "err": r"*\$0\.payload\.ee", "subs": "*call:has_subscriptions", "self": r"*\((%s == this->actor|this->actor == %s)\)" % (who, who)}, lambda v: [r"^w %sshutdown = %d" % (CHILD, CONF)] +
        ([r"^vcall child_manager_plugin_t::on_shutdown_fail on this \(%s->, \$0\.payload\.ee\)" % who] if v.err else []) +
        [r"^call address_mapping_t::each_subscription on this->actor->address_mapping \(%s->, lambda\)" % who if v.subs else r"^vcall child_manager_plugin_t::remove_child on this \(%s->\)" % who] +
        ([] if v.self else [r"^vcall supervisor_t::on_child_shutdown on this->actor \(%s\)" % who]), order=[("^w ", "remove_child|each_subscription"), ("on_shutdown_fail", "remove_child"), ("remove_child|each_sub", "on_child_shutdown")],
        atomic=at(CM + "on_shutdown_confirm") | MAP | {S + "on_child_shutdown"})
    ls = c.laters(CM + "on_shutdown_confirm", "^x", r"address_mapping_t::each_subscription on", 1, atomic=at(CM + "on_shutdown_confirm") | MAP)
    c.need(ls, "what is done with each subscription of a child that is gone")
    for l in ls:
        c.every("subscriptions-go", l, r"^v?call ", None, one(r"^v?call lifetime_plugin_t::unsubscribe on \S*lifetime \(@0\)"), "its subscriptions are dissolved", atomic={"rotor::plugin::lifetime_plugin_t::unsubscribe"})
    c.every("failure-reported", CM + "on_shutdown_fail", OUT + r"|^[cw] |^v?call ", None, one(r"^vcall system_context_t::on_error on \$0\.supervisor->context \(&\$0, \$1\)"), "the system learns of the failure", atomic=at())
    tid = r"\$0->init_request->payload\.id"
    c.decide("init-forgotten", CM + "cancel_init", OUT + r"|^[cw] |^v?call ", {"asked": r"\$0->init_request", "waiting": r"*found\(this->actor->timers_map,%s\)" % tid}, lambda v: [
        r"^call supervisor_t::discard_request on this->actor \(%s\)" % tid] if v.asked and v.waiting else [], atomic=at(CM + "cancel_init"))
    # gone: the last reference is dropped, the supervisor goes on when only itself is left
    seen = set()

    def removed(tags, x):
        fs = list(flat(tags))
        if not any(t.startswith("call child_manager_plugin_t::cancel_init on this (&$0)") for t in fs):
            return "its initialization request is not forgotten"
        if not any(re.match(r"c this->actor->alive_actors\.erase \(&\$0\)", t) for t in fs):
            return "it counts as alive"
        if not any(re.match(r"w %s->actor = 0" % INFO, t) for t in fs):
            return "its actor is kept"
        goes = any("shutdown_continue" in t for t in fs)
        down = [d for k, d in x.st.fa.items() if E.show(k).replace("'", "") == "this->actor->state"]
        isd = truth(x.st, (r"*this->actor->state", DOWN, DOWN))
        few = truth(x.st, ("*call:active_actors", -E.INF, 1))
        seen.add(goes)
        if goes and not (isd and few):
            return "goes on with a shutdown that is not under way or while children are left"
        if not goes and not (isd is False or few is False):
            return "does not go on with the shutdown"
        return None if before(tags, "second->actor = 0", "shutdown_continue|::init_continue") and before(tags, r"actors_map\.erase|spawning_map", "shutdown_continue|::init_continue") else "goes on before the child is removed"
    c.every("removed", CM + "remove_child", r"^[cw] this->(actors_map|spawning_map|actor->alive)|^call ", None, removed, "a child that is gone is forgotten, then the supervisor goes on", atomic=at(CM + "remove_child"))
    c.need(seen == {True, False}, "both ways of going on after a child")
    # who is waited for: each is looked at on its own
    el = [r"this->actors_map\[#%d\]\.second->" % i for i in range(2)]
    conds = {"late": (r"*this->actor->state", DOWN + 1, E.INF)}
    for i in range(2):
        conds.update({"a%d" % i: "*" + el[i] + "actor", "t%d" % i: "*" + el[i] + "timer_id", "s%d" % i: "*" + el[i] + "active"})
    c.decide("counted", CM + "active_actors", OUT + r"|^[cw] this", conds, lambda v: [], ret=lambda v, x: None if E.show(x.val) == str(
        sum(1 for i in range(2) if getattr(v, "a%d" % i) or getattr(v, "t%d" % i) or getattr(v, "s%d" % i) and not v.late)) else "counts %s" % E.show(x.val), seq={"this->actors_map": 2}, atomic=at(CM + "active_actors"))
    req = r"\$0->payload\.request_payload\.reason"

    def waits(v, x):
        r = E.show(x.val)
        return None if r == ("call:handle_shutdown" if v.alone else "0") else "returns %s" % r
    c.decide("waits", CM + "handle_shutdown", OUT + r"|^w |^v?call (?!\S*active_actors)", {"req": r"\$0", "alone": (r"*call:active_actors", 1, 1)}, lambda v: [
        r"^w this->actors_map\[this->actor->address\]\.second->shutdown = %d" % CONF, r"^call child_manager_plugin_t::request_shutdown on this \(%s\)" % (req if v.req else r"this->actor->shutdown_reason")] + (
        [r"^call plugin_base_t::handle_shutdown on this \(\$0\)"] if v.alone else []), order=[("^w ", "::request_shutdown"), ("::request_shutdown", "::handle_shutdown")], ret=waits, atomic=at(CM + "handle_shutdown"))
    SUP = c.E("rotor::owner_tag_t", "SUPERVISOR")
    own = r"\(\$0\.owner_tag == %d\)|\$0\.owner_tag" % SUP
    c.decide("dissolved", CM + "handle_unsubscription", OUT + r"|^[cw] |^v?call (?!\S*(has_subscriptions|active_actors|::empty) on)", {"own": (r"\$0\.owner_tag", SUP, SUP), "more": "*call:has_subscriptions",
             "none": (r"*call:active_actors", 0, 0), "empty": "*call:empty"}, lambda v: [r"^call plugin_base_t::handle_unsubscription on this \(\$0, \$1\)"] if not v.own else
             [r"^call address_mapping_t::remove on this->actor->address_mapping \(\$0\)"] + ([] if v.more else [r"^vcall child_manager_plugin_t::remove_child on this \(\$0\.owner_ptr->\)"]) +
             ([r"^call plugin_base_t::deactivate on this \(\)"] if v.none or v.empty else []), order=[("::remove on", "remove_child"), ("remove_child|::remove on", "deactivate")],
             ret=lambda v, x: None if E.show(x.val) == ("0" if v.own else "call:handle_unsubscription") else "returns %s" % E.show(x.val), atomic=at(CM + "handle_unsubscription") | MAP)
    c.decide("leaves", CM + "deactivate", OUT + r"|^[cw] |^v?call (?!\S*(active_actors|::empty) on)", {"empty": "*call:empty", "alone": ("*call:active_actors", 1, 1)}, lambda v: (
        [r"^vcall child_manager_plugin_t::remove_child on this \(this->actor->\)"] if v.alone else []) + [r"^call plugin_base_t::deactivate on this \(\)"] if v.empty else [],
        order=[("remove_child", "deactivate")], atomic=at(CM + "deactivate") | MAP)
    # the supervisor stands in its own books and takes part in shutdowns
    def setup(tags, x):
        fs = list(flat(tags))
        for w in (r"^c (\$0|this->actor)->alive_actors\.%s \((\$0|this->actor)\)" % INSERT, r"^c this->actors_map\.%s \((\$0|this->actor)->address, new<child_info_t>\)" % INSERT, r"^w new<child_info_t>->actor = (this->actor|\$0)$",
                  r"^vcall actor_base_t::configure on (this->actor|\$0) \(this->\)"):
            if len([t for t in fs if re.search(w, t)]) != 1:
                return "misses %s in %s" % (w, fs)
        reac = [t for t in fs if t.startswith("w this->reaction = ")]
        try:
            bits = eval(reac[-1].split(" = ", 1)[1].replace("this->reaction", "0"), {}) if reac else 0
        except Exception:
            return "the reactions become %s" % reac[-1]
        return None if bits & (INIT | SHUT | START) == INIT | SHUT | START else "does not take part in everything"
    c.every("set-up", CM + "activate", r"^c (this->actor|\$0)->alive|^c this->actors_map|^w (this->reaction|new<child_info_t>->actor)|^vcall ", None, setup, "the supervisor stands in its own books", atomic=at(CM + "activate") | {PB + "subscribe", A + "subscribe"})
    for fld, fs in (("shutdown", {CI + "spawn_attempt"} | {CM + n for n in ("on_shutdown_confirm", "handle_shutdown", "request_shutdown")}), ("actor", {CI + "child_info_t"} | {CM + n for n in ("remove_child", "create_child", "on_spawn")}),
                    ("timer_id", {CI + "spawn_attempt"} | {CM + n for n in ("remove_child", "on_spawn", "on_spawn_timer")})):
        only_written_by(c, "writers-" + fld, CI[:-2], fld, fs)
    only_written_by(c, "writers-actors_map", CM[:-2], "actors_map", {CM + n for n in ("activate", "create_child", "remove_child", "spawn")})


def pend(c):
    """at shutdown: every child gets its request, every pending respawn is cancelled"""
    el = [r"this->actors_map\[#%d\]\.second" % i for i in range(2)]
    conds = {}
    for i in range(2):
        conds["a%d" % i] = "*" + el[i] + "->actor"
        conds["t%d" % i] = "*" + el[i] + "->timer_id"
    c.decide("shutdown-all", overload(c, CM + "request_shutdown", 1), r"^v?call ", conds, lambda v: [p for i in range(2) for p in (
        [r"^v?call child_manager_plugin_t::request_shutdown on this \(%s->, \$0\)" % el[i]] if getattr(v, "a%d" % i) else
        [r"^v?call actor_base_t::cancel_timer on this->actor \(%s->timer_id\)" % el[i]] if getattr(v, "t%d" % i) else [])], seq={"this->actors_map": 2}, atomic=at())


# ------------------------------------------------------------------------------------------- C39 the root supervisor
SC = "rotor::system_context_t::"
B = "rotor::actor_config_builder_t::"


@prop("C39")
def root(c):
    first = {"taken": "this->supervisor"}
    for f in family(c, SC + "create_supervisor()::(anonymous class)::operator()"):
        c.decide("one-root", f, r"^w |^c |^v?call (?!\S*identity on)|^(send|request|put) ", first, lambda v: [r"^v?call system_context_t::on_error on this \(\$0\S*, error\(supervisor_defined\)\)", r"^w \$0 = 0$"] if v.taken else
                 [r"^w this->supervisor = \$0$", r"^vcall actor_base_t::do_initialize on \$0 \(this\)"], order=[("supervisor = ", "do_initialize"), ("on_error", "w ")])
    for f in family(c, SC + "create_supervisor"):
        lam = []
        c.run(f, "^$", None, tagger=lambda e, ev, t: lam.append(1) if re.search(r"config_builder_t on \S+ \(lambda, this", t) else False)
        c.ob("built-by", bool(lam), f.where, "%s does not hand the check to the builder" % f.qname, sample=short_q(f.qname))
    only_written_by(c, "root-writers", SC[:-2], "supervisor", {SC + "create_supervisor"})
    steps = {A + "do_initialize", S + "create_actor", S + "do_initialize"} | {B + n for n in ("finish", "init_timeout", "shutdown_timeout", "timeout")}
    conds = {"root": "<this->parent", "reg": "<this->create_registry", "has": "*this->registry_address"}

    def own(v, x):
        got = [t for t in flat(x.st.hist) if t.startswith("w this->registry_address")]
        if v.reg and (not got or got[0] != "w this->registry_address = call:finish->address"):
            return "the registry's address is not taken over"
        late = [t for t in got if t.endswith("this->parent->registry_address")]
        if late and not v.root:
            return "inherits from nobody"
        if late and truth(x.st, "*(this->registry_address|call:finish->address)") is not False:
            return "the configured registry is replaced"
        if v.root and not v.reg and not late and truth(x.st, "*this->registry_address") is not True:
            return "the registry of the parent is not inherited"
        return None if len(got) == len(late) + bool(v.reg) else "the registry address is changed elsewise"
    T = r"this->init_timeout", r"this->shutdown_timeout"
    c.decide("boot", S + "do_initialize", r"^w this->(context|registry)|^v?call |^(send|request|put) ", conds, lambda v: tuple([r"^w this->context = \$0$", r"^call actor_base_t::do_initialize on this \(\$0\)"] + (
        [r"^request initialize_actor_t -> this->address from this->address \(\) timeout %s$" % T[0]] if not v.root else []) + ([r"create_actor on this \(\)", r"::init_timeout on \S+ \(%s\)" % T[0],
        r"::shutdown_timeout on \S+ \(%s\)" % T[1], r"::finish on ", r"^w this->registry_address = "] if v.reg else []) + [r"^w this->registry_address = "] * k for k in (0, 1)), order=[("context = ", "do_initialize"), ("do_initialize", "^request"),
        ("do_initialize", "create_actor")], ret=own, atomic=steps)
    # back ends and other kinds of supervisors go through it
    for f in c.p.overriders(c.p.one(A + "do_initialize")):
        if f.qname not in (S + "do_initialize", A + "do_initialize") and f.body is not None:
            c.every("boots", f, r"do_initialize on this", None, lambda t, x: None if match(t, [r"call (supervisor|actor_base)_t::do_initialize on this \(\$0\)"]) else "is not initialized exactly once", "initialized by its base", atomic=steps - {f.qname})
    c.every("plugins-first", A + "do_initialize", r"^v?call ", None, lambda t, x: None if match(t, [r"activate_plugins on this \(\)"]) else "does not activate the plugins", "the plugins are activated", atomic={A + "activate_plugins"})
    for f in family(c, S + "create_actor()::(anonymous class)::operator()"):
        c.every("managed", f, r"^v?call ", None, lambda t, x: None if match(t, [r"child_manager_plugin_t::create_child on this->manager \(\$0\)"]) else "the actor is not handed to the child manager", "an actor becomes a child",
                atomic={CM + "create_child"})
    q = r"this->supervisor->inbound_queue"

    def drained(tags, x):
        fs = list(flat(tags))
        if truth(x.st, "this->supervisor") is False:
            return None if not fs else "touches a supervisor that is not there"
        for t in tags:
            for it in t[2] if is_loop(t) else ():
                if it and not match(it, ["^popped " + q, "^release popped"]):
                    return "a queued message is taken out without being released once: %s" % (it,)
        return None if fs and fs[-1].startswith("popempty " + q) else "messages may be left in the queue"
    c.every("released", SC + "~system_context_t", r"^(popped|popempty|release|delete)", None, drained, "what is still in the inbound queue is released")
