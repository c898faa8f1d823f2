"""C20, C21: the registry and its clients"""
from rulekit import *
from requests import one
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
PB = "rotor::plugin::plugin_base_t::"
R = "rotor::registry_t::"
RP = "rotor::plugin::registry_plugin_t::"
RT = RP + "discovery_task_t::"
LC = "rotor::plugin::link_client_plugin_t::"
OUT = r"^(send|route|reply|request|put) "
KEEP = OUT + r"|^c this->"
NM = r"\$0\.payload\.request_payload\.service_name"


def eq(a, b):
    return r"\((%s == %s|%s == %s)\)" % (a, b, b, a)


STEPS = {RT + n for n in ("post_discovery", "do_discover", "do_cancel", "on_discovery")} | {RP + "continue_init", RP + "link_registry", RP + "on_link"} | {
    A + n for n in ("init_continue", "shutdown_continue", "get_plugin", "configure", "get_address")} | {LC + "link", PB + "handle_shutdown"}


def at(fn):
    return STEPS - {fn}


ADD = r"(emplace|try_emplace|insert|insert_or_assign)"
PUSH = r"(emplace_back|push_back)"


# ------------------------------------------------------------------------------------------- C20 the registry actor
@prop("C20")
def registry(c):
    by = r" by this->supervisor$"
    ad = r"\$0\.payload\.request_payload\.service_addr"
    has = r"*found\(this->registered_map,%s\)" % NM
    # two promises stand for any number: each is looked at on its own
    pn = [r"this->promises\[#%d\]->payload\.request_payload\.service_name" % i for i in range(2)]
    # the first fact is the state the request has found

    def reg(tags, x):
        st = x.st
        known = truth(st, r"found\(this->registered_map,%s\)" % NM)
        if known is None:
            return "does not look whether the name is taken"
        if known:
            return None if match(tags, [r"^reply err \$0 \(error\(already_registered, request &\$0\)\)" + by]) else "a taken name leads to %s" % fmt(tags)
        left = [t for t in tags if not re.search(r"^c this->reverse_map\.\[\] \(%s\)$" % ad, t)]
        want = [r"^c this->registered_map\.%s \(%s, %s\)|^w this->registered_map\[%s\].second = %s$" % (ADD, NM, ad, NM, ad),
                r"^c this->reverse_map\[%s\]\.second\.%s \(%s\)" % (ad, ADD, NM), r"^reply ok \$0 \(\)" + by]
        for i in range(2):
            m = truth(st, r"*" + eq(pn[i], NM))
            if m is None:
                return "leaves a waiting client out"
            if m:
                want += [r"^reply ok this->promises\[#%d\]-> \((%s|this->registered_map\[%s\]\.second)\)" % (i, ad, NM) + by, r"^c this->promises\.erase \(#%d\)" % i]
        return None if match(left, want) else "a new name leads to %s" % fmt(tags)
    for n in (2,):
        c.every("register", R + "on_reg", OUT + r"|^[cw] this->", None, reg, "a free name is stored and announced, a taken one refused", seq={"this->promises": n})
    c.decide("discover", R + "on_discovery", KEEP, {"known": has}, lambda v: [r"^reply ok \$0 \(this->registered_map\[%s\]\.second\)" % NM + by] if v.known else [
        r"^reply err \$0 \(error\(unknown_service, request &\$0\)\)" + by])
    c.decide("promise", R + "on_promise", KEEP, {"known": has}, lambda v: [r"^reply ok \$0 \(this->registered_map\[%s\]\.second\)" % NM + by] if v.known else [
        r"^c this->promises\.%s \(&\$0\)" % PUSH])
    # cancelling answers and forgets exactly one promise, the one with that id of that client
    pid, who = r"\$0\.payload\.id", r"\$0\.payload\.source"

    def cancel(tags, x):
        mine = []
        for i in range(2):
            p = r"this->promises\[#%d\]->payload\." % i
            a, b = truth(x.st, r"*" + eq(p + "id", pid)), truth(x.st, r"*" + eq(p + "origin", who))
            mine.append(False if a is False or b is False else True if a and b else None)
        for i in range(2):
            if match(tags, [r"^reply err this->promises\[#%d\]-> \(error\(cancelled, request &?this->promises\[#%d\](->)?\)\)" % (i, i) + by, r"^c this->promises\.erase \(#%d\)" % i]):
                return None if mine[i] else "cancels a promise of another request or client"
        return None if not tags and mine == [False, False] else "does %s" % fmt(tags)
    c.every("cancel", R + "on_cancel", KEEP, None, cancel, "exactly the named promise is dropped", seq={"this->promises": 2})
    nm = r"\$0\.payload\.service_name"
    at = r"(this->registered_map\[%s\]\.second)" % nm

    def strip(tags):
        return [t for t in tags if not re.search(r"^c this->reverse_map\.(at|\[\]) \(%s\)$" % at, t)]

    def dereg(tags, x):
        known = truth(x.st, r"*?found\(this->registered_map,%s\)" % nm) if False else None
        k = [d[0] for t, d in x.st.fa.items() if re.fullmatch(r"found\(this->registered_map,%s\)" % nm, E.show(t))]
        if k and k[0] == 0:
            return None if not tags else "an unknown name leads to %s" % fmt(tags)
        if not k:
            return "does not look the name up"
        ok = match([t for t in strip(tags) if not re.search(r"^c this->reverse_map\.erase \(%s\)" % at, t)],
                   [r"^c this->registered_map\.erase \(%s\)" % nm, r"^c this->reverse_map\[%s\]\.second\.erase \(%s\)" % (at, nm)])
        if ok and any("reverse_map.erase" in t for t in tags) and truth(x.st, r"*empty\(this->reverse_map\[%s\]\.second\)" % at) is not True:
            return "forgets the other names of that address"
        return None if ok else "does %s" % fmt(tags)
    c.every("deregister-name", R + "on_dereg_service", KEEP, None, dereg, "exactly that name is forgotten")
    sa = r"\$0\.payload\.service_addr"
    c.decide("deregister-address", R + "on_dereg", KEEP, {"known": r"found\(this->reverse_map,%s\)" % sa}, lambda v: [
        r"^c this->registered_map\.erase \(this->reverse_map\[%s\]\.second\[#%d\]\)" % (sa, i) for i in range(2)] + [r"^c this->reverse_map\.erase \(%s\)" % sa] if v.known else [],
        seq={"this->reverse_map[$0.payload.service_addr].second": 2})
    for fld, fs in (("registered_map", ("on_reg", "on_dereg", "on_dereg_service")), ("reverse_map", ("on_reg", "on_dereg", "on_dereg_service")), ("promises", ("on_reg", "on_promise", "on_cancel"))):
        only_written_by(c, "writers-" + fld, R[:-2], fld, {R + n for n in fs})


# ------------------------------------------------------------------------------------------- C21 its clients
@prop("C21")
def names(c):
    TS, RS, PS = RT + "state_t", RP + "state_t", RP + "plugin_state_t"
    EC = "rotor::error_code_t"
    LINKING, LINKED, CONF = c.E(PS, "LINKING"), c.E(PS, "LINKED"), c.E(PS, "CONFIGURED")
    REG, OPER = c.E(RS, "REGISTERING"), c.E(RS, "OPERATIONAL")
    PASSIVE, DISC = c.E(TS, "PASSIVE"), c.E(TS, "DISCOVERING")
    INIT, DOWN = c.S("INITIALIZING"), c.S("SHUTTING_DOWN")
    CALL = r"|^v?call \S*::(link|link_registry|on_link|continue_init|init_continue|shutdown_continue|do_discover|do_cancel|post_discovery|configure|on_discovery|handle_shutdown) on"
    ing = r"\(this->plugin_state & %d\)" % LINKING
    link = r"^call registry_plugin_t::link_registry on this \(\)"
    c.decide("declare", RP + "register_name", KEEP + CALL, {"ing": ing}, lambda v: ([] if v.ing else [link]) + [r"^c this->register_map\.%s \(\$0, register_info_t\{\$1,%d\}\)" % (ADD, REG)], atomic=at(""))
    c.decide("look-for", RP + "discover_name", KEEP + CALL, {"ing": ing}, lambda v: ([] if v.ing else [link]) + [
        r"^c this->discovery_map\.%s \(\$0, \{address=&\$1,delayed=\$2,.*plugin=this,.*service_name=\$0,state=%d" % (ADD, PASSIVE)], atomic=at(""))
    reg = r"this->actor->supervisor->registry_address"
    f = RP + "link_registry"
    c.every("registry-link", f, OUT + r"|^c this->|^w this->" + CALL, None, one(
        r"^w this->plugin_state = \(this->plugin_state \| %d\)" % LINKING, r"^v?call link_client_plugin_t::link on call:get_plugin \(%s, 0, lambda\)" % reg),
        "the registry is linked even before it is operational", atomic=at(f))
    ls = c.laters(f, "^x", r"link_client_plugin_t::link on", 2, atomic=at(f))
    c.need(len(ls) == 1, "the continuation of the registry link")
    for l in ls:
        c.every("registry-linked", l, OUT + r"|^[cw] " + CALL, None, one(r"^call registry_plugin_t::on_link on gone \(@0\)"), "the answer is handed on", atomic=at(f))
    f = RP + "on_link"
    flags = []

    def final(v, x):
        ws = [t for t in x.st.hist if t.startswith("w this->plugin_state")]
        if not ws:
            return "the link state stays"
        for s in range(8):
            try:
                r = eval(ws[-1].split(" = ", 1)[1].replace("this->plugin_state", str(s)), {})
            except Exception:
                return "the link state becomes %s" % ws[-1]
            if r & 7 != (s | LINKED) & ~LINKING:
                return "the link state becomes %s" % ws[-1]
    xs = c.run(f, KEEP + CALL, None, seq={"this->register_map": 2, "this->discovery_map": 2}, atomic=at(f))
    c.decide("asks-registry", f, OUT + CALL, {"err": r"\$0"}, lambda v: [] if v.err else [
        r"^request registration_request_t -> %s from this->actor->address \(this->register_map\[#%d\]\.first, this->register_map\[#%d\]\.second\.address\) timeout this->actor->init_timeout" % (reg, i, i) for i in range(2)] + [
        r"^call registry_plugin_t::discovery_task_t::do_discover on this->discovery_map\[#%d\]\.second \(\)" % i for i in range(2)], seq={"this->register_map": 2, "this->discovery_map": 2}, atomic=at(f))
    c.every("link-state", f, r"^w this->plugin_state", None, lambda t, x: final(None, x), "linked, no longer linking", atomic=at(f), seq={"this->register_map": 1, "this->discovery_map": 1})
    f = RT + "do_discover"
    preg = r"this->plugin->actor->supervisor->registry_address"
    c.decide("asks-name", f, OUT + r"|^w this->", {"delayed": r"this->delayed"}, lambda v: [r"^w this->state = %d" % DISC, (
        r"^request discovery_promise_t" if v.delayed else r"^request discovery_request_t") + r" -> %s from this->plugin->actor->address \(this->service_name\) timeout this->plugin->actor->init_timeout" % preg] + (
        [r"^w this->request_id = reqid"] if v.delayed else []), atomic=at(f))
    # answers
    sn = r"\$0\.payload\.req->payload\.request_payload\.service_name"
    for fn in ("on_discovery", "on_future"):
        c.decide("answer", RP + fn, KEEP + r"|^w this" + CALL, {"known": r"found\(this->discovery_map,%s\)" % sn, "err": r"\$0\.payload\.ee"}, lambda v: [
            r"^call registry_plugin_t::discovery_task_t::on_discovery on this->discovery_map\[%s\]\.second \(%s, \$0\.payload\.ee\)" % (sn, "0" if v.err else r"&\$0\.payload\.res\.service_addr")] if v.known else [],
            atomic=at(RP + fn))
    f = RP + "on_registration"
    fail = c.E(EC, "registration_failed")
    c.decide("registered", f, KEEP + r"|^w this" + CALL, {"known": r"found\(this->register_map,%s\)" % sn, "err": r"\$0\.payload\.ee", "down": (r"*this->actor->state", DOWN, DOWN),
             "pend": (r"~*this->register_map\[(?!\$0)[^\]]+\]\.second\.state", REG, REG)},
             lambda v: [] if not v.known else [r"^c this->register_map\.erase \(%s\)" % sn if v.err else r"^w this->register_map\[%s\]\.second\.state = %d" % (sn, OPER)] + (
                 [r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if v.down else [] if v.pend and not v.err else [r"^vcall registry_plugin_t::continue_init on this \(%d, \$0\.payload\.ee\)" % fail]),
             order=[("^[cw] this->register", "^v?call ")], atomic=at(f))
    f = RP + "continue_init"
    ir = r"this->actor->init_request"
    c.decide("init-goes-on", f, KEEP + r"|^w this" + CALL, {"asked": ir, "ing": (r"this->actor->state", INIT, INIT), "err": r"\$1"},
             lambda v: [] if not v.asked or not v.ing else [r"^reply err %s-> \(error\(error_code\{\$0\}, next \$1, request %s\)\) by this->actor->supervisor$" % (ir, ir), r"^w %s = 0" % ir] if v.err else
             [r"^call actor_base_t::init_continue on this->actor \(\)"], atomic=at(f))
    # a discovered address is stored first, then reported, then linked when asked for
    f = RT + "on_discovery"
    am = r"this->plugin->aliases_map"
    key = r"(\$0->|this->address->)"
    cond = {"err": r"\$1", "cb": r"~this->task_callback", "cb2": r"~*this->task_callback", "ing": (r"*this->plugin->actor->state", INIT, INIT), "link": r"~*this->link_on_discovery",
            "known": r"~found\(%s,%s\)'?" % (am, key), "done": r"~*empty\(%s\[%s\]\.second\)" % (am, key)}
    post = r"^call registry_plugin_t::discovery_task_t::post_discovery on this \(\$1\)"

    def disc(v):
        if v.err:
            return [post]
        tell = lambda ph, on: [r"^callback this->task_callback on this->task_callback \(%d, \$1\)" % c.E(RP + "phase_t", ph)] if on else []
        out = [r"^w this->address-> = \$0->"] + tell("discovering", v.cb)
        if not v.ing or not v.link:
            return out + [post]
        if not v.known:
            return out + [r"^vcall link_client_plugin_t::link on call:get_plugin \(%s, this->operational_only, lambda\)" % key, r"^c %s\.%s \(%s, .*this->service_name" % (am, ADD, key)]
        if v.done:
            return out + tell("linking", v.cb2) + [post]
        return out + [r"^c %s\[%s\]\.second\.%s \(this->service_name\)" % (am, key, PUSH)]
    # whether the address was known is what the path found before it changed the map

    def alias(tags, x):
        st = x.st
        val = {n: truth(st, s) for n, s in cond.items()}
        fs = [(E.show(k), d) for k, d in st.fa.items() if re.fullmatch(r"found\(%s,%s\)'*" % (am, key), E.show(k))]
        val["known"] = not any("aliases_map.%s" % w in t for w in ("emplace", "try_emplace", "insert") for t in flat(tags)) and any(d[0] > 0 for _, d in fs)
        if not fs and val["link"] and val["ing"] and not val["err"]:
            return "does not look whether the address is being linked already"
        if fs and fs[0][1][0] == 0 and not fs[0][0].endswith("'"):
            val["known"] = False
        free = [n for n in val if val[n] is None]
        for bits in range(1 << len(free)):
            v = dict(val)
            for i, n in enumerate(free):
                v[n] = bool(bits >> i & 1)
            if not match([t for t in tags if not re.search(r"^c %s\.at \(%s\)$" % (am, key), t)], disc(NS(v))):
                return "does %s, expected %s" % (fmt(tags), fmt(disc(NS(v))))
        return None if before(tags, r"^w this->address", "^callback|^v?call ") and before(tags, r"^callback .*\(0,", r"^v?call |^c ") else "does %s in another order" % fmt(tags)
    c.every("discovered", f, OUT + r"|^[cw] this->" + CALL + r"|^callback", None, alias, "address, report, link", atomic=at(f))
    # the answer to that link concerns every name of that address still looked for, and nothing else
    ls = c.laters(f, "^x", r"link_client_plugin_t::link on", 2, atomic=at(f))
    c.need(ls, "the continuation of the service link")
    for l in ls:
        k = r"(\$0->|this->address->)"
        al = [r"%s\[%s\]\.second\[#%d\]" % (am, k, i) for i in range(2)]
        dm = r"this->plugin->discovery_map"

        def linked(tags, x):
            if any("gone" in t for t in flat(tags)) or any("gone" in E.show(t) for t in x.st.fa):
                return "relies on the discovery task, which may have been dropped meanwhile"
            known = truth(x.st, r"found\(%s,%s\)" % (am, k))
            want, live = [], []
            for i in range(2):
                fnd = truth(x.st, r"*found\(%s,%s\)" % (dm, al[i]))
                if fnd is None and known is not False:
                    return "does not look whether the task is still there"
                if fnd:
                    live.append(i)
                    cb = truth(x.st, r"*%s\[%s\]\.second\.task_callback" % (dm, al[i]))
                    if cb:
                        want.append(r"^callback %s\[%s\]\.second\.task_callback on .* \(1, @0\)" % (dm, al[i]))
                    elif cb is None:
                        return "does not report to a task"
            if known and live:
                for i in live:
                    if match(tags, want + [r"^call registry_plugin_t::discovery_task_t::post_discovery on %s\[%s\]\.second \(@0\)" % (dm, al[i])]) and before(tags, "^callback", "^call "):
                        return None
                return "does %s" % fmt(tags)
            return None if not tags else "does %s although nothing is left" % fmt(tags)
        sq = {"this->plugin->aliases_map[%s].second" % p: 2 for p in ("$0->", "this->address->")}
        c.every("linked", l, OUT + r"|^[cw] " + CALL + "|^callback", None, linked, "names still looked for are told, the rest is gone", seq=sq, atomic=at(f))
    f = RT + "post_discovery"
    dm = r"this->plugin->discovery_map"
    key = r"(this->plugin->discovery_map\[this->service_name\]\.second\.address->|this->address->)"
    failed = c.E(EC, "discovery_failed")

    def posted(n):
        def go(tags, x):
            st = x.st
            lk, known = truth(st, r"*this->link_on_discovery"), truth(st, r"*found\(%s,%s\)" % (am, key))
            group = known and lk and n
            want = [r"^c %s\.erase \(%s\[%s\]\.second\[#%d\]\)" % (dm, am, key, i) for i in range(n)] if group else [r"^c %s\.erase \((this->service_name)\)" % dm]
            al = r"^c %s(\[%s\]\.second\.erase \(#%%d\)|\.erase \(%s\))$" % (am, key, key)
            rest = [t for t in tags if not any(re.search(al % i, t) for i in range(max(n, 1)))]
            if group and not all(any(re.search(al % i, t) for t in tags) for i in range(n)):
                return "the names of the linked address are not forgotten"
            err = truth(st, r"\$0")
            none = truth(st, r"*empty\(%s\)" % dm)
            if none is None and not err:
                return "does not look whether names are left"
            go_on = none or err
            if err is None and none is False:
                return "an error does not end the discovery"
            s1, s2 = truth(st, (r"*this->plugin->actor->state", INIT, INIT)), truth(st, (r"*this->plugin->actor->state", DOWN, DOWN))
            if go_on:
                if s1:
                    want.append(r"^v?call registry_plugin_t::continue_init on this->plugin \(%d, \$0\)" % failed)
                elif s2:
                    want.append(r"^call actor_base_t::shutdown_continue on this->plugin->actor \(\)")
                elif s1 is None or s2 is None:
                    return "does not look at the state of the actor"
            return None if match(rest, want) and before(tags, "^c ", "^v?call ") else "does %s, expected %s" % (fmt(tags), fmt(want))
        return go
    for n in (0, 2):
        c.every("after-discovery", f, OUT + r"|^[cw] this->" + CALL, None, posted(n), "the task is dropped, then the actor goes on", atomic=at(f),
                seq={"this->plugin->aliases_map[%s].second" % p: n for p in ("this->plugin->discovery_map[this->service_name].second.address->", "this->address->")})
    # initialization waits for all names
    for n, m in ((0, 2), (1, 0)):
        def ready(v, x):
            pend = n > 0 or v.r0 or v.r1
            return None if {"0": False, "1": True}.get(E.show(x.val)) is (not pend) else "returns %s with names %s" % (E.show(x.val), "pending" if pend else "done")
        el = {"r%d" % i: (r"*this->register_map\[#%d\]\.second\.state" % i, REG, REG) for i in range(m)}
        el.setdefault("r0", r"never")
        el.setdefault("r1", r"never")
        c.decide("names-wait", RP + "handle_init", r"^w this->plugin_state|^v?call \S*::configure on", dict(el, conf=r"\(this->plugin_state & %d\)" % CONF), lambda v: [] if v.conf else [
            r"^w this->plugin_state = \(this->plugin_state \| %d\)" % CONF, r"^vcall actor_base_t::configure on this->actor \(this->\)"], ret=ready, seq={"this->register_map": m, "this->discovery_map": n},
            atomic=at(""))
    # shutdown
    release(c, "releases")
    f = RT + "do_cancel"
    c.decide("cancel", f, OUT + r"|^w this->", {"delayed": "this->delayed", "asked": (r"this->state", DISC, DISC)}, lambda v: [
        r"^send cancellation_t -> %s \(this->request_id, call:get_address->\)" % preg, r"^w this->state = %d" % c.E(TS, "CANCELLING")] if v.delayed and v.asked else [],
        ret=lambda v, x: None if (E.show(x.val) == "0") == (v.delayed and v.asked) else "returns %s" % E.show(x.val), atomic=at(f))
    for fld, fs in (("register_map", ("register_name", "on_registration", "on_link", "handle_shutdown")), ("discovery_map", ("discover_name", "discovery_task_t::post_discovery", "handle_shutdown")),
                    ("aliases_map", ("discovery_task_t::on_discovery", "discovery_task_t::post_discovery", "handle_shutdown"))):
        only_written_by(c, "writers-" + fld, RP[:-2], fld, {RP + n for n in fs})


def release(c, rule):
    """the registry client at shutdown: what is registered is deregistered, what is in flight is waited for"""
    RS, PS = RP + "state_t", RP + "plugin_state_t"
    REG, OPER, LINKED = c.E(RS, "REGISTERING"), c.E(RS, "OPERATIONAL"), c.E(PS, "LINKED")
    DISC, CANC = c.E(RT + "state_t", "DISCOVERING"), c.E(RT + "state_t", "CANCELLING")
    reg = r"this->(discovery_map\[#\d\]\.second\.plugin->)?actor->supervisor->registry_address"
    f = RP + "handle_shutdown"
    only_written_by(c, rule + "-states", RP + "register_info_t", "state", {RP + "on_registration"})
    for n, m in ((2, 0), (0, 2), (0, 0)):
        conds = {"linked": r"*\(this->plugin_state & %d\)" % LINKED}
        for i in range(n):
            conds["g%d" % i] = (r"*this->register_map\[#%d\]\.second\.state" % i, REG, REG)
            conds["o%d" % i] = (r"*this->register_map\[#%d\]\.second\.state" % i, OPER, OPER)
        def judge(tags, x):
            st = x.st
            want, keep = [], False
            linked = truth(st, conds["linked"])
            for i in range(n):
                g, o = truth(st, conds["g%d" % i]), truth(st, conds["o%d" % i])
                g, o = g if g is not None or o is None else not o, o if o is not None or g is None else not g       # a name has one of these two states
                if g and (linked is None or linked):
                    keep = True
                    if linked is None:
                        return "a name that may be being registered is forgotten"
                    continue
                if g is None and not o:
                    return "does not look at the state of a name"
                want.append(r"^c this->register_map\.erase \(this->register_map\[#%d\]\.first\)|^c this->register_map\.clear" % i)
                if o:
                    want.append(r"^send deregistration_service_t -> %s \(this->register_map\[#%d\]\.first\)" % (reg, i))
                elif o is None:
                    return "does not look whether a name is registered"
            rest = list(tags)
            for i in range(m):
                el = r"this->discovery_map\[#%d\]\.second\." % i
                delayed, asked = truth(st, "*" + el + "delayed"), truth(st, (r"*" + el + "state", DISC, DISC))
                wait = truth(st, (r"*" + el + "state", CANC, CANC))
                erase = [t for t in rest if re.search(r"^c this->discovery_map\.erase \(this->discovery_map\[#%d\]\.first\)" % i, t)]
                rest = [t for t in rest if t not in erase]
                if delayed and asked:
                    want += [r"^send cancellation_t -> %s \(%srequest_id, call:get_address->\)" % (reg, el), r"^w %sstate = %d" % (el, CANC)]
                    if erase:
                        return "a promise is dropped before its answer"
                elif delayed is not False and asked is not False:
                    return "does not look whether a promise is in flight"
                elif not erase and not (delayed and wait):
                    return "a discovery is kept although nobody would end it"
                keep = keep or not erase
            if not keep:
                want += [r"^c this->aliases_map\.clear", r"^call plugin_base_t::handle_shutdown on this \(\$0\)"]
            ret = E.show(x.val)
            if ret != ("0" if keep else "call:handle_shutdown"):
                return "returns %s although %s" % (ret, "answers are awaited" if keep else "nothing is left")
            return None if match(rest, want) else "does %s, expected %s" % (fmt(rest), fmt(want))
        c.every(rule, f, OUT + r"|^c this->|^w this->discovery_map|^v?call \S*::handle_shutdown on", None, judge, "registered names are deregistered, answers in flight are awaited", seq={"this->register_map": n, "this->discovery_map": m},
                atomic=at(RT + "do_cancel"))
