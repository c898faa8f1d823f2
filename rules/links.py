"""C18, C19: links"""
from rulekit import *
from requests import one
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
S = "rotor::supervisor_t::"
PB = "rotor::plugin::plugin_base_t::"
LS = "rotor::plugin::link_server_plugin_t::"
LC = "rotor::plugin::link_client_plugin_t::"
OUT = r"^(send|route|reply|request|put) "
AT = {A + "shutdown_continue", A + "init_continue", A + "cancel_timer", "rotor::extended_error_t::root", PB + "handle_start", PB + "handle_shutdown", PB + "handle_init",
      A + "get_address", LC + "try_forget_links", LS + "notify_shutdown", S + "discard_request", A + "configure"}
STATE = r"*this->actor->state"
BY = r" by this->actor->supervisor$"


def ls(c, n):
    return c.E(LS + "link_state_t", n)


# ------------------------------------------------------------------------------------------- C18 the server's side
@prop("C18")
def server(c):
    PEND, OPER, UNL = ls(c, "PENDING"), ls(c, "OPERATIONAL"), ls(c, "UNLINKING")
    START = c.E(PB + "reaction_t", "START")
    known = r"found\(this->linked_clients,\$0\.payload\.origin\)"
    add = r"^c this->linked_clients\.(emplace|try_emplace|insert|insert_or_assign) \(\$0\.payload\.origin, \{request=%s,.*state=%d,unlink_request=0"

    def on_link(v):
        if v.down:
            return [r"^reply err \$0 \(error\(actor_not_linkable, request &\$0\)\)" + BY]
        if v.known:
            return [r"^reply err \$0 \(error\(already_linked, request &\$0\)\)" + BY]
        if v.op and not v.started:
            return [add % (r"&\$0", PEND), r"^w this->reaction = \(this->reaction \| %d\)" % START]
        return [add % ("0", OPER), r"^reply ok \$0 \(\)" + BY]
    c.decide("link-request", LS + "on_link_request", OUT + r"|^c this->linked_clients|^w this->reaction",
             {"down": (STATE, c.S("OPERATIONAL") + 1, E.INF), "started": (STATE, c.S("OPERATIONAL"), E.INF), "known": known, "op": r"\$0\.payload\.request_payload\.operational_only"},
             lambda v: None if v.down and not v.started else on_link(v), atomic=AT)
    # a client that leaves: exactly it is removed, its pending request is stopped, the shutdown goes on
    who = r"\$0\.payload\.client_addr"
    c.decide("unlink-notify", LS + "on_unlink_notify", OUT + r"|^c this->linked|^call ", {
        "known": r"found\(this->linked_clients,%s\)" % who, "asked": r"*has\(this->linked_clients\[%s\]\.second\.unlink_request\)" % who, "down": (STATE, c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN"))},
        lambda v: ([r"^c this->linked_clients\.erase \(%s\)" % who] + ([r"^call actor_base_t::cancel_timer on this->actor->supervisor \(this->linked_clients\[%s\]\.second\.unlink_request\)" % who] if v.asked else []) +
                   ([r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if v.down else [])) if v.known else [],
        order=[("erase", "shutdown_continue")], atomic=AT)
    who = r"\$0\.payload\.res\.client_addr"
    sr = r"this->actor->shutdown_request"
    c.decide("unlink-response", LS + "on_unlink_response", OUT + r"|^c this->linked|^call actor|^w this->actor->shutdown_request", {
        "err": r"\$0\.payload\.ee", "req": r"*" + sr, "down": (STATE, c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN"))},
        lambda v: ([r"^reply err %s-> \(\$0\.payload\.ee\)" % sr + BY, r"^w %s = 0" % sr] if v.req else []) if v.err else
        [r"^c this->linked_clients\.erase \(%s\)" % who] + ([r"^call actor_base_t::shutdown_continue on this->actor \(\)"] if v.down else []), order=[("erase", "shutdown_continue")], atomic=AT)
    c.decide("late-notify", LS + "on_unlink_response", r"^w this->linked_clients", {"err": r"\$0\.payload\.ee", "known": r"found\(this->linked_clients,\$0\.payload\.req->address\)"},
             lambda v: [r"^w this->linked_clients\[\$0\.payload\.req->address\]\.second\.unlink_request = 0"] if v.err and v.known else [], atomic=AT)
    # shutdown waits until there are no clients left
    def waits(v, x):
        r = E.show(x.val).replace("'", "")
        if r == "0" or r == "call:handle_shutdown":
            return None if (r != "0") == v.none else "%s although %s" % ("agrees" if r != "0" else "refuses", "no client is left" if v.none else "clients may be linked")
        return "returns %s" % r
    c.decide("waits", LS + "handle_shutdown", r"^(v?call \S*(notify_shutdown|handle_shutdown))", {"none": r"*empty\(this->linked_clients\)"},
             lambda v: [r"^vcall link_server_plugin_t::notify_shutdown on this \(\)"] + ([r"^call plugin_base_t::handle_shutdown on this \(\$0\)"] if v.none else []), ret=waits, atomic=AT)
    c.every("has-clients", LS + "has_clients", "^$", None, lambda t, x: None if E.show(x.val) in ("(empty(this->linked_clients) == 0)", "!empty(this->linked_clients)") or
            truth(x.st, r"empty\(this->linked_clients\)") is (E.show(x.val) == "0") and E.show(x.val) in "01" else "returns %s" % E.show(x.val), "who asks for clients learns whether there are any")
    # every client by its state: two clients stand for any number, each is handled on its own
    el = [r"this->linked_clients\[#%d\]" % i for i in range(2)]
    at = {"c%d" % i: (r"*%s\.second\.state" % el[i], OPER, OPER) for i in range(2)}
    c.decide("asks-clients", LS + "notify_shutdown", OUT + r"|^w |^c ", at, lambda v: [p for i, on in enumerate((v.c0, v.c1)) if on for p in (
        r"^request unlink_request_t -> %s\.first from this->actor->address \((call:get_address->|this->actor->address)\) timeout this->actor->shutdown_timeout" % el[i], r"^w %s\.second\.state = %d" % (el[i], UNL), r"^w %s\.second\.unlink_request = reqid" % el[i])],
        seq={"this->linked_clients": 2}, atomic=AT)
    at = {"c%d" % i: (r"*%s\.second\.state" % el[i], PEND, PEND) for i in range(2)}
    c.decide("answers-on-start", LS + "handle_start", OUT + r"|^w |^c |^call plugin_base", at, lambda v: [p for i, on in enumerate((v.c0, v.c1)) if on for p in (
        r"^reply ok %s\.second\.request-> \(\)" % el[i] + BY, r"^w %s\.second\.state = %d" % (el[i], OPER))] + [r"^call plugin_base_t::handle_start on this \(\$0\)"],
        seq={"this->linked_clients": 2}, atomic=AT - {LS + "notify_shutdown"})
    only_written_by(c, "client-writers", LS[:-2], "linked_clients", {LS + n for n in ("on_link_request", "on_unlink_notify", "on_unlink_response", "handle_start", "notify_shutdown")})


# ------------------------------------------------------------------------------------------- C19 the client's side
@prop("C19")
def client(c):
    LINKING, OPER = c.E(LC + "link_state_t", "LINKING"), c.E(LC + "link_state_t", "OPERATIONAL")
    INIT = c.E(PB + "reaction_t", "INIT")
    c.every("asks-once", LC + "link", OUT + r"|^c this->servers_map|^w this->reaction", None, one(
        r"^request link_request_t -> \$0 from this->actor->address \(\$1\) timeout this->actor->init_timeout", r"^c this->servers_map\.(emplace|try_emplace|insert|insert_or_assign) \(\$0, server_record_t\{copyof\(\$2\),%d,reqid\}\)" % LINKING,
        r"^w this->reaction = \(this->reaction \| %d\)" % INIT), "each server is asked once and recorded as pending", atomic=AT)
    srv = r"\$0\.payload\.req->address"
    rec = r"this->servers_map\[%s\]\.second" % srv
    ir = r"this->actor->init_request"
    c.decide("link-answer", LC + "on_link_response", OUT + r"|^(c this->servers_map|callback|w |call \S*init_continue)", {
        "err": r"\$0\.payload\.ee", "cb": r"*%s\.callback" % rec, "init": r"*" + ir, "ing": (STATE, c.S("INITIALIZING"), c.S("INITIALIZING"))},
        lambda v: ([r"^callback \S+ on \S+ \(\$0\.payload\.ee\)"] if v.cb else []) + (
            [r"^c this->servers_map\.erase \(%s\)" % srv] + ([r"^reply err %s-> \(\$0\.payload\.ee\)" % ir + BY, r"^w %s = 0" % ir] if v.init else []) if v.err else
            [r"^w %s\.state = %d" % (rec, OPER)] + ([r"^call actor_base_t::init_continue on this->actor \(\)"] if v.init and v.ing else [])),
        order=[(r"\.state = ", "init_continue"), ("^callback", "init_continue")], atomic=AT)
    # initialization waits for pending links
    el = [r"this->servers_map\[#%d\]" % i for i in range(2)]
    at = {"s%d" % i: (r"*%s\.second\.state" % el[i], LINKING, LINKING) for i in range(2)}
    at["done"] = r"*this->configured"
    val = lambda x: {"0": False, "1": True}.get(E.show(x.val))

    def pending(v, x):
        return None if val(x) is (not (v.s0 or v.s1)) else "returns %s with a link %s" % (E.show(x.val), "pending" if v.s0 or v.s1 else "done")
    for conf in (1, 0):
        c.decide("init-waits", LC + "handle_init", r"^(v?call \S*configure|w this->configured)", {k: at[k] for k in ("s0", "s1")},
                 lambda v: [] if conf else [r"^vcall actor_base_t::configure on this->actor \(this->\)", r"^w this->configured = 1"], ret=pending, init={"this->configured": conf}, seq={"this->servers_map": 2}, atomic=AT)
    # unlink requests
    c.decide("unlink-request", LC + "on_unlink_request", r"^(callback|c this->unlink_queue|call \S*try_forget)", {
        "r": r"this->unlink_reaction", "took": r"~cb", "known": r"~*found\(this->servers_map,\$0\.payload\.request_payload\.server_addr\)"},
        lambda v: None if v.took and not v.r else ([r"^callback this->unlink_reaction on this->unlink_reaction \(\$0\)"] if v.r else []) +
        ([] if v.took or not v.known else [r"^c this->unlink_queue\.push_back \(&\$0\)", r"^call link_client_plugin_t::try_forget_links on this \(1\)"]), order=[("push_back", "try_forget")], atomic=AT)
    c.decide("forget-link", LC + "forget_link", r"^(c this->unlink_queue|call \S*try_forget)", {"known": r"found\(this->servers_map,\$0\.payload\.request_payload\.server_addr\)"},
             lambda v: [r"^c this->unlink_queue\.push_back \(&\$0\)", r"^call link_client_plugin_t::try_forget_links on this \(1\)"] if v.known else [], order=[("push_back", "try_forget")], atomic=AT)
    q = [r"this->unlink_queue\[#%d\]->" % i for i in range(2)]
    sa = [r"%spayload\.request_payload\.server_addr" % x for x in q]
    cond = {"busy": r"call:has_clients", "try": r"\$0", "k0": r"~found\(this->servers_map,%s\)" % sa[0], "down": (r"~" + STATE, c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN"))}

    def forgets(tags, x):
        """for each waiting request: answered, forgotten and reported together; nothing while clients are linked"""
        st = x.st
        if truth(st, r"call:has_clients"):
            return None if not tags else "forgets links while clients are linked"
        rest = [t for t in tags]
        asked = 0
        for i in range(2):
            ks = [(k, d) for k, d in st.fa.items() if re.fullmatch(r"found\(this->servers_map,%s\)" % sa[i], E.show(k).replace("'", ""))]
            want = [r"^reply ok %s \((call:get_address->|this->actor->address)\)" % q[i], r"^c this->servers_map\.erase \(%s\)" % sa[i], r"^vcall actor_base_t::on_unlink on this->actor \(%s\)" % sa[i]]
            mine = [t for t in rest if q[i].replace("\\", "") in t]
            if mine and not match(mine, want):
                return "for a waiting request does %s" % fmt(mine)
            if not mine and not any(d[0] == d[1] == 0 for k, d in ks):
                return "a waiting request is left out although its server is linked"
            if mine and ks and ks[0][1][0] == ks[0][1][1] == 0 and "'" not in E.show(ks[0][0]):
                return "answers a request of an unknown server"
            rest = [t for t in rest if t not in mine]
            asked += bool(mine)
        # what the actor has said for each of them, together (an `or` of both) or one by one
        need = truth(st, r"*\(call:on_unlink \| call:on_unlink\)")
        if need is None:
            said = [False if d[0] == d[1] == 0 else True if d[0] > 0 or d[1] < 0 or 0 in d[2] else None for k, d in st.fa.items() if E.show(k).replace("'", "").replace("~old", "") == "call:on_unlink"]
            need = True if True in said else None if len(said) < asked or None in said else False
        down = truth(st, (STATE, c.S("SHUTTING_DOWN"), c.S("SHUTTING_DOWN")))
        att = truth(st, r"\$0")
        if not rest:
            return None if not asked or att is False or need is False else "does not go on with the shutdown although asked to"
        if not asked or att is not True or need is not True:
            return "does %s without need" % fmt(rest)
        if down is True and match(rest, [r"^call actor_base_t::shutdown_continue on this->actor \(\)"]) or down is False and match(rest, [r"^vcall actor_base_t::do_shutdown on this->actor \(error\(unlink_requested\)\)"]):
            return None
        return "goes on with %s" % fmt(rest)
    c.every("forgets", LC + "try_forget_links", OUT + r"|^(c this->servers_map|vcall \S*(on_unlink|do_shutdown)|call \S*shutdown_continue)", None, forgets, "unlink requests are answered when no client is linked", seq={"this->unlink_queue": 2},
            atomic=AT - {LC + "try_forget_links"})
    # shutdown: every link is released
    for n in (0, 2):
        at = {"s%d" % i: (r"*%s\.second\.state" % el[i], LINKING, LINKING) for i in range(n)}
        at["busy"] = r"~*call:has_clients"

        def rel(v):
            if n and v.busy:
                return [r"^call link_client_plugin_t::try_forget_links on this \(0\)", r"^vcall link_server_plugin_t::notify_shutdown on this->actor->link_server \(\)"]
            out = [r"^call plugin_base_t::handle_shutdown on this \(\$0\)"]
            for i in range(n):
                out += [r"^send unlink_notify_t -> %s\.first \((call:get_address->|this->actor->address)\)" % el[i] + BY, r"^c this->servers_map\.erase \(%s\.first\)" % el[i]]
                if v.__dict__["s%d" % i]:
                    out.append(r"^call supervisor_t::discard_request on this->actor->supervisor \(%s\.second\.request_id\)" % el[i])
            return out + ([r"^call link_client_plugin_t::try_forget_links on this \(0\)"] if n else [])
        c.decide("releases", LC + "handle_shutdown", OUT + r"|^(c this->servers_map|v?call \S*(notify_shutdown|discard_request|try_forget|plugin_base_t::handle_shutdown))", at,
                 lambda v: None if not n and v.busy else rel(v), seq={"this->servers_map": n}, atomic=AT, maybe=lambda v: not n,
                 ret=lambda v, x: None if E.show(x.val) == ("0" if n and v.busy else "call:handle_shutdown") else "returns %s" % E.show(x.val))
    only_written_by(c, "server-writers", LC[:-2], "servers_map", {LC + n_ for n_ in ("link", "on_link_response", "try_forget_links", "handle_shutdown")})
    c.every("default-unlink", A + "on_unlink", "^$", None, lambda t, x: None if E.show(x.val) == "1" else "returns %s" % E.show(x.val), "an actor shuts down when its server goes away, unless it decides otherwise")
