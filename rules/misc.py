"""C32, C33, C34, C37, C41, C29: codes, errors, texts, configurations, handlers, references"""
from rulekit import *
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
TOUCH = r"^(w|init|c|put|send|route|reply|request|share) "


# ------------------------------------------------------------------------------------------- C33 codes
ENUMS = {"rotor::error_code_t": ("rotor::error_code_category", "rotor::details::error_code_category", "success"),
         "rotor::shutdown_code_t": ("rotor::shutdown_code_category", "rotor::details::shutdown_code_category", "normal")}

# what the text of a code has to be about (the wording is free)
ABOUT = {"success": "success", "cancelled": "cancel", "request_timeout": "time.?out|timed", "supervisor_defined": "supervisor.*defined", "already_registered": "already.*regist",
         "actor_misconfigured": "misconfig", "actor_not_linkable": "not.*link", "already_linked": "already.*link", "failure_escalation": "escalat",
         "registration_failed": "registration", "discovery_failed": "discover", "unknown_service": "service.*not|unknown.*service",
         "normal": "normal", "supervisor_shutdown": "(?!.*child).*supervisor", "child_down": "(?!.*init).*child", "child_init_failed": "(?=.*init).*child",
         "init_failed": "(?!.*child).*init", "unlink_requested": "unlink"}


@prop("C33")
def codes(c):
    names, cats = {}, {}
    for en, (acc, cat, zero) in sorted(ENUMS.items()):
        vals = c.p.enums[en]["values"]
        c.need(len(vals) >= 6, "the enumerators of %s are not known" % en)
        where = "include/rotor/error_code.h:%s" % c.p.enums[en].get("line", 0)
        for k, n in vals:
            c.ob("distinct-values", [x for x, m in vals if m == n] == [k], where, "%s::%s shares its value %s" % (en, k, n), sample="%s::%s = %s" % (en, k, n))
            c.ob("only-success-is-falsy", (n == 0) == (k == zero), where, "%s::%s has the value %s" % (en, k, n))
        # the text of every code: what message() answers when it is asked for it
        seen = {}
        f = c.p.one(cat + "::message")
        xs = c.run(f, TOUCH)
        for k, n in vals + [("(any other)", None)]:
            out = set()
            for x in xs:
                lo, hi, ex = dom(x.st, "$0")
                if n is None and (lo, hi) == (E.NEG if hasattr(E, "NEG") else lo, hi) and set(m for _, m in vals) <= set(ex) or n is not None and lo <= n <= hi and n not in ex:
                    out.add(E.show(x.val))
            c.ob("one-text", len(out) == 1 and all(re.fullmatch(r'"[^"]+"', t) for t in out), f.where, "%s: the text of %s is %s" % (f.qname, k, sorted(out)), sample="%s => %s" % (k, sorted(out)))
            for t in out:
                c.ob("its-text", k not in ABOUT or re.match('"(.*?)(%s)' % ABOUT[k] if not ABOUT[k].startswith("(?") else '"' + ABOUT[k], t, re.I) is not None,
                     f.where, "%s: the text of %s is %s" % (f.qname, k, t))
                c.ob("own-text", t not in seen, f.where, "%s: %s and %s share the text %s" % (f.qname, seen.get(t), k, t))
                seen[t] = k
        for x in c.run(cat + "::name", TOUCH):
            names.setdefault(E.show(x.val), set()).add(cat)
            c.ob("names", re.fullmatch(r'"[^"]+"', E.show(x.val)) is not None, f.where, "%s::name answers %s" % (cat, E.show(x.val)))
        for x in c.run(acc, TOUCH):
            cats.setdefault(E.show(x.val), set()).add(acc)
            v = x.val
            c.ob("category-object", x.val is not None and re.match(r"(copyof\()?(L\()?glob\(", E.show(v)) is not None and not x.st.hist and "&" in (c.p.one(acc).ret or "&"), c.p.one(acc).where,
                 "%s answers %s, no object that stays the same" % (acc, E.show(v)), sample="%s => %s" % (acc, E.show(v)))
    for m, what in ((names, "name"), (cats, "object")):
        for k, s in m.items():
            c.ob("own-category", len(s) == 1, "src/rotor/error_code.cpp:0", "%s share the %s %s" % (sorted(s), what, k))
    # conversion: the number and the category of the enumeration
    objs = {re.sub(r"glob\(\d+,", "glob(", k): v for k, v in cats.items()}
    fs = family(c, "rotor::make_error_code", least=2)
    got = set()
    for f in fs:
        t = f.params[0]["t"] if f.params else ""
        en = next((e for e in ENUMS if short_q(e).split("::")[-1] in t), None)
        c.need(en, "make_error_code of an unknown type %s" % t)
        got.add(en)
        for x in c.run(f, TOUCH):
            s = E.show(x.val)
            ok = x.val is not None and x.val.op == "obj" and len(x.val.a[1]) == 2 and E.show(x.val.a[1][0][1]) == "$0" and set(objs.get(re.sub(r"glob\(\d+,", "glob(", E.show(x.val.a[1][1][1])), ())) == {ENUMS[en][0]}
            c.ob("conversion", ok, f.where, "%s of %s makes %s" % (f.qname, t, s), sample="%s => %s" % (t, s))
    c.ob("conversion", got == set(ENUMS), "include/rotor/error_code.h:78", "a conversion is missing: %s" % sorted(set(ENUMS) - got))


def dom(st, path):
    for l, (lo, hi, ex) in [(a, b if len(b) == 3 else (b[0], b[1], ())) for a, b in st.fa.items()]:
        if E.show(l) == path:
            return lo, hi, ex
    return -(1 << 62), 1 << 62, ()


# ------------------------------------------------------------------------------------------- C37 extended errors
EE = "rotor::extended_error_t"


@prop("C37")
def errors(c):
    f = c.p.one(EE + "::extended_error_t")
    parts = ("context", "ec", "next", "request")
    c.table("constructor", f, r"^(w|init) ", [("", {}, [[r"^(init|w) this->%s = \$%d$" % (n, i) for i, n in enumerate(parts)]])])
    for q, args in (("rotor::make_error", ("$0", "$1", "$2", "$3")), (A + "make_error", ("this->identity", "$0", "$1", "$2"))):
        c.every("carries", q, r"^(w|init) ", {}, lambda t, x, args=args: made(t, x, args), "a new error with everything it was given")
    for n in parts:
        only_written_by(c, "unchanged", EE, n, {EE + "::extended_error_t"}, least=0)

    # the root: the error at the end of the chain
    def root(t, x):
        r = E.show(x.val).replace("'", "")
        r = re.sub(r"^\(?void\)?", "", r)
        if r == "call:root":        # asking a cause for its root: the same rule, one error further
            on = [e for e in flat(t) if "call " in e]
            return None if on and re.match(r"^v?call \S*extended_error_t::root on this(->next)+(->)? \(\)$", on[-1].replace("'", "")) else "answers the root of another error: %s" % fmt(t)
        if not re.fullmatch(r"this(->next)*|w", r):
            return "answers %s, no error of the chain" % r
        if truth(x.st, re.escape(r + "->next") + "'*") is not False:
            return "answers %s, which may have a cause of its own" % r
        return None
    xs = c.every("root", EE + "::root", r"^(w|init|c|put) |^v?call \S*::root on ", {}, lambda t, x: root(t, x) or next((fmt(t) for e in flat(t) if "call " not in e), None), "the last error")
    c.ob("root", len({E.show(x.val) for x in xs}) >= 2, c.p.one(EE + "::root").where, "%s::root does not follow the chain" % EE, key="root|chain")
    for depth in range(4):
        path = "this" + "->next" * depth
        env = {"this" + "->next" * n: "nonnull" for n in range(1, depth + 1)}
        env[path + "->next"] = 0
        got = []
        for x in c.run(c.p.one(EE + "::root"), None, env, tagger=lambda eng, ev, t: t if re.match(r"^v?call \S*::root on ", t) else None, seq={"(causes)": 0}):
            g, on = re.sub(r"^\(?void\)?|'", "", E.show(x.val)), [e for e in flat(x.st.hist)]
            if g == "call:root" and on:
                g = re.sub(r"^.* on |->? \(\)$| \(\)$", "", on[-1].replace("'", ""))
                g = path if g in ["this" + "->next" * n for n in range(1, depth + 1)] else "the root of %s" % g
            got.append(g)
        c.ob("root-at-depth", got and all(g == path for g in got), c.p.one(EE + "::root").where,
             "the root of an error with %d causes below it is %s" % (depth, ", ".join(got) or "never found"), sample="%d causes: %s" % (depth, ", ".join(got)), key="root|%d" % depth)

    # the text: effect first, then its request, then the cause
    def txt(t, x):
        st = x.st
        for lp in t:
            # a loop along the chain that prints each error it meets
            if is_loop(lp) and any(re.search(r"->next->context\b", e) for e in flat([lp])):
                for it in lp[2]:
                    ns = [m.group(1) for e in flat(it) for m in [re.search(r"(\S+)->context\b", e)] if m]
                    cs = [m.group(1) for e in flat(it) for m in [re.search(r"on - \((\S+)->ec\)", e)] if m]
                    if [n.split("(")[-1] for n in ns] != [n.split("(")[-1] for n in cs] or len(ns) != 1:
                        return "leaves out a part of an error of the chain"
                return None if truth(st, r"(w|this(->next)+|w->next)'*") is False else "stops before the end of the chain"
        t = list(flat(t))
        node, order = "this", []

        def place(rx):
            return next((i for i, e in enumerate(t) if re.search(rx, e)), None)
        while True:
            n = r"\b" + re.escape(node)
            nx, rq, sf = truth(st, n[2:] + "->next'*"), truth(st, n[2:] + "->request'*"), truth(st, r"\$0")
            at = {"context": place(n + r"->context\b"), "code": place(r"fnc\(message,%s->ec\)|%s->ec\)?\)?$" % (n, n)),
                  "request": place(r"stringify(_to)? on \$0 \(.*%s->request" % n), "cause": place(r"extended_error_t::message on %s->next\b" % n)}
            for k in ("context", "code"):
                if at[k] is None:
                    return "leaves out the %s of %s" % (k, node)
            if nx is None:
                return "does not look for a cause"
            if (rq is None and sf is not False) or (sf is None and rq is not False):
                if node == "this":
                    return "does not look at the request"
            if node == "this" and bool(rq and sf) != (at["request"] is not None):
                return "%s the request" % ("leaves out" if rq else "prints")
            order += [at[k] for k in ("context", "code", "request", "cause") if at[k] is not None]
            if at["cause"] is not None or not nx:
                if not nx and at["cause"] is not None:
                    return "asks a cause that is not there"
                break
            node = node + "->next" if place(r"\b" + re.escape(node + "->next->context") + r"\b") is not None or node == "w" else "w"
        if order != sorted(order):
            return "does not go from effect to cause"
        if any(re.match("^(w|init|c|put|send) ", e) for e in t):
            return "changes something: %s" % fmt(t)
        return None
    c.every("text", EE + "::message", r"^(call|vcall|w|init|c|put|send) ", {}, txt, "the chain, from effect to cause", atomic={EE + "::message"})


def made(t, x, args):
    """a new extended error, made of the arguments"""
    r = E.show(x.val)
    if not r.startswith("new<extended_error_t>"):
        return "answers %s" % r
    want = [r"^(init|w) %s->%s = %s$" % (re.escape(r), n, re.escape(a)) for n, a in zip(("context", "ec", "next", "request"), args)]
    return None if match(t, want) else "makes an error of %s" % fmt(t)


# ------------------------------------------------------------------------------------------- C34 texts of messages
DS = "rotor::misc::default_stringifier_t::"
PL, RQ = r"\$0\.payload\.", r"\$0\.payload\.request_payload\."
RQI = r"\$0\.payload\.req->payload\."
POINT = [PL + r"point\b"]
ADDR = [r"\$0\.address\b"]
FAIL = "ee"
# payload -> (the name of the message, what has to be in its text; FAIL: the error, when there is one)
TEXTS = {
    "m unsubscription_confirmation_t": ("unsubscription", POINT),
    "m external_unsubscription_t": ("unsubscription_external", POINT),
    "m subscription_confirmation_t": ("subscription", POINT),
    "m external_subscription_t": ("external_subscription", POINT),
    "m commit_unsubscription_t": ("commit_unsubscription", POINT),
    "m handler_call_t": ("handler_call", [r"stringify(_to)? on .*" + PL + "orig_message", PL + "handler->actor_ptr"]),
    "q initialize_actor_t": ("init_request", [PL + "id"]),
    "p initialize_actor_t": ("init_response", [RQI + "id", RQI + "origin", FAIL]),
    "m start_actor_t": ("start_trigger", ADDR),
    "m shutdown_trigger_t": ("shutdown_trigger", [PL + "actor_address", (PL + "reason",)]),
    "q shutdown_request_t": ("shutdown_request", [PL + "id", PL + "origin", (RQ + "reason",)]),
    "p shutdown_request_t": ("shutdown_response", [RQI + "id", RQI + "origin", FAIL]),
    "m create_actor_t": ("create_actor", ADDR),
    "m spawn_actor_t": ("spawn_actor", [PL + "spawner_address"]),
    "q registration_request_t": ("registration_request", [PL + "id", RQ + "service_name", RQ + "service_addr"]),
    "p registration_request_t": ("registration_response", [RQI + "id", RQI + "request_payload.service_name", RQI + "request_payload.service_addr", FAIL]),
    "m deregistration_notify_t": ("deregistration_notify", [PL + "service_addr"]),
    "m deregistration_service_t": ("deregistration_service", [PL + "service_name"]),
    "q discovery_request_t": ("discovery_request", [RQ + "service_name"]),
    "p discovery_request_t": ("discovery_response", [RQI + "request_payload.service_name", FAIL, ("!", PL + "res.service_addr")]),
    "q discovery_promise_t": ("discovery_promise", [RQ + "service_name"]),
    "p discovery_promise_t": ("discovery_future", [RQI + "request_payload.service_name", FAIL, ("!", PL + "res.service_addr")]),
    "m cancellation_t": ("discovery_cancel", [PL + "source"]),
    "q link_request_t": ("link_request", [PL + "origin"]),
    "p link_request_t": ("link_response", [RQI + "origin", FAIL]),
    "m unlink_notify_t": ("unlink_notify", [PL + "client_addr"]),
    "q unlink_request_t": ("unlink_request", [RQ + "server_addr"]),
    "p unlink_request_t": ("unlink_response", [RQI + "request_payload.server_addr", FAIL]),
}
QUIET = r"^(w|init|c|put|send|route|reply|request|release|add_ref|adopt|detach) "


def payload_of(t):
    """the payload of a message type: m plain, q request, p response"""
    m = re.search(r"message_t<(?:rotor::)?(wrapped_request_t|wrapped_response_t)?<?(?:rotor::)?(?:payload::)?(\w+)", t)
    return m and "%s %s" % ({None: "m", "wrapped_request_t": "q", "wrapped_response_t": "p"}[m.group(1)], m.group(2))


@prop("C34")
def texts(c):
    ons = {}
    for f in family(c, DS + "on", least=20):
        k = payload_of(f.params[0]["t"])
        c.need(k, "the parameter of %s at %s" % (f.qname, f.where))
        ons[k] = f
    quiet = r"^(call|vcall|enter) |" + QUIET
    for k, f in sorted(ons.items()):
        if k not in TEXTS:
            raise P.AnalysisError("a message without a rule: %s" % k)
        name, must = TEXTS[k]

        def told(t, x):
            t = list(flat(t))
            if any(re.search(QUIET, e) for e in t):
                return "changes something: %s" % fmt([e for e in t if re.search(QUIET, e)])
            said = [e for e in t if re.match("(call|vcall|enter) ", e)]
            names = {m.group(1) for e in said for m in re.finditer(r'"r::(\w+)', e)}
            if names != {name}:
                return "calls itself %s" % sorted(names)
            for m in must:
                neg = isinstance(m, tuple) and m[0] == "!"
                if m == FAIL or isinstance(m, tuple) and not neg:
                    p = PL + "ee" if m == FAIL else m[0]
                    on = truth(x.st, p + "'*")
                    if on is None:
                        return "does not look whether there is an error"
                    if on != any(re.search(r"extended_error_t::message on %s\b" % p, e) for e in said):
                        return "%s the error" % ("leaves out" if on else "asks for")
                elif neg:
                    if (truth(x.st, PL + "ee'*") is False) != any(re.search(m[1] + r"\b", e) for e in said):
                        return "prints the answer of a failure, or leaves it out"
                elif not any(re.search(m + r"\b", e) for e in said):
                    return "leaves out %s" % m.replace("\\", "")
            if not any(re.search(r"\$1\b", e) for e in said):
                return "does not write to the stream it was given"
            return None
        c.every("text", f, quiet, {}, told, "its own name and fields", atomic={"rotor::extended_error_t::message", DS + "try_visit"})
    # the owner of a subscription is told apart
    tags = {}
    for f in c.p.find("rotor::misc::operator<<"):
        if "subscription_point_t" not in f.params[1]["t"]:
            continue
        for x in c.run(f, r"^(call|vcall) "):
            lo, hi, ex = dom(x.st, "$1.owner_tag")
            if lo == hi:
                k = tuple(m.group(1) for e in flat(x.st.hist) for m in re.finditer(r'"(\w+)"', e))
                tags.setdefault(k, set()).add(lo)
    c.need(tags, "the text of a subscription point")
    for k, v in sorted(tags.items()):
        c.ob("owner", k and len(v) == 1, "src/rotor/misc/default_stringifier.cpp:15", "owners %s share the text %s" % (sorted(v), k), sample="%s => %s" % (sorted(v), k))
    # the dispatch: each type goes to its own text, anything else is refused
    disp = {}

    def go(eng, ev, t):
        if ev.kind in ("vcall", "call", "enter") and ev.fn is not None and ev.fn.qname == DS + "on":
            return "text of %s (%s)" % (payload_of(ev.fn.params[0]["t"]), ", ".join(E.show(a) for a in ev.args[:2]))
        return None
    f = c.p.one(DS + "try_visit")
    for x in c.run(f, None, tagger=go, atomic={DS + "on"}):
        t = list(x.st.hist)
        known = {payload_of(E.show(a)) for a, b in x.st.fa.items() if re.search(r"type_index == .*message_type|message_type == .*type_index", E.show(a)) and b[0] == 1}
        r = E.show(x.val)
        if not known:
            c.ob("dispatch", not t and r == "0", f.where, "%s: a message of unknown type leads to %s, answer %s" % (f.qname, fmt(t), r), sample="unknown => %s" % r)
            continue
        k = sorted(known)[0]
        disp[k] = 1
        c.ob("dispatch", len(t) == 1 and re.match(r"text of %s \(L?\(?\$0\)?, \$1\)" % re.escape(k), t[0]) is not None and r == "1", "%s:%s" % x.loc,
             "%s: for %s it does %s, answer %s" % (f.qname, k, fmt(t), r), sample="%s => %s" % (k, fmt(t)))
    for k in sorted(ons):
        c.ob("all-types", k in disp, f.where, "%s never gets to the text of %s" % (f.qname, k))
    # the text as a whole
    ask = r"message_visitor_t::try_visit on this \(\$1, (\(void\)|\(void ?\*\))?&\$0\)"

    def whole(t, x):
        t = list(flat(t))
        if sum(bool(re.search(ask, e)) for e in t) != 1:
            return "does not ask for the text of the message once"
        ok = truth(x.st, r"call:try_visit")
        if ok is None or ok == any("$1.type_index" in e for e in t):
            return "gives %s fallback" % ("no" if not ok else "a")
        if not any("$1.address" in e for e in t):
            return "leaves out the address"
        return None
    c.every("whole-text", DS + "stringify_to", quiet, {}, whole, "text or fallback, address", atomic={DS + "try_visit"})
    c.every("stringify", "rotor::message_stringifier_t::stringify", quiet, {}, lambda t, x: None if len(t) == 1 and re.match(r'vcall message_stringifier_t::stringify_to on this \((""|\w+), \$0\)', t[0]) and
            re.match(r"fnc\(str,", E.show(x.val)) else "answers %s after %s" % (E.show(x.val), fmt(t)), "the text of the message it was given")
    # the stringifier of the context is made once and stays
    c.decide("stringifier", "rotor::system_context_t::get_stringifier", r"^(w|vcall|call) ", {"has": (r"*this->stringifier",)[0]},
             lambda v: [] if v.has else [r"make_stringifier on this", r"^w this->stringifier = call:make_stringifier"])
    c.every("stringifier", "rotor::system_context_t::make_stringifier", r"^(w|put|send|vcall) ", {}, lambda t, x: None if not t and E.show(x.val).startswith("new<default_stringifier_t>") else
            "makes %s" % E.show(x.val), "the default one")

    # dumping: only when asked for, at or above the level
    def dump(t, x, sf):
        t = list(flat(t))
        env = [e for e in t if re.search(r'call (std::)?getenv on - \("ROTOR_INSPECT_DELIVERY"\)', e)]
        if len(env) != 1:
            return "does not look at ROTOR_INSPECT_DELIVERY"
        if any(re.match(r"(w|put|send|route|reply|request|release) ", e) and not re.search(r"^w glob", e) for e in t):
            return "changes something: %s" % fmt(t)
        on = truth(x.st, "call:getenv")
        out = [e for e in t if re.search(r"stringify(_to)? on \$%d \(.*\$0->" % sf, e)]
        printed = [e for e in t if re.search("operator<<", e)]
        if not on:
            return "prints without being asked" if out or printed or on is None else None
        lv = None
        for a, b in x.st.fa.items():
            m = re.fullmatch(r"\(?(-?\w+) (<=|<) call:(atoi|stoi|strtol)\)?", E.show(a))
            if m:
                lv = int(m.group(1)), m.group(2), b[0]
            m = re.fullmatch(r"\(?call:(atoi|stoi|strtol) < (-?\d+)\)?", E.show(a))
            if m:
                lv = int(m.group(2)), "<=", 1 - b[0]
        if lv is None:
            lo, hi, ex = dom(x.st, next((E.show(a) for a in x.st.fa if re.match("call:(atoi|stoi|strtol)", E.show(a))), "?"))
            if lo > -(1 << 61):
                lv = lo, "<=", 1
            elif hi < 1 << 61:
                lv = hi + 1, "<=", 0
        if lv is None:
            return "does not compare with the configured level"
        if bool(lv[2]) != bool(out) or bool(printed) != bool(out):
            return "%s a message %s the level" % ("prints" if out or printed else "keeps quiet about", "above" if lv[2] == 0 else "within")
        ks = {payload_of(E.show(a)) for a, b in x.st.fa.items() if re.search(r"type_index == .*message_type|message_type == .*type_index", E.show(a)) and b[0] == 1}
        if lv[1] == "<":
            return "leaves out its own level"
        shown = [int(m.group(1)) for e in t for m in [re.search(r"operator<< on \S+ \((-?\d+)\)$", e)] if m]
        if shown and lv[0] not in shown:
            return "prints level %s from a threshold of %s on" % (shown, lv[0])
        return None
    dq = "rotor::plugin::inspected_local_delivery_t::"
    own = {"rotor::plugin::local_delivery_t::delivery"}
    keep = r"^(call|vcall|w|put|send|route|reply|request|release) "
    c.every("dump", dq + "discard", keep, {}, lambda t, x: dump(t, x, 1), "when and what is printed", atomic=own)

    def deliver(t, x):
        d = [e for e in t if re.search(r"local_delivery_t::delivery on - \(\$0, \$1\)", e)]
        if len(d) != 1:
            return "delivers %d times" % len(d)
        return dump([e for e in t if e not in d], x, 2)
    c.every("dump", dq + "delivery", keep, {}, deliver, "when and what is printed, then the delivery itself", atomic=own)


# ------------------------------------------------------------------------------------------- C32 configurations
# option -> the settings it makes (setting, value); a tuple as value: any of them
OPTIONS = {
    "timeout": {"init_timeout": "$0", "shutdown_timeout": "$0"}, "init_timeout": {"init_timeout": "$0"}, "shutdown_timeout": {"shutdown_timeout": "$0"},
    "spawner_address": {"spawner_address": "$0"}, "escalate_failure": {"escalate_failure": "$0"}, "autoshutdown_supervisor": {"autoshutdown_supervisor": "$0"},
    "policy": {"policy": "$0"}, "create_registry": {"create_registry": "$0"}, "synchronize_start": {"synchronize_start": "$0"},
    "registry_address": {"registry_address": "$0"}, "inbound_queue_size": {"inbound_queue_size": "$0"}, "poll_duration": {"poll_duration": "$0"},
    "shutdown_flag": {"shutdown_flag": "&$0", "shutdown_poll_frequency": "$1"}, "strand": {"strand": "$0"}, "guard_context": {"guard_context": "$0"},
    "loop": {"loop": "$0"}, "loop_ownership": {"loop_ownership": "$0"}, "handler": {"handler": "$0"},
}
# the settings nothing can do without
NEEDED = {"init_timeout", "shutdown_timeout", "strand", "loop", "loop_ownership", "handler"}
FULL = (1 << 32) - 1
BUILDER = re.compile(r"^(rotor::(?:\w+::)?\w*config\w*_builder_t)<([^<>]+)>::(~?\w+)$")
# actor class -> {setting: field}
REACH = {
    "rotor::actor_base_t": {"spawner_address": "spawner_address", "supervisor": "supervisor", "init_timeout": "init_timeout", "shutdown_timeout": "shutdown_timeout"},
    "rotor::supervisor_t": {"supervisor": "parent", "inbound_queue_size": "inbound_queue_size", "poll_duration": "poll_duration", "shutdown_flag": "shutdown_flag",
                            "shutdown_poll_frequency": "shutdown_poll_frequency", "create_registry": "create_registry", "synchronize_start": "synchronize_start",
                            "registry_address": "registry_address", "policy": "policy"},
    "rotor::asio::supervisor_asio_t": {"strand": "strand"},
    "rotor::ev::supervisor_ev_t": {"loop": "loop", "loop_ownership": "loop_ownership"},
    "rotor::wx::supervisor_wx_t": {"handler": "handler"},
}


def uncopy(s):
    m = re.fullmatch(r"copyof\((.*)\)", s)
    return m.group(1) if m else s


@prop("C32")
def builders(c):
    by = {}
    for q in c.p.by_qname:
        m = BUILDER.match(q)
        if m:
            for f in c.p.find(q, must=False):
                if f.body is not None and not f.copymove:
                    by.setdefault((m.group(1), m.group(2)), {}).setdefault(m.group(3), []).append(f)
    c.need(len(by) >= 10, "the builders are not instantiated")
    cleared = {}
    for (b, a), ms in sorted(by.items()):
        for n, fs in sorted(ms.items()):
            if n == "mask" or n.startswith("~") or n in ("actor_config_builder_t", "init_ctor", "validate", "finish") or n not in OPTIONS:
                continue
            for f in fs:
                def opt(t, x, n=n, f=f):
                    want, bits = dict(OPTIONS[n]), 0
                    for e in t:
                        m = re.match(r"w this->config\.(\w+) = (.*)$", e)
                        if m and m.group(1) in want:
                            v = uncopy(m.group(2))
                            if v != want.pop(m.group(1)):
                                return "sets %s to %s" % (m.group(1), v)
                            continue
                        m = re.match(r"w this->mask = \(this->mask & (\d+)\)$", e)
                        if m:
                            bits |= FULL & ~int(m.group(1))
                            continue
                        return "does %s" % e
                    if want:
                        return "does not set %s" % ", ".join(sorted(want))
                    if not re.match(r"(copyof\()?(L\()?this->", E.show(x.val)):
                        return "answers %s" % E.show(x.val)
                    cleared.setdefault(a, {}).setdefault(n, set()).add(bits)
                    return None
                c.every("option", f, r"^(w|c|put|send|call|vcall) ", {}, opt, "the setting of its name")
    # what is required and what the options tick off
    for a, opts in sorted(cleared.items()):
        bits = {n: max(v) for n, v in opts.items()}
        for n, v in sorted(opts.items()):
            c.ob("required", len(v) == 1, "include/rotor/actor_config.h:1", "%s of %s ticks off %s" % (n, a, sorted(v)))
        need = {n: b for n, b in bits.items() if n in NEEDED}
        for n, b in sorted(bits.items()):
            c.ob("required", (b != 0) == (n in NEEDED or n == "timeout"), "include/rotor/actor_config.h:1", "option %s of %s ticks off %s" % (n, a, b), sample="%s: %s ticks off %s" % (a, n, b))
        ns = sorted(need)
        for i, n in enumerate(ns):
            for m in ns[:i]:
                c.ob("required", need[n] & need[m] == 0, "include/rotor/actor_config.h:1", "%s and %s of %s tick off the same requirement" % (m, n, a))
        if "timeout" in bits and {"init_timeout", "shutdown_timeout"} <= set(bits):
            c.ob("required", bits["timeout"] == bits["init_timeout"] | bits["shutdown_timeout"], "include/rotor/actor_config.h:1", "timeout of %s ticks off %s" % (a, bits["timeout"]))
        full = 0
        for b in need.values():
            full |= b
        # (classes whose own setters are all in use tell the whole mask)
        base = (by.get(("rotor::actor_config_builder_t", a)) or {}).get("actor_config_builder_t") or []
        for f in base:
            for x in c.run(f, r"^(init|w) this->mask = "):
                t = [e for e in flat(x.st.hist)]
                m = re.search(r"= (\d+)$", t[-1]) if t else None
                known = {"init_timeout", "shutdown_timeout"} <= set(need)
                c.ob("required-mask", m is not None and (not known or int(m.group(1)) == full), f.where, "the builder of %s starts with %s, its required options are %s" % (a, fmt(t), sorted(need)),
                     sample="%s starts with %s" % (a, fmt(t)))
    # validation
    seen = set()
    for (b, a), ms in sorted(by.items()):
        for f in ms.get("validate", []):
            sup = b.endswith("supervisor_config_builder_t")
            seen.add(b)

            def ret(v, x, sup=sup):
                ok = v.complete and not (sup and v.address and v.create)
                return None if (E.show(x.val) != "0") == ok else "the answer %s" % ("yes" if ok else "no")
            conds = {"complete": ("this->mask", 0, 0)}
            if sup:
                conds.update({"address": r"*this->config\.registry_address", "create": r"this->config\.create_registry"})
            c.decide("validation", f, r"^(w|c|put|send|vcall) ", conds, lambda v: [], ret=ret)
    c.need({"rotor::actor_config_builder_t", "rotor::supervisor_config_builder_t"} <= seen, "no validation found")
    # nothing invalid is made
    n = 0
    for (b, a), ms in sorted(by.items()):
        for f in ms.get("finish", []):
            n += 1
            ctor = a + "::" + a.split("::")[-1]
            made = r"new<%s>" % a.split("::")[-1]

            def fin(t, x, made=made, a=a):
                t = list(flat(t))
                v = truth(x.st, r"call:validate")
                news = [i for i, e in enumerate(t) if re.match(r"ctor \S+ on %s? \(" % made, e)]
                inst = [i for i, e in enumerate(t) if re.match(r"callback this->install_action", e)]
                errs = [e for e in t if re.match(r"vcall system_context_t::on_error", e)]
                asked = [i for i, e in enumerate(t) if e == "validate this"]
                if v is None or len(asked) != 1:
                    return "does not validate the configuration"
                r = E.show(x.val)
                if not v:
                    if news or inst:
                        return "makes an actor of an invalid configuration"
                    if len(errs) != 1 or not re.search(r"on this->system_context \((0|\S*get\(0\)), error\(actor_misconfigured\)\)", errs[0]):
                        return "reports %s" % fmt(errs)
                    return None if r == "0" else "answers %s for an invalid configuration" % r
                if errs:
                    return "reports an error for a valid configuration"
                news = [i for i in news if a in t[i].split(" on ")[0]]
                if not news and a.startswith("drv::"):
                    news = [inst[0] - .5] if inst else []
                elif len(news) != 1 or not re.search(r"\((copyof\()?this->config\)?\)$", t[news[0]]):
                    return "makes %s" % fmt([t[i] for i in news])
                if len(inst) != 1 or not re.search(r"\(%s\)$" % made, t[inst[0]]) or not asked[0] < news[0] < inst[0]:
                    return "installs %s" % fmt([t[i] for i in inst])
                return None if re.match(made, r) else "answers %s" % r

            def ask(eng, ev, t):
                if ev.kind in ("vcall", "call", "enter") and ev.fn is not None and ev.fn.name == "validate":
                    return "validate " + E.show(ev.obj).rstrip("->") if ev.kind != "enter" or not ev.fnctx or ev.fnctx.name == "finish" else None
                return False
            c.every("creation", f, r"^(ctor|vcall|callback) ", {}, fin, "validated, made of the configuration, installed, returned", atomic={ctor}, tagger=ask)
    c.need(n >= 6, "no creation found")


@prop("C32")
def reaching(c):
    for cls, fields in sorted(REACH.items()):
        f = c.p.one(cls + "::" + cls.split("::")[-1])
        bases = {b + "::" + b.split("::")[-1] for b in c.p.bases(cls)}

        def got(t, x, fields=fields, cls=cls):
            last = {}
            for e in flat(t):
                m = re.match(r"(?:init|w) this->(\w+) = (.*)$", e)
                if m:
                    last[m.group(1)] = m.group(2)
            for s, n in fields.items():
                v = uncopy(last.get(n, "nothing"))
                if v != "$0." + s and not (cls == "rotor::ev::supervisor_ev_t" and n == "poll_duration") and not v.startswith("nothing") or v == "nothing":
                    return "%s becomes %s" % (n, v)
            return None
        c.every("reaches", f, r"^(init|w) this->(%s) = " % "|".join(sorted(fields.values())), {}, got, "settings", atomic=bases)
    f = c.p.one("rotor::actor_base_t::actor_base_t")
    c.every("reaches", f, r"^(callback|w this->plugins_storage|vcall plugin_storage_base_t::get_plugins|c this->plugins\.|c this->activating_plugins)", {}, lambda t, x: plug(t), "plugins")
    # the place of a new actor
    dup = 0
    for q in list(c.p.by_qname):
        if re.match(r"rotor::system_context_t::create_supervisor\(\)::\(anonymous class\)::operator\(\)$", q):
            for f in c.p.find(q):
                dup += 1
                c.decide("one-supervisor", f, r"^(vcall (?!\S+identity)|w |release )", {"has": "*this->supervisor"},
                         lambda v: [r"on_error on this \(\$0, error\(supervisor_defined\)\)", r"^w \$0 = 0|^release \$0"] if v.has else
                         [r"^w this->supervisor = \$0", r"^vcall actor_base_t::do_initialize on \$0 \(this\)"], order=[("^w this->supervisor", "do_initialize")])
        if re.match(r"rotor::supervisor_t::create_actor\(\)::\(anonymous class\)::operator\(\)$", q):
            for f in c.p.find(q):
                dup += 1
                c.table("child", f, r"^(vcall|call|w|release|put|send) ", [("", {}, [[r"child_manager_plugin_t::create_child on this->manager \(\$0\)"]])], atomic={"rotor::plugin::child_manager_plugin_t::create_child"})
    c.need(dup >= 2, "the places of new actors are not found")


def plug(t):
    t = list(flat(t))
    if len([e for e in t if re.match(r"callback \$0\.plugins_constructor", e)]) != 1:
        return "does not make its plugins"
    if not any(re.match(r"w this->plugins_storage = cb", e) for e in t):
        return "does not keep its plugins"
    if not any(re.match(r"c this->plugins\.\S+ \(call:get_plugins", e) for e in t) and not any("w this->plugins" in e and "get_plugins" in e for e in t):
        return "does not list its plugins"
    return None


@prop("C32")
def plugin_lists(c):
    n = 0
    for q in sorted(c.p.by_qname):
        if not (q.startswith("rotor::plugin_storage_t<") and q.endswith("::add_plugin")):
            continue
        size = len(split_targs(q[q.index("std::tuple<") + 11:q.rindex(">>::")]))
        have = set()
        for f in c.p.find(q):
            i = int(f.targs[0])
            have.add(i)
            n += 1

            def tag(eng, ev, t):
                if ev.kind in ("call", "enter") and ev.name == "std::get":
                    return "get %s" % (ev.targs or ["?"])[0]
                if ev.kind == "cont":
                    return t
                if ev.kind in ("call", "enter") and ev.fn is not None and ev.fn.qname == q:
                    return "next %s" % ev.fn.targs[0]
            for x in c.run(f, None, tagger=tag, atomic={q}):
                t = list(flat(x.st.hist))
                want = ["^get %d$" % i, r"^c \$0\.(push_back|emplace_back)|^c plugins\."] + (["^next %d$" % (i + 1)] if i + 1 < size else [])
                c.ob("all-plugins", match(t, want), f.where, "plugin %d of %d: %s" % (i, size, fmt(t)), sample="plugin %d of %d => %s" % (i, size, fmt(t)))
        c.ob("all-plugins", have == set(range(size)), "include/rotor/actor_config.h:1", "%d of %d plugins are listed" % (len(have), size))
    c.need(n >= 8, "no plugin lists found")


def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += ch in "<("
        d -= ch in ">)"
        cur += ch
    return out + [cur]


@prop("C34")
def dumped(c):
    """the delivery shows a message exactly when it was asked to and the level of the message is within what was asked for; it shows it through the stringifier of the context"""
    PL_ = "rotor::plugin::"
    lvl = {f.qname for fs in c.p.by_qname.values() for f in fs if len(f.params) == 1 and re.search(r"message_base_t (const )?[*&]$|message_ptr_t", f.params[0]["t"]) and f.where.split(":")[0].endswith("plugin/delivery.cpp")}
    ld = PL_ + "local_delivery_t::delivery"
    for n, s in (("delivery", 2), ("discard", 1)):
        f = PL_ + "inspected_local_delivery_t::" + n
        shown = r"^vcall message_stringifier_t::stringify on \$%d \(\$0->(, .*)?\)" % s
        c.decide("shown", f, r"stringify on|^(put|send|w) |^call \S*local_delivery_t::delivery", {"asked": "call:getenv", "above": r"\(call:\w+ < (call:\w+|\d+)\)"}, lambda v, n=n, shown=shown: ([shown] if v.asked and not v.above else []) + (
            [r"local_delivery_t::delivery on - \(\$0, \$1\)"] if n == "delivery" else []), order=[("stringify", "local_delivery_t")], atomic=lvl | {ld})
    c.every("shown-by", PL_ + "delivery_plugin_base_t::activate", r"^w this->stringifier", None, lambda t, x: None if match(t, [r"^w this->stringifier = (call:make_stringifier|\S*context->stringifier|call:get_stringifier)"]) else fmt(t), "the stringifier of the context")
