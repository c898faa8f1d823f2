"""what each plugin sets up for itself: subscriptions and reactions (part of the properties the plugins implement)"""
from rulekit import *
import re
import engine as E
import program as P

A = "rotor::actor_base_t::"
PL = "rotor::plugin::"
INIT, SHUTDOWN, SUBSCRIPTION, START = "INIT", "SHUTDOWN", "SUBSCRIPTION", "START"


def setup(c, plugin, handlers, reactions=()):
    bits = [c.E(PL + "plugin_base_t::reaction_t", r) for r in reactions]
    installed(c, "set-up-" + plugin, PL + plugin + "_plugin_t::activate", handlers, bits)


@prop("C02")
def init_(c):
    setup(c, "init_shutdown", ["on_init"], [INIT])


@prop("C03")
def shutdown_(c):
    setup(c, "init_shutdown", ["on_shutdown"], [SHUTDOWN])


@prop("C04")
def start_(c):
    setup(c, "starter", ["on_start"], [INIT, SUBSCRIPTION, START])


@prop("C12")
def life_(c):
    setup(c, "lifetime", ["on_unsubscription", "on_unsubscription_external", "on_subscription"], [SHUTDOWN])
    setup(c, "foreigners_support", ["on_unsubscription", "on_subscription_external"])


@prop("C10")
def foreign_(c):
    setup(c, "foreigners_support", ["on_call"])


@prop("C18")
def server_(c):
    setup(c, "link_server", ["on_link_request", "on_unlink_response", "on_unlink_notify"], [SHUTDOWN])


@prop("C19")
def client_(c):
    setup(c, "link_client", ["on_link_response", "on_unlink_request"], [INIT, SHUTDOWN])


@prop("C20")
def registrar(c):
    installed(c, "set-up-registry", "rotor::registry_t::configure", ["on_reg", "on_dereg", "on_dereg_service", "on_discovery", "on_promise", "on_cancel"], some=True)


@prop("C21")
def names_(c):
    setup(c, "registry", ["on_registration", "on_discovery", "on_future"], [INIT, SHUTDOWN])


@prop("C22")
def resources_(c):
    setup(c, "resources", [], [INIT, SHUTDOWN])


@prop("C23", "C25")
def spawned(c):
    setup(c, "child_manager", ["on_create", "on_init"], [INIT])


@prop("C24")
def spawner(c):
    setup(c, "child_manager", ["on_spawn", "on_shutdown_confirm"], [])


@prop("C26", "C27")
def children(c):
    setup(c, "child_manager", ["on_shutdown_trigger", "on_shutdown_confirm"], [SHUTDOWN, START])


@prop("C07")
def all_commit(c):
    """every plugin reports its activation to the actor; the one that waits for the initialization request does so then"""
    base_ = c.fn(PL + "plugin_base_t::activate")
    n = 0
    for f in sorted(c.p.overriders(base_), key=lambda f: f.qname):
        init, late = None, f.qname == PL + "init_shutdown_plugin_t::activate"
        if late:
            f = c.fn(PL + "init_shutdown_plugin_t::on_init")
            init = {"this->actor->state": c.S("INITIALIZING")}
        c.every("reports-activation", f, r"^v?call \S*commit_plugin_activation on", init, lambda t, x: None if len(list(flat(t))) == 1 and re.search(r"\(this(->)?, 1\)$", list(flat(t))[0]) else
                "reports the activation of the plugin %d times%s" % (len(list(flat(t))), ": " + fmt(t) if t else ""), "an activated plugin is known as such",
                atomic={A + "commit_plugin_activation", "rotor::supervisor_t::subscribe", A + "init_start", A + "init_continue"})
        n += 1
    c.need(n >= 10, "only %d plugins found" % n)


@prop("C12", "C04")
def told_of_subscriptions(c):
    """an arriving confirmation is offered to every plugin that reacts to it; one that has seen all it waits for is not asked again"""
    n, sub = 3, c.E(PL + "plugin_base_t::reaction_t", SUBSCRIPTION)
    reacts = lambda st, k: truth(st, r"\(this->plugins\[#%d\]'*->reaction'* & %d\)" % (k, sub))

    def answer(st):
        ts = list(flat(st.hist))
        return ["-> %s" % truth(st, r"call:handle_subscription")] if ts and ts[-1].startswith("tell ") else []

    def tag(eng, ev, t):
        m = re.search(r"plugins\[(.*?)\]", E.show(ev.obj)) if ev.obj is not None else None
        if ev.kind == "vcall" and ev.name.endswith("::handle_subscription") and m:
            k = m.group(1).lstrip("#")
            return answer(ev.st) + ["tell %s %s %s" % (k, reacts(ev.st, int(k)) if k.isdigit() else None, t[t.rindex("("):])]
        if ev.kind == "write" and ev.name.endswith("->reaction") and "plugins[" in ev.name:
            return answer(ev.st) + [switched(ev, sub)]
        return False

    def check(tags, x):
        ts = list(flat(tags)) + answer(x.st)
        told = [t.split()[1] for t in ts if t.startswith("tell ")]
        for t in ts:
            if t.startswith("tell ") and not re.match(r"tell [0-2] True \(&?\$0\)$", t):
                return "a plugin that may not react is told, or told of something else: " + "; ".join(ts)
        for k in range(n):
            if told.count(str(k)) != (0 if reacts(x.st, k) is False and str(k) not in told else 1):
                return "plugin #%d of %d is told %d times" % (k, n, told.count(str(k)))
        i = 0
        while i < len(ts):
            if i + 1 >= len(ts) or ts[i + 1] not in ("-> True", "-> False"):
                return "does not look at the answer: " + "; ".join(ts)
            off = i + 2 < len(ts) and ts[i + 2] == "off " + ts[i].split()[1]
            if off != (ts[i + 1] == "-> True"):
                return "plugin #%s %s: %s" % (ts[i].split()[1], "is switched off although it needs more" if off else "stays among those to be told although it needs no more", "; ".join(ts))
            i += 3 if off else 2
    c.every("told-of-subscription", A + "on_subscription", None, {}, check, "all waiting plugins learn of it", tagger=tag, seq={"this->plugins": n})


S_ = "rotor::supervisor_t::"
LT = PL + "lifetime_plugin_t::"
IS = re.escape


@prop("C12")
def last_ones(c):
    """at the end of its life an actor gives up every subscription that is left, and then its own bookkeeping"""
    plug = c.E("rotor::owner_tag_t", "PLUGIN")
    g = [f for f in c.p.find(LT + "unsubscribe") if not f.params]
    c.need(len(g) == 1, "lifetime_plugin_t::unsubscribe() not found")
    for n in (0, 2):
        own = {"p%d" % i: (r"*this->points\[#%d\]->owner_tag" % i, plug, plug) for i in range(n)}
        el = lambda i: r"\((copyof\()?this->points\[#%d\]\)?\)" % i

        def want(v):
            out = []
            for i in range(n):
                out += [r"^c this->points\.erase \(.*#%d.*\)" % i] if v.__dict__["p%d" % i] else [r"lifetime_plugin_t::unsubscribe on this " + el(i)]
            done = all(v.__dict__["p%d" % i] for i in range(n)) and v.only
            return out + ([r"plugin_base_t::deactivate on this", r"^w this->actor->lifetime = 0"] if done else [])
        c.decide("gives-up-all", g[0], r"^call \S*(lifetime_plugin_t::unsubscribe|plugin_base_t::deactivate) on|^c this->points|^w this->actor->lifetime", dict(own, only=(r"*(size\(this->actor->deactivating_plugins\)|call:ready_to_shutdown)", 1, 1)), want,
                 seq={"this->points": n}, order=[(r"points\.erase|::unsubscribe on", "::deactivate on"), ("::deactivate on", "^w ")], atomic={LT + "unsubscribe", PL + "plugin_base_t::deactivate"})
    f = [f for f in c.p.find(PL + "plugin_base_t::forget_subscription") if "info" in f.params[0]["t"]]
    for g in f:
        c.every("gives-up-one", g, r"^v?call |^send|^c ", None, lambda t, x: None if match(t, [r"^v?call supervisor_t::commit_unsubscription on this->actor->supervisor \(\$0\)"]) else "does %s" % fmt(t), "the supervisor forgets what the plugin gives up",
                atomic={S_ + "commit_unsubscription"})
    c.every("set-up-lifetime", LT + "activate", r"^w \S*->lifetime = ", None, lambda t, x: None if match(t, [r"^w \$0->lifetime = this"]) else "does %s" % fmt(t), "the actor knows its lifetime plugin", atomic={S_ + "subscribe"})
    for n, ext in (("on_unsubscription", ""), ("on_unsubscription_external", ""), ("on_subscription", "")):
        c.every("told", LT + n, r"^v?call |^send", None, lambda t, x, n=n: None if match(t, [r"^v?call actor_base_t::%s on this->actor \(&?\$0\)" % n]) else "does %s" % fmt(t), "the actor learns of it", atomic={A + n})


@prop("C02", "C04")
def starts_when_subscribed(c):
    """the starter agrees once everything it tracks is confirmed, and goes on with the initialization at that moment"""
    S = c.S
    q = PL + "starter_plugin_t::"
    same = r"\*?(.*this->tracked\[#%d\].*)"
    for n in (0, 1):
        state = (r"*this->actor->state", S("INITIALIZING"), S("INITIALIZING"))

        def went(v, ts):
            return None
        def check(tags, x, n=n):
            ts = list(flat(tags))
            cut = [t for t in ts if t.startswith("c this->tracked.erase")]
            hit = None
            for k, d in x.st.fa.items():
                s = E.show(k).replace("'", "")
                if "this->tracked[#0]" in s and "$0.payload.point" in s and "==" in s:
                    v = True if d[0] > 0 else False if d[0] == d[1] == 0 else None
                    hit = v if hit is None or v is False else hit
            if n == 0 and cut:
                return "takes out what is not there"
            if n and bool(cut) != (hit is True) and not (hit is None and not cut and truth(x.st, r"~found\(this->tracked,.*") is False and False):
                return "the confirmed subscription is %s" % ("taken out although it is another one" if cut else "not taken out")
            conf, ing, req = truth(x.st, r"*this->configured"), truth(x.st, state), truth(x.st, r"*this->actor->init_request")
            empty = n == 0 or bool(cut)
            go = [t for t in ts if "init_continue" in t]
            if len(go) > 1 or bool(go) and not (conf and empty and ing and req):
                return "goes on with the initialization when it is not its turn: %s" % fmt(ts)
            if not go and empty and conf is not False and ing is not False and req is not False:
                return "does not go on with the initialization although all is confirmed"
            if E.show(x.val) not in (("1",) if go else ("0", "call:handle_subscription")):
                return "reports %s" % E.show(x.val)
        c.every("confirmed", q + "handle_subscription", r"^c this->tracked|^v?call \S*init_continue on", None, check, "the starter waits for exactly what it tracks", seq={"this->tracked": n},
                atomic={A + "init_continue", PL + "plugin_base_t::handle_subscription"})
    c.decide("asks-user", q + "handle_init", r"^v?call \S*configure on", {"done": r"this->configured"},
             lambda v: [] if v.done else [r"^vcall actor_base_t::configure on this->actor \(this->?\)"], atomic={A + "configure"})
    remembers(c, q + "handle_init", r"this->configured", "configured = 1$")


@prop("C27", "C26")
def child_gone(c):
    S = c.S
    f = S_ + "on_child_shutdown"
    c.decide("child-gone", f, r"^v?call \S*shutdown_continue on|^(send|route|reply)", {"down": (IS("this->state"), S("SHUTTING_DOWN"), S("SHUTTING_DOWN"))},
             lambda v: [r"shutdown_continue on this "] if v.down else [], atomic={A + "shutdown_continue"})


@prop("C03", "C26")
def supervisor_finishes(c):
    """a supervisor's shutdown ends like that of any actor"""
    fs = [f for f in c.p.overriders(c.fn(A + "shutdown_finish")) if f.qname != A + "shutdown_finish" and (f.file or "").startswith(P.REPO)]
    for f in fs:
        c.every("finishes-like-actor", f, r"^v?call \S*shutdown_finish on", None, lambda t, x: None if len(list(flat(t))) == 1 and re.search(r"^call \S+::shutdown_finish on this ", list(flat(t))[0]) else "does %s" % fmt(t),
                "the shutdown of the base is part of it", atomic={g.qname for g in fs if g is not f} | {A + "shutdown_finish"})


@prop("C38")
def own_supervisor(c):
    for f in c.p.find(S_ + "supervisor_t"):
        if f.copymove or not f.body:
            continue
        c.every("its-own-supervisor", f, r"^(w|init) this->supervisor = ", None, lambda t, x: None if t and list(flat(t))[-1].endswith(" = this") else "does %s" % fmt(t), "a supervisor supervises itself", atomic={A + "actor_base_t"})


def published(c, plugin, slot, fn=None):
    f = PL + (fn or plugin + "_plugin_t::activate")
    c.every("published-" + plugin, f, r"^w (\$0|this->actor)(->)?\S*%s = " % slot, None,
            lambda t, x: None if t and re.search(r"%s = this$" % slot, list(flat(t))[-1]) else "does %s" % (fmt(t) if t else "nothing"),
            "the actor finds the plugin it works with", atomic={A + "commit_plugin_activation", A + "configure", A + "init_start", "rotor::supervisor_t::subscribe"})


@prop("C19")
def pub_links(c):
    published(c, "link_server", "->link_server")


@prop("C22")
def pub_res(c):
    published(c, "resources", "->resources")


@prop("C12")
def pub_life(c):
    published(c, "lifetime", "->lifetime")


@prop("C23")
def pub_man(c):
    published(c, "child_manager", "->manager")


@prop("C09")
def pub_delivery(c):
    published(c, "delivery", "->delivery", "delivery_plugin_base_t::activate")


def remembers(c, f, cond, field):
    """what has been asked for once is not asked for again"""
    def check(t, x):
        ws, done = list(flat(t)), truth(x.st, cond)
        bad = [w for w in ws if not re.match(r"w this->" + field, w)]
        if bad:
            return "does %s" % fmt(bad)
        if done is False and not ws:
            return "does not remember that the settings were asked for"
    c.every("offered-once", f, r"^w this->(plugin_state|configured) = ", None, check, "settings are asked for once", atomic={A + "configure"})


@prop("C28")
def offered(c):
    """a plugin with settings is offered to the actor's configure; once while it is activated, once when the initialization starts"""
    CONF = r"^v?call \S*::configure on (this->actor|\$0)(->)? \(this(->)?\)$"
    at_ = {A + "configure", A + "commit_plugin_activation", A + "init_start", "rotor::supervisor_t::subscribe"}
    base_, init_ = c.fn(PL + "plugin_base_t::activate"), c.fn(PL + "plugin_base_t::handle_init")
    pre, ini = c.E("rotor::plugin::config_phase_t", "PREINIT"), c.E("rotor::plugin::config_phase_t", "INITIALIZING")

    def phase(want):
        def chk(t, x):
            ts = list(flat(t))
            conf = [i for i, s in enumerate(ts) if re.match(CONF, s)]
            if len(conf) != 1:
                return "is offered %d times: %s" % (len(conf), fmt(ts))
            ph = [s for s in ts[:conf[0]] if "->phase = " in s]
            now = ph[-1].rsplit(" ", 1)[1] if ph else str(pre)
            if now != str(want):
                return "is offered in phase %s: %s" % (now, fmt(ts))
            if not any("->actor = $0" in s for s in ts[:conf[0]]):
                return "is offered before it knows its actor"
        return chk
    for plugin, want in (("address_maker", ini), ("starter", pre), ("resources", pre), ("child_manager", ini)):
        c.every("offered-when-activated", PL + plugin + "_plugin_t::activate", r"configure on|^w this->(phase|actor) = ", None, phase(want), "it can be set up by the actor", atomic=at_)
    # every plugin's phase: PREINIT up to the base activation, INITIALIZING from then on
    c.every("phase", base_, r"^w this->phase = ", None, lambda t, x: None if t and list(flat(t))[-1] == "w this->phase = %d" % ini else "does %s" % fmt(t), "the second phase follows the first", atomic=at_)
    for plugin in ("starter", "resources", "link_client", "registry"):
        f = PL + plugin + "_plugin_t::handle_init"
        bit = c.E(PL + "registry_plugin_t::plugin_state_t", "CONFIGURED")
        cond = r"~\(this->plugin_state & %d\)" % bit if plugin == "registry" else r"this->configured"
        field = r"plugin_state = \(this->plugin_state \| %d\)$" % bit if plugin == "registry" else "configured = 1$"
        c.decide("offered-when-initializing", f, r"configure on", {"done": cond}, lambda v: [] if v.done else [CONF], atomic={A + "configure"})
        remembers(c, f, cond, field)
    # the setting code of the actor runs for the plugin it names, in the phase it names, and only then
    fs = family(c, PL + "plugin_base_t::with_casted")
    named = set()
    for f in fs:
        plugin = f.targs[0]
        named.add(plugin)

        def tag(eng, ev, t):
            if ev.kind == "enter" and ev.name.endswith("operator()"):
                a = "|".join(E.show(x) for x in ev.args)
                return ["runs " + a] if re.match(r"enter .*operator\(\) on \$0 ", t) else False
            return False

        def chk(t, x, plugin=plugin):
            ts = list(flat(t))
            ph = truth(x.st, r"\((this->phase & \$1|\$1 & this->phase)\)")
            me = truth(x.st, r"~\((call:identity-> == glob\(\d+,%s::class_identity\)|glob\(\d+,%s::class_identity\) == call:identity->)\)" % ((re.escape(plugin),) * 2))
            if ts and not (ph and me and len(ts) == 1 and re.match(r"runs (L\()?&?this(->)?\)?$", ts[0])):
                return "runs the code of another plugin or phase: %s" % "; ".join(ts)
            if not ts and ph is not False and me is not False:
                return "does not run the code although plugin and phase match"
        c.every("with-casted", f, None, None, chk, "settings reach the plugin they are for", tagger=tag)
    c.need(len(named) >= 5, "with_casted is analysed for %d plugins only" % len(named))


@prop("C28", "C07")
def identities(c):
    """each plugin class answers with its own identity, and no two share one"""
    values, ids = {}, {}
    for u in c.p.tus:
        for v in u.vars.values():
            if v["name"].endswith("_plugin_t::class_identity") or v["name"].endswith("plugin_base_t::class_identity"):
                ids.setdefault(v["name"], None)
                m = re.search(r"'k': 'typeid'.*?'t': '([^']*)'", str(v.get("init", "")))
                if m:
                    values[v["name"]] = (m.group(1), v["file"], v.get("l"))
    n = 0
    for q, (t, file, line) in sorted(values.items()):
        same = [o for o in values if o != q and values[o][0] == t]
        c.ob("identity-value", not same, "%s:%s" % (file.replace(P.REPO + "/", ""), line), "%s has the same value as %s" % (q, ", ".join(same)))
    for f in sorted((f for f in c.p.all_funcs() if f.qname.startswith(PL) and f.qname.endswith("_t::identity") and f.body), key=lambda f: f.qname):
        n += 1
        own = f.qname[:f.qname.rindex("::")] + "::class_identity"
        c.every("own-identity", f, "^$", None, lambda t, x, own=own: None if own in E.show(x.val) and "glob(" in E.show(x.val) else "answers %s" % E.show(x.val), "a plugin is known by its own identity")
    c.need(n >= 10, "only %d identities" % n)


@prop("C42")
def identity_(c):
    """an actor keeps the identity it was given; without one it gets a generated one before it starts to initialize"""
    q = PL + "address_maker_plugin_t::"
    at_ = {q + "generate_identity", q + "set_identity", A + "configure", A + "init_start", A + "commit_plugin_activation"}
    f = c.fn(q + "activate")

    def tag(eng, ev, t):
        if re.match(r"^v?call \S*(generate_identity|set_identity) on this ", t):
            return ["name %s" % late(ev.st)]
        if re.match(r"^v?call \S*init_start on", t):
            return ["init %s" % late(ev.st)]
        if re.match(r"^v?call \S*::configure on", t):
            return ["configure"]
        if ev.kind == "write" and ev.name.endswith("->identity"):
            return ["writes the identity itself: " + t]
        return False

    def late(st):
        """is the identity, as the actor's own settings left it, empty?"""
        n = [s for s in list(flat(st.hist)) if s == "configure"]
        for k, d in st.fa.items():
            s = E.show(k)
            m = re.fullmatch(r"empty\(strof\((\$0|this->actor'*)->identity('*)\)\)", s)
            if m and (m.group(2) or not n):
                return True if d[0] > 0 else False if d[0] == d[1] == 0 else None
        return None

    def chk(t, x):
        ts = list(flat(t))
        if [s for s in ts if s.startswith("writes")]:
            return "; ".join(ts)
        if ts.count("configure") != 1 or len([s for s in ts if s.startswith("init ")]) != 1:
            return "does " + "; ".join(ts)
        e = late(x.st)
        named = [i for i, s in enumerate(ts) if s.startswith("name ")]
        if e is None and not named:
            return "does not look whether the actor has an identity: " + "; ".join(ts)
        if e is None and named or bool(named) != e or len(named) > 1:
            return "a given identity is replaced: " + "; ".join(ts) if not e else "an actor stays without identity: " + "; ".join(ts)
        if named and not (ts.index("configure") < named[0] < [i for i, s in enumerate(ts) if s.startswith("init ")][0]):
            return "names the actor at the wrong moment: " + "; ".join(ts)
    c.every("named-when-nameless", f, None, None, chk, "a given identity stays, a missing one is generated", tagger=tag, atomic=at_)
    # what the setter stores
    f = c.fn(q + "set_identity")

    def stored(t, x):
        ts = list(flat(t))
        ws = [s for s in ts if s.startswith("w this->actor->identity")]
        if not ws:
            return "stores nothing"
        app = None
        for k, d in x.st.fa.items():
            if E.show(k) == "$1":
                app = False if d[0] == d[1] == 0 else True
        plain = re.fullmatch(r"w this->actor->identity = (copyof\()?\$0\)?", ws[-1].replace("fnc(str,$0)", "$0"))
        used = " ".join(ts)
        if app is not True and not plain:
            return "stores something else than the name: " + ws[-1]
        if app is not False and (plain or "$0" not in used or "actor->address" not in used):
            return "stores a name without the address: " + fmt(ts)
    c.every("identity-set", f, r".", None, stored, "the identity is the name, with the address if asked for")
    c.need(len(list(c.run(f, "^w "))) >= 2, "set_identity has one way only")
    gen = c.fn(q + "generate_identity")
    for g in [gen] + [g for g in c.p.overriders(gen) if g is not gen and (g.file or "").startswith(P.REPO)]:
        c.every("identity-made", g, r"^v?call \S*set_identity on this|^w this->actor->identity", None,
                lambda t, x: None if t and re.search(r"^v?call \S*set_identity on this(->)? \((copyof\()?\"[^\"]+\"\)?, 1\)|^w this->actor->identity = ", list(flat(t))[-1]) else "does %s" % (fmt(t) if t else "nothing"),
                "a nameless actor gets a name with its address", atomic={q + "set_identity"})
    for g in family(c, A + "get_identity"):
        c.every("identity-read", g, "^$", None, lambda t, x: None if re.fullmatch(r"(L\(|copyof\()?this->identity\)?", E.show(x.val).replace("'", "")) else "returns %s" % E.show(x.val), "the identity is the stored one")
    only_written_by(c, "identity-writers", A[:-2], "identity", {q + "set_identity"})


@prop("C02", "C04")
def waits_while_tracking(c):
    """a starter that still waits for confirmations keeps taking part, and does not agree"""
    f = c.fn(PL + "starter_plugin_t::handle_init")
    bits = {n: c.E(PL + "plugin_base_t::reaction_t", n) for n in (INIT, SUBSCRIPTION)}

    def tag(eng, ev, t):
        if ev.kind == "write" and ev.name.endswith("->reaction"):
            m = re.search(r"& (-?\d+)\)$", E.show(ev.val))
            lost = [n for n, b in sorted(bits.items()) if not (m and int(m.group(1)) & b)]
            return ["no longer reacts to %s although confirmations are pending" % n for n in lost] if truth(ev.st, r"*empty\(this->tracked\)") is not True else []
        return False

    def chk(t, x):
        for s in flat(t):
            return s
        e, v = truth(x.st, r"*empty\(this->tracked\)"), E.show(x.val)
        if e is not True and v != "0":
            return "answers %s although confirmations are pending" % v
    c.every("waits", f, None, None, chk, "initialization waits for every confirmation", tagger=tag, atomic={A + "configure"})
