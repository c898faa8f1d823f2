"""C41: handlers call what they were declared with, and wrong programs do not compile"""
from rulekit import *
import os, re, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
import engine as E
import program as P

H = "rotor::handler_t::"
PROGRAM = os.path.join(P.VERIF, "witness", "program.cpp")


def kind(f):
    """(the message type that the handler declares, how it reaches its object)"""
    m = re.match(r"rotor::handler_t<(.*)>$", f.cls)
    h = m.group(1)
    m = re.match(r"rotor::lambda_holder_t<(rotor::message_t<.*>), \(lambda at .*\)>$", h)
    if m:
        return m.group(1), "lambda"
    m = re.match(r"void \((.*)::\*\)\((rotor::message_t<.*>) &\) noexcept$", h)
    return (m.group(2), "plugin" if re.match(r"rotor::plugin::\w+_plugin_t$|drv::plug_t$", m.group(1)) else "actor") if m else (None, None)


@prop("C41")
def handlers(c):
    def glob(m):
        return r"\(?glob\(\d+,%s::message_type\)\)?" % re.escape(m)
    n = 0
    for f in family(c, H + "call") + family(c, H + "call_no_check"):
        msg, k = kind(f)
        if msg is None:
            c.need(False, "a handler of an unknown form: %s" % f.cls)
        n += 1
        tgt = {"lambda": r"(enter|vcall|call) \S.* on this->handler\.fn \((copyof\()?\$0->\)?\)$",
               "plugin": r"pmcall \((copyof\()?this->plugin->\)? \.\* this->handler\) \((copyof\()?\$0->\)?\)$",
               "actor": r"pmcall \((copyof\()?this->actor_ptr->\)? \.\* this->handler\) \((copyof\()?\$0->\)?\)$"}[k]
        own = r"\((\$0->type_index == %s|%s == \$0->type_index)\)" % (glob(msg), glob(msg))
        mine = f.name == "call"

        def check(tags, x, tgt=tgt, own=own, mine=mine, f=f):
            calls = [t for t in flat(tags) if re.match(tgt, t)]
            other = [t for t in flat(tags) if not re.match(tgt, t)]
            is_own = truth(x.st, own)
            if other:
                return "calls something else: %s" % fmt(other)
            if mine and is_own is None and calls:
                return "calls the handler without comparing the message's type"
            want = 1 if not mine or is_own else 0
            if mine and is_own is None:
                return "decides by something else than the message's type"
            return None if len(calls) == want else "calls the handler %d times (%s type)" % (len(calls), "its own" if is_own else "any" if not mine else "another")
        c.every("calls-the-declared-method", f, r"^(enter|call|vcall) .* on this->handler\.fn" if k == "lambda" else "^(pmcall|vcall|call)", {}, check, "the stored handler, on its object, with the message, for its own type only")
    c.need(n >= 40, "hardly any handler is instantiated")
    for f in family(c, H + "select"):
        msg, k = kind(f)
        own = r"\((\$0->type_index == %s|%s == \$0->type_index)\)" % (glob(msg), glob(msg))

        def answer(tags, x, own=own):
            v = E.show(x.val)
            t = truth(x.st, own)
            if v in ("0", "1"):
                return None if t is (v == "1") else "answers %s for %s" % (v, "its own type" if t else "another type" if t is False else "an unknown type")
            return None if re.match(own + "$", v) else "answers %s" % v
        c.every("selects-its-type", f, "^$", {}, answer, "exactly the messages of its type")
    for f in family(c, H + "message_type"):
        msg, k = kind(f)
        c.every("files-under-its-type", f, "^$", {}, lambda t, x, msg=msg: None if re.match(glob(msg) + "$", E.show(x.val)) else "answers %s" % E.show(x.val), "the declared message type")
    for f in family(c, H + "handler_t", pick=lambda f: f.ctor and not f.copymove):
        msg, k = kind(f)
        actor = r"\$0\.actor|\(?\$0\.actor\)?" if k == "plugin" else r"&\$0"

        def built(tags, x, k=k, actor=actor, f=f):
            ts = list(flat(tags))

            def val(field):
                v = [t.split(" = ", 1)[1] for t in ts if re.match(r"(init|w) this->%s = " % field, t)]
                return v[-1] if v else None
            if not re.match(r"(%s)$" % actor, val("actor_ptr") or ""):
                return "belongs to the actor %s" % val("actor_ptr")
            if not re.match(r"\(?glob\(\d+,%s::handler_type\)\)?$" % re.escape(f.cls), val("handler_type") or ""):
                return "has the handler type %s" % val("handler_type")
            if not re.search(r"\$1\}?$", val("handler") or ""):
                return "keeps the method %s" % val("handler")
            return None
        c.every("keeps-what-it-is-given", f, r"^(init|w) this->(actor_ptr|handler_type|handler)\b", {}, built, "the actor (or plugin), the method and the type of it")
    # subscribing builds the handler of the given method for the subscribing actor or plugin
    SUB = "rotor::supervisor_t::subscribe"
    for q, me in (("rotor::actor_base_t::subscribe", r"\*?this(->)?"), ("rotor::plugin::plugin_base_t::subscribe", r"\*?this(->)?"), ("rotor::plugin::starter_plugin_t::subscribe_actor", r"\*?this->actor(->)?")):
        for f in family(c, q, pick=lambda f: f.targs):
            def sub(tags, x, me=me):
                ts = list(flat(tags))
                news = [t for t in ts if t.startswith("ctor ")]
                subs = [t for t in ts if not t.startswith("ctor ")]
                if len(news) != 1 or not re.match(r"ctor rotor::handler_t on new<handler_t>?[^ ]* \(%s, \$0\)$" % me, news[0]):
                    return "makes the handler %s" % fmt(news)
                return None if len(subs) == 1 and re.search(r"\(new<handler_t>", subs[0]) else "subscribes %s" % fmt(subs)
            c.every("subscribes-the-given-method", f, r"^(ctor rotor::handler_t on|v?call \S*supervisor_t::subscribe on)", {}, sub, "one handler, of the given method", atomic={SUB})
    # the types: one distinct pointer for each
    for tu in c.p.tus:
        for v in tu.vars.values():
            m = re.match(r"(rotor::(message_t|handler_t)<.*>)::(message_type|handler_type)$", v["name"])
            if not m or not v.get("init") or "rotor::lambda_holder_t<" in m.group(1):
                continue
            ids = []

            def walk(n):
                if isinstance(n, dict):
                    if n.get("k") == "typeid":
                        ids.append(n.get("t"))
                    for y in n.values():
                        walk(y)
                elif isinstance(n, list):
                    for y in n:
                        walk(y)
            walk(v["init"])
            want = m.group(1) if m.group(2) == "message_t" else m.group(1)[len("rotor::handler_t<"):-1]
            c.ob("one-pointer-for-each-type", ids in ([want], [m.group(1)]), "%s:%s" % (os.path.relpath(v["file"], P.REPO) if v.get("file", "").startswith(P.REPO) else v.get("file"), v.get("l")),
                 "%s is made from %s" % (v["name"], ids), key=m.group(3), sample=v["name"][:90])

    def same(tags, x):
        v = E.show(x.val)
        f = truth(x.st, r"found\(glob\(\d+,type_map\),fnc\(name,\$0\)\)")
        if f:
            return None if re.match(r"glob\(\d+,type_map\)\[fnc\(name,\$0\)\]\.second$", v) else "answers %s for a known type" % v
        w = [t for t in flat(tags)]
        return None if v == "fnc(name,$0)" and any(re.match(r"(w glob\(\d+,type_map\)\[fnc\(name,\$0\)\]\.second = fnc\(name,\$0\)|c glob\(\d+,type_map\)\.(try_)?(emplace|insert) \(.*fnc\(name,\$0\).*fnc\(name,\$0\).*\))$", t) for t in w) else "answers %s, remembers %s" % (v, fmt(w))
    c.every("one-pointer-for-each-type", "rotor::message_support::register_type", r"^(w|c) glob\(\d+,type_map\)", {}, same, "the pointer that the type got first")


@prop("C41")
def witnesses(c):
    """the correct program compiles; each wrong construct in it is refused"""
    src = open(PROGRAM).read()
    bad = {}
    for n, what in re.findall(r"#(?:el)?if BAD == (\d+)(?: // (.*))?", src):
        bad[int(n)] = what
    lines = src.splitlines()
    args = ["clang++"] + P.clang_args()
    with tempfile.TemporaryDirectory() as tmp:
        pch = os.path.join(tmp, "rotor.pch")
        r = subprocess.run(args + ["-x", "c++-header", os.path.join(P.REPO, "include", "rotor.hpp"), "-o", pch], capture_output=True, text=True)
        use = ["-include-pch", pch] if r.returncode == 0 else []

        def compile(n):
            r = subprocess.run(args + use + ["-fsyntax-only", "-DBAD=%d" % n, PROGRAM], capture_output=True, text=True, timeout=300)
            return n, r.returncode, [e for e in r.stderr.splitlines() if "error:" in e]
        with ThreadPoolExecutor(8) as ex:
            res = {n: (rc, err) for n, rc, err in ex.map(compile, [0] + sorted(bad))}
    rc, err = res[0]
    c.ob("correct-program-compiles", rc == 0, "include/rotor.hpp:1", "a correct program is refused: %s" % (err[:1] or ["?"])[0], sample="program.cpp")
    for n in sorted(bad):
        at = next(i for i, l in enumerate(lines) if re.search(r"BAD == %d\b" % n, l)) + 1
        stmt = next((l.strip() for l in lines[at:] if not l.startswith("#")), "")
        c.ob("wrong-program-is-refused", rc != 0 or res[n][0] != 0, "include/rotor.hpp:1", "this compiles although it is wrong: `%s` %s" % (stmt, bad[n]), key="bad-%d" % n, sample="%s: %s" % (stmt, (res[n][1] or ["?"])[0][-120:]))
