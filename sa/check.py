#!/usr/bin/env python3
"""check.py <property id> | --list | --all [--jobs N]

Decides one property from /repo's current source.  Exit 0: every obligation was discharged; exit 1 and a line
"VIOLATION property=<id> replay=<path>": some obligation fails (the replay file names rule, construct and path);
any other exit: the analysis itself could not be carried out."""
import sys, os, json, time, importlib, glob, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "rules"))
sys.setrecursionlimit(100000)
import program as P
import rulekit as R

VERIF = P.VERIF
REGISTRY = R.REGISTRY


def load_rules():
    for f in sorted(glob.glob(os.path.join(VERIF, "rules", "*.py"))):
        importlib.import_module(os.path.basename(f)[:-3])


def known_findings():
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith("known: "):
                head, _, desc = ln[7:].partition(" :: ")
                pid, _, key = head.partition(" ")
                out.append((pid.replace("property=", ""), key.strip(), desc.strip()))
    return out


def run(pid, tier):
    t0 = time.time()
    fns = REGISTRY[pid]
    configs = [("default", ())]
    if tier == "thorough":
        configs.append(("NDEBUG", ("-DNDEBUG",)))
    obligations = discharged = paths = 0
    funcs, rules, samples, viol, entries, sites = set(), {}, [], [], [], 0
    files, broken = 0, None
    for cname, extra in configs:
        prog = P.load(extra)
        files = max(files, len(prog.tus))
        ctx = R.Ctx(pid, prog, tier)
        for fn in fns:
            try:
                fn(ctx)
            except Exception as e:          # what was found stands; without any finding there is no answer
                broken = broken or e
        if not ctx.obligations and not broken:
            raise P.AnalysisError("no obligations generated for %s" % pid)
        obligations += ctx.obligations
        discharged += ctx.discharged
        paths += ctx.paths
        sites += ctx.sites
        funcs |= ctx.funcs
        entries += ctx.entries
        for k, (a, b) in ctx.rules.items():
            r = rules.setdefault(k, [0, 0])
            r[0] += a
            r[1] += b
        if cname == "default":
            samples = ctx.samples
        viol += [(cname, v) for v in ctx.violations]
    # report
    known = [(k, d) for p, k, d in known_findings() if p == pid]
    fresh, seen, old = [], set(), {}
    for cname, v in viol:
        hit = next((x for x in known if x[0] == v.key), None)
        if hit:
            old[hit[0]] = hit[1]
            continue
        if v.key in seen:
            continue
        seen.add(v.key)
        fresh.append((cname, v))
    if broken and not fresh:
        raise broken
    print("%s: %d translation units, %d functions analysed, %d paths, %d call sites, %d obligations, %d discharged" % (
        pid, files, len(funcs), paths, sites, obligations, discharged))
    for k in sorted(rules):
        print("  rule %-34s %4d/%d" % (k, rules[k][1], rules[k][0]))
    for k, d in sorted(old.items()):
        print("KNOWN-FINDING: property=%s %s" % (pid, d))
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": {
              "explanation": "Static analysis of /repo's current sources (clang AST facts of every library unit, path-sensitive "
                             "interprocedural dataflow / who-may-write scans). An obligation is one path, call site, table row or "
                             "declaration that a rule had to accept.",
              "translation_units": files, "functions_analysed": sorted(funcs), "function_count": len(funcs), "paths": paths,
              "call_sites": sites, "entry_points": entries[:200], "obligations": obligations, "discharged": discharged,
              "rules": {k: {"obligations": a, "discharged": b} for k, (a, b) in sorted(rules.items())},
              "configurations": [c for c, _ in configs], "samples": samples[:12]},
          "assumptions": R.ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(fresh)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    if fresh:
        rp = os.path.join(VERIF, "evidence", "replay-%s.txt" % pid)
        with open(rp, "w") as o:
            for cname, v in fresh:
                o.write("property %s\nrule     %s\nwhere    %s\nconfig   %s\nkey      %s\n%s\npath:\n" % (pid, v.rule, v.where, cname, v.key, v.msg))
                for t in v.trace[-80:]:
                    o.write("    %s\n" % (t,))
                o.write("\n")
        for cname, v in fresh[:12]:
            print("  %s [%s] %s" % (v.where, v.rule, v.msg[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    load_rules()
    if argv[0] == "--list":
        for k in sorted(REGISTRY):
            print(k, ", ".join(f.__module__ + "." + f.__name__ for f in REGISTRY[k]))
        return 0
    if argv[0] == "--all":
        import subprocess
        from concurrent.futures import ThreadPoolExecutor
        P.load(())
        if tier == "thorough":
            P.load(("-DNDEBUG",))

        def one(k):
            t = time.time()
            r = subprocess.run([sys.executable, os.path.abspath(__file__), k], capture_output=True, text=True)
            return k, r.returncode, time.time() - t, r.stdout + r.stderr
        bad = 0
        ids = argv[1:] or sorted(REGISTRY)
        with ThreadPoolExecutor(8) as ex:
            for k, rc, dt, out in ex.map(one, ids):
                print("%s rc=%d %.1fs %s" % (k, rc, dt, "" if rc == 0 and not os.environ.get("V") else "\n" + out[-2500:]))
                bad += rc != 0
        return 1 if bad else 0
    pid = argv[0]
    if pid not in REGISTRY:
        print("unknown property", pid)
        return 2
    try:
        return run(pid, tier)
    except P.AnalysisError as e:
        print("ANALYSIS-BROKEN %s: %s" % (pid, e))
        return 3
    except Exception:
        traceback.print_exc()
        print("ANALYSIS-BROKEN %s: internal error" % pid)
        return 4


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
