import sys, time
sys.path.insert(0, __file__.rsplit('/', 1)[0])
import program as P, engine as E, rulekit as R
# explore.py KEEP QNAME [init k=v;k=v] [atomic=a,b] [noinline=..]
kw, init = {}, {}
import os
FA = os.environ.get('FA')
D={'C': 'rotor::actor_base_t::shutdown_continue,rotor::actor_base_t::init_continue,rotor::extended_error_t::root,rotor::actor_base_t::shutdown_finish,rotor::actor_base_t::init_finish'}
for a in sys.argv[3:]:
    k, v = a.split('=', 1)
    if k == 'turns': kw['turns'] = True; continue
    if k in ('atomic', 'noinline'): kw[k] = set(D.get(v,v).split(','))
    else:
        init[k] = int(v) if v.lstrip('-').isdigit() else eval(v) if v[0] in '({' else v
pr = P.load(()) if os.environ.get("DRV") else P.extract(P.core_sources())
c = R.Ctx('X', pr)
fs = R.family(c, sys.argv[2]) if os.environ.get("DRV") else pr.find(sys.argv[2])
for f in fs[:int(os.environ.get("N", "2"))]:
    t = time.time()
    xs = c.run(f, sys.argv[1], init, **kw)
    print('##', f.qname, f.where, f.targs, len(xs), 'exits %.2fs' % (time.time() - t))
    seen = {}
    for x in xs: seen.setdefault((x.kind, E.show(x.val), x.st.hist), []).append(x)
    for (k, v, h), ss in list(seen.items())[:40]:
        print(' *', k, v, ss[0].loc[1], 'x%d' % len(ss))
        
        for t in h: print('      ', R.fmt([t])[:400])
        if FA: print('     F:', {E.show(a): (b[0] if b[0] == b[1] else tuple('' if abs(z) >= E.INF else z for z in b[:2]) + (set(b[2]),)) for a, b in ss[0].st.fa.items() if 'w#' not in str(a.syms)})
