"""Print the effects the executor computes for a function (development aid)."""
import sys, time, traceback
from terms import *
from heap import *
import exec as X
from exec import Dump, St, Frame
from loops import Engine
import lattigo
import faulthandler


def run(name, dump='/tmp/d.json', setup=None, args=None, recv=None):
    d = Dump(dump)
    ex = Engine(d)
    ex.contracts.update(lattigo.CONTRACTS)
    if setup:
        setup(ex)
    fn = d.funcs[name]
    st = St({}, ROOT, (), ())
    ps = list(fn['params'])
    al = []
    for i, p in enumerate(([fn['recv']] if fn.get('recv') else []) + ps):
        al.append(ex.base(root(p.get('n') or p['id']), p['t'], st) if ex.d.ty(p['t'])['k'] != 'ptr' else root(p.get('n') or p['id']))
    t0 = time.time()
    r = None
    try:
        if fn.get('recv'):
            r = ex.inline(st, name, al[0], al[1:], None)
        else:
            r = ex.inline(st, name, None, al, None)
    except Exception:
        traceback.print_exc()
    print('--- result', r is not None and show(r))
    n = st.log
    us = []
    while n.upd is not None:
        us.append(n.upd)
        n = n.parent
    for u in reversed(us):
        print('  ', [show(q) for q in u.qv], show(u.guard), '=>', show(u.addr), ':=', show(u.val))
    print('br', [show(x) for x in st.br]); print('facts', [show(x) for x in st.facts])
    for pc, k, w in ex.panics:
        print('PANIC', k, w, [show(x) for x in pc][-3:])
    print('inlined', len(ex.inlined), 'time %.2f' % (time.time() - t0))
    return ex, st, r


if __name__ == '__main__':
    for n in sys.argv[1:]:
        print('=====', n)
        run(n)
