"""Verify contracts by name (development aid): run.py [-v] [-1] [-d dump] [name|pattern*]..."""
import fnmatch
import multiprocessing as mp
import os
import sys
import allspecs
from verify import *

from types import SimpleNamespace as N

dump = None


def job(a):
    n, i = a
    sys.setrecursionlimit(100000)
    r = verify(dump, SPECS[n], SPECS[n].modes[i], SPECS)
    return n, i, N(ok=r.ok, time=r.time, obls=r.obls, panics=r.panics, error=r.error, unsupported=r.unsupported)


if __name__ == '__main__':
    args = sys.argv[1:]
    full = '-v' in args
    one = '-1' in args
    path = '/tmp/d.json'
    if '-d' in args:
        k = args.index('-d')
        path = args[k + 1]
        del args[k:k + 2]
    args = [a for a in args if a not in ('-v', '-1')]
    from exec import Dump
    sys.setrecursionlimit(100000)
    dump = Dump(path)
    jobs = [(n, i) for n in SPECS if not SPECS[n].trusted and (not args or any(fnmatch.fnmatch(n, x) for x in args)) for i in range(len(SPECS[n].modes))]
    nok = 0
    pool = None if one or len(jobs) == 1 else mp.get_context('fork').Pool(min(8, len(jobs) or 1), maxtasksperchild=4)
    for n, i, r in (map(job, jobs) if pool is None else pool.imap_unordered(job, jobs)):
        if r.ok:
            nok += 1
            if not full and len(jobs) > 3 and r.time < 20:
                continue
        print('%-55s %s %-8s %3d obligations %2d panics %.2fs' % (n, SPECS[n].modes[i].get('name', ''), 'OK' if r.ok else 'FAILED', len(r.obls), r.panics, r.time))
        w = 4000 if full else 900
        if r.error:
            print('    ERROR', r.error[:w])
        if r.unsupported:
            print('    UNSUPPORTED', r.unsupported[:w])
        bad = [o for o in r.obls if not o[1]]
        for o in bad[:20 if full else 4]:
            print('    FAILED' if o[1] is False else '    UNDECIDED', o[0][:300], '--', o[2][:w])
        if len(bad) > 4 and not full:
            print('    ... %d more' % (len(bad) - 4))
    print('%d ok of %d' % (nok, len(jobs)))
