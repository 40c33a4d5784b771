"""Runs generated programs: compiles shards of the program space against the current
tree and explores every execution of the derived code."""
import json, os
import gen
from vlib import Batch, Broken, accept_all, chunks, pmap, run, show, env


def explore(ck, mode, progs, edition='2021', label='', nshards=None, tier=None, header=None, known=None):
    """mode: c04, c05, c06, c07, c09, c10, c22. Every program must compile; every execution must satisfy the driver."""
    tier = tier or ck.tier
    header = header or gen.HEADER
    progs = list(progs)
    n = nshards or max(8, min(64, (len(progs) + 29) // 30))
    bykey = {p.key: p for p in progs}
    assert len(bykey) == len(progs), 'machinery: duplicate program keys'
    tot = dict(executions=0, nodes=0, states=0, outcomes={}, samples=[], programs=len(progs), rejected=0)

    def one(arg):
        i, ps = arg
        name = f'{label}{mode}_{edition}_{i}'
        rejected = {}
        ps = list(ps)
        for attempt in range(4):
            mods, main = gen.shard(ps, mode)
            b = Batch(ck, name, header=header, footer=main, edition=edition)
            for k, t in mods:
                b.add(k, t)
            exe = os.path.join(ck.work, name)
            c, by, un = b.compile(out=exe)
            if c.ok:
                break
            if not by:
                # errors outside any program: derived code of the library types
                if un:
                    return rejected or {'library types': un}, None, name
                raise Broken(f'{name} does not compile: {c.err[-800:]}')
            rejected.update(by)
            ps = [p for p in ps if p.key not in by]
            if not ps:
                return rejected, None, name
        else:
            return rejected, None, name
        rc, o, e = run([exe, tier], timeout=850)
        os.remove(exe)
        last = o.strip().splitlines()[-1] if o.strip() else ''
        if not last.startswith('{"total"'):
            return rejected, (rc, e[-1500:]), name
        return rejected, json.loads(last)['total'], name

    for rejected, st, name in pmap(one, enumerate(chunks(progs, n))):
        for k, d in rejected.items():
            if known and k in known and all(x and x.code in known[k][1] for x in d) and ck.finding(known[k][0], d[0].msg):
                tot['known'] = tot.get('known', 0) + 1
                continue
            tot['rejected'] += 1
            p = bykey.get(k)
            ck.violation(f'program {k} (edition {edition}) is rejected: {d[0].msg if d and d[0] else "?"}',
                         (f'#[derive({p.derive})]\n{p.pre}\n{p.definition}\n\n' if p else '') + show(d))
        if isinstance(st, tuple):
            # the explored code aborted or corrupted memory
            if 'machinery:' in st[1]:
                raise Broken(f'{name}: {st[1]}')
            ck.violation(f'{name} ended abnormally ({st[0]})', st[1])
        elif st:
            if st['capped']:
                ck.capped = True
            for f in ('executions', 'nodes', 'states'):
                tot[f] += st[f]
            for k, v in st['outcomes'].items():
                tot['outcomes'][k] = tot['outcomes'].get(k, 0) + v
            tot['samples'] += st['samples'][:1]
            for v in st['violations']:
                k = v.split(' ')[0]
                p = bykey.get(k)
                ck.violation(v, f'mode {mode}, edition {edition}\n#[derive({p.derive})]\n{p.pre}\n{p.definition}\n{p.post}\nbuilder: {p.value}\n' if p else v)
    ck.add(tot['states'], tot['nodes'], tot['executions'], tot['samples'][:3])
    return tot
