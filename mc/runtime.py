"""Checks that explore executions of the real code: C01 - C10 and the run-time part of C22."""
import json, os, re
from concurrent.futures import ThreadPoolExecutor
import gen, progs
from vlib import Broken, NODEBUG, env, pmap, run, VERIF

SUPPORTED = 'the compiler accepts the harness only if every documented standard type is mappable with the documented result type'


def lib(ck, mode):
    """Provided implementations (harness/src/bin/libx.rs)"""
    exes, msg = ck.build(bins=['libx'], features=[mode.lower()])
    if exes is None:
        # the harness uses the public API with every documented standard type
        first = msg.strip().splitlines()[0] if msg.strip() else '?'
        ck.violation(f'a documented standard-library type cannot be mapped as documented: {first}', msg)
        return None
    exe = ck.keep(exes['libx'], 'libx')
    if mode not in ('C01', 'C02', 'C03', 'C04'):
        ck.libtot = explore_lib(ck, mode, exe, run([exe, mode, ck.tier], timeout=850))
        return ck.libtot
    # as users run it: without debug assertions in the crate
    with ThreadPoolExecutor(1) as pool:
        first = pool.submit(run, [exe, mode, ck.tier], timeout=850)
        exe2 = ck.build_nodebug('libx', [mode.lower()])
        ck.libtot = explore_lib(ck, mode, exe, first.result())
    if ck.libtot:
        explore_lib(ck, mode, exe2, run([exe2, mode, ck.tier], timeout=850), ' without debug assertions')
    return ck.libtot


def explore_lib(ck, mode, exe, result, what=''):
    rc, out, err = result
    lines = [l for l in out.splitlines() if l.startswith('{')]
    if not lines or not lines[-1].startswith('{"total"'):
        if 'machinery:' in err:
            raise Broken(err[-1500:])
        ck.violation(f'exploring the provided implementations{what} ended abnormally ({rc})', out[-1500:] + err[-2500:])
        return None
    tot = json.loads(lines[-1])['total']
    if tot['capped']:
        ck.capped = True
    for v in tot['violations']:
        m = re.match(r'(.*?) choices=\[(.*?)\]', v)
        ck.violation(v + what, f'replay with: {os.path.relpath(exe, VERIF)} {mode} {ck.tier} "{m.group(1)}" "{m.group(2)}"\n'
                        f'(run the check first, it builds the program)')
    ck.add(tot['states'], tot['nodes'], tot['executions'], tot['samples'][::7][:4])
    ck.log(f"provided implementations{what}: {tot['executions']} executions, {tot['states']} distinct states, depth {tot['max_depth']}")
    return tot


def derived(ck, mode, n=None):
    sp = gen.space(ck.thorough, deeper=mode in ('c09', 'c10'))
    tot = progs.explore(ck, mode, sp)
    ck.log(f"derived types: {tot['programs']} programs, {tot['executions']} executions, {tot['states']} distinct states")
    return tot


def done(ck, dv=None, **kw):
    extra = {}
    lt = getattr(ck, 'libtot', None)
    if lt:
        extra['provided_implementations'] = dict(executions=lt['executions'], max_depth=lt['max_depth'], outcome_classes=len(lt['outcomes']))
    if dv:
        extra['derived_types'] = dict(programs=dv['programs'], executions=dv['executions'], outcome_classes=len(dv['outcomes']))
    extra.update(kw)
    return ck.finish(exhaustive=not getattr(ck, 'capped', False), **extra)


def c01(ck):
    lib(ck, 'C01')
    return done(ck)


def c02(ck):
    lib(ck, 'C02')
    return done(ck)


def c03(ck):
    lib(ck, 'C03')
    return done(ck)


def both(mode):
    def f(ck):
        lib(ck, mode.upper())
        dv = derived(ck, mode) if ck.rlibs.get('fmrt') else None
        if mode == 'c06' and getattr(ck, 'libtot', None):
            n = ck.libtot['outcomes'].get('known-finding exhausted-range-inclusive', 0)
            if n and not ck.finding('exhausted-range-inclusive', f'{n} states'):
                ck.violation('identity law violated for an exhausted RangeInclusive', 'harness/src/bin/libx.rs, int_range_check')
        return done(ck, dv)
    return f


c04, c05, c06, c07 = both('c04'), both('c05'), both('c06'), both('c07')


def c09(ck):
    ck.build()
    return done(ck, derived(ck, 'c09'))


def c10(ck):
    ck.build()
    return done(ck, derived(ck, 'c10'))


def c08(ck):
    """Array mapping under Miri, long arrays natively"""
    exes, msg = ck.build(bins=['arr'])
    if exes is None:
        raise Broken('the harness does not build: ' + msg[-3000:])
    for what, exe in (('', ck.keep(exes['arr'], 'arr')), (' without debug assertions', ck.build_nodebug('arr'))):
        for args in (['long'], ['thorough', '0', '1']):
            rc, out, err = run([exe] + args, timeout=600)
            lines = [l for l in out.splitlines() if l.startswith('{')]
            if 'machinery:' in err:
                raise Broken(err[-1500:])
            if lines and lines[-1].startswith('{"total"'):
                tot = json.loads(lines[-1])['total']
                for v in tot['violations']:
                    ck.violation(v + what, f'replay: {os.path.relpath(exe, VERIF)} {" ".join(args)} <job>')
                ck.add(tot['states'], tot['nodes'], tot['executions'], tot['samples'][:1])
                ck.log(f"native{what}, {args[0]}: {tot['executions']} executions")
            else:
                job = json.loads(lines[-1]).get('start') if lines else '?'
                ck.violation(f'{job}{what}: ended abnormally ({rc})', f'replay: {os.path.relpath(exe, VERIF)} {" ".join(args)} {job!r}\n' + err[-3000:])
    man = os.path.join(VERIF, 'harness', 'Cargo.toml')
    targets = [os.path.join(VERIF, 'target', 'miri'), os.path.join(VERIF, 'target', 'miri_nodebug')]
    e = lambda seed: env(RUSTUP_TOOLCHAIN='nightly', RUSTFLAGS='--cap-lints=warn', MIRIFLAGS=f'-Zmiri-tree-borrows -Zmiri-seed={seed}')
    # odd address seeds: without debug assertions in the crate
    cmd = lambda seed: ['cargo', 'miri', 'run', '--offline', '--manifest-path', man, '--bin', 'arr', '--target-dir', targets[seed % 2]] + (NODEBUG if seed % 2 else []) + ['--']

    def prepare(seed):
        run(['cargo', 'clean', '--offline', '--manifest-path', man, '--target-dir', targets[seed], '-p', 'funcmap', '-p', 'funcmap_derive'], env=e(0))
        # builds and runs nothing (empty shard)
        return run(cmd(seed) + ['quick', '100000', '100001'], timeout=800, env=e(0))

    rc, out, err = prepare(0)
    if rc == 0:
        rc, out, err = prepare(1)
    if rc != 0:
        raise Broken('cannot build for Miri: ' + err[-3000:])
    ck.log('built for Miri')
    seeds = [0, 1, 2, 3] if ck.thorough else [0, 1]
    jobs = [(s, i) for s in seeds for i in range(8)]
    execs, reps = {}, 0

    def one(j):
        s, i = j
        return j, run(cmd(s) + [ck.tier, str(i), '8'], timeout=850, env=e(s))

    per = {}
    for (s, i), (rc, out, err) in pmap(one, jobs):
        lines = [l for l in out.splitlines() if l.startswith('{')]
        last = lines[-1] if lines else ''
        if last.startswith('{"total"') and rc == 0:
            t = json.loads(last)['total']
            for v in t['violations']:
                ck.violation(f'{v} (address seed {s})', 'replay: ' + ' '.join(cmd(s) + [ck.tier, '0', '1']) + ' <job>')
            per.setdefault(i, t)
            reps += t['executions']
            continue
        job = json.loads(lines[-1]).get('start') if lines else None
        if job is None or ('Undefined Behavior' not in err and 'memory leaked' not in err and 'panicked' not in err and 'abnormal' not in err and rc != 1):
            raise Broken(f'Miri run failed: {err[-2000:]}')
        if 'machinery:' in err:
            raise Broken(err[-1500:])
        m = re.search(r'error: (.*)', err)
        ck.violation(f'{job}: {m.group(1) if m else "abnormal end"} (address seed {s})',
                     f'replay: MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-seed={s}" RUSTFLAGS=--cap-lints=warn ' + ' '.join(['cargo', '+nightly'] + cmd(s)[1:] + [ck.tier, '0', '1', repr(job)]) + '\n\n' + err[-4000:])
    for t in per.values():
        ck.add(t['states'], t['nodes'], 0, t['samples'][:1])
    ck.add(traces=reps)
    ck.assumptions.append('Miri (tree borrows, base addresses from the given seeds) reports every access violation of an executed run')
    return ck.finish(address_seeds=len(seeds))
