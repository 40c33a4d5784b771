"""C11: one implementation per mapped type parameter, with the right marker and result."""
import itertools
from ctlib import Defs

CONSTS = [('usize', '3'), ('bool', 'true'), ('char', "'x'"), ('i8', '-4'), ('u8', '{ 1 + 1 }')]


def plist(seq, lts, consts):
    """(parameter declarations, names)"""
    ps, names = [], []
    for i in range(lts):
        ps.append(f"'l{i}")
        names.append(f"'l{i}")
    for i, k in enumerate(seq):
        if k == 'T':
            ps.append(f'P{i}')
            names.append(f'P{i}')
        else:
            ps.append(f'const P{i}: {consts[i][0]}')
            names.append(f'P{i}')
    return ps, names


def definition(kind, seq, lts, consts, defaults=0, options=''):
    ps, names = plist(seq, lts, consts)
    for i in range(len(seq) - defaults, len(seq)):
        ps[lts + i] += f' = u16' if seq[i] == 'T' else f' = {consts[i][1]}'
    fields = [f"&'l{i} u8" for i in range(lts)] + [f'P{i}' for i, k in enumerate(seq) if k == 'T']
    fields += [f'Vec<P{i}>' for i, k in enumerate(seq) if k == 'T'][:1]
    fields += [f'[u8; P{i}]' for i, k in enumerate(seq) if k == 'C' and consts[i][0] == 'usize']
    g = ', '.join(ps)
    der = f'#[derive(FuncMap, TryFuncMap)]{options} pub '
    if kind == 'tuple':
        return der + f'struct S<{g}>({", ".join("pub " + f for f in fields)});'
    if kind == 'named':
        return der + f'struct S<{g}> {{ {", ".join(f"f{i}: {f}" for i, f in enumerate(fields))} }}'
    return der + f'enum S<{g}> {{ A, B({", ".join(fields)}), C {{ {", ".join(f"f{i}: {f}" for i, f in enumerate(fields))} }} }}'


def checks(seq, lts, consts, mapped=None):
    """Queries on instances: every marker, every source type, both traits; result types"""
    n = len(seq)
    mapped = [i for i in range(n) if seq[i] == 'T'] if mapped is None else mapped

    def inst(sub=None):
        a = ["'static"] * lts
        for i, k in enumerate(seq):
            a.append(('Bt' if sub == i else f'X{i}') if k == 'T' else consts[i][1])
        return f'S<{", ".join(a)}>'
    out = []
    srcs = [f'X{i}' for i, k in enumerate(seq) if k == 'T']
    for m in range(n + 2):
        for tr in 'FT':
            for s in srcs:
                want = m in mapped and s == f'X{m}'
                out.append((f'Is::<{inst()}, {s}, Bt, TypeParam<{m}>>::{tr}', want, f'implementation for marker {m} with source {s} ({tr})'))
            if m in mapped:
                out.append((f'IsO::<{inst()}, X{m}, Bt, TypeParam<{m}>, {inst(m)}>::{tr}', True, f'result type for marker {m} ({tr})'))
    return out


def generic_fns(seq, lts, consts, mapped=None):
    """The implementations are fully generic and keep lifetimes, consts and other parameters"""
    ps, names = plist(seq, lts, consts)
    r = ''
    for m, k in enumerate(seq):
        if k != 'T' or (mapped is not None and m not in mapped):
            continue
        out = [('NEW' if i - lts == m else nm) for i, nm in enumerate(names)]
        g = ', '.join([p for p in ps if p[0] == "'"] + ['NEW'] + [p for p in ps if p[0] != "'"])
        r += (f'pub fn g{m}<{g}>(s: S<{", ".join(names)}>, f: impl FnMut(P{m}) -> NEW) -> S<{", ".join(out)}> {{ FuncMap::<P{m}, NEW, TypeParam<{m}>>::func_map(s, f) }}\n'
              f'pub fn t{m}<{g}>(s: S<{", ".join(names)}>, f: impl FnMut(P{m}) -> Result<NEW, ()>) -> Result<S<{", ".join(out)}>, ()> {{ TryFuncMap::<P{m}, NEW, TypeParam<{m}>>::try_func_map(s, f) }}\n')
    return r


HDR_TYPES = '\n'.join(f'pub struct X{i};' for i in range(40)) + '\npub struct Bt;'


def c11(ck):
    ck.build()
    import ctlib
    d = Defs(ck, header=ctlib.IS + '\n' + HDR_TYPES + '\npub const K: usize = 3;', name='markers')
    N = 5 if ck.thorough else 4
    n = 0
    for ln in range(1, N + 1):
        for seq in itertools.product('TC', repeat=ln):
            if 'T' not in seq:
                continue
            for lts in ((0, 1, 2) if ln < 4 else (0, 2)):
                for kind in ('tuple', 'named', 'enum') if (ln < 4 or ck.thorough) else ('tuple',):
                    n += 1
                    consts = [CONSTS[(n + i) % len(CONSTS)] for i in range(ln)]
                    for df in (0, 1, ln) if kind == 'tuple' else (0,):
                        key = f'{kind}_{"".join(seq)}_{lts}_{df}'
                        if key in d.seen:
                            continue
                        d.add(key, definition(kind, seq, lts, consts, df) + '\n' + generic_fns(seq, lts, consts), checks(seq, lts, consts))
    # a long list
    seq = tuple('TCTTCTCT')
    consts = [('usize', '3')] * 8
    d.add('long', definition('tuple', seq, 1, consts) + '\n' + generic_fns(seq, 1, consts), checks(seq, 1, consts))

    for n in (6, 9, 10, 12, 17, 26, 33) if ck.thorough else (9, 12, 17, 26):
        for k, pat in enumerate(['T', 'TC', 'CT', 'CCT', 'TTTTTTTC', 'CCCCCCCCT']):
            seq = tuple((pat * n)[:n])
            if 'T' not in seq:
                continue
            consts = [CONSTS[(k + i) % len(CONSTS)] for i in range(n)]
            for lts in (0, 3):
                kind = ('tuple', 'named', 'enum')[(k + n + lts) % 3]
                q = checks(seq, lts, consts)
                d.add(f'long{n}_{pat}_{lts}', definition(kind, seq, lts, consts) + '\n' + generic_fns(seq, lts, consts), [x for i, x in enumerate(q) if x[1] or ck.thorough or i % 7 == n % 7])
            # options that select a single one, and the last two
            ts = [i for i in range(n) if seq[i] == 'T']
            for sel in sorted({(ts[-1],), tuple(ts[-2:]), tuple(sorted({ts[0], ts[-1]}))}):
                sel = list(sel)
                opt = f' #[funcmap(params({", ".join(f"P{i}" for i in sel)}))]'
                d.add(f'longsel{n}_{pat}_{"_".join(map(str, sel))}', definition('tuple', seq, 1, consts, options=opt) + '\n' + generic_fns(seq, 1, consts, sel), [x for i, x in enumerate(checks(seq, 1, consts, sel)) if x[1] or i % 7 == n % 7])
            # as field types of another definition, with the mapped parameter at each end
            for m in {ts[0], ts[-1]}:
                a = lambda s: ', '.join((s if i == m else f'X{i}') if c == 'T' else consts[i][1] for i, c in enumerate(seq))
                d.add(f'longnest{n}_{pat}_{m}', definition('tuple', seq, 0, consts).replace('struct S<', 'struct G<') + f'\n#[derive(FuncMap, TryFuncMap)] pub struct S<Q>(pub G<{a("Q")}>);', [(f'IsO::<S<X0>, X0, Bt, TypeParam<0>, S<Bt>>::{tr}', True, f'through argument {m} of {n} ({tr})') for tr in 'FT'])

    # field types that are other generic types: their parameters are addressed by the same numbering.
    # G gets, as arguments: the mapped parameter, a concrete type, consts in every syntactic form, lifetimes
    forms = [('T', 'T'), ('T', 'u8'), ('C', '3'), ('C', '{ K + 1 }'), ('C', 'K'), ('C', 'N')]
    extra = [('C', '-4'), ('C', 'true'), ('C', "'x'")]
    for ln in (1, 2, 3):
        for args in itertools.product(forms if ln == 3 else forms + extra, repeat=ln):
            if not any(a[1] == 'T' for a in args):
                continue
            seq = [a[0] for a in args]
            for lts in (0, 1):
                if ln == 3 and lts and not ck.thorough and len(set(args)) == 3:
                    continue
                cty = {'-4': 'i8', 'true': 'bool', "'x'": 'char'}
                consts = [(cty.get(a[1], 'usize'), a[1]) for a in args]
                usen = any(a[1] == 'N' for a in args)
                g = definition('tuple', seq, lts, consts).replace('struct S<', 'struct G<')
                L = "'l0, " * lts
                a = ', '.join(["'l0"] * lts + [x[1] for x in args])
                sdef = f'#[derive(FuncMap, TryFuncMap)] pub struct S<{L}T{", const N: usize" if usen else ""}>(pub G<{a}>);'
                si = "'static, " * lts
                nn = ', 5' if usen else ''
                key = 'nest_%d_%d' % (lts, len(d.seen))
                q = []
                for tr in 'FT':
                    q.append((f'IsO::<S<{si}X0{nn}>, X0, Bt, TypeParam<0>, S<{si}Bt{nn}>>::{tr}', True, f'mapping through G<{a}> ({tr})'))
                d.add(key, g + '\n' + sdef, q)
    # the argument numbering also counts when only the addressed parameter is mappable
    for ln in (2, 3):
        for seq in itertools.product('TC', repeat=ln):
            for m in range(ln):
                if seq[m] != 'T':
                    continue
                consts = [('usize', '3')] * ln
                ps, names = plist(seq, 1, consts)
                inst = lambda b, s: ', '.join(["'static"] + [(s if i == m else f'X{i}') if k == 'T' else '3' for i, k in enumerate(seq)])
                body = f'pub struct G<{", ".join(ps)}>(&\'l0 u8, {", ".join("P%d" % i for i, k in enumerate(seq) if k == "T")});\n'
                for nm in (m, (m + 1) % ln):
                    # implemented by hand for the marker nm only
                    one = lambda t, fn, ret, bound: (f"impl<A, B> {t}<A, B, TypeParam<{nm}>> for G<{inst(0, 'A')}> {{ type Output = G<{inst(0, 'B')}>; fn {fn} {{ loop {{}} }} }}\n")
                    impls = one('FuncMap', 'func_map<F: FnMut(A) -> B>(self, f: F) -> Self::Output', '', '') + one('TryFuncMap', 'try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<Self::Output, E>', '', '')
                    sdef = f'#[derive(FuncMap, TryFuncMap)] pub struct S<T>(pub G<{inst(0, "T")}>);'
                    d.add(f'addr_{"".join(seq)}_{m}_{nm}', body + impls + sdef,
                          [(f'Is::<S<Bt>, Bt, X7, TypeParam<0>>::{tr}', nm == m, f'G is mappable for marker {nm} only, T is argument {m} ({tr})') for tr in 'FT'])
    d.judge()
    return ck.finish()
