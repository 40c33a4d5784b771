"""C14: all problems of a definition are reported in one compilation, each at its own place.

Templates with k fault sites, each on a line of its own; every subset of the sites (that
leaves at least one fault) is compiled under each macro, and the set of lines blamed by the
macro must be exactly the set of faulty lines."""
import itertools
from vlib import Broken, chunks, pmap, show

PRE = '''#![allow(unused, dead_code)]
extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap};
pub trait Tr {}
'''.rstrip()

# a template is a list of lines; a site is a tuple (good line or None, faulty line); ('!', ..) is always faulty
T = {}

# malformed and duplicate options
opts = ['#[funcmap]', '#[funcmap()]', '#[funcmap(params())]', '#[funcmap(unknown)]', '#[funcmap(crate)]', '#[funcmap(crate = "1+")]', '#[funcmap(crate = funcmap)]', '#[funcmap(params(1))]', '#[funcmap = "x"]', '#[funcmap(params(T) params(U))]',
        '#[funcmap(crate = "")]', '#[funcmap(params = "T")]', '#[funcmap(T)]', '#[funcmap(params(T,,))]', '#[funcmap{}]', '#[funcmap(crate("funcmap"))]', '#[funcmap("x")]', '#[funcmap(params(T U))]', '#[funcmap(params(Vec<T>))]', '#[funcmap(params)]', '#[funcmap(params(u8::T))]',
        '#[funcmap(crate = " ")]', '#[funcmap(crate = "(")]', '''#[funcmap(crate = "'")]''', '#[funcmap(crate = "/* */")]', '#[funcmap(crate = "a b")]', '#[funcmap(crate = b"x")]', '#[funcmap(crate = "::funcmap", crate = "1")]', '#[funcmap(params(T), bogus)]']
for i in range(0, len(opts), 5):
    T[f'opts{i}'] = [(None, o) for o in opts[i:i + 5]] + ['pub struct S<T, U>(pub T, pub U);']
    T[f'optsmix{i}'] = [(None, opts[i]), '#[funcmap(params(T))]', (None, opts[(i + 1) % len(opts)]), '#[funcmap(params(', (None, 'T,'), 'U', '))]', (None, opts[(i + 2) % len(opts)]), 'pub enum S<T, U> { A(T), B(U) }']
T['dupparams'] = ['#[funcmap(params(T', (None, ',T'), (None, ',T'), ',U', (None, ',U'), '))]', '#[funcmap(params(V', (None, ', T'), '))]', (None, '#[funcmap(params(U))]'), 'pub struct S<T, U, V>(pub T, pub U, pub V);']
T['dupcrate'] = ['#[funcmap(crate = "::funcmap")]', (None, '#[funcmap(crate = "funcmap")]'), '#[funcmap(', (None, 'crate = "::funcmap",'), 'params(T)', (None, ', crate = "::funcmap"'), ', params(U)', (None, ', params(T)'), ')]', 'pub struct S<T, U>(pub T, pub U);']
T['dupinvalid'] = ['#[funcmap(params(T', (None, ', T'), '))]', (None, '#[funcmap(params())]'), "#[funcmap(crate = \"::funcmap\")]", (None, '#[funcmap(crate = "::funcmap")]'), (None, '#[funcmap(bogus)]'), 'pub struct S<T, U>(pub T, pub U);']

# unknown and unsuitable parameters, misplaced attributes
T['params'] = ['#[funcmap(params(T', (None, ', X'), (None, ", 'a"), (None, ', N'), ", U", (None, ", 'zz"), '))]', (None, '#[funcmap(params(Y))]'), (None, '#[funcmap(params(M))]'),
               "pub struct S<'a, T, const N: usize, U, const M: bool>(pub &'a T2, pub T, pub [U; N]);", 'pub struct T2;']
T['misplaced'] = ['pub enum S<T> {', (None, '#[funcmap(params(T))]'), 'A(', (None, '#[funcmap]'), 'T,', (None, '#[funcmap(crate = "x")]'), 'T),', 'B {', (None, '#[funcmap(bogus)]'), 'x: T, y: T },', (None, '#[funcmap()]'), (None, '#[funcmap(params())]'), 'C }']
T['misplacedstruct'] = ['pub struct S<T> {', (None, '#[funcmap(params(T))]'), (None, '#[funcmap]'), 'pub a: T,', '#[allow(unused)]', 'b: u8,', (None, '#[funcmap(crate = "x")]'), 'c: Vec<T>,', 'd: u8 }']
T['misplacedtuple'] = ['pub struct S<T>(', (None, '#[funcmap(params(T))]'), 'pub T,', (None, '#[funcmap = "3"]'), 'u8,', (None, '#[funcmap()]'), 'T);']
T['paramsmisplaced'] = ['#[funcmap(params(', (None, "'a,"), 'T', (None, ', Nope'), '))]', "pub enum S<'a, T> {", 'A(T),', (None, '#[funcmap(params(T))]'), 'B(', (None, '#[funcmap]'), "&'a u8, T),", (None, '#[funcmap]'), 'C }']
T['notypes'] = [(None, '#[funcmap(params(X))]'), 'pub struct S', ('!', "<'a, const N: usize>"), '(', (None, '#[funcmap]'), "pub &'a [u8; N]);"]
T['notypes2'] = [(None, "#[funcmap(params('a))]"), (None, '#[funcmap(params(N))]'), 'pub enum S', ('!', "<'a, const N: usize>"), '{', (None, '#[funcmap]'), "A(", (None, '#[funcmap(params(T))]'), "&'a [u8; N]) }"]
T['notypes3'] = ['pub enum', ('!', 'S'), '{', (None, '#[funcmap]'), "A(", (None, '#[funcmap(params(T))]'), "u8), B }"]
T['unionparams'] = ['#[funcmap(params(T', (None, ', X'), (None, ', N'), '))]', 'pub', ('!', 'union'), "S<T: Copy, const N: usize> { a: T, b: [u8; N] }"]

# unsupported field types and bounds
bad = ["&'static T", '*const T', 'fn(T)', '*mut T', "&'static mut T", 'Box<[T]>', 'Box<dyn Tr2<T>>', 'T::Item', '<T as It>::Item', 'fn() -> T']
TR = 'pub trait It { type Item; } pub trait Tr2<X> {}'
T['fields'] = ["pub struct S<T: 'static + It>("] + sum([[(f'Vec<T>', b), ','] for b in bad[:6]], []) + ['T);', TR]
T['fields2'] = ["pub enum S<T: 'static + It> { A(T,"] + sum([[(f'Option<T>', b), ','] for b in bad[4:6]], []) + ['), B { x:', ('T', bad[6]), ', y:', ('u8', bad[7]), ', z: T}, C,', 'D(', ('[T; 2]', bad[8]), ',', ('(T,)', bad[9]), ') }', TR]
T['fields3'] = ["pub struct S<T: 'static + It, U: 'static + It> { a:", ('T', "&'static T"), ', b:', ('U', '*const U'), ', c:', ('(T, U)', '*const (T, U)'), ', d:', ('Result<T, U>', 'fn(T) -> U'), ', e: Vec<(T, U)>, f:', ('u8', 'U::Item'), '}', TR]
T['within'] = ["pub struct S<T: 'static + It>((", ('T', "&'static T"), ',', ('u8', '*const T'), ', T,', ('Vec<T>', 'Vec<fn(T)>'), '), Result<', ('T', '*mut T'), ',', ('u8', 'T::Item'), '>, [(', ('u8', "fn() -> T"), ',', ('T', "<T as It>::Item"), '); 2]);', TR]
T['within2'] = ["pub enum S<T: 'static + It> { A((", ('T', "&'static T"), ', (', ('u8', '*const T'), ', (', ('Vec<T>', 'Vec<fn(T)>'), ',)))), B { x: Option<Result<(', ('T', '*mut T'), ',', ('u8', 'T::Item'), '), Vec<(', ('u8', "fn() -> T"), ', T)>>> } }', TR]
T['paramfields'] = ['#[funcmap(params(T))]', "pub struct S<T: 'static + It, U: 'static + It>(", ('T', "&'static T"), ',', "&'static U", ',', ('T', '*const (T, U)'), ', U::Item,', ('Vec<U>', 'T::Item'), ');', TR]
# bounds the macros do not support (unstable syntax; the compiler itself complains about them as well)
T['bounds'] = ['pub struct S<', ('T', 'T: const Clone'), ',', ('U: Clone', 'U: Clone + const Clone'), ',', ('V: Tr', 'V: Tr + const Tr + Clone'), '>(T, U,', ('T', '*const T'), ',', ('Vec<V>', "fn(V)"), ');']
# also those of parameters that are not mapped
T['bounds_params'] = ['#[funcmap(params(T))]', 'pub struct S<', ('T', 'T: const Clone'), ',', ('U: Clone', 'U: Clone + const Clone'), ',', ('V: Tr', 'V: Tr + const Tr + Clone'), '>(T, U,', ('T', '*const T'), ',', 'fn(V)', ');']
T['bounds_params2'] = ['#[funcmap(params(V))]', "pub enum S<'a, T, const N: usize, ", ('U', 'U: const Tr'), ', V,', ('W: Clone', 'W: const Tr'), "> { A(&'a T, [W; N]), B { x: U, y:", ('V', 'fn(V)'), '} }']


def variants(t):
    """All subsets of the sites of a template: (text lines, faulty line indices)"""
    sites = [i for i, l in enumerate(t) if isinstance(l, tuple) and l[0] != '!']
    for bits in itertools.product((0, 1), repeat=len(sites)):
        on = dict(zip(sites, bits))
        lines, faults = [], []
        for i, l in enumerate(t):
            if isinstance(l, str):
                lines.append(l)
            elif l[0] == '!' or on[i]:
                faults.append(len(lines))
                lines.append(l[1])
            elif l[0] is not None:
                lines.append(l[0])
        if faults:
            yield ''.join(map(str, bits)), lines, faults


def options(thorough):
    """Every sequence of attributes: malformed ones, and those that repeat what was said before"""
    pool = [('T', '#[funcmap(params(T))]'), ('U', '#[funcmap(params(U))]'), ('crate', '#[funcmap(crate = "::funcmap")]'), (None, '#[funcmap]'), (None, '#[funcmap(bogus)]'), (None, '#[funcmap(params())]'), (None, '#[funcmap(params(1))]')]
    for n in range(1, 5 if thorough else 4):
        for seq in itertools.product(pool, repeat=n):
            faults = [i for i, (k, _) in enumerate(seq) if k is None or k in [x for x, _ in seq[:i]]]
            if faults:
                yield [t for _, t in seq] + ['pub struct S<T, U>(pub T, pub U);'], faults


def parameters(thorough):
    """Every sequence of parameters (known, unknown, unsuitable), split up or not, with attributes in the wrong places"""
    pool = ['T', 'U', 'X', "'a", 'N', 'Y', 'V']
    shapes = [("pub struct S<'a, T, const N: usize, U, V>(", [('pub', "&'a [u8; N],"), ('pub', 'T,'), ('', '(U, V)')], ');'),
              ("pub struct S<'a, T, const N: usize, U, V> {", [('pub x:', "&'a [u8; N],"), ('', 'y: T,'), ('', 'z: (U, V)')], '}'),
              ("pub enum S<'a, T, const N: usize, U, V> {", [('', "A(&'a [u8; N]),"), ('', 'B { x: T },'), ('', 'C(U, V)')], '}'),
              ("pub enum S<'a, T, const N: usize, U, V> { A(", [('', "&'a [u8; N],"), ('', '[T; N]), B {'), ('', 'x: (U, V) }')], '}')]
    for n in range(0, 5 if thorough else 4):
        for k, seq in enumerate(itertools.permutations(pool, n)):
            for layout in range(3) if thorough or n < 3 else [k % 3]:
                for si, (head, fs, tail) in enumerate(shapes):
                    for bits in range(8) if n < 3 else [(0, 2, 5)[(k + si) % 3]] if not thorough else range(0, 8, 3):
                        lines, faults = [], []

                        def add(text, bad=False):
                            if bad:
                                faults.append(len(lines))
                            lines.append(text)
                        if layout == 0 and seq:
                            add('#[funcmap(params(')
                            for x in seq:
                                add(x + ',', x not in 'TUV')
                            add('))]')
                        elif layout == 1:
                            for x in seq:
                                add(f'#[funcmap(params({x}))]', x not in 'TUV')
                        elif seq:
                            add('#[funcmap(')
                            for x in seq:
                                add(f'params({x}),', x not in 'TUV')
                            add(')]')
                        add(head)
                        for i, (a, b) in enumerate(fs):
                            if bits >> i & 1:
                                # fields and variants have none of the options, not even correct ones
                                add(['#[funcmap(params(T))]', '#[funcmap]', '#[funcmap(crate = "::funcmap")]'][(i + k) % 3], True)
                            add(f'{a} {b}')
                        add(tail)
                        if faults:
                            yield lines, faults


def fieldtypes(thorough):
    """Every sequence of field types over two parameters under every choice of mapped parameters"""
    pool = [('T', ''), ('Vec<U>', ''), ("&'static T", 'T'), ('Option<fn(U)>', 'U'), ('*const (T, U)', 'TU'), ("(T, &'static U)", 'U'), ('[T::Item; 2]', 'T'), ('u8', '')]
    shapes = [('pub struct S<G>(', 'pub', '', ','), ('pub struct S<G> {', 'pub x@:', '', ','), ('pub enum S<G> {', 'A@(', ')', ','), ('pub enum S<G> { A {', 'x@:', '', ','), ]
    for n in range(1, 5 if thorough else 4):
        for k, seq in enumerate(itertools.product(pool, repeat=n)):
            for si, (head, pre, post, sep) in enumerate(shapes):
                for params in ('TU', 'T', 'U', ''):
                    if not thorough and n == 3 and (k + si) % 4 != len(params + 'x' * ('U' in params)) % 4:
                        continue
                    lines = [f'#[funcmap(params({", ".join(params)}))]'] if params else []
                    lines.append(head.replace('G', "T: 'static + It, U: 'static"))
                    faults = []
                    for i, (ty, bad) in enumerate(seq):
                        if any(b in (params or 'TU') for b in bad):
                            faults.append(len(lines))
                        lines.append(f'{pre.replace("@", str(i))} {ty}{post}{sep}')
                    lines.append({'(': ');', '{': '}'}[head.strip()[-1]] if 'A {' not in head else '}, B(T, U) }')
                    lines.append(TR)
                    if faults:
                        yield lines, faults


def many(thorough):
    """Definitions with many sites of one kind: all faulty, all but one, one at each place, each half"""
    bads = ["&'static T", '*const T', 'fn(T)', 'T::Item', "Vec<*mut T>", '(T, fn() -> T)', '[Box<dyn Tr2<T>>; 2]']
    for n in (5, 9, 13, 21, 40) if thorough else (9, 21):
        sets = [set(range(n)), set(range(n // 2)), set(range(n // 2, n)), set(range(0, n, 2)), set(range(1, n, 3))] + [{i} for i in range(n)] + [set(range(n)) - {i} for i in range(n)]
        for sel in sets:
            b = lambda i: bads[i % len(bads)]
            g = "T: 'static + It"
            mark = lambda pre, lines, post: (pre + lines + post, [len(pre) + i for i in range(n) if i in sel])
            yield mark([f'pub struct S<{g}>('], [f'{b(i) if i in sel else "Vec<T>"},' for i in range(n)], ['T);', TR])
            yield mark([f'pub struct S<{g}> {{'], [f'x{i}: {b(i) if i in sel else "u8"},' for i in range(n)], ['y: T }', TR])
            yield mark([f'pub enum S<{g}> {{'], [f'V{i}({b(i) if i in sel else "(T, T)"}),' for i in range(n)], ['W }', TR])
            if n < 13:
                yield mark([f'pub struct S<{g}>(('], [f'{b(i) if i in sel else "T"},' for i in range(n)], ['));', TR])
            yield mark([], ['#[funcmap(bogus)]' if i in sel else '#[allow(unused)]' for i in range(n)], ['pub struct S<T>(pub T);'])
            yield mark(['#[funcmap(params(T,'], [f'Z{i},' if i in sel else f'U{i},' for i in range(n)], ['))]', f'pub struct S<T, {", ".join(f"U{i}" for i in range(n) if i not in sel)}>(T{"".join(f", U{i}" for i in range(n) if i not in sel)});'])
            yield mark(['#[funcmap(params(T))]'], [f'#[funcmap(params({"T" if i in sel else f"U{i}"}))]' for i in range(n)], ['pub struct S<T, %s>(T%s);' % (', '.join(f'U{i}' for i in range(n)), ''.join(f', U{i}' for i in range(n)))])
            lines = ['pub enum S<T> { W(T),']
            faults = []
            for i in range(n):
                if i in sel:
                    faults.append(len(lines))
                    lines.append(['#[funcmap]', '#[funcmap(params(T))]', '#[funcmap(crate = "::funcmap")]'][i % 3])
                lines.append(f'V{i},')
            yield lines + ['}'], faults


def c14(ck):
    ck.build()
    progs = []
    for fam in (options, parameters, fieldtypes, many):
        for k, (lines, faults) in enumerate(fam(ck.thorough)):
            for tr in ('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap') if ck.thorough else [('FuncMap', 'TryFuncMap')[k % 2]]:
                progs.append((f'{fam.__name__}_{k}_{tr.replace(", ", "")}', tr, lines, faults, fam.__name__))
        ck.log(f'{fam.__name__}: {k + 1} definitions')
    for name, t in T.items():
        for bits, lines, faults in variants(t):
            for tr in ('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap'):
                if ',' in tr and not ck.thorough and bits.count('1') > 2:
                    continue
                progs.append((f'{name}_{bits}_{tr.replace(", ", "")}', tr, lines, faults, name))

    def one(arg):
        i, ps = arg
        lines = PRE.splitlines()
        rng = []
        for key, tr, ls, faults, name in ps:
            a = len(lines) + 1
            lines += [f'pub mod m_{key} {{ use super::*;', f'#[derive({tr})]'] + ls + ['}']
            rng.append((a, len(lines), [a + 2 + f for f in faults]))
        p = ck.write(f'faults_{i}.rs', '\n'.join(lines) + '\n')
        c = ck.rustc(p, fmrt=False)
        if any('closing delimiter' in d.msg or 'unclosed' in d.msg for d in c.errors()):
            raise Broken(show(c.errors()))
        out = []
        # errors raised by the macros carry no error code; the compiler's own ones about the same faults do
        for (key, tr, ls, faults, name), (a, b, want) in zip(ps, rng):
            mine = [d for d in c.errors() if any(a <= l <= b for l in d.lines())]
            macro = [d for d in mine if d.code is None and 'can only be applied' not in d.msg]
            txt = f'#[derive({tr})]\n' + '\n'.join(ls) + '\n\n' + show(mine, 12)
            got = {s[2] for d in macro for s in d.primary()}
            if any('panic' in d.msg for d in mine):
                out.append((f'{key}: the macro panicked', txt))
            missing = [w for w in want if w not in got]
            if missing:
                out.append((f'{key}: not reported: `{lines[missing[0] - 1]}` ({len(missing)} of {len(want)} problems)', txt))
            extra = [g for g in got if g not in want]
            if extra:
                d = [d for d in macro if any(s[2] in extra for s in d.primary())][0]
                out.append((f'{key}: blamed without a problem: `{lines[extra[0] - 1]}`: {d.msg}', txt))
        return out
    for r in pmap(one, enumerate(chunks(progs, max(48, len(progs) // 500)))):
        for what, art in r:
            ck.violation(what, art)
    ck.add(states=len(progs), transitions=sum(len(p[3]) for p in progs), traces=len(progs), samples=['\n'.join(progs[5][2])])
    ck.log(f'{len(T)} templates, {len(progs)} definitions')
    return ck.finish()
