"""C13: supported definitions are accepted, unsupported ones rejected where they occur."""
import itertools, re
import ctlib
from ctlib import Defs
from vlib import Batch, chunks, pmap, show

PRE = '''#![allow(unused, dead_code, bare_trait_objects)]
extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap};
pub trait Tr<X> {} pub trait It { type Item; } pub trait Gat { type G<X>; type H; } pub trait Of<X> { type O; }
impl Gat for u8 { type G<X> = Vec<X>; type H = u8; }
impl<X> Of<X> for u8 { type O = X; }
#[derive(FuncMap, TryFuncMap)] pub struct Wrap<A>(pub A);
#[derive(FuncMap, TryFuncMap)] pub struct Pair<A, B>(pub A, pub B);
#[derive(FuncMap, TryFuncMap)] pub struct Lt<'a, A>(pub &'a u8, pub A);
#[derive(FuncMap, TryFuncMap)] pub struct Arr<A, const N: usize>(pub [A; N]);
pub mod inner { pub struct T; pub type V<X> = Vec<X>; pub use super::{Gat, Of, Tr, Wrap}; }
pub const N3: usize = 3;
'''.rstrip()

# unsupported uses of the parameter T
BAD = [
    "&'static T", "&'static mut T", '*const T', '*mut T', 'Box<[T]>', 'fn(T)', 'fn() -> T', 'fn(u8, &T) -> u8', 'extern "C" fn(T)', 'unsafe fn() -> T', "for<'x> fn(&'x T)",
    'Box<dyn Tr<T>>', 'Box<dyn Fn(T)>', 'Box<dyn Fn() -> T>', 'Box<dyn It<Item = T>>', 'Box<dyn Tr<T> + Send>', 'Box<dyn Tr<Vec<T>>>',
    'T::Item', '<T as It>::Item', '<Vec<T> as Of<u8>>::O', '<u8 as Of<T>>::O', '<(T, u8) as Of<u8>>::O', '<T as Gat>::G<u8>', '<T as Gat>::G<T>', "<[T; 2] as Of<u8>>::O",
    "&'static [T]", "&'static [T; 2]", "&'static Vec<T>", "*const (T, u8)", "*const Wrap<T>", 'fn([T; 2])', 'fn(fn(T))', "&'static dyn Tr<T>", "&'static T::Item", "fn() -> Box<T>",
    '<u8 as self::Of<T>>::O', '<u8 as super::Of<T>>::O', '<u8 as crate::inner::Of<T>>::O', '<u8 as crate::Of<Vec<T>>>::O', '<T as self::It>::Item', '<T as crate::inner::Gat>::G<u8>', '<u8 as self::Of<(u8, T)>>::O', '<T as crate::inner::Gat>::H', 'Box<dyn self::Tr<T>>', 'Box<dyn crate::inner::Tr<T>>', "Box<dyn std::ops::Fn(T)>", "Box<dyn ::core::ops::FnMut(u8) -> T>", "std::boxed::Box<[T]>", "crate::inner::V<&'static T>",
    "<T>::Item", 'Vec<T>::Item', 'Wrap<T>::Assoc<u8>',
]
# those that the language itself rejects wherever they are (the macro must not make it worse); kept out: macros, impl Trait, `T<u8>`
POS = ['{}', '({}, u8)', '(T, {})', '[{}; 2]', '({})', 'Vec<{}>', 'Option<Wrap<{}>>', 'Pair<T, {}>', 'Pair<{}, T>', "Lt<'static, {}>", 'Arr<{}, 3>', '[({}, T); 2]', '({},)', 'Box<(T, [Vec<{}>; 1])>']
BOUNDS = 'T: It + Gat + \'static'

ITEMS = [
    ('tuple', 'pub struct S<{g}>(\n{f}\n);', 1), ('named', 'pub struct S<{g}> {{\npub x:\n{f}\n, pub y: T }}', 1), ('second', 'pub struct S<{g}>(pub Vec<T>,\npub\n{f}\n);', 1),
    ('etuple', 'pub enum S<{g}> {{ A, B(T,\n{f}\n) }}', 1), ('enamed', 'pub enum S<{g}> {{ A(T), B {{ x: T, y:\n{f}\n, z: T }}, C }}', 1), ('first', 'pub enum S<{g}> {{ A(\n{f}\n), B }}', 1),
]
OK_FORMS = [
    'T', '(T)', '((T))', '[T; 0]', '[T; 1]', '[T; N3]', '[T; { N3 + 1 }]', '[[T; 2]; 3]', '(T,)', '((T,),)', '(T, T)', '((), T, ())', 'Vec<T>', 'std::vec::Vec<T>', '::std::vec::Vec<T>', 'self::Wrap<T>', 'crate::Wrap<T>', 'crate::inner::V<T>', 'inner::Wrap<T>',
    'Vec<(T)>', 'Vec<(T,)>', 'Vec<[T; 2]>', 'Option<Option<Option<T>>>', 'Pair<T, T>', 'Pair<u8, T>', 'Pair<Vec<T>, (T, u8)>', "Lt<'static, T>", "Lt<'_, T>", 'Arr<T, 3>', 'Arr<T, N3>', 'Arr<T, { N3 }>', 'Arr<Arr<T, 1>, 2>', '<u8 as Gat>::G<T>',
    'Result<T, T>', 'std::collections::BTreeMap<u8, T>', 'std::marker::PhantomData<T>', 'std::marker::PhantomData<Vec<T>>', "(Vec<T>, [(T,); 2], Pair<[T; 1], (u8, T)>)", 'Vec::<T>', 'Option::<Vec::<T>>', 'std::ops::Range<T>',
    # not uses of the parameter
    'inner::T', 'crate::inner::T', "&'static inner::T", "fn(inner::T)", "&'static u8", '*const u8', 'fn(u8) -> u8', "Box<dyn Tr<u8>>", "Box<dyn Fn(u8) -> inner::T>", '<u8 as Gat>::H', '<u8 as Of<inner::T>>::O', "&'static [u8]", "[u8; 3]", '()', '(u8,)', 'Box<str>', 'u8',
    "for<'x> fn(&'x u8)", "&'static dyn It<Item = u8>", 'Vec<&\'static str>', '(&\'static str, T)', 'Pair<&\'static str, T>', 'Pair<fn(u8), T>', 'Pair<T, Box<dyn Fn(u8)>>', 'Result<T, Box<[u8]>>',
]


# every unsupported type constructor around every shape of type
WRAP = ["&'static {}", "&'static mut {}", '*const {}', '*mut {}', 'Box<[{}]>', 'fn({})', 'fn(u8, {}, u8)', 'fn() -> {}', "for<'x> fn(&'x u8, {})", 'Box<dyn Tr<{}>>', "Box<dyn Fn({}) -> u8 + 'static>", 'Box<dyn It<Item = {}>>', '<u8 as Of<{}>>::O', '<u8 as crate::inner::Of<{}>>::O', '<u8 as self::Of<{}>>::O', 'Box<dyn crate::inner::Tr<{}>>', 'extern "C" fn({})', 'unsafe extern "C" fn(u8) -> {}', "&'static [{}]", 'std::boxed::Box<[{}]>']
INNER = ['(T,)', '(T)', '((T,),)', '(T, T)', '(u8, T)', '(T, u8)', '[T; 1]', '[(T,); 2]', 'Vec<T>', 'Option<(T,)>', 'Wrap<Vec<T>>', 'Pair<T, u8>', 'Pair<u8, T>', "Lt<'static, T>", 'Arr<T, 3>', 'std::vec::Vec<T>', '(Vec<u8>, [T; 2])', "&'static T", "&'static (T,)", '*const T', 'fn(T)', 'Box<dyn Tr<T>>', '<u8 as Of<T>>::O', '(u8, (u8, (u8, T)))', 'crate::Wrap<T>', 'Option::<T>']


def c13(ck):
    ck.build()
    accepted(ck)
    rejected(ck, [(f'{i}_{j}', b, pos) for (i, b), (j, pos) in itertools.product(enumerate(BAD), enumerate(POS))], ITEMS)
    ws = [(f'w{i}_{j}', w.format(x), None) for (i, w), (j, x) in itertools.product(enumerate(WRAP), enumerate(INNER))]
    rejected(ck, [(k, b, POS[n % len(POS)] if not q else q) for n, (k, b, _) in enumerate(ws) for q in (['{}', None] if not ck.thorough else ['{}', '(T, {})', 'Vec<{}>', '[{}; 2]', None])], ITEMS)
    unfit(ck)
    return ck.finish()


def accepted(ck):
    d = Defs(ck, header=PRE, name='accept', shards=16)
    n = 0

    def item(tmpl, f):
        g = "'x, T" if "'_" in f else 'T'
        return tmpl.format(g=g, f=f.replace("'_", "'x"))
    ok = list(OK_FORMS)
    ok += ['(' + ', '.join('T' if i == j else 'u8' if i % 2 else 'T' for i in range(k)) + ')' for k in range(2, 21) for j in (0, k - 1)]
    ok += [f'[T; {k}]' for k in (2, 7, 33, 1000)]
    for f in ok:
        uses = re.search(r'(?<!::)\bT\b', f.replace('inner::T', ''))
        for name, tmpl, _ in ITEMS:
            if not uses and name in ('tuple', 'first'):
                continue
            for tr in ('FuncMap', 'TryFuncMap'):
                n += 1
                d.add(f'a{n}', f'#[derive({tr})] ' + item(tmpl, f) + ("impl<T> S<T> { fn touch() {} }" if "'_" not in f else ''), pre='use super::*;')
    # through macro_rules fragments of every kind that can carry a type or parts of an item
    for i, (args, inv) in enumerate([
        ('$t:ty', '$t'), ('$($t:tt)*', '$($t)*'), ('$p:path', '$p'), ('$a:ident $(<$b:ty>)?', '$a $(<$b>)?'), ('$t:ty', '($t,)'), ('$t:ty', '[$t; 2]'), ('$t:ty', 'Vec<$t>'), ('$t:ty', 'Pair<$t, $t>'),
    ]):
        for f in ['T', 'Vec<T>', 'Option<Wrap<T>>', '(T, u8)', '[T; 2]', 'Pair<T, u8>']:
            if ('path' in args or 'ident' in args) and f[0] in '([':
                continue
            if 'ident' in args and ',' in f:
                continue
            for tr in ('FuncMap', 'TryFuncMap'):
                d.add(f'mac{i}_{len(d.seen)}', f'macro_rules! m {{ ({args}) => {{ #[derive({tr})] pub struct S<T>(pub {inv}); #[derive({tr})] pub enum E<T> {{ A {{ x: {inv} }}, B(T) }} }} }} m!({f});', pre='use super::*;')
    for i, body in enumerate(['($g:ident, $n:literal) => { #[derive(FuncMap, TryFuncMap)] pub struct S<$g>(pub [$g; $n], pub Vec<$g>); }',
                              '($g:ident, $n:literal) => { #[derive(FuncMap, TryFuncMap)] pub struct S<$g, U>(pub [$g; $n], pub Pair<U, $g>) where U: Sized; }',
                              '($g:ident, $n:expr) => { #[derive(FuncMap, TryFuncMap)] pub struct S<$g, U>(pub [$g; $n], pub Pair<U, Arr<$g, { $n }>>) where U: Sized; }']):
        d.add(f'mg{i}', f'macro_rules! m {{ {body} }} m!(Q, 3);', pre='use super::*;')
    for i, body in enumerate(['($b:path) => { #[derive(FuncMap, TryFuncMap)] pub struct S<T: $b>(pub T); }', '($l:lifetime) => { #[derive(FuncMap, TryFuncMap)] pub struct S<$l, T: $l>(pub &$l u8, pub T); }',
                              '($v:vis) => { #[derive(FuncMap, TryFuncMap)] $v struct S<T>($v T); }', '($(#[$m:meta])* $i:ident) => { $(#[$m])* pub enum $i<T> { A(T) } }']):
        arg = ['Sized', "'q", 'pub(crate)', '#[derive(FuncMap)] #[derive(TryFuncMap)] /** d */ Zed'][i]
        d.add(f'mb{i}', f'macro_rules! m {{ {body} }} m!({arg});', pre='use super::*;')
    # item shapes
    for i, s in enumerate(['pub struct S<T>(pub std::marker::PhantomData<T>);', 'pub struct S<T,>(pub T,);', 'pub enum S<T> { A(T), }', 'pub enum S<T> { A {}, B(), C(T) }', 'pub struct S<T> { pub t: T, }',
                           'pub enum S<T> { A = 1, B = 2, #[allow(unused)] C(std::marker::PhantomData<T>) = 5 }'.replace('pub enum', '#[repr(u8)] pub enum'), 'struct S<T>(T);', 'pub(crate) struct S<T>(pub(self) T);', 'pub struct S<T>(T) where;', 'pub struct S<T> where T: { t: T }',
                           'pub struct S<T> { r#type: T }', '#[repr(C)] pub struct S<T>(pub u8, pub T);', '#[repr(transparent)] pub struct S<T>(pub T);', '#[repr(C, align(16))] pub struct S<T>(pub u8, pub T);', 'pub struct S<T = u8>(pub T);', "pub struct S<'a, T: 'a = &'a u8>(pub T, pub &'a u8);",
                           'pub enum S<T> { A(std::convert::Infallible, T), B(T) }', '#[non_exhaustive] pub enum S<T> { #[non_exhaustive] A { t: T }, B }', '#[must_use] pub struct S<T>(pub T);']):
        for tr in ('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap', 'TryFuncMap, FuncMap', 'Clone, FuncMap, Debug, TryFuncMap, PartialEq'):
            d.add(f'shape{i}_{len(d.seen)}', f'#[derive({tr})] {s}', pre='use super::*;')
    # unsupported uses of an unmapped parameter are fine
    for i, f in enumerate(BAD):
        f2 = re.sub(r'\bT\b', 'U', f)
        if f2 in ('Vec<U>::Item', 'Wrap<U>::Assoc<u8>', '<U>::Item'):
            continue
        w = ', U: It + Gat + \'static'
        for tr in ('FuncMap', 'TryFuncMap'):
            ow = 'where Vec<U>: Of<u8>, (U, u8): Of<u8>, [U; 2]: Of<u8>'
            d.add(f'unm{i}_{tr}', f'#[derive({tr})] #[funcmap(params(T))] pub struct S<T{w}>(pub T, pub {f2}, pub (u8, {f2}), pub Vec<(T, {f2})>) {ow};', pre='use super::*;')
    d.judge()
    ck.log(f'accepted: {len(d.seen)} definitions')


def spans_ok(d, lo, hi):
    """The primary spans of an error, in the definition"""
    return [s for s in d.primary() if lo <= s[6] <= hi]


def rejected(ck, cases, items):
    """Each offending type on a line of its own: the error must be there, for each macro alone"""
    progs = []
    for n, (key, bad, pos) in enumerate(cases):
        f = pos.format(bad)
        i, _, j = key.rpartition('_')
        if i[0] == 'w':
            ks = range(len(items)) if ck.thorough or pos == '{}' else [n % len(items)]
        else:
            ks = [k for k in range(len(items)) if ck.thorough or not ((int(i) + int(j) + k) % 3 and int(j) and k)]
        for k in ks:
            name, tmpl, _ = items[k]
            for tr in ('FuncMap', 'TryFuncMap'):
                progs.append((f'{name}_{key}_{n}_{tr}', tr, tmpl.format(g=BOUNDS, f=f), f, bad))
    # the same use in several places of one definition is for C14
    def one(arg):
        i, ps = arg
        lines = PRE.splitlines()
        rng = []
        for key, tr, item, f, bad in ps:
            start = len(lines) + 1
            text = f'pub mod m_{key} {{ use super::*;\n#[derive({tr})]\n{item}\n}}'.splitlines()
            lines += text
            fl = [start + n for n, l in enumerate(text) if l == f]
            assert len(fl) == 1
            rng.append((start, len(lines), fl[0]))
        p = ck.write(f'reject_{ps[0][0]}.rs', '\n'.join(lines) + '\n')
        c = ck.rustc(p, fmrt=False)
        out = []
        for (key, tr, item, f, bad), (a, b, fl) in zip(ps, rng):
            mine = [d for d in c.errors() if any(a <= l <= b for l in d.lines())]
            txt = f'#[derive({tr})]\n{item}\n\n' + show(mine, 4)
            if any('panic' in d.msg for d in mine):
                out.append((f'{key}: the macro panicked', txt))
                continue
            at = [s for d in mine for s in d.primary() if s[2] == fl and s[4] == fl]
            if not at:
                out.append((f'{key}: the unsupported use `{bad}` of the parameter is not rejected at the field type `{f}`' + (f' (instead: {mine[0].msg})' if mine else ''), txt))
                continue
            # some error must be about the offending part itself: inside it, or around it within the field type
            lo = f.index(bad) + 1
            hi = lo + len(bad)
            if not any(s[3] <= lo and s[5] >= hi or s[3] >= lo and s[5] <= hi for s in at):
                out.append((f'{key}: the error is not at `{bad}` within `{f}`', txt))
            away = [d for d in mine if d.code is None and any(s[6] != fl for s in d.primary())]
            if away:
                out.append((f'{key}: something other than the offending type is blamed: {away[0].msg}', txt))
        other = [d for d in c.errors() if not any(a <= l <= b for l in d.lines() for a, b, _ in rng)]
        if other:
            out.append((f'reject_{i}: an error outside of the definitions: {other[0].msg}', show(other)))
        return out
    for r in pmap(one, enumerate(chunks(progs, 32))):
        for what, art in r:
            ck.violation(what, art)
    ck.add(states=len(progs), transitions=len(progs), traces=len(progs), samples=[progs[7][2]])
    ck.log(f'rejected: {len(progs)} definitions')


def unfit(ck):
    """Unions and items without type parameters"""
    ps = []
    for i, item in enumerate([
        'pub union S<T: Copy> { a: T, b: u8 }', 'pub union S<T> { a: std::mem::ManuallyDrop<T>, b: u8 }', 'pub union S<T: Copy, U: Copy> { a: T, b: U }', 'pub union S { a: u8, b: u8 }', "pub union S<'a> { a: &'a u8 }", 'pub union S<const N: usize> { a: [u8; N] }',
        '#[repr(C)] pub union S<T: Copy> { pub a: [T; 2], pub b: (T,) }', '#[funcmap(params(T))] pub union S<T: Copy> { a: T }',
        'pub struct S;', 'pub struct S();', 'pub struct S {}', 'pub struct S(u8);', 'pub struct S { a: u8, b: Vec<u8> }', "pub struct S<'a>(&'a u8);", 'pub struct S<const N: usize>([u8; N]);', "pub struct S<'a, const N: usize>(&'a [u8; N]);", 'pub struct S<>(u8);',
        'pub enum S {}', 'pub enum S { A }', 'pub enum S { A(u8), B { x: u8 } }', "pub enum S<'a> { A(&'a u8) }", 'pub enum S<const B: bool> { A }', "pub struct S<'a, 'b: 'a>(&'a u8, &'b u8);", 'pub struct S<const N: usize, const M: usize>;', 'pub struct S<>;', 'pub enum S<> { A }',
        "pub struct S where u8: Copy;", "pub struct S<const N: usize = 3>;",
    ]):
        for tr in ('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap'):
            # (the compiler prints equal messages of the two macros only once)
            ps.append((f'u{i}_{tr.replace(", ", "")}', f'#[derive({tr})]\n{item}\n', 1))
    b = Batch(ck, 'unfit', header=PRE)
    for k, t, n in ps:
        b.add(k, f'pub mod m_{k} {{ use super::*;\n{t}\n}}')
    tr_alone = lambda k: not k.endswith('FuncMapTryFuncMap')
    c, by, un = b.compile(fmrt=False)
    starts = {}
    text, ranges = b.text(b.progs)
    for a, z, k in ranges:
        starts[k] = (a, z)
    for k, t, n in ps:
        ds = by.get(k, [])
        a, z = starts[k]
        txt = t + '\n' + show(ds, 4)
        here = [d for d in ds if any(s[2] == a + 2 for s in d.primary())]
        if any('panic' in d.msg for d in ds):
            ck.violation(f'{k}: the macro panicked', txt)
        elif not here:
            ck.violation(f'{k}: not rejected at the definition', txt)
        elif tr_alone(k) and not any(d.code is None for d in here):
            ck.violation(f'{k}: the macro itself does not reject it', txt)
    ck.add(states=len(ps), transitions=len(ps), traces=len(ps), samples=[ps[0][1]])
