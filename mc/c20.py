"""C20: derives work identically in every language edition.

The space of derivable definitions, names that are keywords in some edition, edition-specific
syntax, decoys for edition-dependent path resolution, implementation tables and the reported
problems: all in every edition; definitions passed between crates of different editions."""
import itertools, os
import c11, c14, c15, c18, ctlib, gen, progs
from c15 import DER, NProg, VEC, OPT, lf
from ctlib import Defs
from gen import T, U, C, app, arr, tup, fields_build
from vlib import Batch, Broken, Compiled, chunks, env, pmap, run, show

EDITIONS = ['2015', '2018', '2021', '2024']
LATER = {'2018': ['async', 'await', 'dyn', 'try'], '2024': ['gen']}   # keywords since
WEAK = ['union', 'auto', 'raw', 'safe', 'default', 'macro_rules']
ALWAYS = ['abstract', 'become', 'do', 'final', 'macro', 'override', 'priv', 'typeof', 'unsized', 'virtual', 'yield', 'loop', 'type', 'box']
# modules at the root of the crate: in the 2015 edition, paths beginning with `::` are looked up here
ROOT = '''
pub mod rootm { pub type W<Q0> = ::std::vec::Vec<Q0>; pub trait Tr { type A; } impl<Q0> Tr for Q0 { type A = u8; } pub const K: usize = 2; pub mod inner { pub type O<Q0> = ::std::option::Option<Q0>; } }
'''
HDR = '''#![allow(unused, non_local_definitions, bare_trait_objects, keyword_idents_2018, keyword_idents_2024, anonymous_parameters)]
extern crate core; extern crate fmrt; extern crate funcmap; use fmrt::*; use fmrt::prog::*; use funcmap::{FuncMap, TryFuncMap};
''' + gen.LIB.strip() + '\npub mod ctors {}' + ROOT.replace('\n', ' ')
# decoys: none of these may be picked up by the generated code
DECOY = '\npub mod decoys { }\n'


def keyword_programs(ed):
    """Names that are keywords in some edition, raw and plain, in every role"""
    out = []
    names = []
    for since, ns in LATER.items():
        for n in ns:
            names.append('r#' + n)
            # documented caveat: in the definition, keywords since 2018 must be raw in the 2015 edition
            if since == '2024' and ed < '2024':
                names.append(n)
    names += WEAK + ['r#' + n for n in WEAK[:5] + ALWAYS]
    for n in names:
        for role, kw in c15.roles(n, 'X', 'Y'):
            if not c15.legal(n, role) or (role == 'stdtype' and n == 'macro_rules'):
                continue
            if ed == '2015' and role in ('mod', 'scope_module', 'macroconst') and False:
                continue
            key = f'kw_{role}_{n.replace("#", "_")}'
            out.append(NProg(key, **kw))
    # lifetimes
    for n in [x for since, ns in LATER.items() if ed < since for x in ns]:
        out.append(NProg(f'kwlt_{n}', '', f"pub struct S0<'{n}, T>(pub T, pub &'{n} u8) where T: '{n};", 'S0', 'T', f'S({lf(0)}, &3)', args="'static, {T}"))
    # raw in the definition, plain at the use, and the other way round
    if ed == '2015':
        for n in LATER['2018']:
            out.append(NProg(f'mixuse_{n}', '', f'pub struct S0<X> {{ pub r#{n}: X, pub zz: X }} impl<X> S0<X> {{ pub fn g(self) -> X {{ self.{n} }} }}', 'S0', 'T', f'S {{ {n}: {lf(0)}, zz: {lf(1)} }}'))
            out.append(NProg(f'mixvar_{n}', '', f'pub enum S0<X> {{ r#{n}(X), B {{ r#{n}: X }} }}', 'S0', 'T', f'if cx.choose(2) == 0 {{ S::{n}({lf(0)}) }} else {{ S::B {{ {n}: {lf(0)} }} }}'))
            out.append(NProg(f'mixty_{n}', f'pub type {n}<Q0> = {VEC}<Q0>; pub mod m {{ pub trait {n} {{}} impl<Q0> r#{n} for Q0 {{}} }}', f'pub struct S0<X: self::m::r#{n}>(pub r#{n}<X>);', 'S0', 'T', f'S(::std::vec![{lf(0)}])'))
    return out


def specials(ed):
    """Syntax and name resolution that differ between editions"""
    out = []

    def P(key, env_, definition, params, value, **kw):
        out.append(NProg('sp_' + key, env_, definition, 'S0', params, value, **kw))
    own = ed >= '2018'
    root = 'crate::' if own else '::'
    P('rootpath', '', f'pub struct S0<X: {root}rootm::Tr>(pub {root}rootm::W<X>, pub X, pub [X; {root}rootm::K], pub {root}rootm::inner::O<X>) where X: {root}rootm::Tr<A = u8>;', 'T', 'S(' + ', '.join(fields_build([app('Vec', T), T, arr(2, T), app('Option', T)], None)) + ')')
    P('cratepath', '', 'pub struct S0<X: crate::rootm::Tr>(pub crate::rootm::W<X>, pub X, pub [X; crate::rootm::K]);', 'T', 'S(' + ', '.join(fields_build([app('Vec', T), T, arr(2, T)], None)) + ')')
    P('stdpath', '', 'pub struct S0<X>(pub ::std::vec::Vec<X>, pub ::core::option::Option<X>);', 'T', 'S(' + ', '.join(fields_build([app('Vec', T), app('Option', T)], None)) + ')')
    P('superpath', 'pub mod m { pub type W<Q0> = ::std::vec::Vec<Q0>; }', 'pub struct S0<X>(pub self::m::W<X>, pub super::d::m::W<X>);', 'T', 'S(' + ', '.join(fields_build([app('Vec', T), app('Vec', T)], None)) + ')')
    if own:
        P('extern', '', 'pub struct S0<X>(pub std::vec::Vec<X>, pub core::option::Option<X>, pub funcmap::TypeParam2<X>);'.replace(', pub funcmap::TypeParam2<X>', ''), 'T', 'S(' + ', '.join(fields_build([app('Vec', T), app('Option', T)], None)) + ')')
    box = '::std::boxed::Box'
    if ed in ('2015', '2018'):
        for k, (t, e) in enumerate([('Tro', 'X0'), ('Tro + Send', 'X0'), ('::std::ops::Fn(u8) -> u8', '|x| x'), ('for<\'x> ::std::ops::Fn(&\'x u8) -> u8', '|x| *x'), ('(Tro) + Send', 'X0'), ("Tro + 'static", 'X0')]):
            e = 'd::X0' if e == 'X0' else e
            P(f'bare{k}', 'pub trait Tro {} pub struct X0; impl Tro for X0 {}', f'pub struct S0<X>(pub X, pub {box}<{t}>); impl<X: ::core::fmt::Debug> ::core::fmt::Debug for S0<X> {{ fn fmt(&self, f0: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {{ f0.debug_tuple("S0").field(&self.0).finish() }} }}', 'T',
              f'S({lf(0)}, ::std::boxed::Box::new({e}))', derive=c15.DER_NODEBUG)
        P('barelast', 'pub trait Tro {} pub struct X0; impl Tro for X0 {}', f'pub enum S0<X> {{ A(X, &\'static (Tro + Sync)), B }} impl<X: ::core::fmt::Debug> ::core::fmt::Debug for S0<X> {{ fn fmt(&self, f0: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {{ match *self {{ S0::A(ref x, _) => f0.debug_tuple("A").field(x).finish(), S0::B => f0.debug_tuple("B").finish() }} }} }}', 'T',
          f'if cx.choose(2) == 0 {{ S::A({lf(0)}, &d::X0) }} else {{ S::B }}', derive=c15.DER_NODEBUG)
    for k, (t, e) in enumerate([('dyn Tro', 'd::X0'), ('dyn Tro + Send', 'd::X0'), ('dyn for<\'x> ::std::ops::Fn(&\'x u8) -> u8', '|x| *x')]):
        P(f'dyn{k}', 'pub trait Tro {} pub struct X0; impl Tro for X0 {}', f'pub struct S0<X>(pub X, pub {box}<{t}>); impl<X: ::core::fmt::Debug> ::core::fmt::Debug for S0<X> {{ fn fmt(&self, f0: &mut ::core::fmt::Formatter) -> ::core::fmt::Result {{ f0.debug_tuple("S0").field(&self.0).finish() }} }}', 'T',
          f'S({lf(0)}, ::std::boxed::Box::new({e}))', derive=c15.DER_NODEBUG)
    # the items of the newer preludes
    P('preludes', 'pub trait TryFrom {} pub trait TryInto {} pub trait FromIterator {} pub trait Future {} pub trait IntoFuture {} impl<Q0> TryFrom for Q0 {} impl<Q0> TryInto for Q0 {} impl<Q0> FromIterator for Q0 {} impl<Q0> Future for Q0 {} impl<Q0> IntoFuture for Q0 {}',
      'pub struct S0<X: TryFrom + TryInto>(pub X, pub [X; 2]) where X: FromIterator + Future + IntoFuture;', 'T', 'S(' + ', '.join(fields_build([T, arr(2, T)], None)) + ')')
    P('precise', '', "pub struct S0<'a, X>(pub X, pub &'a str, pub ::std::marker::PhantomData<&'a ()>);", 'T', f"S({lf(0)}, \"s\", ::std::marker::PhantomData)", args="'static, {T}")
    P('attrs', '', '#[allow(dead_code)] #[cfg_attr(all(), allow(unused))] pub struct S0<X> { #[cfg(all())] pub a: X, #[cfg(any())] pub b: Nope<X>, #[cfg_attr(any(), funcmap)] pub c: [X; 1] }', 'T', f'S {{ a: {lf(0)}, c: ' + '{ cx.set(p, 1); ' + gen.build(arr(1, T)) + ' } }')
    P('discr', '', '#[repr(u8)] pub enum S0<X> { A(X) = 1, B { r#try: X } = 4, C = 7 }', 'T', f'match cx.choose(3) {{ 0 => S::A({lf(0)}), 1 => S::B {{ r#try: {lf(0)} }}, _ => S::C }}')
    P('orpat', '', 'pub enum S0<X> { r#async(X), r#await { r#dyn: X }, r#try }', 'T', f'match cx.choose(3) {{ 0 => S::r#async({lf(0)}), 1 => S::r#await {{ r#dyn: {lf(0)} }}, _ => S::r#try }}')
    return out


def decoys(ck, ed):
    """Modules at the root of the crate with the names of the crates the generated code refers to"""
    b = Batch(ck, f'decoy_{ed}', edition=ed)
    q = ''
    for i, d in enumerate(c18.good()[::7]):
        if 'Pair' in d or 'Alpha' in d or 'Rel' in d or 'HasItem' in d or 'std' in d:
            continue
        q += f'pub mod m{i} {{ #[derive(::fm::FuncMap, ::fm::TryFuncMap)] {d} }}\n' if False else ''
    defs = ['pub struct S<T, U>(pub T, pub Vec<U>, pub [T; 2], pub (U, T));', 'pub enum S<T, U> { A(Vec<T>, Option<U>), B { x: Box<T>, y: Result<T, U> }, C }', "pub struct S<'a, T: Clone, U: ?Sized>(pub T, pub &'a U) where Vec<T>: Clone;"]
    fails = []
    n = 0
    for which in itertools.product((0, 1), repeat=3):
        text = '#![allow(unused)]\n'
        items = ''
        for w, name in zip(which, ('core', 'std', 'funcmap')):
            if w and not (name == 'std' and ed != '2015' and False):
                items += f'pub mod {name} {{ pub mod marker {{ pub struct Sized; pub trait Copy {{}} }} pub mod ops {{ pub trait FnMut {{}} pub trait Drop {{}} pub trait Fn {{}} }} pub mod result {{ pub enum Result {{ Ok }} }} pub struct FuncMap; pub struct TryFuncMap; pub struct TypeParam; }}\n'
        # in the 2015 edition `std` is always a name at the root
        if ed == '2015' and which[1]:
            continue
        if not which[2] and ed == '2015':
            text += 'extern crate funcmap;\n'
        elif ed == '2015':
            text += 'extern crate funcmap as fm0;\n'
        text += items
        path = '::fm0' if ed == '2015' and which[2] else '::funcmap'
        # at the root and within a module
        for j, d in enumerate(defs):
            opt = ' #[funcmap(params(T))]' if '?Sized' in d else ''
            text += f'#[derive({path}::FuncMap, {path}::TryFuncMap)]{opt} {d.replace(" S<", f" R{j}<")}\npub mod m{j} {{ #[derive({path}::FuncMap, {path}::TryFuncMap)]{opt} {d} }}\n'
            for s in (f'R{j}', f'm{j}::S'):
                if j < 2:
                    text += f'pub fn u{n}<A, B, C>(s: {s}<A, C>, f: fn(A) -> B) -> {s}<B, C> {{ {path}::FuncMap::<A, B, {path}::TypeParam<0>>::func_map(s, f) }} pub fn v{n}<A, B, C>(s: {s}<C, A>, f: fn(A) -> Result<B, ()>) -> Result<{s}<C, B>, ()> {{ {path}::TryFuncMap::<A, B, {path}::TypeParam<1>>::try_func_map(s, f) }}\n'
                n += 1
        f = ck.write(f'decoy_{ed}_{"".join(map(str, which))}.rs', text)
        c = ck.rustc(f, edition=ed, fmrt=False)
        if not c.ok:
            e = c.errors()
            fails.append((f'edition {ed}: with modules {[x for w, x in zip(which, ("core", "std", "funcmap")) if w]} at the root of the crate: {e[0].msg if e else c.err[:300]}', text + '\n' + show(e)))
    return n, fails


def tables(ck, ed):
    """Markers and result types (C11), in another edition"""
    hdr = ctlib.IS.replace('core::marker', '::std::marker').replace('funcmap::FuncM', '::funcmap::FuncM').replace('funcmap::TryF', '::funcmap::TryF').replace('use ::funcmap', 'use funcmap').replace('use funcmap::{FuncMap, TryFuncMap, TypeParam};', 'use funcmap::{FuncMap, TryFuncMap, TypeParam};')
    d = Defs(ck, header=hdr + '\n' + c11.HDR_TYPES, name=f'markers', edition=ed)
    n = 0
    for ln in (1, 2, 3):
        for seq in itertools.product('TC', repeat=ln):
            if 'T' not in seq:
                continue
            for lts in (0, 1):
                for kind in ('tuple', 'named', 'enum'):
                    n += 1
                    consts = [c11.CONSTS[(n + i) % len(c11.CONSTS)] for i in range(ln)]
                    d.add(f'{kind}_{"".join(seq)}_{lts}', c11.definition(kind, seq, lts, consts) + '\n' + c11.generic_fns(seq, lts, consts), c11.checks(seq, lts, consts))
    d.judge()


def problems(ck):
    """The same problems are reported at the same places in every edition"""
    ds = c18.faulty()
    # '2015!': without `core` as a name at the root of the crate
    jobs = [(i, ed, ch) for i, ch in enumerate(chunks([(f'f{n}', d) for n, d in enumerate(ds)], max(1, len(ds) // 40))) for ed in EDITIONS + ['2015!']]

    def one(j):
        i, ed, ch = j
        text, rng = c18.source(ch)
        if ed == '2015':
            text = text.replace('extern crate funcmap;', 'extern crate funcmap; extern crate core;')
        p = ck.write(f'prob_{i}_{ed.replace("!", "x")}.rs', text)
        c = ck.rustc(p, edition=ed[:4], fmrt=False)
        if any('panic' in d.msg for d in c.errors()):
            return i, ed, ch, None, show([d for d in c.errors() if 'panic' in d.msg])
        r = {k: [] for k, _ in ch}
        for d in c.errors():
            if ed == '2015!' and d.code == 'E0433' and d.msg.endswith('missing crate `core`') or d.code is None and 'can only be applied' not in d.msg:
                for k, (a, b) in rng.items():
                    if any(a <= l <= b for l in d.lines()):
                        r[k].append((d.msg, tuple(sorted((s[2] - a, s[3]) for s in d.primary()))))
        return i, ed, ch, r, ''
    base, n = {}, 0
    res = pmap(one, jobs)
    for i, ed, ch, r, txt in sorted(res, key=lambda x: EDITIONS.index(x[1]) if x[1] in EDITIONS else 9):
        if r is None:
            ck.violation(f'the macro panicked in edition {ed}', txt)
            continue
        for k, d in ch:
            n += 1
            b = base.setdefault(k, (ed, r[k]))
            if b[1] == r[k]:
                continue
            # known: syn refers to `::core::compile_error!` with the edition of the user's code; the places are right
            if ed == '2015!' and {x[1] for x in r[k]} == {x[1] for x in b[1]} and all('missing crate `core`' in x[0] for x in r[k]) and ck.finding('edition-2015-messages', d):
                continue
            ck.violation(f'the problems reported in edition {ed} differ from edition {b[0]}', f'{d}\n\n{b[1]}\n\n{r[k]}')
    ck.add(states=len(ds), transitions=n, traces=n)
    ck.log(f'{n} faulty definitions compared')


def between(ck):
    """Definitions made by macros of a crate of one edition for a crate of another one; derived types of one used in another"""
    jobs = list(itertools.product(EDITIONS, repeat=2))
    mac = r'''
#![allow(unused, bare_trait_objects)]
#[cfg_attr(all(), macro_use)] extern crate funcmap;
pub extern crate funcmap as fm;
#[macro_export] macro_rules! make_struct { ($n:ident, $t:ident, $ty:ty) => { #[derive(Debug, Clone, PartialEq, $crate::fm::FuncMap, $crate::fm::TryFuncMap)] #[funcmap(crate = "::funcmap")] pub struct $n<$t> { pub r#async: $t, pub r#dyn: $ty, pub r#try: [$t; 2], pub gen_: Option<$ty> } } }
#[macro_export] macro_rules! make_enum { ($n:ident < $($p:ident),* > { $($v:ident ( $($f:ty),* )),* }) => { #[derive(Debug, Clone, PartialEq, $crate::fm::FuncMap, $crate::fm::TryFuncMap)] pub enum $n<$($p),*> { $($v($($f),*)),* , r#await } } }
#[macro_export] macro_rules! pass { ($($t:tt)*) => { $($t)* } }
#[macro_export] macro_rules! whole { ($i:item) => { #[derive(Debug, Clone, PartialEq, $crate::fm::FuncMap, $crate::fm::TryFuncMap)] $i } }
#[derive(Debug, Clone, PartialEq, fm::FuncMap, fm::TryFuncMap)] pub struct Lib<T, U> { pub r#async: T, pub r#try: Vec<U>, pub r#gen: (T, U) }
#[derive(Debug, Clone, PartialEq, fm::FuncMap, fm::TryFuncMap)] pub enum LibE<T> { r#dyn(T), r#await { r#async: T } }
'''
    mac15 = mac.replace('#[derive(Debug, Clone, PartialEq, fm::', '#[derive(Debug, Clone, PartialEq, ::fm::').replace(', fm::TryFuncMap)] pub', ', ::fm::TryFuncMap)] pub')
    libs = {}

    def mk(ed):
        f = ck.write(f'edlib{ed}.rs', mac15 if ed == '2015' else mac)
        out = os.path.join(ck.work, f'libedlib{ed}.rlib')
        cmd = ['rustc', '--edition', ed, '--cap-lints=forbid', '-L', 'dependency=' + os.path.join(ck.target, 'debug', 'deps'), '--extern', 'funcmap=' + ck.rlibs['funcmap'], '--crate-type', 'rlib', '--crate-name', f'edlib', '-o', out, f]
        rc, o, e = run(cmd)
        return ed, rc, out, e
    n = 0
    for ed, rc, out, e in pmap(mk, EDITIONS):
        if rc:
            ck.violation(f'a library of edition {ed} that derives the traits is rejected: {e.splitlines()[0] if e else ""}', mac + '\n' + e[:3000])
        else:
            libs[ed] = out
    use = r'''
#![allow(unused, bare_trait_objects)]
#[macro_use] extern crate edlib; extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap, TypeParam};
make_struct!(M1, T, Vec<T>);
make_struct!(M2, r#dyn, (r#dyn, u8));
make_enum!(M3<T, U> { A(T, Vec<U>), r#async(U, [T; 1]), C(edlib::Lib<T, U>) });
pass! { #[derive(Debug, Clone, PartialEq, FuncMap, TryFuncMap)] pub struct M4<T> { pub r#async: T, pub b: Option<edlib::LibE<T>> } }
whole! { pub struct M5<T, U>(pub T, pub edlib::LibE<U>, pub Vec<(U, T)>); }
#[derive(Debug, Clone, PartialEq, FuncMap, TryFuncMap)] pub struct Own<T>(pub edlib::Lib<T, u8>, pub edlib::Lib<u8, T>, pub edlib::LibE<T>);
fn f(x: u8) -> u16 { x as u16 * 2 }
fn t(x: u8) -> Result<u16, u8> { if x < 9 { Ok(f(x)) } else { Err(x) } }
macro_rules! chk { ($e:expr, $w:expr) => { let (a, b) = ($e, $w); if a != b { println!("BAD {:?} {:?}", a, b); } println!("CASE"); } }
fn main() {
    let m1 = || M1 { r#async: 1u8, r#dyn: vec![2u8, 3], r#try: [4, 5], gen_: Some(vec![6]) };
    chk!(m1().func_map(f), M1 { r#async: 2u16, r#dyn: vec![4, 6], r#try: [8, 10], gen_: Some(vec![12]) });
    chk!(m1().try_func_map(t), Ok(M1 { r#async: 2u16, r#dyn: vec![4, 6], r#try: [8, 10], gen_: Some(vec![12]) }));
    let mut m = m1(); m.r#dyn[1] = 9; m.r#try[0] = 10; chk!(m.try_func_map(t), Err(9));
    chk!((M2 { r#async: 1u8, r#dyn: (2, 7u8), r#try: [3, 4], gen_: None }).func_map(f), M2 { r#async: 2u16, r#dyn: (4, 7), r#try: [6, 8], gen_: None });
    chk!(M3::A::<u8, i8>(1, vec![-1, -2]).func_map_over::<TypeParam<1>, _>(|x: i8| -x as u16), M3::A(1, vec![1u16, 2]));
    chk!(M3::r#async::<u8, i8>(-1, [3]).func_map_over::<TypeParam<0>, _>(f), M3::r#async(-1, [6u16]));
    chk!(M3::C::<u8, i8>(edlib::Lib { r#async: 1, r#try: vec![-3], r#gen: (2, -2) }).try_func_map_over::<TypeParam<0>, _, _>(t), Ok(M3::C(edlib::Lib { r#async: 2u16, r#try: vec![-3i8], r#gen: (4, -2) })));
    chk!(M3::r#await::<u8, i8>.func_map_over::<TypeParam<0>, _>(f), M3::r#await::<u16, i8>);
    chk!((M4 { r#async: 1u8, b: Some(edlib::LibE::r#dyn(2)) }).func_map(f), M4 { r#async: 2u16, b: Some(edlib::LibE::r#dyn(4)) });
    chk!((M4 { r#async: 1u8, b: Some(edlib::LibE::r#await { r#async: 9 }) }).try_func_map(t), Err(9));
    chk!(M5::<u8, i8>(1, edlib::LibE::r#await { r#async: -1 }, vec![(-2, 2)]).func_map_over::<TypeParam<0>, _>(f), M5(2u16, edlib::LibE::r#await { r#async: -1i8 }, vec![(-2, 4)]));
    chk!(M5::<u8, i8>(1, edlib::LibE::r#dyn(-1), vec![(-2, 2)]).func_map_over::<TypeParam<1>, _>(|x: i8| -x as u16), M5(1u8, edlib::LibE::r#dyn(1u16), vec![(2, 2)]));
    let own = || Own(edlib::Lib { r#async: 1u8, r#try: vec![2], r#gen: (3, 4) }, edlib::Lib { r#async: 5u8, r#try: vec![6u8], r#gen: (7, 8) }, edlib::LibE::r#dyn(8));
    chk!(own().func_map(f), Own(edlib::Lib { r#async: 2u16, r#try: vec![2], r#gen: (6, 4) }, edlib::Lib { r#async: 5, r#try: vec![12u16], r#gen: (7, 16) }, edlib::LibE::r#dyn(16)));
    chk!(own().try_func_map(t), Ok(own().func_map(f)));
    println!("END");
}
'''

    def two(j):
        a, b = j
        if a not in libs:
            return a, b, 0, '', '', ''
        # the crate name is the same for all editions: each in a directory of its own
        d = os.path.join(ck.work, f'b{a}{b}')
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, 'u.rs')
        text = use.replace('edlib::', '::edlib::').replace('extern crate ::', 'extern crate ') if b == '2015' else use
        open(f, 'w').write(text)
        exe = os.path.join(d, 'u')
        cmd = ['rustc', '--edition', b, '--cap-lints=forbid', '-L', 'dependency=' + os.path.join(ck.target, 'debug', 'deps'), '--extern', 'funcmap=' + ck.rlibs['funcmap'], '--extern', 'edlib=' + libs[a], '-C', 'debuginfo=0', '-o', exe, f]
        rc, o, e = run(cmd)
        if rc:
            return a, b, rc, e, '', text
        rc, o, e2 = run([exe])
        return a, b, rc, e2, o, text
    for a, b, rc, e, o, text in pmap(two, jobs):
        n += o.count('CASE')
        if a in libs and (rc or 'BAD' in o or 'END' not in o):
            ck.violation(f'a crate of edition {b} using macros and types of a crate of edition {a}: {"rejected" if not o else "wrong result"}', text + '\n' + e[:3000] + o)
    ck.add(states=len(jobs), transitions=n, traces=n)
    ck.log(f'{len(jobs)} pairs of editions, {n} results')


def c20(ck):
    ck.build()
    tot = 0
    ex = {}
    sp = gen.space(True)[::2] if ck.thorough else gen.space(False)
    small = gen.shapes(False)[::2] + gen.param_orders() + gen.specials()
    extra = gen.space(False) if ck.thorough else small
    for ed in EDITIONS:
        for mode, ps in (('c09', sp), ('c10', extra), ('c04', small)):
            t = progs.explore(ck, mode, ps, edition=ed, tier='quick')
            tot += t['executions']
            # the same executions, with the same outcomes, in every edition
            sig = (t['executions'], t['nodes'], t['states'], t['outcomes'])
            if ex.setdefault(mode, (ed, sig))[1] != sig:
                ck.violation(f'the explored behaviours ({mode}) in edition {ed} differ from edition {ex[mode][0]}', f'{ex[mode]}\n{sig}')
        ps = keyword_programs(ed) + specials(ed)
        # known: syn does not parse a bare trait object with a function-like argument list as a generic argument
        known = {k: ('bare-fn-trait-object', (None,)) for k in ('sp_bare2', 'sp_bare3')}
        progs.explore(ck, 'c09', ps, edition=ed, header=HDR, label='kw', known=known)
        progs.explore(ck, 'c10', specials(ed), edition=ed, header=HDR, label='kw', known=known)
        ck.log(f"edition {ed}: {tot} executions, {len(ps)} definitions with special names and syntax")
        if ed != '2021':
            tables(ck, ed)
    for n, fails in pmap(lambda ed: decoys(ck, ed), EDITIONS):
        ck.add(states=n, transitions=n, traces=n)
        for f in fails:
            ck.violation(*f)
    problems(ck)
    between(ck)
    return ck.finish(exhaustive=not getattr(ck, 'capped', False), editions=len(EDITIONS))
