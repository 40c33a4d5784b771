"""C21: deriving raises no lints of its own.

Differential over the enumerated definitions with every lint of the compiler set to warn: the same text is
compiled without and with the derives (`--cfg with`); every lint reported with them must be reported without
them, at the same place. A second pair has the lints that fire on the definition allowed on the definition."""
import itertools, json, os, re
import gen
from c13 import OK_FORMS
from vlib import VERIF, Batch, Broken, Compiled, Diag, chunks, env, pmap, run, show

EDITIONS = ['2015', '2018', '2021', '2024']
# not about code of the definitions, or about the crate as a whole
IDENTS = ['non_ascii_idents', 'uncommon_codepoints', 'confusable_idents', 'mixed_script_confusables']   # about the identifiers of the whole crate: once per crate
SKIP = {*IDENTS, 'warnings', 'unstable_features', 'unused_crate_dependencies', 'linker_messages', 'unknown_lints', 'unused_features', 'large_assignments'}

HDR = r'''#![allow(unused_imports)]
extern crate funcmap; extern crate core;
#[allow(warnings, unreachable_pub, missing_docs, missing_debug_implementations, missing_copy_implementations, single_use_lifetimes, unused_lifetimes, unnameable_types, elided_lifetimes_in_paths, variant_size_differences, unused_qualifications, unused_results, macro_use_extern_crate, non_ascii_idents, unused_macro_rules, meta_variable_misuse)]
pub mod pre {
    use funcmap::{FuncMap, TryFuncMap};
    #[deprecated] #[derive(FuncMap, TryFuncMap, Debug)] pub struct Dep<A>(pub A);
    #[deprecated(since = "1.0.0", note = "old")] #[derive(FuncMap, TryFuncMap, Debug)] pub enum DepE<A> { A(A) }
    #[derive(Debug)] pub struct Plain;
    #[deprecated] #[derive(Debug)] pub struct DepPlain;
    #[deprecated] pub trait DepTr {}
    #[deprecated] pub type DepAlias<A> = Vec<A>;
    #[deprecated] pub const DEPN: usize = 2;
    pub struct HasDep; impl HasDep { #[deprecated] pub const N: usize = 2; }
    pub trait Assoc { #[deprecated] type Old; type New; }
    impl Assoc for u8 { type Old = u8; type New = u8; }
    pub trait Tr {} impl Tr for u8 {} pub trait Gen<X> {}
    pub trait Lt<'a> {}
    #[must_use] #[derive(FuncMap, TryFuncMap, Debug)] pub struct Must<A>(pub A);
    #[derive(FuncMap, TryFuncMap, Debug)] pub struct Pair<A, B>(pub A, pub B);
    #[derive(FuncMap, TryFuncMap, Debug)] pub struct Ref<'a, A>(pub &'a u8, pub A);
    #[derive(FuncMap, TryFuncMap, Debug)] pub struct Arr<A, const N: usize>(pub [A; N]);
    #[derive(FuncMap, TryFuncMap, Debug)] pub enum Never<A> { No(core::convert::Infallible, A) }
    #[derive(Debug)] pub enum Void {}
    pub const N2: usize = 2;
    pub mod inner { pub use super::Must; pub type V<X> = Vec<X>; }
    #[allow(non_camel_case_types)] #[derive(FuncMap, TryFuncMap, Debug)] pub struct lower<A>(pub A);
}
'''.rstrip()
# the space of generated definitions uses these types
SPACE = "#[allow(warnings, missing_docs, unreachable_pub, unnameable_types, single_use_lifetimes, missing_copy_implementations)] pub mod lib { use funcmap::{FuncMap, TryFuncMap};\n" + gen.LIB.strip() + '\n}'
D = '#[cfg_attr(with, derive(::funcmap::FuncMap, ::funcmap::TryFuncMap))]'
D15 = '#[cfg_attr(with, derive(FuncMap, TryFuncMap))]'


def lints(cmd='rustc', e=None):
    """The lints and the lint groups of the compiler"""
    rc, o, _ = run([cmd, '-W', 'help'], env=e)
    out, groups, on = [], [], False
    for l in o.splitlines():
        m = re.match(r'\s*([a-z0-9:-]+)\s+(allow|warn|deny|forbid)\s', l)
        if m and not l.strip().startswith('-'):
            out.append(m.group(1).replace('-', '_'))
        on = on or l.startswith('Lint groups')
        m = re.match(r'\s*([a-z0-9:-]+)\s\s+\S', l)
        if on and m and not m.group(1).startswith('-') and m.group(1) != 'name':
            groups.append(m.group(1).replace('-', '_'))
    if len(out) < 150 or len(groups) < 10:
        raise Broken('cannot read the list of lints')
    return [l for l in out if l not in SKIP], groups


def definitions():
    """(key, text with @D@ where the derive goes); the item starts at a line of its own"""
    out = []
    for p in gen.space(False):
        if p.pre.strip() or p.post.strip() or 'Item' in p.definition or 'macro' in p.definition:
            continue
        out.append((p.key, '@D@ ' + p.definition))
    for i, f in enumerate(OK_FORMS):
        if re.search(r'Gat|Of<|\bIt\b|dyn Tr|Wrap|Lt<|inner::T|Arr<|N3|crate::', f):
            continue
        out.append((f'form{i}', f'@D@ pub struct S<T>(pub {f}, pub T);'))
        out.append((f'forme{i}', f'@D@ pub enum S<T> {{ A(T), B {{ x: {f} }}, C }}'))
    return out


def specials(ed):
    S = []

    def add(k, *texts):
        for i, t in enumerate(texts):
            S.append((f'{k}{i}' if len(texts) > 1 else k, t if '@D@' in t else '@D@ ' + t))
    forms = ['pub struct S<T>(pub {0}, pub T);', 'pub struct S<T> {{ pub a: T, pub b: {0} }}', 'pub enum S<T> {{ A({0}), B(T) }}', 'pub enum S<T> {{ A(T), B {{ x: {0}, y: T }}, C }}', 'pub struct S<T>(pub Vec<T>, pub Option<{0}>);', 'struct S<T>({0}, T);']
    # types of fields, with and without the parameter
    d = 'dyn ' if ed != '2015' else ''
    tys = ['Dep<T>', 'DepE<T>', 'Dep<Dep<T>>', 'Vec<Dep<T>>', 'DepPlain', '(DepPlain, T)', 'DepAlias<T>', '[T; DEPN]', '[T; HasDep::N]', 'Arr<T, DEPN>', 'Arr<T, { DEPN + 1 }>', '[T; { N2 }]', 'Arr<T, { N2 }>', 'Arr<T, { 2 }>', 'Arr<T, {{ 2 }}>', '[T; (2)]', '[T; (N2)]', '[T; ((2))]', '[T; N2 as usize]', '[T; 2usize as usize]',
           '[T; { let x = 2; x }]', '[T; { const M: usize = 2; M }]', '[T; { let mut x = 2; x }]', '[T; { let unused = 3; 2 }]', '[T; loop { break 2 }]', '[T; unsafe { 2 }]', '[T; { unsafe { 2 } }]', '[T; { 2; 3 }]', '[T; { return_two() }]'.replace('return_two()', 'N2'),
           '<u8 as Assoc>::Old', '<u8 as Assoc>::New', '(T)', '((T))', '(Vec<(T)>)', 'Vec<(T)>', '((T), (u8))', '[(T); 2]', 'Must<T>', 'Must<Must<T>>', 'inner::Must<T>', 'inner::V<T>', 'super::pre::Must<T>', 'super::pre::inner::V<T>', 'lower<T>', 'lower<lower<T>>',
           'Never<T>', 'Void', '(Void, T)', 'Option<Void>', 'Result<T, Void>', 'core::convert::Infallible', '(core::convert::Infallible, T)', '[Void; 2]', 'Pair<Void, T>', 'Pair<T, Void>', 'Result<T, core::convert::Infallible>', 'Option<(T, Void)>', '[T; 0]', '[Void; 0]', "&'static Void",
           '*const u8', '*mut u8', 'fn()', 'fn(u8) -> u8', 'unsafe fn()', 'extern "C" fn()', "&'static mut u8", "&'static str", 'extern fn()', "fn(&'static u8)", "for<'a> fn(&'a u8)", "for<'a> fn(u8)", 'fn(x: u8)', 'fn(X: u8)',
           'Box<' + d + 'Tr>', 'Box<' + d + 'Tr + Send>', 'Box<(' + d + 'Tr)>', 'Box<' + d + 'DepTr>', 'Box<' + d + 'Drop>', 'Box<' + d + 'Fn(u8) -> u8>' if ed != '2015' else 'u8', 'Box<' + d + "Lt<'static>>", "Box<" + d + "for<'a> Lt<'a>>", "&'static (" + d + "Tr + Send)", "Box<" + d + "Gen<u8> + 'static>",
           'std::option::Option<T>', '::std::option::Option<T>', 'core::option::Option<T>', '::core::result::Result<T, u8>', 'std::vec::Vec<std::vec::Vec<T>>', 'std::boxed::Box<T>', 'std::collections::BTreeMap<u8, T>', 'std::marker::PhantomData<T>', 'Option::<T>', 'Vec::<Vec::<T>>',
           'u128', '(u128, T)', '[u8; 1000]', '[T; 1000]', 'Box<[u8; 100000]>', 'std::cell::UnsafeCell<T>', 'std::cell::Cell<T>', 'std::cell::RefCell<T>', 'std::mem::ManuallyDrop<u8>', 'std::mem::MaybeUninit<u8>', 'std::rc::Rc<u8>', 'std::sync::atomic::AtomicU8',
           '()', '((), T)', '(T,)', "Ref<'static, T>", "Pair<Ref<'static, T>, Ref<'static, u8>>", "Pair<&'static str, T>", 'Result<T, T>', 'std::ops::RangeInclusive<T>', 'std::sync::MutexGuard<\'static, u8>', 'std::ptr::NonNull<u8>', 'NonZero'.replace('NonZero', 'std::num::NonZeroU8')]
    if ed == '2015':
        tys = [t.replace('dyn ', '') for t in tys if '::core' not in t and ' super' not in t]
    if ed in ('2015', '2018'):
        tys += ['Box<Tr>', 'Box<Tr + Send>', "Box<Gen<u8>>", "&'static Tr", "&'static (Tr + Send)", "Box<for<'a> Lt<'a>>", 'Pair<T, Box<Tr>>', 'Box<DepTr>', 'Box<Drop>', '(Box<Tr>, T)']
    for i, t in enumerate(tys):
        add(f'ty{i}_', *[f.format(t) for f in forms])
        if ' T' not in t and '<T' not in t and '(T' not in t and '[T' not in t:
            add(f'tw{i}', f'pub struct S<T>(pub T) where {t}: Sized;')
    # bounds
    bounds = ['Drop', 'Drop + Copy', 'DepTr', 'Tr', 'Copy', 'Clone + Copy', 'Sized', '(Copy)', '(Tr) + (Copy)', 'Tr + Tr', "'static", "'static + Copy", "for<'a> Lt<'a>", "for<'a> Gen<&'a u8>", 'Assoc', 'Assoc<New = u8>', 'Assoc<Old = u8>', 'Gen<(u8)>', 'Gen<T>', 'Gen<Dep<u8>>', 'Gen<DepPlain>', 'Gen<[u8; { 2 }]>', 'Gen<[u8; (2)]>', 'Fn(u8) -> u8', 'FnMut(T) -> T', 'std::fmt::Debug', '::std::fmt::Debug', 'core::marker::Copy', 'Iterator<Item = u8>', 'Send + Sync + Unpin', 'PartialEq<u8>', 'Into<T>', '', 'Copy +']
    if ed in ('2015', '2018'):
        bounds += ['Gen<Box<Tr>>', "Gen<&'static Tr>"]
    for i, b in enumerate(bounds):
        add(f'bound{i}_', f'pub struct S<T: {b}>(pub T);', f'pub struct S<T>(pub T) where T: {b};', f'pub enum S<T: {b}, U> where U: {b} {{ A(T), B {{ x: U }} }}', f'pub struct S<T: {b}, U>(pub T, pub U) where Vec<U>: Sized;')
    for i, w in enumerate(['u8: Copy', 'u8: Tr', 'Vec<u8>: Clone', "for<'a> &'a u8: Copy", "for<'a> &'a dyn Drop: Copy", 'i32: Drop' if 0 else 'String: Clone', 'DepPlain: Sized', '(u8): Copy', "'static: 'static", 'Dep<u8>: Sized', 'T:', 'T: , u8: Copy', 'Vec<T>: Drop' if 0 else 'Vec<T>: Sized', '<u8 as Assoc>::Old: Copy', '[u8; { 2 }]: Copy', "&'static str: Copy", 'fn(u8): Copy', 'T: Assoc, <T as Assoc>::New: Copy', 'T: Assoc, T::New: Copy', 'T: Assoc, T::Old: Copy', "T: 'static", "for<'x> T: Lt<'x>", "for<'x> fn(&'x T): Copy", 'Option<T>: Copy', 'str: PartialEq', 'dyn Drop: Send' if 0 else 'u8: Into<u16>', '', 'u8: Sized']):
        if ed == '2015':
            w = w.replace('dyn ', '')
        add(f'where{i}_', f'pub struct S<T>(pub T) where {w};', f'pub struct S<T> where {w} {{ pub a: T }}', f'pub enum S<T> where {w} {{ A(T) }}')
    # names
    names = ['t', 'lowercase', 'snake_case', 'UPPER', 'Mixed_Case', 'camelCase', '_T', 'T_', '__', 'é', 'Ж', 'ℂ', 'a1', 'T1', 'Tt', 'F', 'A', 'B', 'E', 'r#type', 'r#Self_'[2:] , 'Ａ'[:0] or 'Ä', 'ſ', 'aΑ', 'НЕТ', 'x', 'l1', 'I', 'O0']
    if ed in ('2015', '2018', '2021'):
        names += ['gen']
    if ed == '2015':
        names += ['async', 'await', 'dyn', 'try'][:0] + ['r#async', 'r#dyn']
    for i, n in enumerate(names):
        if n in ('__',):
            continue
        add(f'name{i}_', f'pub struct S<{n}>(pub {n}, pub Vec<{n}>);', f'pub struct {n}<Q>(pub Q);', f'pub struct S<Q> {{ pub {n}: Q, pub z: Q }}', f'pub enum S<Q> {{ {n}(Q), Z }}', f'pub enum S<Q> {{ W {{ {n}: Q }} }}', f'pub enum {n}<Q> {{ X {{ y: Q }}, Y(Q), Z }}',
            f'pub struct S<Q, const {n}: usize>(pub [Q; {n}]);', f'pub struct S<Q, const {n}: bool>(pub Q);')
        if not n.startswith('r#'):
            add(f'lname{i}_', f"pub struct S<'{n}, Q>(pub &'{n} u8, pub Q);", f"pub struct S<'{n}, Q: '{n}>(pub &'{n} u8, pub Q);", f"pub struct S<Q>(pub Q) where for<'{n}> &'{n} u8: Copy;")
        add(f'twon{i}_', f'pub struct S<{n}, Q>(pub {n}, pub Q);', f'pub enum {n}<Q> {{ {n}x(Q) }}'.replace('r#typex', 'typex').replace('r#asyncx', 'asyncx').replace('r#dynx', 'dynx'))
    # the definition itself
    add('self', '#[deprecated] @D@ pub struct S<T>(pub T);', '#[deprecated] @D@ pub enum S<T> { A(T) }', '#[deprecated(note = "x")] @D@ pub struct S<T> { pub a: T }', '@D@ #[deprecated] pub struct S<T>(pub T);', '#[must_use] @D@ pub struct S<T>(pub T);', '@D@ #[must_use = "x"] pub enum S<T> { A(T) }',
        'pub struct S<T>(#[deprecated] pub T);', 'pub struct S<T> { #[deprecated] pub a: T, pub b: T }', 'pub enum S<T> { #[deprecated] A(T), B { #[deprecated] x: T } }', 'pub enum S<T> { #[deprecated] A, B(T) }', 'pub enum S<T> { A(#[deprecated] u8, T), #[deprecated(note = "n")] C { a: T } }',
        '#[non_exhaustive] @D@ pub struct S<T>(pub T);', '#[non_exhaustive] @D@ pub enum S<T> { #[non_exhaustive] A(T), B }', '#[doc(hidden)] @D@ pub struct S<T>(pub T);', '/// Doc\n@D@ pub struct S<T>(/** x */ pub T);', '#[repr(C)] @D@ pub struct S<T>(pub u8, pub T);', '#[repr(transparent)] @D@ pub struct S<T>(pub T);',
        '#[repr(C, align(32))] @D@ pub struct S<T>(pub T);', '#[repr(u8)] @D@ pub enum S<T> { A(T), B }', '#[repr(u8)] @D@ pub enum S<T> { A(T) = 3, B = { 1 + 1 } }', '#[repr(u8)] @D@ pub enum S<T> { A(T) = (3), B = 4 }',
        '@D@ #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub struct S<T>(pub T);', '#[derive(Default)] @D@ pub struct S<T>(pub T);', '#[allow(missing_docs)] @D@ pub struct S<T>(pub T);', '#[cfg(all())] @D@ pub struct S<T>(#[cfg(all())] pub T, #[cfg(any())] pub Missing);',
        'struct S<T>(T);', 'pub(crate) struct S<T>(T);', 'pub(in super) struct S<T>(T);'.replace('in super', 'super'), 'pub(self) struct S<T>(pub(self) T);', 'struct S<T>(pub T);', 'pub struct S<T>(pub(crate) T, T);', 'struct S<T> { _a: T, __b: T }', 'struct S<T> { a: T, _unused: u8 }', 'enum S<T> { A(T), _B }', 'enum S<T> { A(T), B { x: u8 } }',
        'pub enum S<T> { A(T), Big([u8; 1000]) }', 'pub enum S<T> { A(T), Big([T; 1000]) }', 'pub enum S<T> { A(u8), Big([u64; 100], T) }', 'pub enum S<T> { Only(T) }', 'pub enum S<T> { A(), B {}, C, D(T) }', 'pub enum S<T> { A(T), B(Void), C(T, Void) }', 'pub enum S<T> { B(Void, T) }', 'pub struct S<T>(pub T, pub Void);', 'pub struct S<T>(pub Void, pub T);', 'pub struct S<T> { a: Void, b: T, c: Vec<T> }',
        'pub struct S<T>(std::marker::PhantomData<T>);', 'pub struct S<T = u8>(pub T);', 'pub struct S<T = Dep<u8>>(pub T);', 'pub struct S<T = DepPlain, U = (T)>(pub T, pub U);', 'pub struct S<T, const N: usize = { 2 }>(pub [T; N]);', 'pub struct S<T, const N: usize = 2>(pub [T; N]);', 'pub struct S<T, const N: usize>(pub [T; { N }]);', 'pub struct S<T, const N: usize>(pub Arr<T, { N }>);', 'pub struct S<T, const N: usize>(pub Arr<T, N>);', 'pub struct S<T, const N: usize>(pub [T; (N)]);' if 0 else 'pub struct S<T, const n: usize>(pub [T; n]);',
        "pub struct S<'a, T>(pub &'a u8, pub T);", "pub struct S<'a, 'b, T>(pub &'a u8, pub &'b u8, pub T);", "pub struct S<'a, 'b: 'a, T>(pub &'a u8, pub &'b u8, pub T);", "pub struct S<'a, 'b, T>(pub &'a u8, pub &'b u8, pub T) where 'a: 'b, 'b: 'a;", "pub struct S<'a, T>(pub &'a u8, pub T) where 'a: 'static;", "pub struct S<'a, T: 'a>(pub &'a u8, pub T);", "pub struct S<'a, T>(pub Ref<'a, T>) where T: 'a;",
        "pub struct S<'a, T: 'a + Copy, U: 'a>(pub Ref<'a, T>, pub &'a U) where U: Copy;" if 0 else "pub struct S<'a, T: 'a + Copy>(pub Ref<'a, T>);", "pub struct S<'a, T>(pub Ref<'a, T>) where 'a: 'a;", "pub struct S<'a, T>(pub T, pub std::marker::PhantomData<&'a ()>);", "pub struct S<'a, T: 'static>(pub &'a T, pub u8);".replace("&'a T", "&'a u8, pub T"), "pub struct S<'a, T>(pub T, pub std::borrow::Cow<'a, str>);", "pub struct S<'a, T>(pub T, pub Box<" + d + "Tr + 'a>);", "pub enum S<'a, T> { A(&'a u8), B(Ref<'a, T>) }",
        '#[allow(unused)] @D@ pub struct S<#[allow(unused)] T>(#[allow(unused)] pub T);', '#[warn(deprecated)] @D@ pub struct S<T>(pub Dep<T>);', '#[expect(deprecated)] @D@ pub struct S<T>(pub Dep<T>);', '#[expect(non_camel_case_types)] @D@ pub struct S<t>(pub t);', '#[expect(unused_parens)] @D@ pub struct S<T>(pub (T));', '#[expect(non_snake_case)] @D@ pub struct S<T> { pub Aa: T }', '#[expect(unused_qualifications)] @D@ pub struct S<T>(pub std::option::Option<T>);',
        '#[expect(drop_bounds)] @D@ pub struct S<T: Drop>(pub T);', '#[cfg_attr(all(), doc = "x")] @D@ pub struct S<T>(pub T);', '@D@ #[cfg_attr(with, funcmap(params(T)))] pub struct S<T, U>(pub T, pub U);', '@D@ #[cfg_attr(with, funcmap(params(T)))] pub struct S<T, U>(pub T, pub Dep<U>, pub *const U);', '@D@ #[cfg_attr(with, funcmap(params(T), params(U)))] pub struct S<T, U>(pub T, pub Dep<U>);')
    if ed != '2015':
        add('crate', '@D@ #[cfg_attr(with, funcmap(crate = "::funcmap"))] pub struct S<T>(pub T);', '@D@ #[cfg_attr(with, funcmap(crate = "crate::reexp::fm"))] pub struct S<T>(pub T);')
    # lints allowed on parts of the definition
    add('part', 'pub struct S<T, #[allow(non_upper_case_globals)] const n: usize>(pub [T; n]);', 'pub struct S<#[allow(non_camel_case_types)] t>(pub t);', "pub struct S<#[allow(non_snake_case)] 'A, T>(pub &'A u8, pub T);", 'pub struct S<T>(#[allow(unused_parens)] pub (T), pub T);', 'pub struct S<T>(#[allow(unused_parens)] pub Vec<(T)>);', 'pub struct S<T> { #[allow(unused_parens)] a: ((T), u8) }', 'pub struct S<T>(#[allow(unused_braces)] pub Arr<T, { 2 }>);', 'pub struct S<T>(#[allow(deprecated)] pub Dep<T>);', 'pub enum S<T> { #[allow(deprecated)] A(Dep<T>), #[allow(unused_parens)] B { x: (T) } }',
        'pub enum S<T> { A(#[allow(unused_parens)] (T), #[allow(deprecated)] DepE<T>), B { #[allow(unused_braces)] x: Arr<T, { 2 }> } }', 'pub struct S<T> { #[allow(non_snake_case)] pub Aa: T }', 'pub enum S<T> { #[allow(non_camel_case_types)] a(T) }', 'pub struct S<T>(#[expect(unused_parens)] pub (T));', 'pub struct S<T>(#[expect(unused_parens, reason = "r")] pub Vec<(T)>);', 'pub struct S<T, #[expect(non_upper_case_globals)] const n: usize>(pub [T; n]);',
        '#[allow(unused_parens, non_upper_case_globals)] @D@ pub struct S<T, const n: usize>(pub (T));', '#[allow(unused_parens)] #[allow(non_upper_case_globals)] @D@ pub struct S<T, const n: usize>(pub (T));', '@D@ #[allow(unused_parens)] pub struct S<T>(pub (T));', '#[cfg_attr(all(), allow(unused_parens))] @D@ pub struct S<T>(pub (T));', '#[allow(unused)] @D@ pub struct S<T>(pub (T));', '#[allow(warnings)] @D@ pub struct S<T>(pub (T));', '#[allow(nonstandard_style)] @D@ pub struct S<t, const n: usize>(pub t);', '#[allow()] @D@ pub struct S<T>(pub T);', '#[allow(no_such_lint)] @D@ pub struct S<T>(pub (T));', '#[allow(clippy::all)] @D@ pub struct S<T>(pub (T));',
        '#[deny(unused_parens)] @D@ pub struct S<T>(pub T);', '#[forbid(unused_parens)] @D@ pub struct S<T>(pub T);', '#[warn(unused_parens)] @D@ pub struct S<T>(pub (T));', '#[allow(unused_parens, reason = "because")] @D@ pub struct S<T>(pub (T));', '#[allow(unused_parens)] #[warn(unused_parens)] @D@ pub struct S<T>(pub (T));')
    # inside other items
    for i, item in enumerate(['@D@ pub struct S<T>(pub T);', '@D@ enum S<T> { A(T), B { x: Vec<T> } }', '@D@ struct s<t>(t);', '@D@ struct S<T>(Dep<T>);', '@D@ struct S<T: Drop>(T);']):
        if ed == '2015':
            pass
        add(f'in{i}_', 'pub fn f() { ' + item + ' }', 'pub const _C: () = { ' + item + ' };', 'pub fn f() -> u8 { { ' + item + ' } 1 }', 'pub mod m { #[allow(unused_imports)] use super::*; ' + item + ' }', 'pub struct Q; impl Q { pub fn f() { ' + item + ' } }', 'pub fn f<X>(x: X) { ' + item + ' }', 'pub static F: fn() = { fn g() { ' + item + ' } g };', 'pub trait W { fn f() { ' + item + ' } }', 'pub fn f() { let _ = || { ' + item + ' }; }', 'pub fn f() { loop { ' + item + ' } }', 'pub fn f() { return; ' + item + ' }',
            'macro_rules! mk { () => { ' + item + ' } } mk!();', 'macro_rules! mk { ($($t:tt)*) => { $($t)* } } mk! { ' + item + ' }', 'macro_rules! mk { ($i:item) => { $i } } mk! { ' + item + ' }', 'macro_rules! mk { ($i:item) => { const _: () = { $i }; } } mk! { ' + item + ' }')
    for i, m in enumerate(['($t:ty) => { @D@ pub struct S<T>(pub $t); }', '($t:ty) => { @D@ pub enum S<T> { A($t), B { x: $t } } }', '($t:path) => { @D@ pub struct S<T>(pub Vec<T>, pub $t); }']):
        for j, t in enumerate(['Dep<T>', 'std::option::Option<T>', 'Must<T>', 'lower<T>', 'Never<T>']):
            if 'path' in m:
                add(f'mac{i}{j}', 'macro_rules! mk { ' + m + ' } mk!(' + t + ');')
            else:
                add(f'mac{i}{j}', 'macro_rules! mk { ' + m + ' } mk!((' + t + '));', 'macro_rules! mk { ' + m + ' } mk!(' + t + ');')
    return S


def key(d, base):
    """What a lint says and where, relative to the program"""
    # (the same place can be reported as one span or as its ends)
    return (d.code, d.msg, min(((s[6] - base, s[3] if s[6] == s[2] else 0) for s in d.primary()), default=None))


class Lints:
    def __init__(self, ck, ed, ls, tool=None):
        self.ck, self.ed, self.ls, self.tool = ck, ed, ls, tool
        self.n = 0

    def compile(self, name, progs, extra=()):
        """{key: [(lint, relative place)]}, programs with errors"""
        b = Batch(self.ck, name, header=HDR + '\n' + SPACE + '\npub mod reexp { pub extern crate funcmap as fm; }', edition=self.ed)
        b.progs = progs
        text, ranges = b.text(progs)
        p = self.ck.write(name + '.rs', text)
        args = list(extra) + ['--check-cfg', 'cfg(with)'] + [f'-W{l}' for l in self.ls] + [f'-A{l}' for l in IDENTS]
        c = self.tool(p, self.ed, args) if self.tool else self.ck.rustc(p, edition=self.ed, fmrt=False, extra=args)
        self.n += len(progs)
        by, errs, un = {}, {}, []
        for d in c.diags:
            if not d.spans:
                continue
            ks = [(a, k) for a, z, k in ranges if any(a <= l <= z for l in d.lines())]
            if not ks:
                un.append(d)
            for a, k in ks:
                if d.level == 'error':
                    errs.setdefault(k, []).append(d)
                by.setdefault(k, []).append((key(d, a), d))
        return c, by, errs, un


def prog(k, t, ed, allow=()):
    d = D if ed != '2015' else D15
    al = f'#[allow({", ".join(sorted(allow))})] ' if allow else ''
    imp = '#[allow(unused_imports, unused_extern_crates)] use super::{pre::*, lib::*}; #[allow(unused_imports)] use funcmap::{FuncMap, TryFuncMap};'
    return (k, f'#[allow(missing_docs)] pub mod m_{k} {{ {imp}\n{t.replace("@D@", al + d)}\n}}')


def pair(ck, ed, ls, defs, tool=None, label=''):
    """Both pairs for all definitions in one edition"""
    W = ['--cfg', 'with']
    stats = dict(defs=0, fired=set(), rejected=0)

    def one(arg):
        i, ds = arg
        L = Lints(ck, ed, ls, tool)
        out = []
        text = dict(ds)
        # the definitions the compiler takes without the derives
        ds = list(ds)
        while True:
            c0, by0, er0, un0 = L.compile(f'a{label}{ed}_{i}', [prog(k, t, ed) for k, t in ds])
            if c0.ok:
                break
            if not er0:
                raise Broken(f'lints {ed} {i}: ' + show(c0.errors(), 3) + c0.err[-500:])
            ds = [x for x in ds if x[0] not in er0]
        gone = [k for k in text if k not in dict(ds)]
        fired = {k: {x[0][0] for x in v if x[0][0]} for k, v in by0.items()}

        def withd(name, progs, base, how):
            left = list(progs)
            while left:
                c1, by1, er1, un1 = L.compile(name, left, W)
                if c1.ok:
                    break
                if not er1:
                    raise Broken(f'lints {ed} {i}: ' + show(c1.errors(), 3) + c1.err[-500:])
                for k, v in er1.items():
                    out.append((k, f'rejected with the derives only{how}: {v[0].msg}', show(v)))
                left = [x for x in left if x[0] not in er1]
            else:
                return
            # what fires outside of all definitions
            for k, v in by1.items():
                was = {x[0] for x in base.get(k, ())}
                for kk, d in v:
                    if kk not in was:
                        out.append((k, f'{kk[0]}{how}: {d.msg}', d.text))
            return un1
        un1 = withd(f'b{label}{ed}_{i}', [prog(k, t, ed) for k, t in ds], by0, '')
        if un1 and {(d.code, d.msg) for d in un1} - {(d.code, d.msg) for d in un0}:
            out.append(('(elsewhere)', un1[0].msg, show(un1)))
        # allowed on the definition itself; what fires nevertheless without the derives (inside macros, nested items) is the base
        al = [prog(k, t, ed, fired.get(k, ())) for k, t in ds if fired.get(k)]
        if al:
            c2, by2, er2, un2 = L.compile(f'c{label}{ed}_{i}', al)
            if not c2.ok:
                raise Broken(f'lints {ed} {i}: ' + show(c2.errors(), 3) + c2.err[-500:])
            withd(f'd{label}{ed}_{i}', al, by2, ' although the definition allows what fires on it')
        return out, gone, fired, len(ds), len(al), L.n
    viol = {}
    for out, gone, fired, nd, na, n in pmap(one, enumerate(chunks(defs, 24))):
        stats['defs'] += nd
        stats['rejected'] += len(gone)
        stats.setdefault('gone', []).extend(gone)
        for v in fired.values():
            stats['fired'] |= v
        ck.add(states=nd + na, transitions=n, traces=n)
        for k, what, art in out:
            viol.setdefault((k, what), art)
    return stats, viol


def text_is_lookalike(t):
    return any(c in t for c in 'ВЕАſ')


def identifiers(ck):
    """The lints about the identifiers of a crate: nothing generated fires them"""
    ws = [f'-W{l}' for l in IDENTS]
    n = 0

    def codes(name, text, ed, extra):
        c = ck.rustc(ck.write(name + '.rs', text), edition=ed, fmrt=False, extra=ws + ['--check-cfg', 'cfg(with)'] + extra)
        return c, {d.code for d in c.diags if d.code in IDENTS}
    # every definition written in ASCII: nothing may fire
    jobs = []
    for ed in EDITIONS:
        defs = [(k, t) for k, t in for_edition(ed, definitions() + specials(ed)) if t.isascii()]
        for i, ds in enumerate(chunks(defs, 8)):
            jobs.append((ed, i, ds))

    def ascii_(j):
        ed, i, ds = j
        ps = [prog(k, t, ed) for k, t in ds]
        b = Batch(ck, f'ascii{ed}_{i}', header=HDR + '\n' + SPACE + '\npub mod reexp { pub extern crate funcmap as fm; }', edition=ed)
        for _ in range(6):
            b.progs = ps
            text, ranges = b.text(ps)
            c, by = codes(f'ascii{ed}_{i}', text, ed, ['--cfg', 'with'])
            if c.ok:
                break
            bad = {k for a, z, k in ranges for d in c.errors() if any(a <= l <= z for l in d.lines())}
            ps = [p for p in ps if p[0] not in bad]
            if not bad:
                raise Broken(f'ascii {ed} {i}: ' + show(c.errors(), 3))
        return ed, len(ps), c, by
    for ed, m, c, by in pmap(ascii_, jobs):
        n += m
        if by:
            ck.violation(f'{", ".join(by)} fires on definitions in ASCII (edition {ed})', show([d for d in c.diags if d.code in IDENTS], 4))
    # one non-ASCII name at a time (not of a lifetime: rustc itself then counts the copies that any derive macro makes)
    jobs = []
    for nm in ['é', 'Ж', 'ℂ', 'Ä', 'ſ', 'aΑ', 'НЕТ', 'ꓲ', 'а', 'Т', 'В', 'Е', 'ｆ', 'А']:
        for i, t in enumerate(['pub struct S<{0}>(pub {0});', 'pub struct {0}<Q>(pub Q);', 'pub struct S<Q> {{ pub {0}: Q }}', 'pub enum S<Q> {{ {0}(Q) }}', 'pub struct S<Q, const {0}: usize>(pub [Q; {0}]);', 'pub struct S<Q>(pub m::{0}<Q>); pub mod m {{ pub type {0}<X> = Vec<X>; }}']):
            jobs.append((f'u{ord(nm[0])}_{i}', '#![allow(unused)]\nextern crate funcmap; ' + D + ' ' + t.format(nm) + '\n'))

    def one(j):
        k, t = j
        return k, t, codes(k + '_a', t, '2021', []), codes(k + '_b', t, '2021', ['--cfg', 'with'])
    for k, t, (c0, a), (c1, b) in pmap(one, jobs):
        n += 1
        if not c0.ok or not c1.ok:
            ck.violation(f'{k}: a definition with a non-ASCII name is rejected', t + show(c0.errors() + c1.errors()))
        elif b - a == {'confusable_idents'} and text_is_lookalike(t) and ck.finding('confusable', k):
            pass
        elif b - a:
            ck.violation(f'{k}: {", ".join(b - a)} fires with the derives only', t + show([d for d in c1.diags if d.code in b - a]))
    ck.add(states=n, transitions=2 * n, traces=2 * n)
    ck.log(f'{n} definitions with the lints about identifiers')


# lints that the generated code allows; forbidding them is known to conflict
FORBID = {'absolute_paths_not_starting_with_crate', 'bare_trait_objects', 'deprecated', 'drop_bounds', 'dyn_drop', 'non_camel_case_types', 'trivial_bounds', 'unused_qualifications'}
PLAIN = """#![allow(missing_docs)]
#[cfg_attr(with, derive(::funcmap::FuncMap, ::funcmap::TryFuncMap))] #[derive(Debug, Clone, Copy)] pub struct S<T>(pub T, pub [T; 2], pub Option<T>, pub u8);
#[cfg_attr(with, derive(::funcmap::FuncMap, ::funcmap::TryFuncMap))] #[derive(Debug)] pub enum E<T: Clone, U> where U: Clone { A(T), B { x: Vec<U>, y: (T, U) }, C }
#[cfg_attr(with, derive(::funcmap::FuncMap, ::funcmap::TryFuncMap))] #[derive(Debug)] pub struct L<'a, T: Clone + 'a, U, const N: usize> { pub r: &'a str, pub xs: [T; N], pub u: Option<U> }
"""


def forbid(ck, ls, groups):
    """Forbidding or denying each lint and each group of lints"""
    jobs = [(f, l) for l in ls + groups for f in 'FD']

    def one(j):
        f, l = j
        nm = f'forbid_{f}_{l}'
        p = ck.write(nm + '.rs', PLAIN)
        # (the attribute for missing documentation and the unused crate are the program's own)
        args = [f'-{f}{l}', '-Amissing_docs', '-Aunused_extern_crates', '--check-cfg', 'cfg(with)']
        a = ck.rustc(p, fmrt=False, extra=args)
        b = ck.rustc(p, fmrt=False, extra=args + ['--cfg', 'with'])
        return f, l, a, b
    n = 0
    for f, l, a, b in pmap(one, jobs):
        was = {d.msg for d in a.diags}
        for d in b.diags:
            if not d.spans or d.msg in was:
                continue
            m = re.match(r'allow\((\w+)\) incompatible with previous forbid', d.msg)
            if f == 'F' and m and m.group(1) in FORBID and ck.finding('forbid', d.msg):
                continue
            ck.violation(f'{"forbidding" if f == "F" else "denying"} {l}: {d.msg}', PLAIN + '\n' + d.text)
        n += 1
    ck.add(states=n, transitions=2 * n, traces=2 * n)
    ck.log(f'{len(ls)} lints and {len(groups)} groups forbidden and denied')


def for_edition(ed, defs):
    if ed == '2015':
        # paths of nested modules start at the crate root
        defs = [(k, re.sub(r'(?<![:\w])(std|core)::', r'::\1::', t)) for k, t in defs]
    return defs


def c21(ck):
    ck.build()
    ls, groups = lints()
    everything = definitions()
    allf = set()

    def differential(ed, defs, ls, **kw):
        text = dict(defs)
        assert len(text) == len(defs), 'machinery: duplicate keys'
        st, viol = pair(ck, ed, ls, defs, **kw)
        allf.update(st['fired'])
        if os.environ.get('VERIF_DEBUG'):
            print(sorted(st['gone']))
        for (k, what), art in viol.items():
            if kw and what.startswith('clippy::needless_question_mark') and ck.finding('clippy-needless-question-mark', k):
                continue
            ck.violation(f'{k} (edition {ed}{", clippy" if kw else ""}): {what}', text.get(k, '') + '\n\n' + art)
        ck.log(f"edition {ed}{' (clippy)' if kw else ''}: {st['defs']} definitions ({st['rejected']} the compiler itself rejects), {len(st['fired'])} lints fire on them")
    for ed in EDITIONS:
        differential(ed, for_edition(ed, (everything if ed in ('2021', '2024') or ck.thorough else everything[::4]) + specials(ed)), ls)
    ck.log(f'{len(ls)} lints enabled; firing: {" ".join(sorted(allf))}')
    identifiers(ck)
    forbid(ck, ls, groups)
    clippy(ck, differential, everything)
    return ck.finish(lints=len(ls), fired=len(allf))


def clippy(ck, differential, everything):
    """The lints of clippy, and those of the newer compiler it is part of"""
    e = env(RUSTUP_TOOLCHAIN='stable')
    rc, o, err = run(['clippy-driver', '-V'], env=e)
    if rc != 0:
        ck.log('clippy is not installed')
        return
    man = os.path.join(VERIF, 'harness', 'Cargo.toml')
    target = os.path.join(VERIF, 'target', 'clippy')
    eb = env(RUSTUP_TOOLCHAIN='stable', RUSTFLAGS='--cap-lints=warn')
    run(['cargo', 'clean', '--offline', '--manifest-path', man, '--target-dir', target, '-p', 'funcmap', '-p', 'funcmap_derive'], env=eb)
    rc, o, err = run(['cargo', 'build', '--lib', '--offline', '--manifest-path', man, '--target-dir', target, '--message-format=json'], env=eb)
    rl = [f for l in o.splitlines() if l.startswith('{') for j in [json.loads(l)] if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'funcmap' for f in j['filenames'] if f.endswith('.rlib')]
    if rc or not rl:
        raise Broken('the crate does not build with the toolchain of clippy:\n' + err[-1500:])
    ls, groups = lints('clippy-driver', e)
    # (one is about the identifiers of the crate)
    ls = [l for l in ls if l != 'clippy::disallowed_script_idents']
    cl = [l for l in ls if l.startswith('clippy::')]
    if len(cl) < 400:
        raise Broken('cannot read the list of lints of clippy')

    def tool(p, ed, args):
        cmd = ['clippy-driver', '--edition', ed, '--error-format=json', '--cap-lints=forbid', '-L', 'dependency=' + os.path.join(target, 'debug', 'deps'), '--extern', 'funcmap=' + rl[0], '--crate-type', 'lib', '--emit', 'metadata=' + p[:-3] + '.rmeta'] + args + [p]
        rc, o, err = run(cmd, env=e)
        diags = [Diag(j) for l in err.splitlines() if l.startswith('{') for j in [json.loads(l)] if j.get('$message_type', 'diagnostic') == 'diagnostic']
        if rc not in (0, 1):
            raise Broken(f'clippy ended with {rc}: {err[-1500:]}')
        return Compiled(rc, diags, err[-1500:])
    for ed in ('2021',) if not ck.thorough else EDITIONS:
        # (clippy dislikes items after statements, so also a generated one after a derived one)
        sp = [(k, t) for k, t in specials(ed) if 'return;' not in t]
        differential(ed, for_edition(ed, everything[::3] + sp), ls, tool=tool, label='k')
