"""C15: generated code does not depend on the names chosen by the user.

Every name of an alphabet covering all names the generated code uses or could choose, in
every role; every execution of the result is explored. Every pair of parameter names, and
every combination of taken letters, is decided by the compiler."""
import itertools, re, string
import ctlib, gen, progs
from ctlib import Defs
from gen import T, U, C, app, arr, tup, fields_build

UPPER = list(string.ascii_uppercase)
RESERVED = ['__FUNCMAP_A', '__FUNCMAP_B', '__FUNCMAP_F', '__FUNCMAP_E', '__FUNCMAP_A2', '__FUNCMAP_Z']
CRATE = ['FuncMap', 'TryFuncMap', 'TypeParam', 'FuncMarker', 'func_map', 'try_func_map', 'func_map_over', 'try_func_map_over', 'funcmap', 'Output',
         'FuncMap_cannot_be_derived_for_types_implementing_Drop', 'TryFuncMap_cannot_be_derived_for_types_implementing_Drop', '__private', 'funcmap_derive', 'array', 'Array']
PRELUDE = ['Ok', 'Err', 'Result', 'Option', 'Some', 'None', 'Into', 'From', 'FnMut', 'Fn', 'FnOnce', 'Sized', 'Iterator', 'Drop', 'Send', 'Copy', 'Clone', 'Box', 'Vec', 'String', 'drop', 'core', 'std', 'alloc', 'ops', 'result']
LOCALS = ['f', 'value', 'field_0', 'field_1', 'field_a', 'field_f', 'field_value', 'a', 'b', 'e', 'x', 'result', 'self_', 'this', '__']
PRIMS = ['u8', 'str', 'usize', 'bool', 'i32']
# types and traits of the standard library that an implementation might be tempted to treat specially
STD = ['PhantomData', 'PhantomPinned', 'ManuallyDrop', 'MaybeUninit', 'Cell', 'RefCell', 'UnsafeCell', 'OnceCell', 'Rc', 'Arc', 'Weak', 'Cow', 'Pin', 'Mutex', 'RwLock', 'Range', 'RangeInclusive', 'RangeFrom', 'Bound', 'Poll', 'ControlFlow', 'HashMap', 'HashSet', 'BTreeMap', 'BTreeSet', 'BinaryHeap',
       'VecDeque', 'LinkedList', 'IntoIter', 'Iter', 'Wrapping', 'Reverse', 'Saturating', 'NonZero', 'Never', 'Infallible', 'Tuple', 'Slice', 'Path', 'Ordering', 'Duration', 'Default', 'Debug', 'Display', 'Hash', 'Eq', 'Ord', 'PartialEq', 'PartialOrd', 'Sync', 'Unpin', 'ToOwned', 'AsRef', 'Deref', 'Any', 'Error', 'Future', 'Never_', 'Unit', 'Identity']
STD_ROLES = {'struct', 'enum', 'tyarg', 'fieldtype', 'alias', 'fieldtypeconcrete', 'trait', 'gtrait', 'mod', 'variant1', 'scope_stdtype'}
RAW = ['r#type', 'r#fn', 'r#match', 'r#A', 'r#B', 'r#F', 'r#E', 'r#T', 'r#async', 'r#dyn', 'r#impl', 'r#mut', 'r#where', 'r#f', 'r#field_0', 'r#union', 'r#try', 'r#static', 'r#FnMut', 'r#Output']
WEAK = ['union', 'auto', 'default', 'macro_rules', 'raw', 'safe', 'dyn_', 'Ä', 'β', '名', 'gen']
NAMES = list(dict.fromkeys(UPPER + RESERVED + CRATE + PRELUDE + LOCALS + PRIMS + RAW + WEAK))

DER = '#[derive(::core::fmt::Debug, ::funcmap::FuncMap, ::funcmap::TryFuncMap)]'


# the built-in derive does not support macros in types
DER_NODEBUG = DER.replace('::core::fmt::Debug, ', '')


class NProg(gen.Prog):
    """The definition lives in a module of its own that imports nothing; the builder sees it as `S`"""

    def __init__(self, key, env, definition, tyname, params, value, args=None, markers=None, noprelude=False, attr='', derive=DER):
        super().__init__(key, definition, params, value, markers=markers, args=args)
        self.env, self.tyname, self.noprelude, self.attr = env, tyname, noprelude, attr
        self.pre, self.derives = env, derive

    def module(self, ident):
        two = self.params == 'TU'
        g = 'T: Item, U: Item' if two else 'T: Item'
        ty = self.args.replace('{T}', 'T').replace('{U}', 'U')
        ps = ''.join(f'type P{i} = Tp<{self.markers[p]}>; ' for i, p in enumerate(self.params))
        np = '#![no_implicit_prelude]' if self.noprelude else ''
        return (f'pub mod {ident} {{ pub mod d {{ {np} #![allow(non_camel_case_types, uncommon_codepoints, non_upper_case_globals, non_snake_case)]\n{self.env}\n{self.derives} {self.attr} {self.definition}\n}}\n'
                f'use self::d::{self.tyname} as S;\n pub struct D; const _: () = {{ use super::*; use super::ctors::*; use self::d::{self.tyname} as S; impl Prog{"2" if two else "1"} for D {{ {ps}type Ty<{g}> = S<{ty}>;\n'
                f'fn build<{g}>(cx: &mut Cx) -> S<{ty}> {{ let p = cx.push(0); let r: S<{ty}> = {self.value}; cx.pop(); let _ = p; r }} }} }}; }}')


def lf(i, t='T'):
    return f'{{ cx.set(p, {i}); cx.leaf::<{t}>() }}'


VEC = '::std::vec::Vec'
OPT = '::core::option::Option'


def roles(n, other, other2):
    """(role, program arguments) for a name; `other`, `other2`: two parameter names different from it"""
    r = []
    # the type
    r.append(('struct', dict(env='', definition=f'pub struct {n}<{other}>(pub {other}, pub {VEC}<{other}>);', tyname=n, params='T', value=f'S({lf(0)}, ::std::vec![{lf(1)}])')))
    r.append(('enum', dict(env='', definition=f'pub enum {n}<{other}, {other2}> {{ V0({other}, {other2}), V1 {{ z: {other} }}, V2 }}', tyname=n, params='TU',
                           value=f'match cx.choose(3) {{ 0 => S::V0({lf(0)}, {lf(1, "U")}), 1 => S::V1 {{ z: {lf(0)} }}, _ => S::V2 }}')))
    # parameters
    r.append(('tyarg', dict(env='', definition=f'pub struct S0<{n}, {other}>(pub {n}, pub ({other}, {n}), pub [{n}; 2]) where {n}: ::core::marker::Sized;', tyname='S0', params='TU',
                            value='S(' + ', '.join(fields_build([T, tup(U, T), arr(2, T)], None)) + ')')))
    r.append(('tyarg2', dict(env='', definition=f'pub enum S0<{other}, {n}> {{ V0 {{ a: {n}, b: {VEC}<{other}> }}, V1({other}) }}', tyname='S0', params='TU',
                             value=f'if cx.choose(2) == 0 {{ S::V0 {{ a: {lf(0, "U")}, b: ::std::vec![{lf(1)}, {lf(2)}] }} }} else {{ S::V1({lf(0)}) }}')))
    r.append(('tyarg_unmapped', dict(env='', definition=f'pub struct S0<{n}, {other}>(pub {n}, pub {other});', attr=f'#[funcmap(params({other}))]', tyname='S0', params='T', args='u16, {T}', markers={'T': 1}, value=f'S(5, {lf(1)})')))
    r.append(('constarg', dict(env='', definition=f'pub struct S0<const {n}: usize, {other}>(pub [{other}; {n}], pub {other});', tyname='S0', params='T', args='2, {T}', markers={'T': 1},
                               value='S(' + ', '.join(fields_build([arr(2, T), T], None)) + ')')))
    # fields and variants
    r.append(('field', dict(env='', definition=f'pub struct S0<{other}> {{ pub {n}: {other}, pub zz: {other} }}', tyname='S0', params='T', value=f'S {{ {n}: {lf(0)}, zz: {lf(1)} }}')))
    r.append(('vfield', dict(env='', definition=f'pub enum S0<{other}> {{ V0 {{ zz: {other}, {n}: ({other}, u8) }} }}', tyname='S0', params='T', value=f'S::V0 {{ zz: {lf(0)}, {n}: {{ cx.set(p, 1); ({{ let q = cx.push(0); let r = cx.leaf::<T>(); cx.pop(); let _ = q; r }}, 3) }} }}')))
    for k, (d, v) in enumerate([(f'{n}', f'S::{n}'), (f'{n}({other})', f'S::{n}({lf(0)})'), (f'{n} {{ a: {other} }}', f'S::{n} {{ a: {lf(0)} }}')]):
        r.append((f'variant{k}', dict(env='', definition=f'pub enum S0<{other}> {{ V0({other}), {d} }}', tyname='S0', params='T', value=f'if cx.choose(2) == 0 {{ S::V0({lf(0)}) }} else {{ {v} }}')))
    # referenced types, traits, modules, constants
    gt = f'{DER} pub struct {n}<Q0>(pub Q0, pub Q0);'
    r.append(('fieldtype', dict(env=gt, definition=f'pub struct S0<{other}>(pub {n}<{other}>, pub {other});', tyname='S0', params='T',
                                value='S({ cx.set(p, 0); let q = cx.push(0); let r = d::%s({ cx.set(q, 0); cx.leaf::<T>() }, { cx.set(q, 1); cx.leaf::<T>() }); cx.pop(); r }, %s)' % (n, lf(1)))))
    r.append(('alias', dict(env=f'pub type {n}<Q0> = {VEC}<Q0>;', definition=f'pub struct S0<{other}>(pub {n}<{other}>, pub self::{n}<{other}>);', tyname='S0', params='T', value=f'S(::std::vec![{lf(0)}], ::std::vec![{lf(1)}])')))
    r.append(('fieldtypeconcrete', dict(env=f'#[derive(::core::fmt::Debug)] pub struct {n};', definition=f'pub struct S0<{other}>(pub {n}, pub {other}, pub ({n}, {other}));', tyname='S0', params='T',
                                        value=f'S(d::{n}, {lf(1)}, {{ cx.set(p, 2); (d::{n}, {{ let q = cx.push(1); let r = cx.leaf::<T>(); cx.pop(); let _ = q; r }}) }})')))
    r.append(('trait', dict(env=f'pub trait {n} {{ }} impl<Q0> {n} for Q0 {{}}', definition=f'pub struct S0<{other}: {n}>(pub {other}) where (): {n}, {other}: self::{n};', tyname='S0', params='T', value=f'S({lf(0)})')))
    r.append(('gtrait', dict(env=f'pub trait {n}<Q0> {{ type Assoc; }} impl<Q0, R0> {n}<R0> for Q0 {{ type Assoc = R0; }}', definition=f'pub struct S0<{other}: {n}<{other2}, Assoc = {other2}>, {other2}>(pub {other}, pub {other2});', tyname='S0', params='TU', value=f'S({lf(0)}, {lf(1, "U")})')))
    r.append(('assoc', dict(env=f'pub trait Tr0 {{ type {n}; }} impl<Q0> Tr0 for Q0 {{ type {n} = Q0; }}', definition=f'pub struct S0<{other}: Tr0<{n} = {other}>>(pub {other}) where (): Tr0<{n} = ()>;', tyname='S0', params='T', value=f'S({lf(0)})')))
    r.append(('mod', dict(env=f'pub mod {n} {{ pub type W<Q0> = {VEC}<Q0>; }}', definition=f'pub struct S0<{other}>(pub {n}::W<{other}>, pub self::{n}::W<{other}>);', tyname='S0', params='T', value=f'S(::std::vec![{lf(0)}], ::std::vec![{lf(1)}])')))
    r.append(('constexpr', dict(env=f'pub const {n}: usize = 2;', definition=f'pub struct S0<{other}>(pub [{other}; {n}], pub [{other}; {{ let {n} = {n}; 1 }}]);' if 0 else f'pub struct S0<{other}>(pub [{other}; {n}], pub {other});', tyname='S0', params='T',
                                value='S(' + ', '.join(fields_build([arr(2, T), T], None)) + ')')))
    r.append(('blockconst', dict(env='', definition=f'pub struct S0<{other}>(pub [{other}; {{ const {n}: usize = 2; {n} }}], pub {other});', tyname='S0', params='T',
                                 value='S(' + ', '.join(fields_build([arr(2, T), T], None)) + ')')))
    r.append(('macroconst', dict(env='macro_rules! id { ($e:expr) => { $e } } pub const ' + n + ': usize = 2;', derive=DER_NODEBUG, definition=f'pub struct S0<{other}>(pub [{other}; id!({n})], pub {other}); impl<Q0: ::core::fmt::Debug> ::core::fmt::Debug for S0<Q0> {{ fn fmt(&self, f0: &mut ::core::fmt::Formatter<\'_>) -> ::core::fmt::Result {{ f0.debug_tuple("S0").field(&self.0).field(&self.1).finish() }} }}', tyname='S0', params='T',
                                 value='S(' + ', '.join(fields_build([arr(2, T), T], None)) + ')')))
    # only in scope
    use = dict(definition=f'pub enum S0<{other}> {{ V0 {{ f: {other}, value: {other} }}, V1({other}, {VEC}<{other}>) }}', tyname='S0', params='T',
               value=f'if cx.choose(2) == 0 {{ S::V0 {{ f: {lf(0)}, value: {lf(1)} }} }} else {{ S::V1({lf(0)}, ::std::vec![{lf(1)}]) }}')
    for k, item in [('fn', f'pub fn {n}() {{ loop {{ }} }}'), ('static', f'pub static {n}: u8 = 1;'), ('const', f'pub const {n}: u8 = 1;'), ('unit', f'pub struct {n};'), ('tuplestruct', f'pub struct {n}(());'), ('type', f'pub type {n} = ();'),
                    ('macro', f'macro_rules! {n} {{ ($($t:tt)*) => {{ compile_error!("captured") }} }}'), ('stdtype', f'pub enum {n}<Q0> {{ {n}(Q0) }} pub use self::{n}::*;' if n not in ('macro_rules',) else 'pub enum Zed {}'),
                    ('tr', f'pub trait {n} {{ fn {n}(self) -> () where Self: ::core::marker::Sized {{ }} }} impl<Q0> {n} for Q0 {{}}'),
                    ('method', f'pub trait Ext {{ fn {n}(self, _f: ()) -> () where Self: ::core::marker::Sized {{ }} type {n}; }} impl<Q0> Ext for Q0 {{ type {n} = (); }}'),
                    ('module', f'pub mod {n} {{ pub struct FuncMap; pub struct Option; }}')]:
        r.append((f'scope_{k}', dict(env=item, **use)))
    r.append(('inherent', dict(env='', definition=f'pub struct S0<{other}>(pub {other}); impl<{other}> S0<{other}> {{ pub fn {n}<Q0>(self, _q: Q0) -> u8 {{ loop {{ }} }} }}', tyname='S0', params='T', value=f'S({lf(0)})')))
    return r


# names the language does not allow in a role (not the crate's business)
def legal(n, role):
    return not (n == 'macro_rules' and role == 'scope_macro')


def lifetimes():
    for n in ['a', 'b', 'f', 'e', 'A', 'B', 'F', 'E', 'T', 'x', 'r#fn', 'r#A', 'funcmap', 'Output', 'field_0', '_x', 'core', 'Ä']:
        yield (f'lt_{n.replace("#", "_")}', dict(env='', definition=f"pub struct S0<'{n}, T>(pub T, pub &'{n} u8, pub fn(&'{n} u8)) where T: '{n};", tyname='S0', params='T', args="'static, {T}", value=f'S({lf(0)}, &3, |_| ())'))


def c15(ck):
    ck.build()
    ps, known = [], {}
    for n in NAMES + STD:
        plain = n.replace('r#', '')
        free = [x for x in ('X', 'Y', 'W') if x != plain][:2]
        for other, other2 in [free] + ([('A', 'B'), ('F', 'E')] if ck.thorough else []):
            if plain in (other, other2):
                continue
            for role, kw in roles(n, other, other2):
                if not legal(n, role) or n in STD and role not in STD_ROLES:
                    continue
                for np in (False, True):
                    if not ck.thorough and np != (len(ps) % 2 == 1) and role not in ('struct', 'tyarg', 'fieldtype'):
                        continue
                    key = f'{role}_{n.replace("#", "_")}_{other}_{"np" if np else "p"}'
                    p = NProg(key, noprelude=np, **kw)
                    ps.append(p)
                    known.update(findings(key, role, n))
    for key, kw in lifetimes():
        ps.append(NProg(key, **kw))
    ps += rawmix()
    ps += alike()
    tot = progs.explore(ck, 'c09', ps, header=gen.HEADER + '\npub mod ctors {}', known=known, label='names')
    ck.log(f"{len(NAMES) + len(STD)} names, {len(ps)} programs, {tot['executions']} executions")
    if ck.thorough:
        progs.explore(ck, 'c10', [p for p in ps if 'np' in p.key], header=gen.HEADER + '\npub mod ctors {}', known=known, label='names')
    letters(ck)
    return ck.finish(exhaustive=True, names=len(NAMES) + len(STD))


# known findings: the exact names and roles
VALUE_ROLES = {'struct', 'constarg', 'constexpr', 'macroconst', 'fieldtype', 'fieldtypeconcrete', 'scope_static', 'scope_const', 'scope_stdtype', 'scope_tuplestruct', 'scope_unit'}
VALUE_NAMES = {'f', 'r#f', 'value', 'field_0', 'r#field_0', 'field_1', 'field_f', 'field_value'}
TYPE_NAMES = set(PRELUDE + PRIMS) - {'drop', 'alloc', 'ops', 'result'} | {'funcmap', 'r#FnMut'}


def findings(key, role, n):
    if n in VALUE_NAMES and role in VALUE_ROLES:
        return {key: ('value-names', ('E0530', 'E0308', 'E0277'))}
    if n in TYPE_NAMES and role == 'constarg':
        return {key: ('const-parameter-named-like-type', ('E0747', 'E0573'))}
    if n.replace('r#', '') == 'Output' and role.startswith('variant'):
        return {key: ('variant-named-output', ('ambiguous_associated_items',))}
    return {}


def rawmix():
    """The same parameter, written raw and plain: every combination at its declaration, option, field, argument and bound"""
    for bits in range(64):
        w = lambda i: 'r#T' if bits >> i & 1 else 'T'
        for opt in (False, True):
            yield NProg(f'rawmix_{bits}_{int(opt)}', '', f'pub struct S0<{w(0)}: ::core::marker::Sized, r#U>(pub {w(1)}, pub {VEC}<({w(2)}, U)>, pub [{w(3)}; 2]) where {w(4)}: ::core::marker::Sized;', 'S0', 'TU' if not opt else 'T',
                        'S(' + ', '.join(fields_build([T, app('Vec', tup(T, U if not opt else C)), arr(2, T)], None)) + ')', attr=f'#[funcmap(params({w(5)}))]' if opt else '', args='{T}, u8' if opt else None)


# names that differ only in case, underscores, digits or rawness
ALIKE = ['a', '_a', 'a_', '__a', '_a_', 'a__', 'A', '_A', 'aa', 'aA', 'Aa', 'a0', 'a_0', 'a00', 'a1', '_0', '_1', '__0', '_00', 'r#type', 'type_', '_type', 'Type', 'r#fn', 'fn_', 'r#async', 'async_', 'r_type', 'rtype', 'field_a', 'field_field_a', 'field__a', 'Field_a', 'f', 'F', 'value', 'Value', 'value_', 'ä', 'Ä', 'a\u0308b', 'ab', 'a_b', 'a__b', 'aB', 'self_', 'Self_', 'this']


def alike():
    for k in range(4):
        ns = ALIKE[k * 12:] + ALIKE[:k * 12]
        if k % 2:
            ns = ns[::-1]
        ty = lambda i: 'T' if (i + k) % 3 else 'U'
        fs = lambda v: ', '.join(f'{v}{n}: {ty(i)}' for i, n in enumerate(ns))
        cs = ', '.join(f'{n}: {lf(i, ty(i))}' for i, n in enumerate(ns))
        yield NProg(f'alike_struct{k}', '', f'pub struct S0<T, U> {{ {fs("pub ")} }}', 'S0', 'TU', f'S {{ {cs} }}')
        yield NProg(f'alike_variant{k}', '', f'pub enum S0<T, U> {{ V0, V1 {{ {fs("")} }}, V2(T) }}', 'S0', 'TU', f'S::V1 {{ {cs} }}')
        vs = [n for n in ns]
        yield NProg(f'alike_variants{k}', '', f'pub enum S0<T, U> {{ {", ".join(f"{n}({ty(i)}, u8)" for i, n in enumerate(vs))} }}', 'S0', 'TU',
                    f'match cx.choose({len(vs)}) {{ ' + ', '.join(f'{i if i + 1 < len(vs) else "_"} => S::{n}({lf(0, ty(i))}, {i})' for i, n in enumerate(vs)) + ' }')
        # every pair alone
        for i, n in enumerate(ns):
            m = ns[(i * (k + 2) + 1) % len(ns)]
            if m != n:
                yield NProg(f'alike_pair{k}_{i}', '', f'pub enum S0<T> {{ V0 {{ {n}: T, {m}: T }}, V1 {{ {m}: (T, u8) }} }}', 'S0', 'T', f'S::V0 {{ {n}: {lf(0)}, {m}: {lf(1)} }}')


# every place of a definition where a name from outside can be mentioned, and nowhere else
HELP = """pub trait Tr0 {} impl<Q0: ?Sized> Tr0 for Q0 {} pub trait Tr1<Q0: ?Sized> {} impl<Q0: ?Sized, R0: ?Sized> Tr1<R0> for Q0 {} pub trait TrA { type As; } impl<Q0> TrA for Q0 { type As = Nm; }
pub trait HasC { type Ty; const N: usize; } impl<Q0> HasC for Q0 { type Ty = u8; const N: usize = 2; } pub struct Arr<const N0: usize>; impl Nm { pub const N: usize = 2; pub const D: u8 = 3; }
macro_rules! id0 { ($($e:tt)*) => { $($e)* } }"""
TY_FIELDS = ['Nm', 'Vec<Nm>', '[Nm; 1]', '(u8, (Nm,))', '(Nm)', 'fn(Nm)', 'fn() -> Nm', "for<'x> fn(&'x Nm)", 'extern "C" fn(Nm)', "&'static Nm", "&'static mut [Nm]", '*const Nm', 'Box<dyn Tr1<Nm>>', 'Box<dyn TrA<As = Nm>>', 'Box<dyn Fn(Nm)>', 'Box<dyn Fn() -> Nm>',
             "Box<dyn for<'x> Tr1<&'x Nm>>", '<Nm as HasC>::Ty', '<Vec<Nm> as HasC>::Ty', '<u8 as TrA>::As', '[u8; <Nm as HasC>::N]', '[u8; Nm::N]', '[u8; { Nm::N }]', '[u8; Nm::N + 1]', '[u8; <Nm>::N]', '[u8; { let x: Nm = Nm; let _ = x; 1 }]', '[u8; { fn f(_: Nm) {} 1 }]',
             '[u8; ::std::mem::size_of::<Nm>()]', '[u8; (|_: &Nm| 1, 2).1]', '[u8; id0!(Nm::N)]', '[u8; if true { Nm::N } else { 1 }]', 'Arr<{ Nm::N }>', 'Arr<{ <Nm>::N }>', 'Result<u8, Nm>', 'std::collections::HashMap<u8, Option<Nm>>', '[T; Nm::N]', '[T; { Nm::N }]', '[(T, Nm); 1]', '(T, Nm)', 'Vec<(Nm, T)>', 'Result<T, Nm>', 'Result<Nm, T>', '[Option<T>; id0!(Nm::N)]',
             '[u8; id0!((Nm::N))]', '[u8; id0!([Nm::N][0])]', '[u8; id0!({ Nm::N })]', '[u8; id0! { (({ (Nm::N) })) }]', '[T; id0![(Nm::N + [1, Nm::N][0] - 1)]]', '[u8; id0!(id0!((Nm::N)))]', '[u8; id0!(if true { Nm::N } else { 1 })]', '[u8; { id0!(fn f(_: &[Nm; 1]) {}); 1 }]']
TY_GEN = [('T: Tr1<Nm>', ''), ('T: TrA<As = Nm>', ''), ('T', 'T: Tr1<Nm>'), ('T', 'Nm: Tr0'), ('T', 'Vec<Nm>: Tr0'), ('T', 'Nm: Tr1<T>'), ('T', "for<'x> &'x Nm: Tr0"), ('T', 'T: TrA<As = Nm>'), ('T', '<T as TrA>::As: Tr1<Nm>'), ('T', '(T, Nm): Tr0'), ('T', '[T; Nm::N]: Tr0'), ('T', "T: for<'x> Tr1<&'x Nm>"),
          ('T', '<Nm as HasC>::Ty: Tr0'), ('T', 'T: Tr1<dyn Tr1<Nm>>'), ('T', 'T: Tr1<Arr<{ Nm::N }>>'), ('T = Nm', ''), ('T = Vec<Nm>', ''), ('T: FnLike', 'T: Tr1<fn(Nm) -> u8>'), ('T, U: Tr1<Nm>', ''), ('T, U', 'U: Tr1<Nm>'), ('T, U = Nm', ''), ('T, const K: usize = { Nm::N }', ''), ('T: Tr1<T> + Tr1<Nm>', '')]
TRAIT_SITES = [('T: Nm', '', 'u8'), ('T', 'T: Nm', 'u8'), ('T', 'Vec<T>: Nm', 'u8'), ('T', 'u8: Nm', 'u8'), ('T: Tr0 + Nm', '', 'u8'), ('T: Tr0', 'T: Nm', 'u8'), ('T: (Nm)', '', 'u8'), ('T, U: Nm', '', 'u8'), ('T, U', 'U: Nm', 'u8'), ('T', '', 'Box<dyn Nm>'), ('T', '', "&'static (dyn Nm + Send)"), ('T: TrB<As: Nm>', '', 'u8'),
               ('T', 'T: TrB, T::As: Nm', 'u8'), ('T', "for<'x> &'x T: Nm", 'u8'), ('T', 'T: Tr1<dyn Nm>', 'u8'), ('T', '', '[u8; { fn f<Q1: Nm>(_: Q1) {} 1 }]'), ('T', '', 'Box<dyn Tr1<dyn Nm>>'), ('T: Tr1<dyn Nm>', '', 'u8')]
ATRAIT_SITES = [('T', '', '<u8 as Nm>::Ty'), ('T', '<T as Nm>::Ty: Tr0', 'u8'), ('T: Tr1<<u8 as Nm>::Ty>', '', 'u8'), ('T: Nm<Ty = u8>', '', 'u8'), ('T: Nm', 'T::Ty: Tr0', 'u8'), ('T', '', '[u8; <u8 as Nm>::N]'), ('T', '', '[T; <u8 as Nm>::N]')]
MOD_SITES = [('T', '', 'Nm::Ty'), ('T', '', 'Vec<(Nm::Ty, T)>'), ('T', '', 'Nm::W<T>'), ('T: Nm::Tr', '', 'u8'), ('T', 'T: Nm::Tr', 'u8'), ('T', 'Nm::Ty: Tr0', 'u8'), ('T', '', '[u8; Nm::N]'), ('T', '', '[T; Nm::N]'), ('T', '', '[u8; Nm::m!()]'), ('T', '', '[T; Nm::m!()]'), ('T', '', '<u8 as Nm::Tr>::Ty'), ('T = Nm::Ty', '', 'u8'), ('T', '', 'Box<dyn Nm::Tr<Ty = u8>>'), ('T', '', 'Arr<{ Nm::N }>'), ('T, const K: usize = { Nm::N }', '', 'u8')]
CONST_SITES = [('T', '', '[u8; Nm]'), ('T', '', 'Arr<Nm>'), ('T', '', 'Arr<{ Nm }>'), ('T', '', '[T; Nm + 1]'), ('T', '', '[T; { Nm }]'), ('T', '', '[T; Nm]'), ('T', 'T: Tr1<Arr<Nm>>', 'u8'), ('T, const K: usize = Nm', '', 'u8'), ('T = Arr<Nm>', '', 'u8'), ('T', '[u8; Nm]: Tr0', 'u8')]


def mentions(d, ck):
    n0 = len(d.seen)
    sites = [('ty', 'pub struct Nm;', 'T', '', f) for f in TY_FIELDS] + [('ty', 'pub struct Nm;', g, w, 'u8') for g, w in TY_GEN] + [('aty', 'pub struct Nm0; pub type Nm = Nm0;', 'T', w, f) for w, f in [('', 'Nm'), ('', '[T; Nm0::N]'), ('Nm: Tr0', 'u8'), ('T: Tr1<Nm>', 'u8')]]
    sites += [('trait', 'pub struct Nm1; pub trait Nm {} impl<Q0: ?Sized> Nm for Q0 {} pub trait TrB { type As; } impl<Q0> TrB for Q0 { type As = u8; }', *x) for x in TRAIT_SITES]
    sites += [('atrait', 'pub struct Nm1; pub trait Nm { type Ty; const N: usize; } impl<Q0> Nm for Q0 { type Ty = u8; const N: usize = 2; }', *x) for x in ATRAIT_SITES]
    sites += [('mod', 'pub struct Nm1; pub mod Nm { pub struct Ty; pub type W<Q0> = Vec<Q0>; pub trait Tr { type Ty; } impl<Q0> Tr for Q0 { type Ty = u8; } pub const N: usize = 2; macro_rules! m0 { () => { 2 } } pub(crate) use m0 as m; }', *x) for x in MOD_SITES]
    sites += [('const', 'pub struct Nm1; pub const Nm: usize = 2;', *x) for x in CONST_SITES]
    names = ['A', 'B', 'E', 'F'] if not ck.thorough else ['A', 'B', 'E', 'F', 'C', 'D', 'G', 'r#A', 'r#B', 'f', 'value', 'field_0']
    for n in names:
        for i, (kind, env, g, w, f) in enumerate(sites):
            if n in VALUE_NAMES and kind in ('ty', 'const'):
                continue  # known finding
            hlp = HELP.replace('Nm', 'Nm1') if 'Nm1' in env else HELP.replace('Nm', 'Nm0') if kind == 'aty' else HELP
            text = env.replace('Nm;', 'Nm;') + hlp + ' pub trait FnLike {} impl<Q0> FnLike for Q0 {}\n'
            text += f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(params(T))] '
            wh = f' where {w}' if w else ''
            tail = ', pub ::std::marker::PhantomData<U>' if ', U' in g else ''
            text += [f'pub struct S00<{g}>(pub T, pub {f}{tail}){wh};', f'pub enum S00<{g}>{wh} {{ V0(T), V1 {{ a: {f}, b: ::std::marker::PhantomData<({"T, U" if tail else "T"})> }} }}'][i % 2 if not ck.thorough else (i + len(n)) % 2]
            more = ', u8' if ', U' in g else ', 2' if 'const K' in g else ''
            # only the name in question is replaced
            text = re.sub(r'\bNm\b', n, text)
            text = re.sub(r'\bNm([01])\b', r'Out\1', text)
            d.add(f'mention_{kind}_{i}_{n.replace("#", "_")}', text, [(f'IsO::<S00<X0{more}>, X0, Bt, funcmap::TypeParam<0>, S00<Bt{more}>>::{tr}', True, f'`{n}` is mentioned only here') for tr in 'FT'])
            # discriminants
        d.add(f'mention_discr_{n.replace("#", "_")}', re.sub(r'\bNm\b', n, 'pub struct Nm; ' + HELP + ' #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[repr(u8)] pub enum S00<T> { V0(T) = Nm::D, V1 }'),
              [(f'IsO::<S00<X0>, X0, Bt, funcmap::TypeParam<0>, S00<Bt>>::{tr}', True, '') for tr in 'FT']) if n not in VALUE_NAMES else None
    # in the path of the crate
    for n in names + ['C', 'FuncMap', 'core', 'r#fn']:
        for i, (env, path) in enumerate([('pub mod Nm { pub extern crate funcmap; }', 'Nm::funcmap'), ('pub extern crate funcmap as Nm;', 'Nm'), ('pub mod Out0 { pub mod Nm { pub use ::funcmap::*; } }', 'Out0::Nm'), ('pub mod Nm { pub mod Nm { pub use ::funcmap::*; } }', 'Nm::Nm'), ('pub mod Nm { pub use ::funcmap::*; }', 'self::Nm'), ('pub mod Nm { pub extern crate funcmap as r#in; }', 'Nm::r#in')]):
            text = f'{env} #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(crate = "{path}")] pub enum S00<T, U> {{ V0(T, Vec<(U, T)>), V1 {{ a: [U; 2] }} }}'
            d.add(f'mention_crate_{i}_{n.replace("#", "_")}', re.sub(r'\bNm\b', n, text), [(f'IsO::<S00<X0, X1>, X{m}, Bt, funcmap::TypeParam<{m}>, S00<{"Bt, X1" if m == 0 else "X0, Bt"}>>::{tr}', True, f'`{n}` is mentioned only in the crate path') for m in (0, 1) for tr in 'FT'])
    ck.log(f'{len(d.seen) - n0} single mentions')


def letters(ck):
    """Parameter names: every ordered pair, and every combination of taken letters around the ones the generated code prefers"""
    d = Defs(ck, header=ctlib.IS + '\npub struct X0; pub struct X1; pub struct Bt;', name='letters', shards=24)
    al = UPPER + RESERVED + ['FuncMap', 'Output', 'Ok', 'FnMut', 'T0']
    for a, b in itertools.permutations(al, 2):
        d.add(f'pair_{a}_{b}', f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub struct S00<{a}, {b}>(pub {a}, pub ::std::vec::Vec<{b}>);',
              [(f'IsO::<S00<X0, X1>, X{m}, Bt, funcmap::TypeParam<{m}>, S00<{"Bt, X1" if m == 0 else "X0, Bt"}>>::{tr}', True, f'parameters {a}, {b}') for m in (0, 1) for tr in 'FT'])
    al = ['T', 't', 'T_', '_T', '__T', 'TT', 'T1', 'T10', 'T_1', 'Tt', 'tT', '\u0164', '\u03c4', 'T\u0308', 'TypeT', 'r#type', 'r#fn', 'Fn_', 'fn_', '_A', 'A_', 'a', 'r#a1', 'A1', '__A']
    for a, b in itertools.permutations(al, 2):
        d.add(f'apair_{al.index(a)}_{al.index(b)}', f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub enum S00<{a}, {b}> where {a}: ::core::marker::Sized, {b}: ::core::marker::Sized {{ V0({b}, ::std::vec::Vec<({a}, {b})>), V1 {{ x: [{a}; 2] }} }}',
              [(f'IsO::<S00<X0, X1>, X{m}, Bt, funcmap::TypeParam<{m}>, S00<{"Bt, X1" if m == 0 else "X0, Bt"}>>::{tr}', True, f'parameters {a}, {b}') for m in (0, 1) for tr in 'FT'])
    # combinations of taken names: parameters, or other identifiers of the definition
    pool = list('ABCDEFGH') if not ck.thorough else list('ABCDEFGHIJ')
    for bits in range(1, 1 << len(pool)):
        taken = [x for i, x in enumerate(pool) if bits >> i & 1]
        k = len(taken)
        t = taken[bits % k]
        i = taken.index(t)
        inst = lambda x: ', '.join(x if j == i else 'u8' for j in range(k))
        d.add(f'sub_{bits}', f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(params({t}))] pub struct S00<{", ".join(taken)}>({", ".join(taken)});',
              [(f'IsO::<S00<{inst("X0")}>, X0, Bt, funcmap::TypeParam<{i}>, S00<{inst("Bt")}>>::{tr}', True, f'taken {taken}') for tr in 'FT'])
    for bits in range(1, 1 << 6):
        # as types of fields / traits / associated names / consts
        taken = [x for j, x in enumerate('ABCEFG') if bits >> j & 1]
        for how in range(4):
            if how == 0:
                env, f = ''.join(f'pub struct {x};' for x in taken), ', '.join(taken)
            elif how == 1:
                env, f = ''.join(f'pub mod {x} {{ pub struct Q; }}' for x in taken), ', '.join(f'{x}::Q' for x in taken)
            elif how == 2:
                env, f = ''.join(f'pub const {x}: usize = 1;' for x in taken), ', '.join(f'[u8; {x}]' for x in taken)
            else:
                env, f = ''.join(f'pub trait {x} {{}} ' for x in taken), ', '.join(f'::std::boxed::Box<dyn {x}>' for x in taken)
            d.add(f'env{how}_{bits}', f'{env} #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] pub enum S00<T, U> {{ V0(T, {f}), V1 {{ u: U }} }}',
                  [(f'IsO::<S00<X0, X1>, X{m}, Bt, funcmap::TypeParam<{m}>, S00<{"Bt, X1" if m == 0 else "X0, Bt"}>>::{tr}', True, f'surroundings use {taken}') for m in (0, 1) for tr in 'FT'])
    mentions(d, ck)
    # the whole alphabet and the first generations of reserved names
    gens = [UPPER, UPPER + [f'__FUNCMAP_{x}' for x in UPPER], UPPER + [f'__FUNCMAP_{x}{i}' for i in ('', 2) for x in UPPER], UPPER + [f'__FUNCMAP_{x}{i}' for i in ('', 2, 3) for x in UPPER]]
    for gi, g in enumerate(gens):
        for miss in (['', 'A', 'B', 'E', 'F', 'Z', 'M', 'AB', 'EF', 'FG', 'ABEF', 'YZ'] if gi == 0 else ['', 'A', 'Z']):
            names = [x for x in g if not any(x == c for c in miss)]
            for pos in (0, len(names) // 2, len(names) - 1):
                inst = lambda x: ', '.join(x if j == pos else 'u8' for j in range(len(names)))
                d.add(f'all{gi}_{miss}_{pos}', f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(params({names[pos]}))] pub struct S00<{", ".join(names)}>({", ".join(names)});',
                      [(f'IsO::<S00<{inst("X0")}>, X0, Bt, funcmap::TypeParam<{pos}>, S00<{inst("Bt")}>>::{tr}', True, f'all letters but {miss}') for tr in 'FT'])
    d.judge()
    ck.log(f'{len(d.seen)} combinations of taken names')
