"""C19: every feature configuration builds and provides exactly its types.

All subsets of the features are built from the current tree as a dependency. For each resulting
configuration: the full table of types, markers and closure types is queried; every listed
implementation is run on all small values; crates without the standard library are linked."""
import itertools, json, os, shutil, subprocess
from vlib import Broken, Compiled, Diag, REPO, VERIF, env, pmap, run

LEVELS = ['none', 'alloc', 'std']
FEATURES = ['default', 'std', 'alloc']

# (level, type, parameters, {mapped parameter: bound on the target}, [bound on other parameters])
# and for running: builder from `v: Vec<u8>` (None if that many elements are impossible), elements of the result, ordered?
C = 'core::'
A = 'std::collections::'
ORD, HASH = 'Ord', 'Eq + core::hash::Hash'
TY = [
    (0, '[{0}; 3]', 1, {0: ''}, 'if v.len() == 3 { Some([v[0], v[1], v[2]]) } else { None }', 'r.to_vec()'),
    (0, '[{0}; 0]', 1, {0: ''}, 'if v.is_empty() { Some([]) } else { None }', 'r.to_vec()'),
    (0, 'core::ops::Bound<{0}>', 1, {0: ''}, 'match v.len() { 0 => Some(Bound::Unbounded), 1 => Some(Bound::Excluded(v[0])), _ => None }', 'match r { Bound::Excluded(x) => vec![x], Bound::Included(x) => vec![x, x], _ => vec![] }'),
    (0, 'core::cell::Cell<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(v[0].into()) } else { None }', 'vec![r.into_inner()]'),
    (0, 'core::ops::ControlFlow<{0}, {1}>', 2, {0: '', 1: ''}, None, None),
    (0, 'Option<{0}>', 1, {0: ''}, 'match v.len() { 0 => Some(None), 1 => Some(Some(v[0])), _ => None }', 'r.into_iter().collect()'),
    (0, 'core::option::IntoIter<{0}>', 1, {0: ''}, 'match v.len() { 0 => Some(None.into_iter()), 1 => Some(Some(v[0]).into_iter()), _ => None }', 'r.collect()'),
    (0, 'core::marker::PhantomData<{0}>', 1, {0: ''}, 'if v.is_empty() { Some(core::marker::PhantomData) } else { None }', '{ let _ = r; vec![] }'),
    (0, 'core::task::Poll<{0}>', 1, {0: ''}, 'match v.len() { 0 => Some(Poll::Pending), 1 => Some(Poll::Ready(v[0])), _ => None }', 'match r { Poll::Ready(x) => vec![x], _ => vec![] }'),
    (0, 'core::ops::Range<{0}>', 1, {0: ''}, 'if v.len() == 2 { Some(v[0]..v[1]) } else { None }', 'vec![r.start, r.end]'),
    (0, 'core::ops::RangeFrom<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(v[0]..) } else { None }', 'vec![r.start]'),
    (0, 'core::ops::RangeInclusive<{0}>', 1, {0: ''}, 'if v.len() == 2 { Some(v[0]..=v[1]) } else { None }', '{ let (a, b) = r.into_inner(); vec![a, b] }'),
    (0, 'core::ops::RangeTo<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(..v[0]) } else { None }', 'vec![r.end]'),
    (0, 'core::ops::RangeToInclusive<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(..=v[0]) } else { None }', 'vec![r.end]'),
    (0, 'core::cell::RefCell<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(v[0].into()) } else { None }', 'vec![r.into_inner()]'),
    (0, 'Result<{0}, {1}>', 2, {0: '', 1: ''}, None, None),
    (0, 'core::result::IntoIter<{0}>', 1, {0: ''}, 'match v.len() { 0 => Some(Err(()).into_iter()), 1 => Some(Ok::<u8, ()>(v[0]).into_iter()), _ => None }', 'r.collect()'),
    (0, 'core::cell::UnsafeCell<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(v[0].into()) } else { None }', 'vec![r.into_inner()]'),
    (1, A + 'BinaryHeap<{0}>', 1, {0: ORD}, 'Some(v.into_iter().collect())', 'r.into_sorted_vec()', 0),
    (1, A + 'binary_heap::IntoIter<{0}>', 1, {0: ORD}, 'Some(v.into_iter().collect::<BinaryHeap<_>>().into_iter())', 'r.collect()', 0),
    (1, 'Box<{0}>', 1, {0: ''}, 'if v.len() == 1 { Some(Box::new(v[0])) } else { None }', 'vec![*r]'),
    (1, A + 'BTreeMap<{0}, {1}>', 2, {0: ORD, 1: ''}, None, None),
    (1, A + 'btree_map::IntoIter<{0}, {1}>', 2, {0: ORD, 1: ''}, None, None),
    (1, A + 'BTreeSet<{0}>', 1, {0: ORD}, 'distinct(v).map(|v| v.into_iter().collect())', 'r.into_iter().collect()', 0),
    (1, A + 'btree_set::IntoIter<{0}>', 1, {0: ORD}, 'distinct(v).map(|v| v.into_iter().collect::<BTreeSet<_>>().into_iter())', 'r.collect()', 0),
    (1, A + 'LinkedList<{0}>', 1, {0: ''}, 'Some(v.into_iter().collect())', 'r.into_iter().collect()'),
    (1, A + 'linked_list::IntoIter<{0}>', 1, {0: ''}, 'Some(v.into_iter().collect::<LinkedList<_>>().into_iter())', 'r.collect()'),
    (1, 'Vec<{0}>', 1, {0: ''}, 'Some(v)', 'r'),
    (1, 'std::vec::IntoIter<{0}>', 1, {0: ''}, 'Some(v.into_iter())', 'r.collect()'),
    (1, A + 'VecDeque<{0}>', 1, {0: ''}, 'Some(v.into())', 'r.into()'),
    (1, A + 'vec_deque::IntoIter<{0}>', 1, {0: ''}, 'Some(VecDeque::from(v).into_iter())', 'r.collect()'),
    (2, A + 'HashMap<{0}, {1}>', 2, {0: HASH, 1: ''}, None, None),
    (2, A + 'hash_map::IntoIter<{0}, {1}>', 2, {0: HASH, 1: ''}, None, None),
    (2, A + 'HashSet<{0}>', 1, {0: HASH}, 'distinct(v).map(|v| v.into_iter().collect())', 'r.into_iter().collect()', 0),
    (2, A + 'hash_set::IntoIter<{0}>', 1, {0: HASH}, 'distinct(v).map(|v| v.into_iter().collect::<HashSet<_>>().into_iter())', 'r.collect()', 0),
]
# two parameters: (level, type in terms of a and b, builder from v (values) with the other side constant, elements, ordered)
TWO = [
    (0, 'core::ops::ControlFlow<{0}, {1}>', [
        ('match v.len() { 1 => Some(ControlFlow::<u8, i8>::Break(v[0])), 0 => Some(ControlFlow::Continue(7)), _ => None }', 'match r { ControlFlow::Break(x) => vec![x], ControlFlow::Continue(y) => { assert_eq!(y, 7); vec![] } }'),
        ('match v.len() { 1 => Some(ControlFlow::<i8, u8>::Continue(v[0])), 0 => Some(ControlFlow::Break(7)), _ => None }', 'match r { ControlFlow::Continue(x) => vec![x], ControlFlow::Break(y) => { assert_eq!(y, 7); vec![] } }')], 1),
    (0, 'Result<{0}, {1}>', [
        ('match v.len() { 1 => Some(Ok::<u8, i8>(v[0])), 0 => Some(Err(7)), _ => None }', 'match r { Ok(x) => vec![x], Err(y) => { assert_eq!(y, 7); vec![] } }'),
        ('match v.len() { 1 => Some(Err::<i8, u8>(v[0])), 0 => Some(Ok(7)), _ => None }', 'match r { Err(x) => vec![x], Ok(y) => { assert_eq!(y, 7); vec![] } }')], 1),
]
for lvl, name, mod in ((1, 'BTreeMap', 'btree_map'), (2, 'HashMap', 'hash_map')):
    for ty, mk, it in ((A + name, '', '.into_iter()'), (A + mod + '::IntoIter', '.into_iter()', '')):
        TWO.append((lvl, ty + '<{0}, {1}>', [
            ('distinct(v).map(|v| v.into_iter().map(|k| (k, k as i8 + 3)).collect::<%s<u8, i8>>()%s)' % (name, mk), 'r%s.map(|(k, w)| { assert_eq!(k, f1((w - 3) as u8)); k }).collect()' % it),
            ('Some(v.into_iter().enumerate().map(|(i, w)| (i as i8, w)).collect::<%s<i8, u8>>()%s)' % (name, mk), '{ let mut v: Vec<_> = r%s.collect(); v.sort(); v.into_iter().enumerate().map(|(i, (k, w))| { assert_eq!(k, i as i8); w }).collect() }' % it)], 0))

# types without an implementation in any configuration
NOT = ['&\'static {0}', '&\'static mut {0}', '*const {0}', 'fn() -> {0}', '({0},)', '({0}, {1})', '({0}, {0})', 'std::rc::Rc<{0}>', 'std::sync::Arc<{0}>', '&\'static [{0}]', 'std::rc::Weak<{0}>', 'Box<[{0}]>', 'core::iter::Empty<{0}>', '{0}']

MAIN = r'''
use std::collections::*; use core::ops::*; use core::task::Poll;
fn f1(x: u8) -> u16 { 1000 - x as u16 * 3 }
fn distinct(v: Vec<u8>) -> Option<Vec<u8>> { if v.windows(2).all(|w| w[0] < w[1]) { Some(v) } else { None } }
#[derive(Clone, Debug, Eq, Ord, PartialEq, PartialOrd, Hash)] pub struct Er(usize);
fn explore<S, R>(name: &str, ordered: bool, mk: impl Fn(Vec<u8>) -> Option<S>, m: impl Fn(S, &mut dyn FnMut(u8) -> u16) -> R, t: impl Fn(S, &mut dyn FnMut(u8) -> Result<u16, Er>) -> Result<R, Er>, un: impl Fn(R) -> Vec<u16>, tot: &mut usize) {
    let sort = |mut v: Vec<u16>| { if !ordered { v.sort(); } v };
    let mut some = false;
    for n in 0..4usize { for code in 0..3usize.pow(n as u32) {
        let v: Vec<u8> = (0..n).map(|i| (code / 3usize.pow(i as u32) % 3) as u8).collect();
        let want = sort(v.iter().map(|&x| f1(x)).collect());
        let Some(s) = mk(v.clone()) else { continue };
        some = true;
        let mut calls = vec![];
        let r = m(s, &mut |x| { calls.push(f1(x)); f1(x) });
        *tot += 1;
        if sort(calls.clone()) != want { println!("BAD {name} {v:?}: calls {calls:?}"); }
        let r = sort(un(r));
        if r != want { println!("BAD {name} {v:?}: result {r:?}"); }
        for fail in 0..=n {
            let mut calls = vec![];
            let r = t(mk(v.clone()).unwrap(), &mut |x| { let i = calls.len(); calls.push(f1(x)); if i >= fail { Err(Er(i)) } else { Ok(f1(x)) } });
            *tot += 1;
            match r {
                Ok(r) => { if fail < n { println!("BAD {name} {v:?}: no failure at {fail}"); } let r = sort(un(r)); if r != want { println!("BAD {name} {v:?}: fallible result {r:?}"); } }
                Err(e) => if fail == n || e != Er(fail) || calls.len() != fail + 1 { println!("BAD {name} {v:?}: failure {e:?} at {fail} after {calls:?}"); }
            }
        }
    } }
    if !some { println!("BAD {name}: machinery: no values"); }
}
'''


def table(level):
    """Compile-time queries for one configuration; returns [(text, meaning)]"""
    out = []
    for e in TY:
        lvl, ty, n, mapped = e[:4]
        for m in range(4):
            for s in ('X0', 'X1', 'Y'):
                for tgt, okord in (('Y', True), ('NoOrd', False)):
                    insts = ty.format('X0', 'X1')
                    want = lvl <= level and m in mapped and s == f'X{m}' and (okord or not mapped[m])
                    for tr in 'FT':
                        out.append((f'Is::<{insts}, {s}, {tgt}, TypeParam<{m}>>::{tr}', want, f'{LEVELS[level]}: implementation of {insts} from {s} to {tgt} for marker {m} ({tr})'))
                        if want:
                            a = ['X0', 'X1']
                            a[m] = tgt
                            out.append((f'IsO::<{insts}, {s}, {tgt}, TypeParam<{m}>, {ty.format(*a)}>::{tr}', True, f'{LEVELS[level]}: result type of {insts} for marker {m} ({tr})'))
                # arguments that are not ordered or hashable as the source are fine
                if s == f'X{m}' and m in mapped and lvl <= level:
                    a = ['X0', 'X1']
                    a[m] = 'NoOrd'
                    for tr in 'FT':
                        out.append((f'Is::<{ty.format(*a)}, NoOrd, Y, TypeParam<{m}>>::{tr}', True, f'{LEVELS[level]}: source {ty.format(*a)} for marker {m} ({tr})'))
    for ty in NOT:
        for m in range(2):
            for s in ('X0', 'X1'):
                for tr in 'FT':
                    out.append((f'Is::<{ty.format("X0", "X1")}, {s}, Y, TypeParam<{m}>>::{tr}', False, f'{LEVELS[level]}: implementation of {ty} from {s} ({m}, {tr})'))
    return out


def generic(level):
    """The implementations are generic over everything but the documented bounds"""
    out, i = '', 0
    for e in TY:
        lvl, ty, n, mapped = e[:4]
        if lvl > level:
            continue
        for m, bound in mapped.items():
            i += 1
            src = ['A', 'O']
            dst = ['A', 'O']
            if m:
                src = ['O', 'A']
            dst = ['B' if x == 'A' else x for x in src]
            other = ', O' if n == 2 else ''
            # the key of a map keeps its place and needs its own bound
            ob = next((b for k, b in mapped.items() if k != m and b), '')
            w = ' where ' + ', '.join([f'B: {bound}'] * bool(bound) + [f'O: {ob}'] * bool(ob and m)) if bound or (ob and m) else ''
            S, D = ty.format(*src), ty.format(*dst)
            out += (f'pub fn g{i}<A, B{other}>(s: {S}, f: impl FnMut(A) -> B) -> {D}{w} {{ FuncMap::<A, B, TypeParam<{m}>>::func_map(s, f) }}\n'
                    f'pub fn t{i}<A, B, E{other}>(s: {S}, f: impl FnMut(A) -> Result<B, E>) -> Result<{D}, E>{w} {{ TryFuncMap::<A, B, TypeParam<{m}>>::try_func_map(s, f) }}\n')
    return out


HASHERS = r'''
#[derive(Default, Clone)] pub struct Hs; impl std::hash::BuildHasher for Hs { type Hasher = std::collections::hash_map::DefaultHasher; fn build_hasher(&self) -> Self::Hasher { std::collections::hash_map::DefaultHasher::new() } }
'''
IMPLICIT = "#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct X0; #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct X1; #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)] pub struct Y; pub struct NoOrd;"

NOSTD = r'''#![no_std]
#![allow(dead_code)]
#[panic_handler] fn ph(_: &core::panic::PanicInfo) -> ! { loop {} }
extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap};
'''
GLOBAL_ALLOC = r'''
extern crate alloc;
pub struct Al; unsafe impl core::alloc::GlobalAlloc for Al { unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() } unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {} }
#[global_allocator] static GA: Al = Al;
'''


def nostd_defs(level):
    """Derives in a crate without the standard library"""
    tys = ['T', '[T; 2]', '(T, U)', 'Option<T>', 'Result<T, U>', 'core::cell::Cell<T>', 'core::ops::ControlFlow<U, [T; 2]>', 'core::marker::PhantomData<T>', '(T,)', 'W<T>']
    if level:
        tys += ['alloc::vec::Vec<T>', 'alloc::boxed::Box<U>', 'alloc::collections::LinkedList<(T, T)>', 'alloc::collections::VecDeque<Option<T>>']
    out = '#[derive(FuncMap, TryFuncMap)] pub struct W<A>(A);\n'
    n = 0
    calls = ''
    for a, b in itertools.product(tys, repeat=2):
        n += 1
        for kind, d in (('s', f'pub struct S{n}<T, U>(pub {a}, pub {b}, pub U, pub Option<T>);'), ('n', f'pub struct N{n}<T: Copy, U> where U: Copy {{ pub a: {a}, pub b: {b}, pub u: U, pub t: T }}'), ('e', f'pub enum E{n}<T, U> {{ A({a}), B {{ x: {b} }}, C(T, U) }}')):
            out += f'#[derive(FuncMap, TryFuncMap)] {d}\n'
            name = kind.upper() + str(n)
            calls += (f'pub fn m_{name}(s: {name}<u8, i8>) -> {name}<u16, i8> {{ s.func_map_over::<funcmap::TypeParam<0>, _>(|x: u8| x as u16) }}\n'
                      f'pub fn t_{name}(s: {name}<u8, i8>) -> Result<{name}<u8, u16>, ()> {{ s.try_func_map_over::<funcmap::TypeParam<1>, _, _>(|x: i8| if x < 0 {{ Err(()) }} else {{ Ok(x as u16) }}) }}\n')
    if level:
        # without naming `alloc` in the prelude
        out = 'use alloc as _alloc;\n' + out
    return out + calls, n * 3


class Configs:
    def __init__(self, ck):
        self.ck = ck
        self.target = os.path.join(ck.target, 'features')
        self.lib = {}
        self.errors = {}

    def build(self):
        ck = self.ck
        os.makedirs(self.target, exist_ok=True)
        subsets = [s for r in range(len(FEATURES) + 1) for s in itertools.combinations(FEATURES, r)]
        first = True
        for i, s in enumerate(subsets):
            d = os.path.join(ck.work, f'dep{i}')
            os.makedirs(os.path.join(d, 'src'))
            with open(os.path.join(d, 'Cargo.toml'), 'w') as f:
                f.write(f'[package]\nname = "dep"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[lib]\npath = "src/lib.rs"\n[dependencies]\nfuncmap = {{ path = "{REPO}/funcmap", default-features = false, features = {json.dumps([x for x in s])} }}\n[profile.dev]\ndebug = false\nincremental = false\n')
            open(os.path.join(d, 'src', 'lib.rs'), 'w').write('')
            lock = open(os.path.join(VERIF, 'harness', 'Cargo.lock')).read().replace('name = "fmrt"', 'name = "dep"')
            open(os.path.join(d, 'Cargo.lock'), 'w').write(lock)
            man = os.path.join(d, 'Cargo.toml')
            if first:
                run(['cargo', 'clean', '--offline', '--manifest-path', man, '--target-dir', self.target, '-p', 'funcmap', '-p', 'funcmap_derive'])
                first = False
            rc, out, err = ck.cargo(['build'], man, self.target)
            libs, feats = None, None
            msgs = []
            for l in out.splitlines():
                if l.startswith('{'):
                    j = json.loads(l)
                    if j.get('reason') == 'compiler-artifact' and j['target']['name'] == 'funcmap':
                        libs = [f for f in j['filenames'] if f.endswith('.rlib')][0]
                    if j.get('reason') == 'compiler-message':
                        msgs.append(j)
            if rc != 0 or not libs:
                m = [j for j in msgs if j['message']['level'] == 'error']
                own = [j for j in m if 'funcmap' in j['package_id'] or j['target']['name'] == 'funcmap']
                text = '\n'.join(j['message'].get('rendered') or '' for j in own or m)
                if not own:
                    raise Broken(f'building with features {s} failed: {text[:500]} {err[-1500:]}')
                self.errors[s] = (own[0]['message']['message'], text)
                continue
            # keep a copy: the next set of features may have the same name
            keep = os.path.join(ck.work, f'l{i}')
            os.makedirs(keep)
            for x in (libs, libs[:-5] + '.rmeta'):
                src = x if os.path.exists(x) else os.path.join(self.target, 'debug', 'deps', os.path.basename(x))
                if os.path.exists(src):
                    shutil.copy(src, keep)
            self.lib[s] = os.path.join(keep, os.path.basename(libs))
        return subsets

    def rustc(self, cfg, name, text, out=None, extra=(), crate_type='lib', edition='2021'):
        ck = self.ck
        src = ck.write(name + '.rs', text)
        cmd = ['rustc', '--edition', edition, '--error-format=json', '-L', 'dependency=' + os.path.join(self.target, 'debug', 'deps'), '--extern', 'funcmap=' + self.lib[cfg], '--crate-type', crate_type, '-C', 'debuginfo=0']
        cmd += ['-o', out] if out else ['--emit', 'metadata=' + src[:-3] + '.rmeta']
        rc, o, e = run(cmd + list(extra) + [src])
        if rc not in (0, 1) or 'internal compiler error' in e:
            raise Broken(f'rustc ended with {rc}: {e[-1500:]}')
        ds = [Diag(j) for j in (json.loads(l) for l in e.splitlines() if l.startswith('{')) if j.get('$message_type', 'diagnostic') == 'diagnostic']
        return Compiled(rc, ds, e)


def level(s):
    return 2 if 'std' in s or 'default' in s else 1 if 'alloc' in s else 0


def c19(ck):
    import ctlib
    cf = Configs(ck)
    subsets = cf.build()
    for s, (what, text) in cf.errors.items():
        ck.violation(f'the crate does not build with features {list(s)}: {what}', text[:4000])
    ck.log(f'{len(cf.lib)} of {len(subsets)} sets of features built')
    tot = dict(q=0, runs=0, links=0, defs=0)

    def queries(s):
        lv = level(s)
        q = table(lv)
        lines = (ctlib.IS.replace('#![allow(unused, dead_code)]', '#![allow(unused, dead_code)]\n') + '\nuse is::*; ' + IMPLICIT).splitlines()
        at = {}
        for expr, want, what in q:
            lines.append(f'const _: () = if {expr} != {str(want).lower()} {{ panic!("x") }};')
            at[len(lines)] = (expr, want, what)
        g0 = len(lines)
        lines += generic(lv).splitlines()
        c = cf.rustc(s, f'table_{"_".join(s) or "empty"}', '\n'.join(lines) + '\n')
        vs = []
        for d in c.errors():
            for l in d.lines():
                if l in at:
                    vs.append((f'features {list(s)}: {at[l][2]}: expected {at[l][1]}', at[l][0] + '\n' + d.text))
                else:
                    vs.append((f'features {list(s)}: a documented implementation is missing or too narrow: {d.msg}', (lines[l - 1] if l <= len(lines) else '') + '\n' + d.text))
        if not c.ok and not vs:
            raise Broken('table does not compile: ' + c.err[-1500:])
        # custom hashers
        if lv == 2:
            hq = []
            for ty, n, b in (('HashMap', 2, 0), ('HashMap', 2, 1), ('HashSet', 1, 0)):
                for h in ('Hs',):
                    src = ['X0', 'X1'][:n]
                    dst = list(src)
                    dst[b] = 'Y'
                    for tr in 'FT':
                        inst = f'std::collections::{ty}<{", ".join(src + [h])}>'
                        hq.append((f'Is::<{inst}, X{b}, Y, TypeParam<{b}>>::{tr}', f'implementation of {inst} for marker {b} ({tr})', None))
                        hq.append((f'IsO::<{inst}, X{b}, Y, TypeParam<{b}>, std::collections::{ty}<{", ".join(dst + [h])}>>::{tr}', f'result type of {inst} for marker {b} ({tr})', 'custom-hasher'))
            lines = (ctlib.IS + '\nuse is::*; ' + IMPLICIT + HASHERS).splitlines()
            at = {}
            for e, what, fid in hq:
                lines.append(f'const _: () = if !{e} {{ panic!("x") }};')
                at[len(lines)] = (e, what, fid)
            c = cf.rustc(s, f'hash_{"_".join(s)}', '\n'.join(lines) + '\n')
            for d in c.errors():
                for l in d.lines():
                    if l not in at:
                        raise Broken('hashers: ' + d.text)
                    e, what, fid = at[l]
                    if d.code == 'E0080' and fid and ck.finding(fid, what):
                        continue
                    vs.append((f'features {list(s)}: {what}: expected', e + '\n' + d.text))
            return s, len(q) + len(hq), vs
        return s, len(q), vs

    for s, n, vs in pmap(queries, list(cf.lib)):
        tot['q'] += n
        for v in vs:
            ck.violation(*v)
    ck.log(f"{tot['q']} queries")

    def execute(s):
        lv = level(s)
        body = ''
        for e in TY:
            if e[0] > lv or e[4] is None:
                continue
            ty = e[1]
            o = 'true' if len(e) < 7 or e[6] else 'false'
            if len(e) == 7 and not e[6]:
                o = 'false'
            one = lambda a: ty.format(a)
            body += (f'explore::<{one("u8")}, {one("u16")}>("{ty}", {o}, |v| {e[4]}, |s, f| FuncMap::<u8, u16, TypeParam<0>>::func_map(s, |x| f(x)), '
                     f'|s, f| TryFuncMap::<u8, u16, TypeParam<0>>::try_func_map(s, |x| f(x)), |r| {e[5]}, &mut tot);\n')
        for lvl, ty, sides, o in TWO:
            if lvl > lv:
                continue
            for m, (mk, un) in enumerate(sides):
                S = ty.format(*(('u8', 'i8') if m == 0 else ('i8', 'u8')))
                R = ty.format(*(('u16', 'i8') if m == 0 else ('i8', 'u16')))
                body += (f'explore::<{S}, {R}>("{ty} marker {m}", {"true" if o else "false"}, |v| {mk}, |s, f| FuncMap::<u8, u16, TypeParam<{m}>>::func_map(s, |x| f(x)), '
                         f'|s, f| TryFuncMap::<u8, u16, TypeParam<{m}>>::try_func_map(s, |x| f(x)), |r| {un}, &mut tot);\n')
        text = '#![allow(unused)]\nextern crate funcmap; use funcmap::{FuncMap, TryFuncMap, TypeParam};\n' + (MAIN.replace('0..4usize', '0..7usize') if ck.thorough else MAIN) + 'fn main() { let mut tot = 0;\n' + body + 'println!("TOTAL {tot}"); }\n'
        name = f'run_{"_".join(s) or "empty"}'
        exe = os.path.join(ck.work, name)
        c = cf.rustc(s, name, text, out=exe, crate_type='bin')
        if not c.ok:
            return s, 0, [(f'features {list(s)}: documented types cannot be mapped: {c.errors()[0].msg if c.errors() else c.err[:300]}', '\n'.join(d.text for d in c.errors()[:4]))]
        rc, o, e = run([exe])
        vs = [(f'features {list(s)}: {l[4:]}', l) for l in o.splitlines() if l.startswith('BAD')]
        n = [l for l in o.splitlines() if l.startswith('TOTAL')]
        if not n and not vs or rc:
            vs.append((f'features {list(s)}: exploring the implementations ended abnormally ({rc})', o[-1000:] + e[-2000:]))
        if any('machinery' in v[0] for v in vs):
            raise Broken(str(vs))
        return s, int(n[0].split()[1]) if n else 0, vs

    for s, n, vs in pmap(execute, list(cf.lib)):
        tot['runs'] += n
        for v in vs:
            ck.violation(*v)
    ck.log(f"{tot['runs']} executions")

    # crates without the standard library
    def link(s):
        lv = level(s)
        vs = []
        defs, n = nostd_defs(min(lv, 1))
        name = f'ns_{"_".join(s) or "empty"}'
        text = NOSTD + (GLOBAL_ALLOC if lv else '') + defs
        c = cf.rustc(s, name, text, out=os.path.join(ck.work, name + '.a'), crate_type='staticlib', extra=['-C', 'panic=abort'])
        if lv < 2:
            if not c.ok:
                e = c.errors() or c.diags
                vs.append((f'features {list(s)}: a crate without the standard library cannot use the crate: {e[0].msg if e else c.err[:300]}', '\n'.join(d.text for d in e[:3])))
        elif c.ok:
            raise Broken('linking the standard library goes unnoticed')
        return n, vs
    for n, vs in pmap(link, list(cf.lib)):
        tot['links'] += 1
        tot['defs'] += n
        for v in vs:
            ck.violation(*v)
    # control: a crate that uses `alloc` without an allocator does not link
    s = next((s for s in cf.lib if level(s) == 1), None)
    if s is not None:
        c = cf.rustc(s, 'ctl', NOSTD, out=os.path.join(ck.work, 'ctl.a'), crate_type='staticlib', extra=['-C', 'panic=abort'])
        if c.ok:
            ck.assumptions.append('an allocation-free configuration is not told apart from an allocating one by linking')
    ck.add(states=tot['defs'] + len(subsets) + tot['q'], transitions=tot['q'] + tot['runs'], traces=tot['runs'] + tot['links'] + len(cf.lib),
           samples=[str([list(s) for s in subsets]), TY[20][1], 'fn g<A, B>(s: Vec<A>, f: impl FnMut(A) -> B) -> Vec<B>'])
    return ck.finish(feature_sets=len(subsets), configurations=3)
