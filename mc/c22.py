"""C22: explicit-marker mapping equals plain mapping; markers are closed and select alone."""
import itertools, os
import c19, ctlib
from ctlib import Defs
from vlib import Batch, chunks, pmap, run, show
from runtime import lib, derived, done

# documented standard types: name -> (instance with X0, X1, ..; mapped parameter indexes)
LIBT = {f't{i}': (t[1].format('X0', 'X1'), list(t[3])) for i, t in enumerate(c19.TY)}
LIBT.update({'unit': ('()', []), 'bool': ('bool', []), 'string': ('String', [])})
NM = 5

PROBES = r'''
pub trait NoMarker { const M: bool = false; }
pub struct Mk<Q, P>(core::marker::PhantomData<(Q, P)>);
impl<Q, P> NoMarker for Mk<Q, P> {}
impl<Q: funcmap::FuncMarker<P>, P> Mk<Q, P> { pub const M: bool = true; }
pub type Tp<const N: usize> = TypeParam<N>;
pub struct Mine; pub enum MineE {} pub struct MineC<const N: usize>; pub type Alias1 = TypeParam<1>;
'''
ORD = '#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, Debug)] '
HDR = ctlib.IS + PROBES.rstrip() + '\n' + ''.join(ORD + f'pub struct X{i};\n' for i in range(5)) + ORD + 'pub struct Bt;'
USE = 'use super::*; use super::is::{Is, IsO, No};'


def c22(ck):
    lib(ck, 'C22')
    dv = derived(ck, 'c22') if ck.rlibs.get('fmrt') else None
    if not ck.rlibs.get('fmrt'):
        return done(ck)
    closed(ck)
    wrong(ck)
    selection(ck)
    return done(ck, dv)


def closed(ck):
    d = Defs(ck, header=HDR, name='closed', shards=2)
    ks = list(range(6)) + [255, '{ usize::MAX }']
    for i, n in enumerate(ks):
        d.add(f'm{i}', '', [(f'Mk::<Tp<{n}>, Tp<{m}>>::M', n == m, f'TypeParam<{n}>: FuncMarker<TypeParam<{m}>>') for m in ks], pre=USE)
    other = ['u8', '()', 'usize', 'Mine', 'MineE', 'MineC<0>', "&'static Tp<0>", '[Tp<0>; 1]', '(Tp<0>,)', 'Box<Tp<0>>', 'Option<Tp<0>>', 'core::marker::PhantomData<Tp<0>>', 'core::convert::Infallible', 'fn() -> Tp<0>', 'str', "&'static str", 'X0', '(Tp<0>, Tp<1>)']
    for i, o in enumerate(other):
        if o == 'str':
            continue
        d.add(f'o{i}', '', [(f'Mk::<{a}, {b}>::M', False, f'{a}: FuncMarker<{b}>') for a, b in [(o, o), (o, 'Tp<0>'), ('Tp<0>', o), (o, 'Tp<1>'), (o, 'Mine')]], pre=USE)
    # the markers are types without values, of size zero
    for i, n in enumerate(ks):
        d.add(f'z{i}', f'pub fn none(x: Tp<{n}>) -> u8 {{ match x {{}} }}\npub fn opt(x: Option<Tp<{n}>>) -> () {{ let None = x; }}\npub fn cpy(x: &Tp<{n}>) -> Tp<{n}> {{ *x }}',
              [(f'(core::mem::size_of::<Tp<{n}>>() == 0)', True, 'size of the marker'), (f'(core::mem::size_of::<Option<Tp<{n}>>>() == 0)', True, 'size of an optional marker')], pre=USE)
    # a known marker type determines the marker parameter and can be passed around generically
    gen = '''
pub fn g<P, A, B, S: FuncMap<A, B, P>>(s: S, f: impl FnMut(A) -> B) -> S::Output where P: funcmap::FuncMarker<P> { s.func_map_over::<P, _>(f) }
pub fn h<P, A, B, E, S: TryFuncMap<A, B, P>>(s: S, f: impl FnMut(A) -> Result<B, E>) -> Result<S::Output, E> where P: funcmap::FuncMarker<P> { s.try_func_map_over::<P, _, _>(f) }
pub fn q<P, Q, A, B, S: FuncMap<A, B, P>>(s: S, f: impl FnMut(A) -> B) -> S::Output where P: funcmap::FuncMarker<P>, Q: funcmap::FuncMarker<P> { s.func_map_over::<Q, _>(f) }
pub fn n<const N: usize, A, B, S: FuncMap<A, B, TypeParam<N>>>(s: S, f: impl FnMut(A) -> B) -> S::Output { s.func_map_over::<TypeParam<N>, _>(f) }
pub fn m<const N: usize, A, B, E, S: TryFuncMap<A, B, TypeParam<N>>>(s: S, f: impl FnMut(A) -> Result<B, E>) -> Result<S::Output, E> { s.try_func_map_over::<TypeParam<N>, _, _>(f) }
pub fn fine() { let _: Vec<u16> = n::<0, u8, u16, _>(vec![1u8], |x| x as u16); let _: Result<u8, u16> = g::<TypeParam<1>, _, _, _>(Ok::<u8, u8>(1), |x: u8| x as u16); }
'''
    d.add('generic', gen, pre=USE)
    d.add('dflt', 'pub fn f<S: FuncMap<u8, u16>>(s: S) -> S::Output { FuncMap::<u8, u16, TypeParam<0>>::func_map(s, |x| x as u16) }\npub fn f0<S: FuncMap<u8, u16, TypeParam<0>>>(s: S) -> S::Output { f(s) }\n'
          'pub fn t<S: TryFuncMap<u8, u16>>(s: S) -> Result<S::Output, ()> { TryFuncMap::<u8, u16, TypeParam<0>>::try_func_map(s, |x| Ok(x as u16)) }\npub fn t0<S: TryFuncMap<u8, u16, TypeParam<0>>>(s: S) -> Result<S::Output, ()> { t(s) }', pre=USE)
    d.judge()
    # programs that try to add or fake markers: each must be rejected
    bad = {
        'impl_self': 'impl funcmap::FuncMarker<Mine2> for Mine2 {} pub struct Mine2;',
        'impl_zero': 'impl funcmap::FuncMarker<TypeParam<0>> for Mine2 {} pub struct Mine2;',
        'impl_any': 'impl<P> funcmap::FuncMarker<P> for Mine2 {} pub struct Mine2;',
        'impl_const': 'impl<const N: usize> funcmap::FuncMarker<TypeParam<N>> for Mine2<N> {} pub struct Mine2<const N: usize>;',
        'impl_for_tp': 'impl funcmap::FuncMarker<Mine2> for TypeParam<0> {} pub struct Mine2;',
        'impl_gen': 'impl<const N: usize> funcmap::FuncMarker<Mine2> for TypeParam<N> {} pub struct Mine2;',
        'impl_ref': "impl<'a> funcmap::FuncMarker<&'a Mine2> for &'a Mine2 {} pub struct Mine2;",
        'seal_path': 'impl funcmap::private::Sealed<Mine2> for Mine2 {} pub struct Mine2;',
        'seal_use': 'use funcmap::private::Sealed;',
        'seal_path2': 'impl funcmap::Sealed<Mine2> for Mine2 {} pub struct Mine2;',
        'map_mine': 'pub struct W(u8); impl FuncMap<u8, u8, Mine> for W { type Output = W; fn func_map<F: FnMut(u8) -> u8>(self, f: F) -> W { self } }',
        'map_mine_t': 'pub struct W(u8); impl TryFuncMap<u8, u8, Mine> for W { type Output = W; fn try_func_map<E, F: FnMut(u8) -> Result<u8, E>>(self, f: F) -> Result<W, E> { Ok(self) } }',
        'map_unit': 'pub struct W(u8); impl FuncMap<u8, u8, ()> for W { type Output = W; fn func_map<F: FnMut(u8) -> u8>(self, f: F) -> W { self } }',
        'map_any': 'pub struct W(u8); impl<P> FuncMap<u8, u8, P> for W { type Output = W; fn func_map<F: FnMut(u8) -> u8>(self, f: F) -> W { self } }',
        'bound_mine': 'pub fn f<S: FuncMap<u8, u8, Mine>>(s: S) {}',
        'bound_any': 'pub fn f<P, S: FuncMap<u8, u8, P>>(s: S) {}',
        'bound_any_t': 'pub fn f<P, S: TryFuncMap<u8, u8, P>>(s: S) {}',
        'value': 'pub fn f() -> TypeParam<0> { TypeParam }',
        'value2': 'pub fn f() -> TypeParam<0> { TypeParam {} }',
        'value3': 'pub fn f() -> TypeParam<0> { TypeParam::<0>() }',
        'value4': 'pub fn f() -> TypeParam<0> { Default::default() }',
        'over_mismatch': 'pub fn f(r: Result<u8, u8>) { let _: Result<u16, u8> = FuncMap::<u8, u16, TypeParam<0>>::func_map_over::<TypeParam<1>, _>(r, |x| x as u16); }',
        'over_mismatch2': 'pub fn f(r: Result<u8, u8>) { let _: Result<u8, u16> = FuncMap::<u8, u16, TypeParam<1>>::func_map_over::<TypeParam<0>, _>(r, |x| x as u16); }',
        'over_mismatch_t': 'pub fn f(r: Result<u8, u8>) { let _: Result<Result<u16, u8>, ()> = TryFuncMap::<u8, u16, TypeParam<0>>::try_func_map_over::<TypeParam<1>, _, _>(r, |x| Ok(x as u16)); }',
        'over_mine': 'pub fn f(r: Option<u8>) { let _ = r.func_map_over::<Mine, _>(|x: u8| x); }',
        'over_mine_t': 'pub fn f(r: Option<u8>) { let _ = r.try_func_map_over::<Mine, _, _>(|x: u8| Ok::<u8, ()>(x)); }',
        'over_unit': 'pub fn f(r: Option<u8>) { let _ = r.func_map_over::<(), _>(|x: u8| x); }',
        'over_implicit': 'pub fn f(r: Option<u8>) -> Option<u16> { r.func_map_over(|x: u8| x as u16) }',
        'over_infer': 'pub fn f(r: Option<u8>) -> Option<u16> { r.func_map_over::<_, _>(|x: u8| x as u16) }',
        'over_infer_t': 'pub fn f(r: Option<u8>) -> Result<Option<u16>, ()> { r.try_func_map_over::<_, _, _>(|x: u8| Ok(x as u16)) }',
        'override': 'pub struct W(u8); impl FuncMap<u8, u8> for W { type Output = W; fn func_map<F: FnMut(u8) -> u8>(self, f: F) -> W { self } fn func_map_over<Q: funcmap::FuncMarker<Mine>, F: FnMut(u8) -> u8>(self, f: F) -> W { self } }',
    }
    refuse(ck, 'closed', bad)


def refuse(ck, name, bad, header=HDR, pre='use super::*;'):
    """Every program must be rejected; each alone shows an error of its own, however many are compiled together."""
    items = list(bad.items())
    alone = []

    def one(arg):
        i, ps = arg
        b = Batch(ck, f'refuse_{name}_{i}', header=header)
        for k, t in ps:
            b.add(k, f'pub mod m_{k} {{ {pre}\n{t}\n}}')
        left = list(b.progs)
        missing = []
        while left:
            c, by, un = b.compile(left, fmrt=False)
            if c.ok:
                return [k for k, _ in left], c
            if not by:
                return [k for k, _ in left if not single(k, dict(ps)[k])], c
            left = [p for p in left if p[0] not in by]
        return missing, None

    def single(k, t):
        b = Batch(ck, f'refuse_{name}_{k}', header=header)
        b.add(k, f'pub mod m_{k} {{ {pre}\n{t}\n}}')
        return not b.compile(fmrt=False)[0].ok
    n = 0
    for miss, _ in pmap(one, enumerate(chunks(items, max(4, min(24, len(items) // 100))))):
        for k in miss:
            ck.violation(f'{name} {k}: the program is accepted', bad[k])
    ck.add(states=len(items), transitions=len(items), traces=len(items), samples=[items[len(items) // 2][1]])
    ck.log(f'{name}: {len(items)} programs that must be rejected')


def kinds():
    """Generic types of this crate: every parameter sequence up to length 3 with every choice of mapped parameters"""
    out = {}
    for ln in (1, 2, 3):
        for seq in itertools.product('TC', repeat=ln):
            ts = [i for i in range(ln) if seq[i] == 'T']
            for r in range(1, len(ts) + 1):
                for m in itertools.combinations(ts, r):
                    out[''.join(seq) + '_' + ''.join(map(str, m))] = (seq, list(m))
    return out


def wrong(ck):
    """For every type and marker number, naming the marker is accepted iff the type has the implementation"""
    good, bad = {}, {}

    def put(name, decl, inst, mapped, bare=False):
        for mk in range(NM):
            ok = mk in mapped
            for tr in 'ft':
                for src in [f'X{mk}'] if ok else [f'X{i}' for i in (mapped or [0])]:
                    call = f's.func_map_over::<TypeParam<{mk}>, _>(|x: {src}| Bt)' if tr == 'f' else f's.try_func_map_over::<TypeParam<{mk}>, _, _>(|x: {src}| Ok::<Bt, ()>(Bt))'
                    plain = f'FuncMap::<{src}, Bt, TypeParam<{mk}>>::func_map(s, |x| Bt)' if tr == 'f' else f'TryFuncMap::<{src}, Bt, TypeParam<{mk}>>::try_func_map(s, |x| Ok::<Bt, ()>(Bt))'
                    for how, e in (('over', call), ('plain', plain)):
                        t = decl + f'pub fn call(s: {inst}) {{ let _ = {e}; }}'
                        (good if ok else bad)[f'{name}_{mk}_{tr}_{how}_{src}'] = t
    for name, (inst, mapped) in LIBT.items():
        put('lib_' + name, '', inst, mapped)
    for name, (seq, mapped) in kinds().items():
        ps = ', '.join(f'P{i}' if k == 'T' else f'const P{i}: usize' for i, k in enumerate(seq))
        inst = 'S<' + ', '.join(f'X{i}' if k == 'T' else '3' for i, k in enumerate(seq)) + '>'
        fs = ', '.join(f'pub P{i}' if k == 'T' else f'pub [u8; P{i}]' for i, k in enumerate(seq))
        opt = ' #[funcmap(params(' + ', '.join(f'P{i}' for i in mapped) + '))]'
        put('own_' + name, f'#[derive(FuncMap, TryFuncMap)]{opt} pub struct S<{ps}>({fs});\n', inst, mapped)
    d = Defs(ck, header=HDR, name='right', shards=8)
    for k, t in good.items():
        d.add(k, t, pre=USE)
    d.judge()
    refuse(ck, 'wrong', bad)


def selection(ck):
    """All parameters have the same type: only the named marker decides which of them is mapped"""
    body, cases = [], 0
    decls = []

    def case(what, expr, want):
        nonlocal cases
        cases += 1
        body.append(f'ck("{what}", format!("{{:?}}", {expr}), {want});')
    n = 0
    for ln in (1, 2, 3, 4):
        for seq in itertools.product('TC', repeat=ln):
            if 'T' not in seq:
                continue
            n += 1
            name = 'S' + ''.join(seq)
            ps = ', '.join(f'P{i}' if k == 'T' else f'const P{i}: usize' for i, k in enumerate(seq))
            fs = ', '.join(f'P{i}' if k == 'T' else f'[u8; P{i}]' for i, k in enumerate(seq))
            decls.append(f'#[derive(Debug, FuncMap, TryFuncMap)] pub struct {name}<{ps}>({fs});')
            val = f'{name}(' + ', '.join(f'{i + 1}u8' if k == 'T' else f'[0u8; {i}]' for i, k in enumerate(seq)) + ')'

            def show(m, wrap='{}'):
                s = f'{name}(' + ', '.join((str((i + 1) * 10) if i in m else str(i + 1)) if k == 'T' else '[' + ', '.join(['0'] * i) + ']' for i, k in enumerate(seq)) + ')'
                return '"' + wrap.format(s) + '"'
            ts = [i for i, k in enumerate(seq) if k == 'T']
            for m in ts:
                case(f'{name} {m}', f'{val}.func_map_over::<TypeParam<{m}>, _>(|x| x * 10)', show([m]))
                case(f'{name} {m} fallible', f'{val}.try_func_map_over::<TypeParam<{m}>, _, _>(|x| Ok::<u8, ()>(x * 10))', show([m], 'Ok({})'))
                case(f'{name} {m} error', f'{val}.try_func_map_over::<TypeParam<{m}>, _, _>(|x| Err::<u8, _>(x)).unwrap_err()', f'"{m + 1}"')
                case(f'{name} {m} plain', f'FuncMap::<_, _, TypeParam<{m}>>::func_map({val}, |x: u8| x * 10)', show([m]))
                case(f'{name} {m} plain fallible', f'TryFuncMap::<_, _, TypeParam<{m}>>::try_func_map({val}, |x: u8| Ok::<u8, ()>(x * 10))', show([m], 'Ok({})'))
                for k in ts:
                    if k != m:
                        case(f'{name} {m} then {k}', f'{val}.func_map_over::<TypeParam<{m}>, _>(|x| x * 10).func_map_over::<TypeParam<{k}>, _>(|x| x * 10)', show([m, k]))
    lit = [
        ('Result', 'Ok::<u8, u8>(1)', ['Ok(10)', 'Ok(1)']), ('Result Err', 'Err::<u8, u8>(1)', ['Err(1)', 'Err(10)']),
        ('Flow', 'std::ops::ControlFlow::Break::<u8, u8>(1)', ['Break(10)', 'Break(1)']), ('Flow C', 'std::ops::ControlFlow::Continue::<u8, u8>(1)', ['Continue(1)', 'Continue(10)']),
        ('BTreeMap', 'std::collections::BTreeMap::<u8, u8>::from([(1, 2)])', ['{10: 2}', '{1: 20}']), ('HashMap', 'std::collections::HashMap::<u8, u8>::from([(1, 2)])', ['{10: 2}', '{1: 20}']),
        ('Option', 'Some(1u8)', ['Some(10)']), ('Vec', 'vec![1u8, 2]', ['[10, 20]']), ('array', '[1u8, 2]', ['[10, 20]']),
    ]
    for nm, v, outs in lit:
        for m, o in enumerate(outs):
            case(f'{nm} {m}', f'{v}.func_map_over::<TypeParam<{m}>, _>(|x| x * 10)', f'"{o}"')
            case(f'{nm} {m} fallible', f'{v}.try_func_map_over::<TypeParam<{m}>, _, _>(|x| Ok::<u8, ()>(x * 10))', f'"Ok({o})"')
    # implementations written by hand: the provided methods call the plain ones, once, with the given value and closure
    manual = r'''
use std::cell::RefCell;
thread_local!(static LOG: RefCell<Vec<String>> = RefCell::new(Vec::new()));
fn log(s: String) { LOG.with(|l| l.borrow_mut().push(s)); }
struct Man(u8, u8);
impl Drop for Man { fn drop(&mut self) { log(format!("drop {} {}", self.0, self.1)); } }
impl FuncMap<u8, u8, TypeParam<0>> for Man { type Output = (u8, u8); fn func_map<F: FnMut(u8) -> u8>(self, mut f: F) -> (u8, u8) { log("map 0".into()); (f(self.0), f(self.1)) } }
impl FuncMap<u8, u8, TypeParam<7>> for Man { type Output = [u8; 3]; fn func_map<F: FnMut(u8) -> u8>(self, mut f: F) -> [u8; 3] { log("map 7".into()); [f(self.1), f(self.0), f(self.1)] } }
impl FuncMap<u8, u8, TypeParam<3>> for Man { type Output = (); fn func_map<F: FnMut(u8) -> u8>(self, _: F) { log("map 3".into()); } }
impl TryFuncMap<u8, u8, TypeParam<0>> for Man { type Output = (u8, u8); fn try_func_map<E, F: FnMut(u8) -> Result<u8, E>>(self, mut f: F) -> Result<(u8, u8), E> { log("try 0".into()); Ok((f(self.0)?, f(self.1)?)) } }
impl TryFuncMap<u8, u8, TypeParam<7>> for Man { type Output = [u8; 3]; fn try_func_map<E, F: FnMut(u8) -> Result<u8, E>>(self, mut f: F) -> Result<[u8; 3], E> { log("try 7".into()); let r = [f(self.1), f(self.0), f(self.1)]; let [a, b, c] = r; Ok([a?, b?, c?]) } }
struct Clo(&'static str);
impl Drop for Clo { fn drop(&mut self) { log(format!("drop {}", self.0)); } }
fn manual() {
    fn run<R: std::fmt::Debug>(f: impl FnOnce() -> R) -> (String, Vec<String>) {
        LOG.with(|l| l.borrow_mut().clear());
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let r = match r { Ok(r) => format!("{r:?}"), Err(e) => format!("panic {:?}", e.downcast_ref::<String>()) };
        (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
    }
    for end in 0..5u8 {
        // call number `end` fails or panics
        for (m, over, plain) in [
            (0, pair!(0, end, over), pair!(0, end, plain)), (7, pair!(7, end, over), pair!(7, end, plain)), (100, try_pair!(0, end, over), try_pair!(0, end, plain)), (107, try_pair!(7, end, over), try_pair!(7, end, plain)),
        ] as [(u8, Box<dyn Fn() -> String>, Box<dyn Fn() -> String>); 4] {
            let (a, b) = (run(over), run(plain));
            if a != b || a.1.len() < 4 { println!("BAD manual {m} {end}: explicit {a:?}, plain {b:?}"); }
            println!("CASE");
        }
    }
    let a = run(|| Man(1, 2).func_map_over::<TypeParam<3>, _>(|x: u8| x));
    if a.1 != ["map 3", "drop 1 2"] { println!("BAD manual 3: {a:?}"); }
    println!("CASE");
}
#[macro_export] macro_rules! pair {
    (@ $c:ident, $k:ident, $n:ident, $end:ident) => { move |x: u8| { let _ = &$c; $n += 1; log(format!("call {x}")); if $n == $end { panic!("{}", format!("at {x}")) } x * 10 } };
    ($k:literal, $end:ident, over) => { Box::new(move || { let c = Clo("closure"); let mut n = 0; format!("{:?}", Man(1, 2).func_map_over::<TypeParam<$k>, _>(pair!(@ c, k, n, $end))) }) };
    ($k:literal, $end:ident, plain) => { Box::new(move || { let c = Clo("closure"); let mut n = 0; format!("{:?}", FuncMap::<_, _, TypeParam<$k>>::func_map(Man(1, 2), pair!(@ c, k, n, $end))) }) };
}
#[macro_export] macro_rules! try_pair {
    (@ $c:ident, $n:ident, $end:ident) => { move |x: u8| -> Result<u8, String> { let _ = &$c; $n += 1; log(format!("call {x}")); if $n == $end { Err(format!("err {x}")) } else { Ok(x * 10) } } };
    ($k:literal, $end:ident, over) => { Box::new(move || { let c = Clo("closure"); let mut n = 0; format!("{:?}", Man(1, 2).try_func_map_over::<TypeParam<$k>, _, _>(try_pair!(@ c, n, $end))) }) };
    ($k:literal, $end:ident, plain) => { Box::new(move || { let c = Clo("closure"); let mut n = 0; format!("{:?}", TryFuncMap::<_, _, TypeParam<$k>>::try_func_map(Man(1, 2), try_pair!(@ c, n, $end))) }) };
}
'''
    # macros before their uses
    i = manual.index('#[macro_export]')
    manual = manual[i:].replace('#[macro_export] ', '') + manual[:i]
    src = ('#![allow(unused)]\nextern crate funcmap;\nuse funcmap::{FuncMap, TryFuncMap, TypeParam};\n' + '\n'.join(decls) + manual +
           'fn ck(what: &str, got: String, want: &str) { if got != want { println!("BAD {what}: got {got}, expected {want}"); } println!("CASE"); }\n'
           'fn main() { std::panic::set_hook(Box::new(|_| {})); manual();\n' + '\n'.join(body) + '\nprintln!("END"); }\n')
    p = ck.write('selection.rs', src)
    exe = p[:-3]
    c = ck.rustc(p, out=exe, fmrt=False)
    if not c.ok:
        ck.violation('selecting the parameter by the marker alone is rejected: ' + (c.errors()[0].msg if c.errors() else c.err), show(c.errors(), 4) + '\n' + src)
        return
    rc, o, e = run([exe])
    for l in o.splitlines():
        if l.startswith('BAD'):
            ck.violation(l[4:], src)
    if 'END' not in o and not ck.violations:
        ck.violation(f'selection ended abnormally ({rc})', e[-2000:] + src)
    ck.add(states=n + 21, transitions=cases + 21, traces=o.count('CASE'), samples=[body[7]])
    ck.log(f'selection: {cases + 21} results')
