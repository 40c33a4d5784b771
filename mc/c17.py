"""C17: types with a destructor cannot be derived; types whose fields have one can."""
import itertools
import re
import ctlib
import gen
from ctlib import Defs
from vlib import Batch, chunks, pmap, show

PRE = '''#![allow(unused, dead_code, drop_bounds, dyn_drop)]
extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap, TypeParam};
pub trait Alpha {} pub trait Rel<X: ?Sized> {} pub trait HasItem { type Item; }
impl Alpha for u8 {}
pub struct Dropping; impl Drop for Dropping { fn drop(&mut self) {} }
pub struct GDropping<X>(X); impl<X> Drop for GDropping<X> { fn drop(&mut self) {} }
'''.rstrip() + gen.LIB.rstrip()

# (declaration, arguments, where clause)
PARAMS = [
    ('T', 'T', ''), ('T, U', 'T, U', ''), ("'a, T", "'a, T", ''), ('T, const N: usize', 'T, N', ''), ("'a, 'b: 'a, const B: bool, T, U", "'a, 'b, B, T, U", ''),
    ('T: Alpha', 'T', ''), ('T', 'T', 'where T: Alpha'), ('T: Alpha + Clone', 'T', 'where Vec<T>: Rel<T>'), ('T: HasItem', 'T', 'where T::Item: Alpha'), ("T: 'static", 'T', ''), ("'a, T: 'a", "'a, T", "where T: Rel<&'a u8>"),
    ('T: ?Sized', 'T', ''), ('T: Rel<U>, U: Rel<T>', 'T, U', ''), ("T: for<'x> Rel<&'x u8>", 'T', ''), ('T: Drop', 'T', ''), ('T', 'T', 'where u8: Copy'), ('T: Copy', 'T', ''), ('T', 'T', "where T: Iterator<Item = u8>"), ('T: Fn(u8) -> u8', 'T', ''),
]
DEFAULTS = [('T = u8', 'T', 'T', ''), ('T: Alpha = u8', 'T', 'T: Alpha', ''), ("const N: usize = 3, T = ()", 'N, T', 'const N: usize, T', '')]
P = 'std::marker::PhantomData'
SHAPES = [
    ('tuple', 'pub struct\n{n}\n<{g}>({p} pub T) {w};'), ('named', 'pub struct\n{n}\n<{g}> {w} {{ {pn} pub t: T }}'), ('phantom', 'pub struct\n{n}\n<{g}>({p} %s<T>) {w};' % P), ('nofields', 'pub enum\n{n}\n<{g}> {w} {{ A, B({p} %s<T>) }}' % P), ('vec', 'pub struct\n{n}\n<{g}>({p} pub Vec<u8>, pub Box<T>) {w};'),
    ('enum', 'pub enum\n{n}\n<{g}> {w} {{ A({p} T), B {{ x: T }}, C }}'), ('enumcopy', 'pub enum\n{n}\n<{g}> {w} {{ A({p} u8), B {{ x: %s<T> }} }}' % P), ('deep', 'pub struct\n{n}\n<{g}> {w} {{ {pn} a: Vec<(T, [T; 2])>, b: Wrap<T> }}'),
]


def others(args):
    """Fields that use the parameters other than T"""
    r = []
    for a in args.split(', '):
        if a[0] == "'":
            r.append(f'&{a} u8')
        elif a == 'U':
            r.append(f'{P}<U>')
    return r


TYPES = ['T', '[T; 2]', '[T; 0]', '(T, T)', '(T,)', 'Vec<T>', 'Box<T>', f'{P}<T>', 'u8', '[u8; 3]', '()', "&'static str", 'fn(u8) -> u8', 'Wrap<T>', 'Option<[T; 1]>', '[[T; 1]; 2]', '(T)', 'Box<dyn Fn(u8)>', '[(T, u8); 2]']
KINDS = [
    'pub struct\n{n}\n<T>({t}, {x});', 'pub struct\n{n}\n<T> {{ a: {t}, b: {x} }}', 'pub struct\n{n}\n<T>({t});', 'pub struct\n{n}\n<T> {{ a: {t}, b: {t} }}', 'pub enum\n{n}\n<T> {{ A({t}), X({x}) }}', 'pub enum\n{n}\n<T> {{ A({t}) }}', 'pub enum\n{n}\n<T> {{ A({t}), B({t}) }}',
    'pub enum\n{n}\n<T> {{ A {{ a: {t} }}, B({t}, {t}) }}', 'pub enum\n{n}\n<T> {{ A, B({t}), C, X {{ x: {x} }} }}', 'pub enum\n{n}\n<T> {{ A {{}}, B(), C {{ c: {t}, d: {t} }} }}', 'pub enum\n{n}\n<T> {{ A {{ x: {t} }}, B {{ y: {t} }}, C }}',
]


def fields():
    """Every type of field in every shape of definition"""
    for (i, t), (k, s) in itertools.product(enumerate(TYPES), enumerate(KINDS)):
        x = ['T', f'{P}<T>', '[T; 2]', f'[{P}<T>; 1]'][(i + k) % 4]
        if 'T' not in t and '{x}' not in s:
            continue
        yield f'fld{i}_{k}', s.format(n='S', t=t, x=x), 'impl<T> {D} for S<T> { fn drop(&mut self) {} }'


def derivable(thorough):
    """The space of definitions of C09"""
    for p in gen.space(thorough):
        if p.pre or p.post or 'Debug' not in p.derive or p.key in ('bounded', 'wherecl', 'assoc', 'defaults', 'attrs', 'paths', 'fnptr') or p.key[:2] in ('po', 'nm'):
            continue
        m = re.search(r'\bS<([^<>]*)>', p.definition)
        g = m.group(1)
        if m.start() > 40 or any(c in g for c in "=:'"):
            continue
        d = p.definition[:m.start()] + '\nS\n' + p.definition[m.start() + 1:]
        yield p.key, d, f'impl<{g}> {{D}} for S<{g}> {{ fn drop(&mut self) {{}} }}'


def definitions(thorough):
    yield from fields()
    yield from simple()
    yield from lists()
    yield from derivable(thorough)


def lists():
    """Every parameter list up to three type parameters, lifetimes and constants, under every kind of where clause"""
    ws = ['', 'where {a}: Alpha', 'where {b}: Alpha', 'where {a}: Rel<{b}>, {b}: Alpha', 'where Vec<{b}>: Rel<{a}>', "where u8: Copy", "where {a}:", "where for<'x> &'x {a}: Rel<{b}>", "where {a}: HasItem, {a}::Item: Alpha, {b}: 'static"]
    k = 0
    for ts in (['T'], ['T', 'U'], ['U', 'T'], ['T', 'U', 'V'], ['T', 'U', 'V', 'W']):
        for lts in (0, 1, 2):
            for cs in (0, 1, 2):
                for wi, w in enumerate(ws):
                    k += 1
                    lt = ["'a", "'b"][:lts]
                    dc, ar = [f'const {c}: usize' for c in 'NM'[:cs]], list('NM'[:cs])
                    g, a = (dc + ts, ar + ts) if k % 2 else (ts + dc, ts + ar)
                    f = [f'&{l} u8' for l in lt] + [f'[u8; {c}]' for c in ar] + [[t, f'Vec<{t}>', f'{P}<{t}>', f'({t}, u8)'][(k + i) % 4] for i, t in enumerate(ts)]
                    w = w.format(a=ts[0], b=ts[-1])
                    G, A = ', '.join(lt + g), ', '.join(lt + a)
                    if k % 3 == 0:
                        d = f'pub struct\nS\n<{G}>({", ".join(f)}) {w};'
                    elif k % 3 == 1:
                        d = f'pub struct\nS\n<{G}> {w} {{ {", ".join(f"f{i}: {x}" for i, x in enumerate(f))} }}'
                    else:
                        d = f'pub enum\nS\n<{G}> {w} {{ A, B({", ".join(f)}), C {{ x: {f[-1]} }} }}'
                    yield f'lst{k}', d, f'impl<{G}> {{D}} for S<{A}> {w} {{ fn drop(&mut self) {{}} }}'


def simple():
    n = 0
    for (g, a, w), (sn, tmpl) in itertools.product(PARAMS, SHAPES):
        if '?Sized' in g and sn not in ('phantom', 'vec', 'nofields', 'enumcopy'):
            continue
        o = others(a)
        p, pn = ''.join(x + ', ' for x in o), ''.join(f'o{i}: {x}, ' for i, x in enumerate(o))
        d = tmpl.format(n='S', g=g, w=w, p=p, pn=pn)
        n += 1
        yield f'{sn}_{n}', d, f'impl<{g}> {{D}} for S<{a}> {w} {{{{ fn drop(&mut self) {{{{}}}} }}}}'.replace('{{', '{').replace('}}', '}').replace('{D}', '{D}')
    for g, a, gi, w in DEFAULTS:
        for sn, tmpl in SHAPES:
            n += 1
            yield f'{sn}_{n}', tmpl.format(n='S', g=g, w=w, p='', pn=''), f'impl<{gi}> {{D}} for S<{a}> {{ fn drop(&mut self) {{}} }}'


def c17(ck):
    ck.build()
    rejected(ck)
    accepted(ck)
    return ck.finish()


def rejected(ck):
    progs = []
    few = list(fields()) + list(simple())  # every combination of macros and places; the others in turns
    for n, (key, d, imp) in enumerate(definitions(ck.thorough)):
        for k, (tr, opt) in enumerate([('FuncMap', ''), ('TryFuncMap', ''), ('FuncMap, TryFuncMap', ''), ('TryFuncMap, FuncMap', '#[funcmap(params(T))]'), ('FuncMap', '#[funcmap(crate = "::funcmap", params(T))]')]):
            if not ck.thorough and (key[:3] == 'fld' and (n + k) % 5 > 1 or n >= len(few) and (n + k) % 5 > (1 if key[:3] == 'lst' else 0)):
                continue
            how = ['Drop', '::core::ops::Drop', 'std::ops::Drop'][k % 3]
            i = imp.replace('{D}', how)
            where = k % 4
            if where == 0:
                text = f'#[derive({tr})] {opt} {d}\n{i}'
            elif where == 1:
                text = f'{i}\n#[derive({tr})] {opt} {d}'
            elif where == 2:
                text = f'#[derive({tr})] {opt} {d}\nmod elsewhere {{ use super::*;\n{i} }}'
            else:
                text = f'#[derive(Debug)]\n#[derive({tr})] {opt} {d}\nmacro_rules! m {{ () => {{ {i} }} }} m!();'
                if '?Sized' in d or 'GDrop' in d or 'dyn ' in d:
                    text = text.replace('#[derive(Debug)]\n', '')
            progs.append((f'{key}_{k}', text, tr))

    def one(arg):
        i, ps = arg
        b = Batch(ck, f'drop_{i}', header=PRE)
        for k, t, tr in ps:
            b.add(k, f'pub mod m_{k} {{ use super::*;\n{t}\n}}')
        c, by, un = b.compile(fmrt=False)
        text, ranges = b.text(b.progs)
        start = {k: a for a, z, k in ranges}
        src = text.splitlines()
        out = []
        for k, t, tr in ps:
            name = next(n for n in range(start[k], start[k] + 40) if src[n - 1] == 'S')
            ds = by.get(k, [])
            txt = t + '\n\n' + show(ds, 4)
            for one_tr in tr.split(', '):
                # an error whose place is the name of the type, that mentions the destructor
                at = [d for d in ds if any(s[2] == name and s[4] == name for s in d.primary()) and 'Drop' in d.msg]
                if len(tr.split(', ')) == 2:
                    at = [d for d in at if ('TryFuncMap' in d.text) == (one_tr == 'TryFuncMap')]
                if not at:
                    out.append((f'{k}: deriving {one_tr} for a type with a destructor is not rejected at the type' + (f' (instead: {ds[0].msg})' if ds else ''), txt))
        # the same definitions without the destructor are fine: what is rejected is the destructor
        return out
    for r in pmap(one, enumerate(chunks(progs, 24))):
        for what, art in r:
            ck.violation(what, art)
    ck.add(states=len(progs), transitions=len(progs), traces=len(progs), samples=[progs[3][1]])
    ck.log(f'{len(progs)} types with destructors')
    # control: each definition compiles without its destructor
    d = Defs(ck, header=PRE, name='control', shards=16)
    for n, (key, text, imp) in enumerate(definitions(ck.thorough)):
        for k, tr in enumerate(('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap')):
            if n >= len(few) and k != n % 3:
                continue
            d.add(f'{key}_{len(d.seen)}', f'#[derive({tr})] {text}', pre='use super::*;')
            # a trait, function or type of that name is not a destructor; an inherent method neither
            if tr != 'TryFuncMap':
                d.add(f'{key}_{len(d.seen)}', f'pub trait Drop {{ fn drop(&mut self); }} #[derive({tr})] {text.replace("T: Drop", "T: std::ops::Drop")}\n{imp.replace("{D}", "Drop").replace("T: Drop", "T: std::ops::Drop")}', pre='use super::*;')
    d.judge()


def accepted(ck):
    d = Defs(ck, header=PRE, name='fields', shards=8)
    fields = ['Dropping', 'GDropping<u8>', 'Vec<Dropping>', 'Box<dyn Alpha>', '(Dropping, T)', 'Vec<(Dropping, T)>', '[Dropping; 2]', 'Option<GDropping<String>>', 'std::rc::Rc<Dropping>', 'std::mem::ManuallyDrop<Dropping>', 'Result<T, Dropping>', 'Box<dyn Drop>', "std::sync::MutexGuard<'static, u8>", 'Wrap<Dropping>', 'std::collections::BTreeMap<String, T>', 'Wrap<Wrap<T>>', 'std::vec::IntoIter<T>', 'T']
    for i, f in enumerate(fields):
        for j, s in enumerate(['pub struct S<T>(pub T, {f});', 'pub struct S<T> {{ a: {f}, t: T, b: {f} }}', 'pub enum S<T> {{ A({f}), B {{ t: T, x: {f} }}, C }}']):
            for tr in ('FuncMap', 'TryFuncMap', 'FuncMap, TryFuncMap'):
                d.add(f'f{i}_{j}_{len(d.seen)}', f'#[derive({tr})] ' + s.format(f=f), pre='use super::*;')
        d.add(f'inst{i}', f'#[derive(FuncMap, TryFuncMap)] pub struct S<T>(pub T, {f}); pub fn f(s: S<Dropping>) -> S<GDropping<u8>> {{ s.func_map(|_| GDropping(1)) }} pub fn g(s: S<Dropping>) -> Result<S<GDropping<Dropping>>, Dropping> {{ s.try_func_map(|x| Err(x)) }}'
              if '<T' not in f and 'T>' not in f and 'T)' not in f else f'#[derive(FuncMap, TryFuncMap)] pub struct S<T>(pub T, {f}); pub fn f(s: S<Dropping>) -> S<GDropping<u8>> where {{ s.func_map(|_| GDropping(1)) }}', pre='use super::*;')
    d.judge()
    ck.log(f'{len(d.seen)} types whose fields have destructors')
