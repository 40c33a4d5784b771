"""C16: options select exactly the requested implementations."""
import itertools, os
import ctlib
from c11 import HDR_TYPES, definition, checks, CONSTS
from ctlib import Defs
from vlib import Batch, Broken, chunks, pmap, run, env, show

HDR = ctlib.IS + '\n' + HDR_TYPES


def compositions(xs):
    """All ways to cut a list into non-empty runs"""
    if not xs:
        yield []
        return
    for i in range(1, len(xs) + 1):
        for rest in compositions(xs[i:]):
            yield [xs[:i]] + rest


OTHER = ['#[allow(unused)]', '/** doc */', '#[rustfmt::skip]', '#[cfg(all())]', '#[rustfmt::funcmap(params(Q))]', '#[clippy::funcmap]', '#[cfg_attr(any(), funcmap(bogus))]', '#[doc = "funcmap"]', '#[must_use]', '#[deprecated]']


def arrangements(names, thorough):
    """All orders of the listed names, cut into params(..) groups, cut into attributes, with the crate option anywhere or absent, other attributes in between"""
    n = 0
    for perm in itertools.permutations(names):
        for groups in compositions(list(perm)):
            items = ['params(' + ', '.join(g) + ')' for g in groups]
            for at in [None] + list(range(len(items) + 1)):
                its = list(items)
                if at is not None:
                    its.insert(at, 'crate = "::funcmap"')
                for attrs in compositions(its):
                    n += 1
                    tc = ',' if n % 2 else ''
                    out = []
                    for k, a in enumerate(attrs):
                        out.append('#[funcmap(' + ', '.join(a) + tc + ')]')
                        if n % 3 == 0:
                            out.insert(n % (len(out) + 1), OTHER[(n + k) % len(OTHER)])
                    text = ' '.join(out)
                    if n % 5 == 0:
                        text = text.replace('#[funcmap(', '#[cfg_attr(all(), funcmap(', 1)
                        i = text.index('#[cfg_attr(all(), funcmap(')
                        j = text.index(')]', i)
                        # the end of that attribute: its options end with `)]`
                        while text[i:j + 2].count('(') != text[i:j + 2].count(')') + 1:
                            j = text.index(')]', j + 1)
                        text = text[:j] + '))]' + text[j + 2:]
                    if n % 7 == 0:
                        text = text.replace('params(', 'params (').replace(', P', ' ,P')
                    yield n, text


def subsets(ck):
    d = Defs(ck, header=HDR, name='params', shards=32)
    lists = [('T', 0), ('TT', 0), ('TT', 1), ('TCT', 1), ('TTT', 0), ('CTTCT', 2)]
    if ck.thorough:
        lists += [('TTTT', 1), ('TCTCTT', 1)]
    m = 0
    for li, (seq, lts) in enumerate(lists):
        tys = [i for i, k in enumerate(seq) if k == 'T']
        consts = [CONSTS[i % len(CONSTS)] for i in range(len(seq))]
        for r in range(len(tys) + 1):
            for sub in itertools.combinations(tys, r):
                if r == 0:
                    arr = [(0, ''), (1, '#[funcmap(crate = "::funcmap")]'), (2, ' '.join(OTHER))]
                else:
                    arr = list(arrangements([f'P{i}' for i in sub], ck.thorough))
                if r > 3 and not ck.thorough:
                    arr = arr[::5]
                if r > 3:
                    arr = arr[::7]
                for n, text in arr:
                    m += 1
                    kind = ('tuple', 'named', 'enum')[m % 3]
                    mapped = list(sub) or tys
                    q = checks(seq, lts, consts, mapped)
                    if r == 3 and not ck.thorough:
                        q = q[m % 2::2]
                    d.add(f's{li}_{"".join(map(str, sub))}_{n}', definition(kind, seq, lts, consts, options=text), q)
    # without options each macro alone, and options on each macro alone
    for tr, on in (('FuncMap', 'F'), ('TryFuncMap', 'T')):
        for sub in ([0], [1], [0, 1]):
            text = definition('tuple', 'TT', 0, CONSTS, options='#[funcmap(params(' + ', '.join(f'P{i}' for i in sub) + '))]').replace('FuncMap, TryFuncMap', tr)
            d.add(f'single_{tr}_{len(sub)}_{sub[0]}', text, [(f'Is::<S<X0, X1>, X{i}, Bt, TypeParam<{i}>>::{t}', t == on and i in sub, f'{tr} only') for i in (0, 1) for t in 'FT'])
    # attributes of other tools anywhere
    places = '{0} pub enum S<{1} T, {2} const N: usize> {{ {3} #[default] A, {4} B({5} T, {6} u8), {7} C {{ {8} x: T, {9} y: [u8; N] }} }}'
    lint = ['/** x */', '#[cfg(all())]', '#[allow(unused)]', '#[cfg_attr(any(), funcmap)]', '#[clippy::funcmap]', '#[rustfmt::funcmap(params(T))]', '#[deprecated]']
    for i, j in itertools.product(range(10), range(len(lint))):
        if i in (1, 2) and lint[j] == '#[deprecated]' or i == 0 and False:
            continue
        args = [''] * 10
        args[i] = lint[j]
        d.add(f'other{i}_{j}', '#[derive(Default, FuncMap, Debug, TryFuncMap)] ' + places.format(*args), [(f'IsO::<S<X0, 2>, X0, Bt, TypeParam<0>, S<Bt, 2>>::{t}', True, 'other attributes') for t in 'FT'])
    d.judge()
    ck.log(f'{len(d.seen)} arrangements of options')


# --- the option grammar ---------------------------------------------------------------

TOK = ['crate', 'params', '=', ',', '"::funcmap"', '"::"', 'T', 'U', "'a", 'N', 'X', '(T)', '(T, U)', '(U,)', '()', '(,)', '(T T)', '(T, T)', '(X)', '(N)', "('a)", '1', '::', 'r#T', '(r#U)', '(T::X)', '[T]', 'funcmap', '(crate)']
GROUPS = {'(T)': ['T'], '(T, U)': ['T', 'U'], '(U,)': ['U'], '(T, T)': None, '(X)': None, '(N)': None, "('a)": None, '(r#U)': ['U']}


def parse(seq):
    """Reference grammar: (viable prefix?, accepted?, mapped parameters)
    args := arg (',' arg)* ','? ;  arg := 'crate' '=' path-string | 'params' '(' name (',' name)* ','? ')'
    at most one crate, no parameter twice, only type parameters T and U"""
    st, crate, params, ok = 'arg', 0, [], True
    for i, t in enumerate(seq):
        if st == 'arg':
            if t == 'crate':
                st = '='
            elif t == 'params':
                st = 'grp'
            else:
                return False, False, None
        elif st == '=':
            if t != '=':
                return False, False, None
            st = 'str'
        elif st == 'str':
            if t == '"::"':
                return False, False, None
            if t != '"::funcmap"':
                return False, False, None
            crate += 1
            st = 'sep'
        elif st == 'grp':
            if GROUPS.get(t) is None:
                return False, False, None
            params += GROUPS[t]
            st = 'sep'
        elif st == 'sep':
            if t != ',':
                return False, False, None
            st = 'arg'
        if crate > 1 or len(set(params)) != len(params):
            return False, False, None
    done = st == 'sep' or (st == 'arg' and len(seq) > 0)
    return True, done and ok, params


def sequences(thorough):
    full = 3
    top = 10 if thorough else 8
    seen = set()
    for n in range(0, full + 1):
        for s in itertools.product(TOK, repeat=n):
            seen.add(s)
            yield s
    frontier = [s for s in seen if len(s) == full and parse(s)[0]]
    for n in range(full + 1, top + 1):
        nxt = []
        for s in frontier:
            for t in TOK:
                x = s + (t,)
                yield x
                if parse(x)[0]:
                    nxt.append(x)
        frontier = nxt


MALFORMED = ['#[funcmap]', '#[funcmap = "params(T)"]', '#[funcmap()]', '#[funcmap(,)]', '#[funcmap{}]', '#[funcmap[]]', '#[funcmap(params(T)) ]#[funcmap]', '#[funcmap(params(T); crate = "::funcmap")]', '#[funcmap(params[T])]', '#[funcmap(params{T})]', '#[funcmap(crate("::funcmap"))]',
             '#[funcmap(crate = ::funcmap)]', '#[funcmap(crate = funcmap)]', '#[funcmap(crate = 1)]', "#[funcmap(crate = 'f')]", '#[funcmap(crate = b"funcmap")]', '#[funcmap(crate = "")]', '#[funcmap(crate = "funcmap funcmap")]', '#[funcmap(crate = "::funcmap::")]', '#[funcmap(crate = "1")]', '#[funcmap(crate = "fn(T)")]', '#[funcmap(crate = "::funcmap" + "x")]',
             '#[funcmap(crate = "a", crate = "b")]', '#[funcmap(crate = "::funcmap")] #[funcmap(crate = "::funcmap")]', '#[funcmap(params(T))] #[funcmap(params(T))]', '#[funcmap(params(T), params(T))]', '#[funcmap(params(T, U, T))]', '#[funcmap(params(T, U))] #[funcmap(params(U))]', '#[funcmap(params(S))]', '#[funcmap(params(Self))]', '#[funcmap(params(self))]', '#[funcmap(params(u8))]', "#[funcmap(params('b))]",
             "#[funcmap(params('static))]", "#[funcmap(params('_))]", '#[funcmap(params(_))]', '#[funcmap(params(T = U))]', '#[funcmap(params(T: Clone))]', '#[funcmap(params(const N))]', '#[funcmap(params("T"))]', '#[funcmap(params((T)))]', '#[funcmap(params(T), other(U))]', '#[funcmap(Params(T))]', '#[funcmap(param(T))]', '#[funcmap(skip)]', '#[funcmap(bound = "T: Clone")]', '#[funcmap(r#params(T))]' if 0 else '#[funcmap(params T)]',
             '#[funcmap(crate)]', '#[funcmap(crate =)]', '#[funcmap(crate = "::funcmap",,)]', '#[funcmap(params(T),,params(U))]', '#[funcmap(params(T)params(U))]', '#[funcmap(params(T,,U))]', '#[funcmap(params(,T))]', '#[funcmap(params)]', '#[funcmap(params())]', '#[funcmap(params(T), crate::x = "y")]', '#[funcmap(super = "::funcmap")]', '#[funcmap(crate == "::funcmap")]', '#[funcmap(crate: "::funcmap")]']


def wide(ck):
    """Four to six parameters: every way to spread them over groups and attributes, in two orders"""
    d = Defs(ck, header=HDR, name='wide', shards=24)
    m = 0
    for n in (4, 5, 6) if not ck.thorough else (4, 5, 6, 7):
        for subset in [tuple(range(n)), tuple(range(1, n)), tuple(range(n - 1)), tuple(i for i in range(n) if i != n // 2)]:
            for order in (list(subset), list(subset)[::-1]):
                for groups in compositions(order):
                    items = ['params(' + ', '.join(f'P{i}' for i in g) + ')' for g in groups]
                    if m % 5 == 0:
                        items.insert(m % (len(items) + 1), 'crate = "::funcmap"')
                    for attrs in compositions(items):
                        m += 1
                        if len(subset) < n and n > 5 and m % 3 and not ck.thorough:
                            continue
                        q = [(f'Is::<S<{", ".join(f"X{j}" for j in range(n))}>, X{i}, Bt, TypeParam<{i}>>::{"FT"[(m + i) % 2]}', i in subset, f'marker {i}') for i in range(n)]
                        g = ', '.join(f'P{i}' for i in range(n))
                        d.add(f'w{m}', '#[derive(FuncMap, TryFuncMap)] ' + ' '.join('#[funcmap(' + ', '.join(a) + ')]' for a in attrs) + f' pub struct S<{g}>({g});', q)
    d.judge()
    ck.log(f'{len(d.seen)} distributions of many parameters')


POOL = ['T', 't', 'TT', 'T1', 'T_', 'params', 'r#type', 'funcmap', "'T", "'t", "'params", 'const N', 'const n', 'const Tn']


def names(ck):
    """Parameters whose names resemble each other or the options; an option names exactly one of them"""
    d = Defs(ck, header=HDR, name='names', shards=24)
    rej = []
    for r in (1, 2, 3):
        for sel in itertools.combinations(POOL, r):
            sel = sorted(sel, key=lambda x: x[0] != "'")
            for rev in ((False, True) if r > 1 else (False,)):
                ps = [x for x in sel if x[0] == "'"] + [x for x in sel if x[0] != "'"][:: -1 if rev else 1]
                tps = [x for x in ps if x[0] != "'" and 'const' not in x]
                if not tps or (rev and len(ps) == 2 and ps[0][0] == "'"):
                    continue
                nm = lambda x: x.replace('const ', '')
                decl = ', '.join(x + (': usize' if 'const' in x else '') for x in ps)
                inst = lambda sub=None, to='Bt': ', '.join("'static" if x[0] == "'" else '3' if 'const' in x else to if x == sub else f'X{i}' for i, x in enumerate(ps))
                body = f'pub struct S<{decl}>(' + ', '.join(f"::std::marker::PhantomData<&{x} ()>" if x[0] == "'" else f'[u8; {nm(x)}]' if 'const' in x else x for x in ps) + ');'
                typish = [x for x in ps if x[0] != "'"]
                for k in range(1, len(tps) + 1):
                    for sub in itertools.combinations(tps, k):
                        q = []
                        for x in tps:
                            for tr in 'FT':
                                q.append((f'Is::<S<{inst()}>, X{ps.index(x)}, Bt, TypeParam<{typish.index(x)}>>::{tr}', x in sub, f'{x} with params({", ".join(sub)})'))
                        d.add(f'n{len(d.seen)}', f'#[derive(FuncMap, TryFuncMap)] #[funcmap(params({", ".join(sub)}))] {body}', q)
                if r < 3:
                    for x in POOL:
                        if x not in tps:
                            rej.append((f'#[funcmap(params({nm(x)}))]', body))
                            rej.append((f'#[funcmap(params({tps[0]}, {nm(x)}))]', body)) if nm(x) != tps[0] else None
    d.judge()
    rej = list(dict.fromkeys(rej))

    def one(arg):
        i, part = arg
        b = Batch(ck, f'rejn_{i}', header=HDR)
        for k, (a, item) in enumerate(part):
            b.add(f'x{i}_{k}', f'pub mod m_x{i}_{k} {{ use super::*; #[derive({("FuncMap", "TryFuncMap")[k % 2]})] {a} {item} }}')
        c, by, un = b.compile(fmrt=False)
        return [(f'`{a} {item}` is not rejected', show(by.get(f'x{i}_{k}', []))) for k, (a, item) in enumerate(part) if not any(x.code is None for x in by.get(f'x{i}_{k}', []))]
    for r in pmap(one, enumerate(chunks(rej, 40))):
        for what, art in r:
            ck.violation(what, art)
    ck.add(states=len(rej), transitions=len(rej), traces=len(rej))
    ck.log(f'{len(d.seen)} selections among similar names, {len(rej)} of absent ones')


def grammar(ck):
    d = Defs(ck, header=HDR, name='grammar', shards=16)
    base = "pub struct S<'a, T, const N: usize, U>(pub &'a u8, pub T, pub [U; N]);"
    base2 = "pub enum S<'a, T, const N: usize, U> { A { x: &'a u8 }, B(T, [U; N]) }"
    rej = []
    for n, s in enumerate(sequences(ck.thorough)):
        ok = parse(s)[1]
        text = ' '.join(s)
        if ok:
            ps = parse(s)[2] or ['T', 'U']
            q = []
            for x, m, o in (('X0', 0, 'Bt, 3, X1'), ('X1', 2, 'X0, 3, Bt')):
                for tr in 'FT':
                    q.append((f"Is::<S<'static, X0, 3, X1>, {x}, Bt, TypeParam<{m}>>::{tr}", ('T' if m == 0 else 'U') in ps, text))
            d.add(f'g{n}', f'#[derive(FuncMap, TryFuncMap)] #[funcmap({text})] {base if n % 2 else base2}', q)
        else:
            rej.append((f'r{n}', f'#[funcmap({text})]', base if n % 2 else base2))
    for i, m in enumerate(MALFORMED):
        for j, b in enumerate((base, base2)):
            rej.append((f'm{i}_{j}', m, b))
    bad = {'X', 'N'}
    # misplaced: any helper attribute on a variant, field or parameter, well-formed or not
    places = ['pub struct S<T, U>({0} pub T, pub U);', 'pub struct S<T, U>(pub T, {0} pub U);', 'pub struct S<T, U> {{ {0} a: T, b: U }}', 'pub struct S<T, U> {{ a: T, b: U, {0} c: u8 }}', 'pub enum S<T, U> {{ {0} A, B(T, U) }}', 'pub enum S<T, U> {{ A, {0} B(T, U) }}', 'pub enum S<T, U> {{ A, B({0} T, U) }}',
              'pub enum S<T, U> {{ A, B {{ x: T, {0} y: U }} }}', 'pub enum S<T, U> {{ A(T), {0} B {{ y: U }} }}']
    for i, p in enumerate(places):
        for j, a in enumerate(['#[funcmap]', '#[funcmap()]', '#[funcmap(params(T))]', '#[funcmap(crate = "::funcmap")]', '#[funcmap(skip)]', '#[funcmap = "x"]', '/// doc\n#[allow(unused)] #[funcmap(params(U))]']):
            rej.append((f'p{i}_{j}', '', p.format(a)))
            rej.append((f'pp{i}_{j}', '#[funcmap(params(T))]', p.format(a)))
    d.judge()

    def one(arg):
        i, tr, ps = arg
        b = Batch(ck, f'rej_{tr}_{i}', header=HDR)
        for k, a, item in ps:
            b.add(k, f'pub mod m_{k} {{ use super::*; #[derive({tr})] {a} {item} }}')
        c, by, un = b.compile(fmrt=False)
        out = []
        if any('panic' in x.msg for x in c.errors()):
            x = [x for x in c.errors() if 'panic' in x.msg][0]
            out.append((f'the macro panicked on malformed options', show([x])))
        if any('delimiter' in x.msg or x.msg.startswith('expected item') for x in c.errors()):
            raise Broken('malformed test input: ' + show(c.errors()))
        for k, a, item in ps:
            if not any(x.code is None for x in by.get(k, [])):
                out.append((f'{tr}: `{a} {item}` is not rejected', show(by.get(k, []))))
        return out
    jobs = [(i, tr, ps) for tr in ('FuncMap', 'TryFuncMap') for i, ps in enumerate(chunks(rej, max(12, len(rej) // 600)))]
    for r in pmap(one, jobs):
        for what, art in r:
            ck.violation(what, art)
    ck.add(states=len(rej), transitions=2 * len(rej), traces=2 * len(rej), samples=[rej[10][1]])
    ck.log(f'option grammar: {len(d.seen)} accepted, {len(rej)} rejected')


# --- crate paths ----------------------------------------------------------------------

FAKE = '''pub mod fake {
    pub use ::funcmap::*;
    pub struct TypeParam<const N: usize>;
    pub trait FuncMap<A, B, P = TypeParam<0>>: Sized { type Output; fn func_map<F>(self, f: F) -> Self::Output where F: FnMut(A) -> B; }
    pub trait TryFuncMap<A, B, P = TypeParam<0>>: Sized { type Output; fn try_func_map<E, F>(self, f: F) -> Result<Self::Output, E> where F: FnMut(A) -> Result<B, E>; }
    pub struct Is<S, A, B, M>(core::marker::PhantomData<(S, A, B, M)>);
    pub trait No { const F: bool = false; const T: bool = false; }
    impl<S, A, B, M> No for Is<S, A, B, M> {}
    impl<S: FuncMap<A, B, M>, A, B, M> Is<S, A, B, M> { pub const F: bool = true; }
    impl<S: TryFuncMap<A, B, M>, A, B, M> Is<S, A, B, M> { pub const T: bool = true; }
    impl<A, B> FuncMap<A, B, TypeParam<0>> for Vec<A> { type Output = Vec<B>; fn func_map<F: FnMut(A) -> B>(self, f: F) -> Vec<B> { self.into_iter().map(f).collect() } }
    impl<A, B> TryFuncMap<A, B, TypeParam<0>> for Vec<A> { type Output = Vec<B>; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<Vec<B>, E> { self.into_iter().map(f).collect() } }
    impl<A, B, const N: usize> FuncMap<A, B, TypeParam<0>> for [A; N] { type Output = [B; N]; fn func_map<F: FnMut(A) -> B>(self, f: F) -> [B; N] { self.map(f) } }
    impl<A, B, const N: usize> TryFuncMap<A, B, TypeParam<0>> for [A; N] { type Output = [B; N]; fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<[B; N], E> { loop {} } }
}'''

DEFS = ['pub struct S<T, U>(pub T, pub Vec<U>, pub [T; 2]);', 'pub enum S<T, U> { A(Vec<Vec<T>>), B { x: [Vec<U>; 3], y: (T, U) } }', 'pub struct S<T, U> { a: T, b: Vec<(T, U)> }']


def paths(ck):
    # a stand-in for the crate: the generated code implements its traits and not the real ones
    d = Defs(ck, header=HDR + '\n' + FAKE + '\npub mod deep { pub mod er { pub use super::super::fake; } pub use crate::fake as renamed; }\npub use crate::fake as r#type; pub use crate::fake as FuncMap0;', name='cratepath', shards=8)
    forms = ['crate::fake', 'super::fake', 'self::super::fake', 'super::deep::er::fake', 'crate::deep::renamed', 'crate::r#type', 'fk', 'self::fk', ' crate :: fake ', 'A', 'B', 'F', 'E', 'self::T', 'fake']
    for i, f in enumerate(forms):
        for j, df in enumerate(DEFS):
            for opt in (f'#[funcmap(crate = "{f}")]', f'#[funcmap(crate = r#"{f}"#, params(T, U))]', f'#[funcmap(params(U))] #[funcmap(params(T), crate = "{f}",)]'):
                q = []
                for m, s in ((0, 'X0'), (1, 'X1')):
                    for tr in 'FT':
                        q.append((f'{{ use fake::No; fake::Is::<S<X0, X1>, {s}, Bt, fake::TypeParam<{m}>>::{tr} }}', True, f'the traits at the path {f}'))
                        q.append((f'Is::<S<X0, X1>, {s}, Bt, ::funcmap::TypeParam<{m}>>::{tr}', False, f'the crate itself although the path is {f}'))
                alias = f' use super::fake as {f.replace("self::", "")};' if f in ('A', 'B', 'F', 'E', 'self::T') else ' use super::fake as fk;'
                d.add(f'fake_{i}_{len(d.seen)}', f'#[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] {opt} {df}', q, pre='use super::{fake, X0, X1, Bt}; use super::is::{Is, No as _};' + alias)
    # paths to the real crate; decoys named like it are not used
    real = [('::funcmap', ''), ('funcmap', ''), ('self::fm', 'use ::funcmap as fm;'), ('fm', 'extern crate funcmap as fm;'), ('inner::x', 'mod inner { pub extern crate funcmap as x; }'), ('::funcmap', 'pub mod funcmap { pub struct FuncMap; }'), ('self::funcmap', 'pub mod funcmap { pub use ::funcmap::*; }')]
    for i, (f, env_) in enumerate(real):
        for j, df in enumerate(DEFS):
            q = [(f'IsO::<S<X0, X1>, {s}, Bt, ::funcmap::TypeParam<{m}>, S<{o}>>::{tr}', True, f'path {f}') for m, s, o in ((0, 'X0', 'Bt, X1'), (1, 'X1', 'X0, Bt')) for tr in 'FT']
            d.add(f'real_{i}_{j}', f'{env_} #[derive(::funcmap::FuncMap, ::funcmap::TryFuncMap)] #[funcmap(crate = "{f}")] {df}', q, pre='use super::{X0, X1, Bt}; use super::is::{IsO, No as _};')
    d.judge()

    # crates in which the crate has another name or is only re-exported; every edition
    fac = ck.write('facade.rs', 'pub extern crate funcmap as fm; pub mod deep { pub use funcmap as inner; } pub use funcmap::*;\n')
    facade = os.path.join(ck.work, 'libfacade.rlib')
    base = ['rustc', '--edition', '2021', '--cap-lints=forbid', '-L', 'dependency=' + os.path.join(ck.target, 'debug', 'deps')]
    rc, o, e = run(base + ['--extern', 'funcmap=' + ck.rlibs['funcmap'], '--crate-type', 'rlib', '--crate-name', 'facade', '-o', facade, fac])
    if rc:
        raise Broken('facade: ' + e)
    hdr = HDR.replace('extern crate funcmap;', '').replace('use funcmap::{FuncMap, TryFuncMap, TypeParam};', 'use {c}::{{FuncMap, TryFuncMap, TypeParam}};')
    jobs = []
    for ed in ('2015', '2018', '2021', '2024'):
        for ext, p, root in [('renamed=' + ck.rlibs['funcmap'], '::renamed', 'renamed'), ('renamed=' + ck.rlibs['funcmap'], 'renamed', 'renamed'), ('facade=' + facade, '::facade::fm', 'facade::fm'), ('facade=' + facade, 'facade::deep::inner', 'facade::fm'), ('facade=' + facade, '::facade', 'facade::fm'),
                             ('facade=' + facade, 'crate::re', 'facade::fm'), ('renamed=' + ck.rlibs['funcmap'], 'crate::reexport::x', 'renamed')]:
            jobs.append((ed, ext, p, root))

    def one(arg):
        i, (ed, ext, p, root) = arg
        ext_name = ext.split('=')[0]
        text = ctlib.IS.replace('extern crate funcmap;', f'pub extern crate {ext_name}; pub use {root} as re; pub mod reexport {{ pub use {"crate::re" if ed != "2015" else "re"} as x; }}' + ('' if root != 'facade::fm' or True else ''))
        text = text.replace('use funcmap::', f'use {root}::' if ed == '2015' else f'use re::').replace('funcmap::', '::re::' if ed == '2015' else 'crate::re::').replace('#![allow(unused, dead_code)]', '#![allow(unused, dead_code)]')
        text += '\n' + HDR_TYPES + '\n'
        glob = f'#[derive(FuncMap, TryFuncMap)] #[funcmap(crate = "{p if not (ed == "2015" and p[0] not in ":c") else "::" + p}")] '
        # in the 2015 edition, a path without `::` or `crate` is relative to the module: stay in the root
        for j, df in enumerate(DEFS):
            text += glob + df.replace(' S<', f' S{j}<') + '\n'
            for m, s in ((0, 'X0'), (1, 'X1')):
                for tr in 'FT':
                    text += f'const _: () = {{ use is::{{Is, No}}; if !Is::<S{j}<X0, X1>, {s}, Bt, TypeParam<{m}>>::{tr} {{ panic!("not implemented") }} }};\n'
        f = ck.write(f'cp_{i}.rs', text)
        cmd = base[:]
        cmd[2] = ed
        rc, o, e = run(cmd + ['--extern', ext, '--crate-type', 'lib', '--emit', 'metadata=' + f[:-3] + '.rmeta', f])
        return (ed, ext_name, p, rc, e, text)
    for ed, ext, p, rc, e, text in pmap(one, enumerate(jobs)):
        if rc:
            ck.violation(f'crate path `{p}` in a crate of edition {ed} that knows the crate only as `{ext}`: rejected', text + '\n' + e[:3000])
    ck.add(states=len(jobs), transitions=len(jobs), traces=len(jobs))
    ck.log(f'crate paths: {len(d.seen)} definitions, {len(jobs)} crates')


def c16(ck):
    ck.build()
    subsets(ck)
    wide(ck)
    names(ck)
    grammar(ck)
    paths(ck)
    return ck.finish()
