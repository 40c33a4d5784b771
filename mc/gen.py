"""Enumerated space of derivable definitions, with builders and position keys.

A type tree is a tuple; builders are Rust expressions over `cx: &mut Cx` creating a
value of the type, choosing shapes (lengths, variants) and giving every leaf the key of
its position in visiting order: fields and elements in declaration order; inside one
generic type argument by argument, then by position."""
import itertools

LIB = '''
#[derive(Debug, FuncMap, TryFuncMap)] pub struct Wrap<A>(pub A);
#[derive(Debug, FuncMap, TryFuncMap)] pub struct Pair<A, B> { pub a: A, pub b: B, pub c: A }
#[derive(Debug, FuncMap, TryFuncMap)] pub enum Either<A, B> { L(A), R { x: B, y: A }, N }
#[derive(Debug, FuncMap, TryFuncMap)] pub struct Mix<'a, A, const N: usize, B> { pub r: &'a str, pub xs: [A; N], pub b: B }
#[derive(Debug, FuncMap, TryFuncMap)] pub struct Deep<A> { pub x: Vec<(u8, A)>, pub y: (A, [A; 2]) }
'''

# name -> (rust type, number of arguments, template, map keys?)
# in templates, @i.j is an element of argument i at position j
APPS = {
    'Vec': ('Vec<{0}>', 1, '{ let n = cx.choose(3); (0..n).map(|i| @0.i).collect::<Vec<_>>() }'),
    'Option': ('Option<{0}>', 1, 'if cx.choose(2) == 0 { None } else { Some(@0.0) }'),
    'Box': ('Box<{0}>', 1, 'Box::new(@0.0)'),
    'Arr2': None,
    'Wrap': ('Wrap<{0}>', 1, 'Wrap(@0.0)'),
    'Deep': ('Deep<{0}>', 1, 'Deep { x: { let w = cx.push(0); let n = cx.choose(2); let r = (0..n).map(|i| { cx.set(w, i); (3u8, @0.0) }).collect(); cx.pop(); r }, '
             'y: { (@0.1, { let w = cx.push(0); let _ = w; let r = [@0.2, @0.3]; cx.pop(); r }) } }'),
    'Range': ('std::ops::Range<{0}>', 1, 'std::ops::Range { start: @0.0, end: @0.1 }'),
    'Poll': ('std::task::Poll<{0}>', 1, 'if cx.choose(2) == 0 { std::task::Poll::Pending } else { std::task::Poll::Ready(@0.0) }'),
    'Deque': ('std::collections::VecDeque<{0}>', 1, '{ let n = cx.choose(2) + 1; (0..n).map(|i| @0.i).collect::<std::collections::VecDeque<_>>() }'),
    'Phantom': ('std::marker::PhantomData<{0}>', 1, 'std::marker::PhantomData'),
    'Result': ('Result<{0}, {1}>', 2, 'if cx.choose(2) == 0 { Ok(@0.0) } else { Err(@1.0) }'),
    'Pair': ('Pair<{0}, {1}>', 2, 'Pair { a: @0.0, b: @1.1, c: @0.2 }'),
    'Either': ('Either<{0}, {1}>', 2, 'match cx.choose(3) { 0 => Either::L(@0.0), 1 => Either::R { x: @1.0, y: @0.1 }, _ => Either::N }'),
    'Mix': ("Mix<'static, {0}, 2, {1}>", 2, 'Mix { r: "r", xs: [@0.0, @0.1], b: @1.2 }'),
    'Flow': ('std::ops::ControlFlow<{0}, {1}>', 2, 'if cx.choose(2) == 0 { std::ops::ControlFlow::Break(@0.0) } else { std::ops::ControlFlow::Continue(@1.0) }'),
    # keys are leaves (distinct, ascending in creation order)
    'Map': ('std::collections::BTreeMap<{0}, {1}>', 2, '{ let n = cx.choose(3); let mut m = std::collections::BTreeMap::new(); for i in 0..n { let k = @0.i; let v = @1.i; m.insert(k, v); } m }'),
}
del APPS['Arr2']

T, U, C = ('T',), ('U',), ('C',)


def arr(n, t): return ('arr', n, t)
def tup(*ts): return ('tup', ts)
def par(t): return ('par', t)
def app(n, *a): return ('app', n, a)


def rust(t, names=None):
    names = names or {}
    k = t[0]
    if k in 'TU':
        return names.get(k, k)
    if k == 'C':
        return 'u8'
    if k == 'X':
        return t[1]
    if k == 'arr':
        return f'[{rust(t[2], names)}; {t[1]}]'
    if k == 'tup':
        return '(' + ''.join(rust(x, names) + ', ' for x in t[1]).rstrip() + ')' if len(t[1]) != 1 else f'({rust(t[1][0], names)},)'
    if k == 'par':
        return f'({rust(t[1], names)})'
    if k == 'app':
        return APPS[t[1]][0].format(*[rust(x, names) for x in t[2]])
    if k == 'raw':
        return t[1]
    raise ValueError(t)


def mentions(t, k):
    if t[0] == k:
        return True
    if t[0] == 'arr':
        return mentions(t[2], k)
    if t[0] == 'par':
        return mentions(t[1], k)
    if t[0] == 'tup':
        return any(mentions(x, k) for x in t[1])
    if t[0] == 'app':
        return any(mentions(x, k) for x in t[2])
    return False


def depth(t):
    if t[0] == 'arr':
        return 1 + depth(t[2])
    if t[0] == 'par':
        return 1 + depth(t[1])
    if t[0] in ('tup', 'app'):
        return 1 + max([0] + [depth(x) for x in (t[1] if t[0] == 'tup' else t[2])])
    return 0


def build(t):
    k = t[0]
    if k == 'T':
        return 'cx.leaf::<T>()'
    if k == 'U':
        return 'cx.leaf::<U>()'
    if k == 'C':
        return '7u8'
    if k == 'X':
        return t[2]
    if k == 'raw':
        return t[2]
    if k == 'par':
        return build(t[1])
    if k == 'arr':
        n = t[1] if str(t[1]).isdigit() else '_'
        return f'{{ let p = cx.push(0); let _ = p; let r: [_; {n}] = std::array::from_fn(|i| {{ cx.set(p, i); {build(t[2])} }}); cx.pop(); r }}'
    if k == 'tup':
        if not t[1]:
            return '()'
        es = ''.join(f'{{ cx.set(p, {i}); {build(x)} }}, ' for i, x in enumerate(t[1]))
        return f'{{ let p = cx.push(0); let r = ({es}); cx.pop(); r }}'
    if k == 'app':
        if t[1] == 'Map' and t[2][0][0] == 'C':
            key = '(i as u8)'
        else:
            key = None
        tmpl = APPS[t[1]][2]
        out, i = '', 0
        while i < len(tmpl):
            if tmpl[i] == '@':
                a = int(tmpl[i + 1])
                assert tmpl[i + 2] == '.'
                j = tmpl[i + 3]
                e = key if key and a == 0 else build(t[2][a])
                out += f'{{ cx.set(q, {a}); cx.set(p, {j}); {e} }}'
                i += 4
            else:
                out += tmpl[i]
                i += 1
        # p and q are shadowed by inner builders only inside their own blocks
        return f'{{ let q = cx.push(0); let p = cx.push(0); let _ = (p, q); let r = {out}; cx.pop(); cx.pop(); r }}'
    raise ValueError(t)


def fields_build(fields, names):
    """Builder of a field list; names None for positional ones"""
    es = []
    for i, t in enumerate(fields):
        e = f'{{ cx.set(p, {i}); {build(t)} }}'
        es.append(e if names is None else f'{names[i]}: {e}')
    return es


class Prog:
    """A derivable definition `name`, its parameter list and builder."""

    def __init__(self, key, definition, params, value, markers=None, args=None, derive='Debug, FuncMap, TryFuncMap', pre='', post=''):
        # params: which of T, U it has; args: generic arguments with {T}/{U}
        self.key, self.definition, self.params, self.value = key, definition, params, value
        self.markers = markers or {p: i for i, p in enumerate(params)}
        self.args = args or ', '.join('{' + p + '}' for p in params)
        self.derive, self.pre, self.post = derive, pre, post

    def name(self):
        return 'S'

    def module(self, ident):
        two = self.params == 'TU'
        g = 'T: Item, U: Item' if two else 'T: Item'
        mk = self.params if two else self.params
        # a definition with a single parameter always uses the name T in its builder
        ty = self.args.replace('{T}', 'T').replace('{U}', 'U')
        ps = ''.join(f'type P{i} = Tp<{self.markers[p]}>; ' for i, p in enumerate(mk))
        wh = 'T, U' if two else 'T'
        return (f'pub mod {ident} {{ use super::*;\n{self.pre}\n#[derive({self.derive})] {self.definition}\n{self.post}\n'
                f'pub struct D; impl Prog{"2" if two else "1"} for D {{ {ps}type Ty<{g}> = S<{ty}>;\n'
                f'fn build<{g}>(cx: &mut Cx) -> S<{ty}> {{ let p = cx.push(0); let r: S<{ty}> = {self.value}; cx.pop(); let _ = p; r }} }} }}')


def program(key, kind, fieldlists, params=None, gen=None, names=None, variants=None, **kw):
    """kind: named, tuple, unit for structs; a list of kinds for enums"""
    names = names or [f'f{i}' for i in range(50)]
    variants = variants or [f'V{i}' for i in range(50)]
    flat = [f for fs in fieldlists for f in fs]
    has = ''.join(p for p in 'TU' if any(mentions(f, p) for f in flat))
    params = params or has
    gen = gen or ', '.join(params)

    def body(kind, fs, vis='pub '):
        if kind == 'unit':
            return ''
        if kind == 'named':
            return '{ ' + ', '.join(f'{vis}{names[i]}: {rust(t)}' for i, t in enumerate(fs)) + ' }'
        return '(' + ', '.join(f'{vis}{rust(t)}' for t in fs) + ')'

    def ctor(path, kind, fs):
        if kind == 'unit':
            return path
        if kind == 'named':
            return f'{path} {{ ' + ', '.join(fields_build(fs, names)) + ' }'
        return f'{path}(' + ', '.join(fields_build(fs, None)) + ')'

    if isinstance(kind, str):
        semi = '' if kind == 'named' else ';'
        d = f'pub struct S<{gen}> {body(kind, fieldlists[0])}{semi}'
        v = ctor('S', kind, fieldlists[0])
    else:
        d = f'pub enum S<{gen}> {{ ' + ', '.join(f'{variants[i]}{" " + body(k, fs, "") if k != "unit" else ""}' for i, (k, fs) in enumerate(zip(kind, fieldlists))) + ' }'
        v = f'match cx.choose({len(kind)}) {{ ' + ', '.join(
            f'{i if i + 1 < len(kind) else "_"} => {ctor(f"S::{variants[i]}", k, fs)}' for i, (k, fs) in enumerate(zip(kind, fieldlists))) + ' }'
    return Prog(key, d, params, v, **kw)


# --- enumeration ----------------------------------------------------------------------

UNARY_Q = ['arr', 'tup', 'par', 'Vec', 'Option', 'Wrap']
UNARY_X = UNARY_Q + ['Box', 'Deep', 'Range', 'Poll', 'Deque', 'Phantom']
BIN_Q = ['tup2', 'Pair', 'Result', 'Either', 'Mix', 'Map']
BIN_X = BIN_Q + ['Flow']


def un(k, t):
    return arr(2, t) if k == 'arr' else tup(t) if k == 'tup' else par(t) if k == 'par' else app(k, t)


def bi(k, a, b):
    return tup(a, b) if k == 'tup2' else app(k, a, b)


def types(thorough):
    """All types up to depth 2 over the constructor alphabet (binary constructors take at
    most one argument of depth 1), and all of depth 1 over the extended alphabet."""
    leaves = [T, U, C]
    d1 = []
    for k in UNARY_X:
        d1 += [un(k, t) for t in leaves]
    for k in BIN_X:
        d1 += [bi(k, a, b) for a in leaves for b in leaves]
    d1 = [t for t in d1 if mentions(t, 'T')] + [t for t in d1 if not mentions(t, 'T') and mentions(t, 'U')]
    core1 = []
    for k in UNARY_Q:
        core1 += [un(k, t) for t in leaves]
    for k in BIN_Q:
        core1 += [bi(k, a, b) for a in leaves for b in leaves]
    core1 = [t for t in core1 if mentions(t, 'T')]
    d2 = []
    for k in (UNARY_X if thorough else UNARY_Q):
        d2 += [un(k, t) for t in core1]
    side = [T, U, C] if thorough else [T, U]
    for k in (BIN_X if thorough else BIN_Q):
        for t in core1:
            for s in side:
                if k != 'Map':
                    d2.append(bi(k, t, s))
                d2.append(bi(k, s, t))
    return [T, U, C, tup(), tup(C)] + d1, d2


def d3(thorough):
    """Chains of depth 3: every nesting of three unary constructors around T"""
    ks = UNARY_X if thorough else UNARY_Q
    return [un(a, un(b, un(c, T))) for a in ks for b in ks for c in ks]


def deep(thorough):
    """Chains of depth 4 to 7: every nesting of constructors with leaves before and after the nested type"""
    steps = [lambda t: app('Option', t), lambda t: arr(2, t), lambda t: tup(app('Vec', U), t, T), lambda t: tup(T, t),
             lambda t: app('Pair', U, t), lambda t: app('Box', t), lambda t: tup(app('Option', T), t, T)]

    def chains(idx, n):
        out = []
        for c in itertools.product(idx, repeat=n):
            t = T
            for i in c:
                t = steps[i](t)
            if wide(t) <= 14:
                out.append(t)
        return out
    if thorough:
        return chains(range(7), 4) + chains((0, 1, 3, 6), 5) + chains((0, 3, 6), 6) + chains((0, 6), 7)
    return chains((0, 1, 2, 6), 4) + chains((3, 5, 6), 5) + chains((0, 6), 6)


def triples(thorough):
    """Tuples of three out of several types, inside every unary constructor and inside a tuple"""
    al = [T, U, app('Vec', T), app('Option', U), C] + ([arr(2, T), app('Pair', U, T)] if thorough else [])
    ks = ['Vec', 'Option', 'Box', 'arr', 'tup', 'par', 'Wrap', 'Deque'] if thorough else ['Vec', 'arr', 'Wrap', 'tup']
    out = []
    for i, fs in enumerate(itertools.product(al, repeat=3)):
        if not any(mentions(f, 'T') for f in fs):
            continue
        # every triple in some constructor, palindromes in all
        for j, k in enumerate(ks):
            if thorough or fs[0] == fs[2] or (i + j) % len(ks) == 0:
                t = un(k, tup(*fs))
                if wide(t) <= (10 if thorough else 8):
                    out.append(t)
    return out


def wide(t):
    # bound the number of choice points: at most one vector-like level inside another
    def count(t):
        if t[0] in 'TUCX':
            return 1
        if t[0] == 'arr':
            return 2 * count(t[2])
        if t[0] == 'par':
            return count(t[1])
        if t[0] == 'tup':
            return sum([0] + [count(x) for x in t[1]])
        w = {'Vec': 2, 'Map': 2, 'Deque': 2, 'Deep': 4, 'Range': 2, 'Pair': 2, 'Mix': 2}.get(t[1], 1)
        return w * sum(count(x) for x in t[2])
    return count(t)


def packed(ts, n, prefix):
    """Structs with up to n fields each, alternating tuple and named form"""
    ts = [t for t in ts]
    out = []
    for i in range(0, len(ts), n):
        fs = ts[i:i + n]
        if not any(mentions(f, 'T') for f in fs):
            fs = fs + [T]
        out.append(program(f'{prefix}{i // n}', 'named' if (i // n) % 2 else 'tuple', [fs]))
    return out


def shapes(thorough):
    """Every field list up to length 3 over a small set of types, as struct and as enum variant"""
    al = [T, U, C, app('Vec', T), app('Pair', U, T)]
    out = []
    n = 0
    for length in (1, 2, 3):
        for fs in itertools.product(al, repeat=length):
            fs = list(fs)
            if not any(mentions(f, 'T') for f in fs):
                continue
            if length == 3 and not thorough and n % 3 and len(set(fs)) < 3:
                n += 1
                continue
            n += 1
            out.append(program(f'sh_t{n}', 'tuple', [fs]))
            if length < 3 or thorough:
                out.append(program(f'sh_n{n}', 'named', [fs]))
    # enums: every pair of variant kinds and field lists up to length 2 (second variant reversed)
    kinds = ['unit', 'tuple', 'named']
    lists = [[T], [U], [T, U], [U, T], [T, T], [C, T]]
    m = 0
    for k1, k2 in itertools.product(kinds, repeat=2):
        for a in (lists if k1 != 'unit' else [[]]):
            for b in (lists if k2 != 'unit' else [[]]):
                if not any(mentions(f, 'T') for f in a + b):
                    continue
                m += 1
                if not thorough and m % 3:
                    continue
                out.append(program(f'en{m}', [k1, k2, 'unit'], [a, b, []]))
    out.append(program('en_empty', ['tuple', 'named', 'unit', 'tuple'], [[], [], [], [T, U]]))
    out.append(program('st_many', 'tuple', [[T, U, C, T, U, C, T, U, C, T, U, C, T]]))
    out.append(program('en_one', ['named'], [[U, T]]))
    # long field lists: every rotation of two mixed lists, in a struct and in variants at every position
    pool = [T, app('Vec', T), U, app('Pair', U, T), C, tup(U, T), arr(2, T)]
    for n in (4, 5, 6, 7) if thorough else (4, 5, 7):
        for r in range(n):
            a = (pool[r % 7:] + pool[:r % 7])[:n]
            b = a[::-1]
            if not any(mentions(f, 'T') for f in a):
                continue
            for k in ('tuple', 'named'):
                out.append(program(f'lg_s{k}{n}_{r}', k, [a]))
                out.append(program(f'lg_e{k}{n}_{r}', [k, 'unit', 'named' if k == 'tuple' else 'tuple'], [a, [], b]))
                if r == n - 1 or thorough:
                    # many variants, all long
                    out.append(program(f'lg_m{k}{n}_{r}', [k] * n, [a[i:] + a[:i] for i in range(n)]))
    # large definitions: many fields, many variants
    pool = [T, U, arr(2, T), C, tup(U, T), T, app('Pair', U, T)]
    for n in (10, 11, 17, 26, 40) if thorough else (11, 18, 33):
        fs = [pool[(i * i + i // 7) % 7] for i in range(n)]
        for k in ('tuple', 'named'):
            out.append(program(f'big_s{k}{n}', k, [fs]))
            out.append(program(f'big_e{k}{n}', ['unit', k], [[], fs]))
        ks = [('tuple', 'named', 'tuple', 'unit')[i % 4] for i in range(n)]
        out.append(program(f'big_v{n}', ks, [[] if k == 'unit' else (pool[i % 7:] + pool[:i % 7])[:1 + i % 4] for i, k in enumerate(ks)]))
    # tuples of every length up to 12 with the parameter at every position (one per length and position)
    for n in range(1, 13 if thorough else 8):
        out.append(program(f'tuplen{n}', 'tuple', [[tup(*[T if j == i else U if j % 2 else C for j in range(n)]) for i in range(n)] + [U]]))
    for n in (0, 1, 3, 4):
        out.append(program(f'arrlen{n}', 'named', [[arr(n, T), arr(n, app('Option', T)), T]]))
    return out


def param_orders():
    """Every order of a const parameter and two mapped type parameters, with and without lifetimes"""
    out = []
    for perm in itertools.permutations(['T', 'U', 'N']):
        for lt in (0, 1, 2):
            lts = ["'a", "'b"][:lt]
            gen = lts + ['const N: usize' if p == 'N' else p for p in perm]
            args = ["'static"] * lt + ['2' if p == 'N' else '{%s}' % p for p in perm]
            fields = ['[T; N]', 'U', '(T, [U; N])'] + [f"&{l} str" for l in lts]
            d = f'pub struct S<{", ".join(gen)}>({", ".join(fields)});'
            ts = [arr(2, T), U, tup(T, arr(2, U))] + [('raw', '', '"s"')] * lt
            v = 'S(' + ', '.join(fields_build(ts, None)) + ')'
            out.append(Prog('po_' + ''.join(perm) + str(lt), d, 'TU', v, markers={p: perm.index(p) for p in 'TU'}, args=', '.join(args)))
    return out


def names_orders(thorough):
    """Field and variant names in every relation to the order of declaration: all orders of names that differ in
    their first letter, case and length"""
    out = []
    fs = [T, app('Vec', T), U, tup(U, T)]
    pools = [['zz', 'a', 'Mid', 'r#fn'], ['x10', 'x9', '_0', 'X']]
    for j, pool in enumerate(pools):
        for i, perm in enumerate(itertools.permutations(pool)):
            if not thorough and (i + j) % 2:
                continue
            perm = list(perm)
            out.append(program(f'ord_s{j}_{i}', 'named', [fs], names=perm))
            vs = [p.replace('r#fn', 'r#Fn').replace('_0', 'B_0') for p in perm]
            out.append(program(f'ord_e{j}_{i}', ['tuple', 'named', 'unit', 'named'], [fs[:2], fs, [], fs[::-1]], names=perm, variants=vs))
    return out


def many_params(thorough):
    """Four to six type parameters, any two of which are mapped, the others being concrete types"""
    out = []
    consts = [('u8', '7u8'), ('&\'static str', '"s"'), ('Option<u8>', 'Some(1)'), ('char', "'c'"), ('bool', 'true'), ('(u8,)', '(5,)')]
    for n in (3, 4, 5, 6) if thorough else (3, 4, 6):
        for i, j in itertools.permutations(range(n), 2):
            if not thorough and (i + 2 * j + n) % 3 == 0:
                continue
            leaf = [T if k == i else U if k == j else ('X', f'Q{k}', consts[k][1]) for k in range(n)]
            gen = ', '.join(['T' if k == i else 'U' if k == j else f'Q{k}' for k in range(n)])
            args = ', '.join(['{T}' if k == i else '{U}' if k == j else consts[k][0] for k in range(n)])
            r = leaf[::-1]
            fs = leaf + [tup(*r), app('Vec', r[0]), app('Pair', r[-1], leaf[1]), app('Option', tup(leaf[i], leaf[j], leaf[i]))]
            mk = {'T': i, 'U': j}
            out.append(program(f'mp_s{n}_{i}{j}', 'tuple' if (i + j) % 2 else 'named', [fs], params='TU', gen=gen, args=args, markers=mk))
            out.append(program(f'mp_e{n}_{i}{j}', ['tuple', 'named'], [leaf, r + [app('Either', leaf[i], r[0])]], params='TU', gen=gen, args=args, markers=mk))
    return out


def specials():
    P = Prog
    ts = []
    ts.append(P('bounded', 'pub struct S<T: Item>(pub T, pub std::collections::BTreeSet<T>) where T: Ord;', 'T',
                'S({ cx.set(p, 0); cx.leaf() }, { cx.set(p, 1); let q = cx.push(0); let n = cx.choose(4); let r = (0..n).map(|i| { cx.set(q, i); cx.leaf::<T>() }).collect(); cx.pop(); r })'))
    ts.append(P('defaults', 'pub struct S<T = u8, U = T>(pub U, pub T);', 'TU', 'S({ cx.set(p, 0); cx.leaf() }, { cx.set(p, 1); cx.leaf() })'))
    ts.append(P('wherecl', 'pub struct S<T, U> where T: Item, U: Item + Ord { pub a: T, pub b: U, pub c: Option<T> }', 'TU',
                'S { a: { cx.set(p, 0); cx.leaf() }, b: { cx.set(p, 1); cx.leaf() }, c: { cx.set(p, 2); if cx.choose(2) == 0 { None } else { Some(cx.leaf()) } } }'))
    ts.append(P('fnptr', "pub struct S<'a, T> { pub n: &'a str, pub f: fn(u8) -> u8, pub t: T, pub s: &'static [u8], pub x: *const u8 }", 'T',
                'S { n: "n", f: idf, t: cx.leaf(), s: &[1, 2], x: std::ptr::null() }', args="'static, {T}", post='fn idf(x: u8) -> u8 { x }',
                pre='', derive='FuncMap, TryFuncMap'))
    ts[-1].post += '\nimpl<T: std::fmt::Debug> std::fmt::Debug for S<\'_, T> { fn fmt(&self, f: &mut std::fmt::Formatter<\'_>) -> std::fmt::Result { write!(f, "S {{ {:?} {} {:?} {:?} {:?} }}", self.n, (self.f)(3), self.t, self.s, self.x) } }'
    ts.append(P('assoc', '#[funcmap(params(T))] pub struct S<T, U: Iterator>(pub T, pub Option<<U as Iterator>::Item>, pub U::Item, pub Vec<T>);', 'T',
                'S({ cx.set(p, 0); cx.leaf() }, Some(3), 4, { cx.set(p, 1); vec![cx.leaf::<T>()] })', args='{T}, std::vec::IntoIter<u8>'))
    ts.append(P('discr', '#[repr(u8)] pub enum S<T, U> { A(T) = 3, B { u: U, t: T } = 7, C = 9 }', 'TU',
                'match cx.choose(3) { 0 => S::A(cx.leaf()), 1 => S::B { u: { cx.set(p, 0); cx.leaf() }, t: { cx.set(p, 1); cx.leaf() } }, _ => S::C }'))
    ts.append(P('attrs', '/// doc\n#[non_exhaustive] pub struct S<T, U> { /** doc */ #[cfg(all())] pub a: T, #[cfg(any())] pub z: NoSuchType<T>, #[allow(dead_code)] pub b: U }', 'TU',
                'S { a: { cx.set(p, 0); cx.leaf() }, b: { cx.set(p, 1); cx.leaf() } }'))
    # visiting order of generic types with arguments in the other order: argument by argument
    ts.append(P('swapped', 'pub struct S<T, U>(pub Pair<Vec<U>, T>, pub Pair<T, Pair<T, U>>, pub std::collections::BTreeMap<T, Pair<T, T>>);', 'TU',
                'S(' + ', '.join(fields_build([app('Pair', app('Vec', U), T), app('Pair', T, app('Pair', T, U)), app('Map', T, app('Pair', T, T))], None)) + ')'))
    ts.append(P('paths', 'pub struct S<T>(pub ::std::vec::Vec<T>, pub std::option::Option<T>, pub self::Al<T>, pub super::Wrap<T>, pub crate::Pair<T, u8>);', 'T',
                'S(' + ', '.join(fields_build([app('Vec', T), app('Option', T), app('Wrap', T), app('Wrap', T), app('Pair', T, C)], None)) + ')', post='pub type Al<X> = Wrap<X>;'))
    return ts


# names of standard types, used for types of the user
SHADOWED = '''PhantomData Vec Option Box Result Cell RefCell Mutex Rc Arc Cow Range RangeFrom Bound Poll ControlFlow
Wrapping Reverse VecDeque LinkedList BTreeSet BTreeMap HashMap BinaryHeap IntoIter String ManuallyDrop MaybeUninit Pin
TypeParam FuncMarker Output Default Iterator Some Ok Err Self_ Array Tuple Marker'''.split()


def shadowed():
    """User-defined types that are called like standard ones or like names of the crate, as field types"""
    out = []
    for n in SHADOWED:
        ty = lambda a: f'{n}<{a}>'
        lf = lambda k, b: f'{n}({b}, cx.leaf::<{k}>())'
        out.append(Prog(f'nm_{n}', f'pub struct S<T, U>(pub {n}<T>, pub self::{n}<U>, pub {n}<{n}<T>>, pub T);', 'TU',
                        'S(' + ', '.join([f'{{ cx.set(p, 0); {lf("T", 5)} }}', f'{{ cx.set(p, 1); {lf("U", 6)} }}', f'{{ cx.set(p, 2); {n}(7, {lf("T", 8)}) }}', '{ cx.set(p, 3); cx.leaf() }']) + ')',
                        post=f'#[derive(Debug, FuncMap, TryFuncMap)] pub struct {n}<A>(pub u8, pub A);'))
    return out


def space(thorough, pack=3, deeper=False):
    a, b = types(thorough)
    b = [t for t in b if wide(t) <= 8]
    c = [t for t in d3(thorough) if wide(t) <= 8]
    out = packed(a, 1, 'ty') if thorough else packed(a, 2, 'ty')
    out += packed(b, pack, 'nest')
    out += packed(c, 2, 'chain')
    if deeper or thorough:
        out += packed(deep(thorough and deeper), 2, 'deep')
        out += packed(triples(thorough and deeper), 1, 'triple')
    out += shapes(thorough)
    out += param_orders()
    out += names_orders(thorough and deeper)
    out += many_params(thorough and deeper)
    out += specials()
    out += shadowed()
    return out


HEADER = '''#![allow(unused, non_local_definitions)]
extern crate fmrt; extern crate funcmap; use fmrt::*; use fmrt::prog::*; use funcmap::{FuncMap, TryFuncMap};
''' + LIB.strip()


def shard(progs, mode):
    """One executable exploring `mode` on all programs"""
    mods, regs = [], []
    for i, p in enumerate(progs):
        id_ = f'p_{p.key}'
        mods.append((p.key, p.module(id_)))
        if mode == 'c07' and p.params != 'TU':
            continue
        regs.append(f'("{p.key}", {"two" if p.params == "TU" else "one"}::{mode}::<{id_}::D>())')
    return mods, 'fn main() { fmrt::prog::run(vec![' + ',\n'.join(regs) + ']) }'


if __name__ == '__main__':
    for th in (False, True):
        s = space(th)
        print(th, len(s), len(types(th)[0]), len(types(th)[1]), len(d3(th)))
    print(s[100].module('x'))
