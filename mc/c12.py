"""C12: implementations apply exactly when the definition's bounds hold.

A reference model (Python) decides for every definition and every instance of the universe
whether the bounds hold; the compiler decides the same question on the derived code."""
import itertools
import re
import ctlib
from ctlib import Defs

# universe: every subset of the traits, and the associated item of HasItem (none, u8, char)
TRAITS = ['Alpha', 'Beta', 'Hr']
UNI = {}
for bits in range(8):
    for item in ('', 'u8', 'char'):
        UNI[f'X{bits}{item}'] = ({t for i, t in enumerate(TRAITS) if bits >> i & 1}, item)

HDR = ctlib.IS + '\n' + '''
pub trait Alpha {} pub trait Beta {} pub trait Hr<'x> {} pub trait HasItem { type Item; } pub trait Rel<X: ?Sized> {} pub trait Con<const N: usize> {}
pub struct HrOk; impl<'x, Y: Hr<'x>> HrRel<'x, Y> for HrOk {} pub trait HrRel<'x, X: ?Sized> {} impl<'x, X: Alpha, Y: Hr<'x>> HrRel<'x, Y> for Vec<X> {}
pub trait Gat { type G<X>; } pub trait HrV<'x> {} impl<'x, X: Hr<'x>> HrV<'x> for Vec<X> {}
'''
for n, (ts, item) in UNI.items():
    HDR += f'pub struct {n};' + ''.join(f"impl<'x> Hr<'x> for {n} {{}}" if t == 'Hr' else f'impl {t} for {n} {{}}' for t in sorted(ts))
    if item:
        HDR += f' impl HasItem for {n} {{ type Item = {item}; }}'
    HDR += '\n'
HDR += '''
impl Beta for char {} impl Alpha for u8 {}
impl<X: Alpha> Alpha for Vec<X> {} impl<X: Alpha, Y: Beta> Beta for (X, Y) {} impl<X: Beta, const N: usize> Beta for [X; N] {}
impl<X: Alpha, Y: Beta> Rel<Y> for Vec<X> {}
impl<X: Alpha> Con<3> for Vec<X> {} impl<X: Beta> Con<4> for Vec<X> {}
impl Alpha for fn(X0) {} impl<'a, X: Beta> Alpha for &'a X {}
'''
# relations between the universe and itself: Xa: Rel<Xb> iff both have Alpha, or b is a itself
for n, (ts, item) in UNI.items():
    HDR += f"impl<Y: Alpha> Rel<Y> for {n} {{}} impl<'x, Y: Hr<'x>> HrRel<'x, Y> for {n} {{}}\n" if 'Beta' in ts else ''
HDR = HDR.rstrip()


def t(*names):
    return lambda x: all(n in UNI[x][0] for n in names)


def item(*names):
    return lambda x: UNI[x][1] in names


def both(*ps):
    return lambda x: all(p(x) for p in ps)


ANY = lambda x: True
# bounds on the mapped parameter: (text after `T:`, model)
BOUNDS = [
    ('Alpha', t('Alpha')),
    ('Beta', t('Beta')),
    ("for<'x> Hr<'x>", t('Hr')),
    ("(Alpha)", t('Alpha')),
    ("(for<'x> Hr<'x>)", t('Hr')),
    ('HasItem', item('u8', 'char')),
    ('HasItem<Item = u8>', item('u8')),
    ("'static", ANY),
    ('Sized', ANY),
    ('self::super::Alpha', t('Alpha')),
    ('Rel<X1>', t('Beta')),
    ('Rel<T>', t('Alpha', 'Beta')),
    ('?Sized', ANY),
    ("Rel<<T as HasItem>::Item> + HasItem", lambda x: 'Beta' in UNI[x][0] and UNI[x][1] == 'u8'),
]
# where predicates that are not of the form `T: ..`
PREDS = [
    ('Vec<T>: Alpha', t('Alpha')),
    ('(T): Beta', t('Beta')),
    ("for<'x> T: Hr<'x>", t('Hr')),
    ('[T; 2]: Beta', t('Beta')),
    ('(T, T): Beta', t('Alpha', 'Beta')),
    ('Vec<T>: Rel<T>', t('Alpha', 'Beta')),
    ('Vec<T>: Con<3>', t('Alpha')),
    ('Vec<T>: Con<3> + Con<4>', t('Alpha', 'Beta')),
    ('Vec<Vec<T>>: Alpha', t('Alpha')),
    ("for<'x> &'x T: Alpha", t('Beta')),
    ('T: HasItem, T::Item: Alpha', item('u8')),
    ('T: HasItem, <T as HasItem>::Item: Beta', item('char')),
    ('T: HasItem, Vec<T::Item>: Alpha', item('u8')),
    ('T: HasItem, X1: Rel<T>', lambda x: False),
    ('X2: Rel<T>', t('Alpha')),
    ('Vec<u8>: Alpha', ANY),
    ('T: Alpha, T: Beta, T: Alpha', t('Alpha', 'Beta')),
    ('T:', ANY),
    ("T: 'static + Beta", t('Beta')),
    ('Vec<u8>: Rel<char>', ANY),
]


def c12(ck):
    ck.build()
    d = Defs(ck, header=HDR + '\n' + QHDR.rstrip(), name='bounds', shards=24)
    bodies = ['pub struct S<{g}>(pub T){w};', 'pub struct S<{g}>{w} {{ f: Vec<T>, g: u8 }}', 'pub enum S<{g}>{w} {{ A(T, u8), B {{ x: Option<T> }}, C }}']

    def add(key, g, w, model, extra='', frag=None):
        i = len(d.seen)
        if frag == 'raw':
            w = re.sub(r'\bT\b', 'r#T', w)
        body = bodies[i % 3].format(g=g, w=f' where {w}' if w else '')
        if '?Sized' in g + w:
            # fields of unsized type
            body = body.replace('pub T)', 'pub Box<T>)').replace('Vec<T>', 'Box<T>').replace('A(T, u8)', 'A(Box<T>, u8)').replace('Option<T>', 'Box<T>')
        text = '#[derive(FuncMap, TryFuncMap)] ' + body
        if frag and frag != 'raw':
            # the predicates are written with a macro fragment
            text = f'macro_rules! mac {{ ($t:{frag}) => {{ {text.replace(w, re.sub(chr(92) + "bT" + chr(92) + "b", "$t", w))} }} }} mac!(T);'
        q = []
        good = [x for x in UNI if model(x)]
        for src in good[:2] + good[-1:]:
            for dst in UNI:
                tr = 'FT'[(len(q) + i) % 2] if not ck.thorough else None
                for tr in (['F', 'T'] if (ck.thorough or i < 60) else [tr]):
                    q.append((f'Is::<S<{src}>, {src}, {dst}, TypeParam<0>>::{tr}', model(dst), f'S<{src}> -> {dst} ({tr})'))
            for tr in 'FT':
                q.append((f'IsO::<S<{src}>, {src}, {good[-1]}, TypeParam<0>, S<{good[-1]}>>::{tr}', True, f'result of S<{src}> -> {good[-1]} ({tr})'))
        d.add(key, text + extra, q)

    add('none', 'T', '', ANY)
    for i, (b, m) in enumerate(BOUNDS):
        add(f'inline{i}', f'T: {b}', '', m)
        if b != '?Sized' or True:
            add(f'where{i}', 'T', f'T: {b}', m)
            for frag in ('ty', 'ident', 'tt', 'raw'):
                if b[0] == '?' and frag == 'ty' or frag != 'ty' or '<T as' not in b:
                    add(f'where{i}_{frag}', 'T', f'T: {b}', m, frag=frag)
        for j, (b2, m2) in enumerate(BOUNDS):
            if b[0] == '?' and b2[0] == '?':
                continue
            if i < j or ck.thorough:
                if i != j:
                    add(f'inline{i}_{j}', f'T: {b} + {b2}', '', both(m, m2))
                add(f'split{i}_{j}', f'T: {b}', f'T: {b2}', both(m, m2))
            if i < j and (ck.thorough or (i + j) % 2):
                add(f'where{i}_{j}', 'T', f'T: {b}, T: {b2}', both(m, m2))
    for i, (p, m) in enumerate(PREDS):
        good = [x for x in UNI if m(x)]
        if not good:
            continue
        add(f'pred{i}', 'T', p, m)
        add(f'pred_tc{i}', 'T', p + ',', m)
        for frag in ('ty', 'ident', 'tt', 'raw'):
            if frag != 'ty' or 'T::Item' not in p:
                add(f'pred{i}_{frag}', 'T', p, m, frag=frag)
        for j, (b, m2) in enumerate(BOUNDS):
            # an unsized T cannot stand where these predicates put it
            if b == '?Sized' and ('Vec<T>' in p or '[T' in p or '(T, T)' in p):
                continue
            if any(m(x) and m2(x) for x in UNI) and (ck.thorough or (i + j) % 3 == 0):
                add(f'pred{i}_{j}', f'T: {b}', p, both(m, m2))
        for j, (p2, m2) in enumerate(PREDS):
            if i < j and any(m(x) and m2(x) for x in UNI) and (ck.thorough or (i + j) % 4 == 0):
                add(f'pred{i}_p{j}', 'T', f'{p}, {p2}', both(m, m2))

    # predicates about the same type written with and without binders, in every order
    SAME = [
        ('T: Alpha', t('Alpha')), ("for<'x> T: Hr<'x>", t('Hr')), ("T: for<'x> Hr<'x>", t('Hr')), ("for<'y> T: Hr<'y> + Beta", both(t('Hr'), t('Beta'))),
        ("for<'y> T: Alpha + Hr<'y>", both(t('Hr'), t('Alpha'))), ("T: Hr<'static>", t('Hr')), ("for<'x> &'x T: Alpha", t('Beta')), ("for<'y> &'y T: Alpha", t('Beta')),
        ("&'static T: Alpha", t('Beta')), ("T: 'static", ANY), ("for<'x> Vec<T>: HrV<'x>", t('Hr')), ('Vec<T>: Alpha', t('Alpha')),
    ]
    for n in (2, 3):
        for k, sel in enumerate(itertools.permutations(range(len(SAME)), n)):
            if n == 3 and not ck.thorough and k % 4:
                continue
            if 8 in sel and 9 not in sel:
                continue
            if {6, 7} & set(sel) and 8 in sel or 5 in sel and {1, 2, 3, 4} & set(sel):
                continue  # the compiler finds these ambiguous
            add('same' + '_'.join(map(str, sel)), 'T', ', '.join(SAME[x][0] for x in sel), both(*[SAME[x][1] for x in sel]))
    kinds(d, ck)
    # two parameters: bounds of one, relations between both (both implementations exist)
    U2 = ['X0', 'X1', 'X2', 'X3', 'X3u8', 'X7char']
    al = lambda x: 'Alpha' in UNI[x][0]
    be = lambda x: 'Beta' in UNI[x][0]
    TWO = [
        ('T, U', '', lambda a, b: True),
        ('T: Alpha, U', '', lambda a, b: al(a)),
        ('T, U: Beta', '', lambda a, b: be(b)),
        ('T: Alpha, U: Beta', '', lambda a, b: al(a) and be(b)),
        ('T: Rel<U>, U', '', lambda a, b: be(a) and al(b)),
        ('T, U: Rel<T>', '', lambda a, b: be(b) and al(a)),
        ('T, U', 'U: Rel<T>, T: Rel<U>', lambda a, b: be(b) and al(a) and be(a) and al(b)),
        ('T, U', 'U: Rel<T> + Alpha', lambda a, b: be(b) and al(a) and al(b)),
        ('T, U', '(T, U): Beta', lambda a, b: al(a) and be(b)),
        ('T, U', 'Vec<U>: Rel<T>', lambda a, b: al(b) and be(a)),
        ('T: HasItem<Item = u8>, U: Rel<<T as HasItem>::Item>', '', lambda a, b: UNI[a][1] == 'u8' and be(b)),
        ('T: HasItem, U', 'U: Rel<T::Item>', lambda a, b: UNI[a][1] == 'u8' and be(b)),
        ('T, U: Rel<[T; 2]> + Rel<T>', '', None),
    ]
    for i, (g, w, m) in enumerate(TWO):
        if m is None:
            continue
        for fi, fields in enumerate(['(pub T, pub U)', '(pub Vec<(T, U)>, pub Option<Result<U, T>>)']):
            text = f'#[derive(FuncMap, TryFuncMap)] pub struct S<{g}>{fields}' + (f' where {w}' if w else '') + ';'
            q = []
            for a in U2:
                for b in U2:
                    if not m(a, b):
                        continue
                    for c in U2:
                        for tr in 'FT':
                            q.append((f'Is::<S<{a}, {b}>, {a}, {c}, TypeParam<0>>::{tr}', m(c, b), f'S<{a}, {b}> first -> {c} ({tr})'))
                            q.append((f'Is::<S<{a}, {b}>, {b}, {c}, TypeParam<1>>::{tr}', m(a, c), f'S<{a}, {b}> second -> {c} ({tr})'))
            d.add(f'two{i}_{fi}', text, q[:: 1 if ck.thorough else 2 if len(q) > 200 else 1])

    # every pair of predicates about two parameters, in the header or the where clause, for every choice of mapped parameters
    hr = lambda x: 'Hr' in UNI[x][0]
    U3 = ['X0', 'X1', 'X2', 'X3', 'X4', 'X6', 'X7char', 'X7u8']
    P2 = [
        ('T', 'Alpha', lambda a, b: al(a)), ('U', 'Beta', lambda a, b: be(b)), ('T', "for<'x> Hr<'x>", lambda a, b: hr(a)), ('U', "for<'x> Hr<'x>", lambda a, b: hr(b)),
        ('U', 'Rel<T>', lambda a, b: be(b) and al(a)), ('T', 'Rel<U>', lambda a, b: be(a) and al(b)), ('U', "for<'x> HrRel<'x, T>", lambda a, b: be(b) and hr(a)), ('T', "for<'x> HrRel<'x, U>", lambda a, b: be(a) and hr(b)),
        ('U', 'Rel<Vec<T>>', lambda a, b: be(b) and al(a)), ('T', 'Rel<Vec<U>>', lambda a, b: be(a) and al(b)), ('T', 'Rel<T>', lambda a, b: be(a) and al(a)),
        ('T', 'HasItem<Item = u8>', lambda a, b: UNI[a][1] == 'u8'), ('U', 'HasItem', lambda a, b: UNI[b][1] != ''), ('U', "'static", lambda a, b: True),
        (None, '(T, U): Beta', lambda a, b: al(a) and be(b)), (None, '(U, T): Beta', lambda a, b: al(b) and be(a)), (None, 'Vec<U>: Rel<T>', lambda a, b: al(b) and be(a)), (None, "for<'x> Vec<U>: HrRel<'x, T>", lambda a, b: al(b) and hr(a)),
        (None, "Vec<T>: for<'x> HrRel<'x, U>", lambda a, b: al(a) and hr(b)), (None, "for<'x> &'x U: Alpha", lambda a, b: be(b)), (None, "for<'x> &'x T: Alpha", lambda a, b: be(a)), (None, '[U; 2]: Beta', lambda a, b: be(b)),
        (None, "for<'x> HrOk: HrRel<'x, T>", lambda a, b: hr(a)), (None, "HrOk: for<'x> HrRel<'x, U>", lambda a, b: hr(b)), (None, 'X2: Rel<U>', lambda a, b: al(b)), (None, "T: Rel<X1>, U: Rel<T>", lambda a, b: be(a) and be(b) and al(a)),
    ]
    fields = ['(pub T, pub U)', '(pub Vec<(T, U)>, pub Option<Result<U, T>>)', '(pub U, pub [T; 2])']
    sel = [(i,) for i in range(len(P2))] + list(itertools.permutations(range(len(P2)), 2)) + (list(itertools.permutations(range(len(P2)), 3))[::11] if ck.thorough else [])
    for k, ix in enumerate(sel):
        if len(ix) == 2 and ix[0] > ix[1] and not ck.thorough and k % 3:
            continue
        ps = [P2[i] for i in ix]
        m = lambda a, b: all(p[2](a, b) for p in ps)
        good = [(a, b) for a in U3 for b in U3 if m(a, b)]
        if not good:
            continue
        good = [good[0], good[-1], good[len(good) // 2]]
        for opt in ('', 'T', 'U') if ck.thorough or len(ix) == 1 else [('', 'T', 'U')[k % 3]]:
            for inl in range(1 << len(ps)) if ck.thorough or len(ix) == 1 else [k // 3 % 4, 3 - k // 3 % 4]:
                if any(inl >> i & 1 and not p[0] for i, p in enumerate(ps)):
                    continue
                head = {'T': [], 'U': []}
                w = []
                for i, (sub, text, _) in enumerate(ps):
                    if inl >> i & 1:
                        head[sub].append(text)
                    else:
                        w.append(f'{sub}: {text}' if sub else text)
                g = ', '.join(x + (': ' + ' + '.join(head[x]) if head[x] else '') for x in 'TU')
                q = []
                for n, (a, b) in enumerate(good):
                    for c in U3:
                        tr = 'FT'[(k + n) % 2]
                        q.append((f'Is::<S<{a}, {b}>, {a}, {c}, TypeParam<0>>::{tr}', opt != 'U' and m(c, b), f'S<{a}, {b}> first -> {c} ({tr})'))
                        q.append((f'Is::<S<{a}, {b}>, {b}, {c}, TypeParam<1>>::{tr}', opt != 'T' and m(a, c), f'S<{a}, {b}> second -> {c} ({tr})'))
                d.add(f'pairs_{"_".join(map(str, ix))}_{opt}_{inl}', '#[derive(FuncMap, TryFuncMap)]' + (f' #[funcmap(params({opt}))]' if opt else '') + f' pub struct S<{g}>{fields[k % 3]}' + (f' where {", ".join(w)}' if w else '') + ';', q)

    # nested generic types: mappability of the nested type decides
    nested(d, ck)
    unsized(d, ck)
    generics(d, ck)
    selfs(d, ck)
    d.known = {'trailing1': ('unsized-tail-in-generic', 'E0277')}
    d.judge()
    return ck.finish()


# bounded types: (text, binder, generic implementation or None for the universe itself, further predicate)
BOUNDED = [
    ('T', 0, None, ''), ('(T)', 0, None, ''), ('Vec<T>', 0, 'Vec<X>', ''), ('[T; 2]', 0, '[X; 2]', ''), ('(T, T)', 0, '(X, X)', ''), ('(T,)', 0, '(X,)', ''), ("&'x T", 1, "&'x X", ''), ("&'x mut T", 1, "&'x mut X", ''),
    ("&'static T", 0, "&'x X", "T: 'static"), ('*const T', 0, '*const X', ''), ('*mut T', 0, '*mut X', ''), ('fn(T)', 0, 'fn(X)', ''), ('fn() -> T', 0, 'fn() -> X', ''), ('[T]', 0, '[X]', ''), ('Box<dyn Iterator<Item = T>>', 0, 'Box<dyn Iterator<Item = X>>', ''),
    ('Option<Vec<T>>', 0, 'Option<Vec<X>>', ''), ("(&'x T, u8)", 1, "(&'x X, u8)", ''), ('std::collections::BTreeMap<u8, T>', 0, 'std::collections::BTreeMap<u8, X>', ''), ('(Vec<T>)', 0, 'Vec<X>', ''), ("std::borrow::Cow<'x, [T]>", 1, None, ''),
]
BOUNDED = [b for b in BOUNDED if 'Cow' not in b[0]]
QHDR = "pub trait Q1 {} pub trait Q2 {} pub trait Q3<'q> {} pub trait Q4<Y: ?Sized> {}\n"
QHDR += ''.join((f'impl<X: Alpha> Q1 for {i} {{}} impl<X: Beta> Q2 for {i} {{}} impl<\'q, X: Hr<\'q>> Q3<\'q> for {i} {{}} impl<X: Alpha, Y: Beta> Q4<Y> for {i} {{}}\n').replace('impl<', "impl<'x, " if "'x" in i else 'impl<').replace("'x, 'q", "'q, 'x")
                for i in sorted({b[2] for b in BOUNDED if b[2]}))
QHDR += ''.join(f'impl<X: ?Sized> Q4<X> for {n} where X: Beta {{}} ' * ('Alpha' in ts) + f'impl Q1 for {n} {{}} ' * ('Alpha' in ts) + f'impl Q2 for {n} {{}} ' * ('Beta' in ts) + f"impl<'q> Q3<'q> for {n} {{}}\n" * ('Hr' in ts) for n, (ts, _) in UNI.items())


def kinds(d, ck):
    """Every sequence of up to three bounds on every kind of type, with every way to bind lifetimes"""
    bs = [('Q1', t('Alpha')), ('Q2', t('Beta')), ("for<'q> Q3<'q>", t('Hr')), ("Q3<'q>", t('Hr')), ('Q4<T>', t('Alpha', 'Beta')), ('Sized', ANY), ("Q3<'static>", t('Hr'))]
    pts = [f'X{i}' for i in range(8)]
    k = 0
    for ti, (ty, binder, imp, more) in enumerate(BOUNDED):
        for n in (1, 2, 3):
            for sel in itertools.permutations(range(len(bs)), n):
                if len({2, 3, 6} & set(sel)) > 1 or 5 in sel and ty == '[T]' or 2 in sel and binder:
                    continue
                k += 1
                if n == 3 and not ck.thorough and k % 8 or n == 2 and not ck.thorough and (sum(sel) + ti) % 2:
                    continue
                m = both(*[bs[i][1] for i in sel])
                lts = ["'x"] * binder + ["'q"] * (3 in sel)
                pred = (f'for<{", ".join(lts)}> ' if lts else '') + f'{ty}: ' + ' + '.join(bs[i][0] for i in sel)
                preds = [p for p in (more, pred) if p]
                if k % 3 == 0:
                    preds = preds[::-1]
                # one or two type parameters, the other one never restricted
                two = k % 2
                good = [x for x in pts if m(x)]
                body = ['(pub T{u})', '(pub Vec<T>, pub (T, [T; 2]){u})'][k // 2 % 2].format(u=', pub U' if two else '')
                text = f'#[derive(FuncMap, TryFuncMap)] pub struct S<T{", U" if two else ""}>{body} where {", ".join(preds)};'
                q = []
                for src in (good[0], good[-1]):
                    for dst in pts:
                        s = f'S<{src}, X0>' if two else f'S<{src}>'
                        q.append((f'Is::<{s}, {src}, {dst}, TypeParam<0>>::{"FT"[len(q) % 2]}', m(dst), f'{pred}: {src} -> {dst}'))
                    if two:
                        q.append((f'Is::<S<{src}, X0>, X0, X1, TypeParam<1>>::{"FT"[k // 2 % 2]}', True, f'{pred}: other parameter'))
                        q.append((f'Is::<S<{src}, X0>, X0, X7, TypeParam<1>>::{"TF"[k // 2 % 2]}', True, f'{pred}: other parameter'))
                d.add(f'kind{ti}_' + ''.join(map(str, sel)), text, q)


def nested(d, ck):
    # (name, items, nested type, model(tr, src, dst) or None = never)
    ORD = {'u8': True, 'String': True, 'f32': False, 'NoTr': False}
    HASH = dict(ORD)
    pre = 'pub struct NoTr;\n'
    tys = ['u8', 'String', 'f32', 'NoTr']
    std = [
        ('std::collections::BTreeSet<T>', ORD, ORD), ('std::collections::HashSet<T>', {k: True for k in tys}, HASH), ('std::collections::BinaryHeap<T>', {k: True for k in tys}, ORD),
        ('std::collections::BTreeMap<T, u8>', ORD, ORD), ('std::collections::BTreeMap<u8, T>', None, None), ('std::collections::HashMap<T, u8>', {k: True for k in tys}, HASH),
        ('Vec<std::collections::BTreeSet<T>>', ORD, ORD), ('std::collections::BTreeMap<T, T>', ORD, ORD), ('[std::collections::BTreeSet<Option<T>>; 2]', ORD, ORD),
        ('Option<Box<T>>', None, None), ('std::rc::Rc<T>', None, False), ('Vec<std::sync::Arc<T>>', None, False), ('std::borrow::Cow<\'static, [T]>', None, 'skip'),
        ('std::mem::ManuallyDrop<T>', None, False), ('(std::rc::Rc<T>, T)', None, False), ('std::num::Wrapping<T>', None, False),
    ]
    for i, (ty, src_ok, dst_ok) in enumerate(std):
        if dst_ok == 'skip':
            continue
        for kind in range(2):
            text = pre + ('#[derive(FuncMap, TryFuncMap)] ' + ('pub struct S<T>(pub T, pub %s);' % ty if kind == 0 else 'pub enum S<T> { A(%s), B { t: T } }' % ty))
            q = []
            for a in tys:
                for b in tys:
                    for tr in 'FT':
                        want = False if dst_ok is False else True if dst_ok is None else dst_ok[b]
                        q.append((a, b, tr, want))
            # the derived impl demands exactly `Nested<A>: FuncMap<A, B, .., Output = Nested<B>>`
            qs = []
            for a, b, tr, want in q:
                qs.append((f'Is::<S<{a}>, {a}, {b}, TypeParam<0>>::{tr}', want, f'{ty}: {a} -> {b} ({tr})'))
            d.add(f'std{i}_{kind}', text, qs)

    # user types: implemented for one trait only, for specific types only, with another result, not at all
    G = 'pub struct G<X>(pub X);\n'
    fm = 'impl{g} FuncMap<{a}, {b}> for G<{a}>{w} {{ type Output = {o}; fn func_map<F: FnMut({a}) -> {b}>(self, f: F) -> {o} {{ loop {{}} }} }}\n'
    tf = 'impl{g} TryFuncMap<{a}, {b}> for G<{a}>{w} {{ type Output = {o}; fn try_func_map<E, F: FnMut({a}) -> Result<{b}, E>>(self, f: F) -> Result<{o}, E> {{ loop {{}} }} }}\n'
    gen = dict(g='<A, B>', a='A', b='B', w='', o='G<B>')
    cases = {
        'onlyF': (fm.format(**gen), lambda tr, a, b: tr == 'F'),
        'onlyT': (tf.format(**gen), lambda tr, a, b: tr == 'T'),
        'none': ('', lambda tr, a, b: False),
        'wrongout': (fm.format(**{**gen, 'o': 'Vec<B>'}) + tf.format(**{**gen, 'o': 'Vec<B>'}), lambda tr, a, b: False),
        'onepair': (fm.format(g='', a='u8', b='String', w='', o='G<String>') + tf.format(g='', a='u8', b='String', w='', o='G<String>'), lambda tr, a, b: (a, b) == ('u8', 'String')),
        'copysrc': (fm.format(**{**gen, 'w': ' where A: Copy'}) + tf.format(**{**gen, 'w': ' where A: Copy'}), lambda tr, a, b: a in ('u8', 'f32')),
        'copydst': (fm.format(**{**gen, 'w': ' where B: Copy'}) + tf.format(**{**gen, 'w': ' where B: Copy'}), lambda tr, a, b: b in ('u8', 'f32')),
        'mixed': (fm.format(**{**gen, 'w': ' where B: Copy'}) + tf.format(**{**gen, 'w': ' where A: Copy'}), lambda tr, a, b: (b if tr == 'F' else a) in ('u8', 'f32')),
        'diag': (fm.format(g='<A>', a='A', b='A', w='', o='G<A>') + tf.format(g='<A>', a='A', b='A', w='', o='G<A>'), lambda tr, a, b: a == b),
    }
    holders = ['pub struct S<T>(pub G<T>);', 'pub struct S<T> { a: T, g: (u8, [G<T>; 2]) }', 'pub enum S<T> { A, B(Vec<G<T>>), C { t: T } }', 'pub struct S<T>(pub Result<u8, G<T>>, pub T);',
               'pub struct S<T>(pub Option<(G<T>,)>);']
    for n, (impls, m) in cases.items():
        for h, hd in enumerate(holders):
            q = [(f'Is::<S<{a}>, {a}, {b}, TypeParam<0>>::{tr}', m(tr, a, b), f'{n}: {a} -> {b} ({tr})') for a in tys for b in tys for tr in 'FT']
            d.add(f'user_{n}_{h}', pre + G + impls + '#[derive(FuncMap, TryFuncMap)] ' + hd, q)
    # several arguments: each step of the argument-by-argument mapping is required with the right types
    H = 'pub struct H<X, Y>(pub X, pub Y);\n'
    mk = lambda tr, m, a, b, y, w: (f'impl<A, B, Y> {"FuncMap" if tr == "F" else "TryFuncMap"}<A, B, TypeParam<{m}>> for H<{"A, Y" if m == 0 else "Y, A"}> {w} {{ type Output = H<{"B, Y" if m == 0 else "Y, B"}>; '
                                    + ('fn func_map<F: FnMut(A) -> B>(self, f: F) -> Self::Output { loop {} } }\n' if tr == 'F' else 'fn try_func_map<E, F: FnMut(A) -> Result<B, E>>(self, f: F) -> Result<Self::Output, E> { loop {} } }\n'))
    for c0, c1 in itertools.product(['', 'Y: Copy', 'A: Copy', 'B: Copy'], repeat=2):
        impls = ''.join(mk(tr, 0, 0, 0, 0, f'where {c0}' if c0 else '') + mk(tr, 1, 0, 0, 0, f'where {c1}' if c1 else '') for tr in 'FT')
        cp = lambda x: x in ('u8', 'f32')
        # first step: H<A, A> -> H<B, A> (marker 0, Y = A); second: H<B, A> -> H<B, B> (marker 1, Y = B)
        ev = lambda c, A, B, Y: {'': True, 'Y: Copy': cp(Y), 'A: Copy': cp(A), 'B: Copy': cp(B)}[c]
        m = lambda a, b: ev(c0, a, b, a) and ev(c1, a, b, b)
        q = [(f'Is::<S<{a}>, {a}, {b}, TypeParam<0>>::{tr}', m(a, b), f'{a} -> {b} ({tr})') for a in tys for b in tys for tr in 'FT']
        d.add('steps%d' % len(d.seen), pre + H + impls + '#[derive(FuncMap, TryFuncMap)] pub struct S<T>(pub H<T, T>);', q)


def unsized(d, ck):
    hdr = 'pub trait Tr {}\n'
    # opt-outs of sizedness on the mapped parameter do not make the derive fail
    for i, (g, w) in enumerate([('T: ?Sized', ''), ('T', 'where T: ?Sized'), ('T: ?Sized + Alpha', ''), ('T: Alpha + ?Sized', ''), ('T: ?Sized', 'where T: Alpha'), ('T: Alpha', 'where T: ?Sized'),
                                ('T: ?Sized', 'where T: Alpha, T: Alpha'), ("T: 'static + ?Sized", ''), ('T: ?Sized + ?Sized', '') if False else ('T: ?Sized', "where T: 'static")]):
        al = 'Alpha' in w + g
        for j, b in enumerate(['(pub Box<T>)', '{ t: T }', '(pub u8, pub T)', '(pub Vec<u8>, pub Box<T>, pub std::marker::PhantomData<T>)']):
            semi = ';' if b[0] == '(' else ''
            text = f'#[derive(FuncMap, TryFuncMap)] pub struct S<{g}>' + (f'{b} {w};' if semi else f' {w} {b}')
            q = [(f'Is::<S<{a}>, {a}, {x}, TypeParam<0>>::{tr}', not al or 'Alpha' in UNI[x][0], f'{a} -> {x} ({tr})') for a in ('X1', 'X3u8') for x in ('X0', 'X1', 'X2', 'X5') for tr in 'FT']
            # unsized instances exist, they just are not mappable
            d.add(f'unsized{i}_{j}', text + ('pub fn f(_: &S<[u8]>, _: &S<str>) {}' if not al else ''), q)
    # other parameters keep theirs; remaining field types must be sized
    for i, (g, w, body) in enumerate([
        ('T, U: ?Sized', '', '(pub T, pub Box<U>)'), ('T, U', 'where U: ?Sized', '(pub T, pub Box<U>)'), ('T, U: ?Sized', '', '(pub T, pub std::marker::PhantomData<U>)'),
        ('T, U: ?Sized', '', "(pub T, pub &'static U)"),
    ]):
        text = f"#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))] pub struct S<{g}>{body} {w};".replace('U: ?Sized', "U: ?Sized + 'static") if '&' in body else f'#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))] pub struct S<{g}>{body} {w};'
        q = [(f'Is::<S<X0, {u}>, X0, X1, TypeParam<0>>::{tr}', True, f'{u} ({tr})') for u in ('u8', '[u8]', 'str', 'dyn Alpha') for tr in 'FT']
        d.add(f'other_unsized{i}', text, q)
    # mapping both: Box<U> is mappable over U only if U is sized; over T always
    text = '#[derive(FuncMap, TryFuncMap)] pub struct S<T, U: ?Sized>(pub T, pub Box<U>);'
    d.add('both_unsized', text, [(f'Is::<S<X0, {u}>, X0, X1, TypeParam<0>>::{tr}', True, f'{u}') for u in ('u8', 'str') for tr in 'FT'] + [(f'Is::<S<X0, u8>, u8, X1, TypeParam<1>>::{tr}', True, '') for tr in 'FT'])
    # an unsized trailing field: available exactly for sized ones
    for k, text in enumerate(['#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))] pub struct S<T, U: ?Sized>(pub T, pub U);', '#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))] pub struct S<T, U: ?Sized> { t: T, u: W<U> } pub struct W<X: ?Sized>(pub X);',
                              '#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))] pub struct S<T, U>(pub T, pub U) where U: ?Sized;']):
        d.add(f'trailing{k}', text, [(f'Is::<S<X0, {u}>, X0, X1, TypeParam<0>>::{tr}', u in ('u8', 'X1'), f'{u} ({tr})') for u in ('u8', 'X1') for tr in 'FT'] + [(f'Is::<S<X0, {u}>, X0, X1, TypeParam<0>>::{tr}', False, f'{u} ({tr})') for u in ('str', '[u8]') for tr in 'FT'])
    # fields that do not depend on the parameter and are unsized or ill-formed in no way
    d.add('indep', "#[derive(FuncMap, TryFuncMap)] pub struct S<T, U: HasItem>(pub T, pub U::Item, pub std::marker::PhantomData<str>, pub fn(u8) -> u8, pub Box<dyn Alpha>, pub &'static str) where U::Item: Alpha;".replace('#[derive(FuncMap, TryFuncMap)]', '#[derive(FuncMap, TryFuncMap)] #[funcmap(params(T))]'),
          [(f'Is::<S<X0, X0u8>, X0, X1, TypeParam<0>>::{tr}', True, tr) for tr in 'FT'])


def selfs(d, ck):
    """`Self` in bounds and predicates: it has to hold for the source and for the destination type"""
    def rs(good):
        # the right ones, and (where `Self` is not the destination type) wrong ones
        kind = {'X1': 'u8', 'X3': 'char', 'X7': 'u8'}
        return 'pub trait Rs<X: ?Sized> { type I; } ' + ''.join(f'impl Rs<S<{x}>> for {x} {{ type I = {kind[x]}; }} ' for x in good) + ''.join(f'impl Rs<S<{good[0]}>> for {x} {{ type I = u8; }} ' for x in ('X2', 'X5', 'X6'))

    in_rs = lambda *xs: lambda x: x in xs
    # (predicate, item with the implementations for S, model)
    SP = [
        ('Self: Q1', 'impl<T: Alpha> Q1 for S<T> {}', t('Alpha')),
        ('Self: Q2', 'impl<T: Beta> Q2 for S<T> {}', t('Beta')),
        ("for<'q> Self: Q3<'q>", "impl<'q, T: for<'x> Hr<'x>> Q3<'q> for S<T> {}", t('Hr')),
        ("Self: for<'q> Q3<'q>", "impl<'q, T: for<'x> Hr<'x>> Q3<'q> for S<T> {}", t('Hr')),
        ('Vec<Self>: Alpha', 'impl<T: Beta> Alpha for S<T> {}', t('Beta')),
        ("for<'x> &'x Self: Alpha", "impl<T: Alpha> Beta for S<T> {}", t('Alpha')),
        ('(Self, T): Beta', 'impl<T: for<\'x> Hr<\'x> + Beta> Alpha for S<T> {}', both(t('Hr'), t('Beta'))),
        ('X2: Rel<Self>', "impl<T: Beta> Alpha for S<T> {}", t('Beta')),
        ('Vec<T>: Rel<Self>', "impl<T: Alpha> Beta for S<T> {}", t('Alpha')),
        ('Self: Sized', '', ANY),
        ("Self: 'static + Sized", '', ANY),
        ('T: Rs<Self>', rs, in_rs('X1', 'X3', 'X7')),
        ('T: Rs<Self, I = u8>', rs, in_rs('X1', 'X7')),
        ('T: Rs<Self>, <T as Rs<Self>>::I: Alpha', rs, in_rs('X1', 'X7')),
        ('T: Rs<Self>, <T as Rs<S<T>>>::I: Beta', rs, in_rs('X3')),
        ('S<T>: Q1', 'impl<T: Alpha> Q1 for S<T> {}', t('Alpha')),
    ]
    bodies = ['pub struct S<{g}>(pub T){w};', 'pub struct S<{g}>{w} {{ f: Vec<T>, g: u8 }}', 'pub enum S<{g}>{w} {{ A(T, u8), B {{ x: Option<T> }}, C }}']
    pts = [f'X{i}' for i in range(8)]
    ordinary = [('', ANY), ('T: Alpha', t('Alpha')), ("for<'x> T: Hr<'x>", t('Hr')), ('Vec<T>: Alpha', t('Alpha'))]
    for i, (p, items, m) in enumerate(SP):
        forms = [(p, '', 'w')] + [(p2.split(': ', 1)[1], p2, 'i') for p2 in [p] if p.startswith('T: ') and ', ' not in p.replace('Self, I', '')]
        for (o, mo) in ordinary:
            for order in ((0, 1) if o else (0,)):
                for text, _, how in forms:
                    mm = both(m, mo)
                    good = [x for x in pts if mm(x)]
                    if not good:
                        continue
                    g, ws = ('T', [text, o]) if how == 'w' else ('T: ' + text, [o])
                    ws = [x for x in (ws[::-1] if order else ws) if x]
                    for bi, body in enumerate(bodies):
                        its = items if isinstance(items, str) else items(good)
                        # the other predicates are needed to name S in its implementations
                        extra = ', '.join(x for x in ws if 'Self' not in x and x != 'S<T>: Q1')
                        its = re.sub(r'for S<T> \{\}', f'for S<T> where {extra} {{}}', its) if extra else its
                        q = []
                        for src in {good[0], good[-1]}:
                            for dst in pts:
                                for tr in 'FT':
                                    q.append((f'Is::<S<{src}>, {src}, {dst}, TypeParam<0>>::{tr}', mm(dst), f'{p}: {src} -> {dst} ({tr})'))
                            q += [(f'IsO::<S<{src}>, {src}, {good[0]}, TypeParam<0>, S<{good[0]}>>::{tr}', True, f'{p}: result ({tr})') for tr in 'FT']
                        d.add(f'self{i}_{ordinary.index((o, mo))}{order}{how}{bi}', its + ' #[derive(FuncMap, TryFuncMap)] ' + body.format(g=g, w=' where ' + ', '.join(ws) if ws else ''), q)
    # with other parameters around it
    for k, (g, a, lead, trail) in enumerate([("'a, T, U", "'a, T, U", "'static, ", ', X0'), ("T, const N: usize", 'T, N', '', ', 2'), ('const N: usize, T, U', 'N, T, U', '2, ', ', X0'), ("'a, const N: usize, T, U: Beta", "'a, N, T, U", "'static, 2, ", ', X2')]):
        f = "(pub T" + ", pub U" * ('U' in g) + ", pub &'a u8" * ("'a" in g) + ')'
        idx = [x for x in a.split(', ') if x[0] != "'"].index('T')
        for j, (p, items) in enumerate([('Self: Q1', f'impl<{g.replace("T", "T: Alpha", 1)}> Q1 for S<{a}> {{}}'), ('Vec<Self>: Sized, Self: Q1', f'impl<{g.replace("T", "T: Alpha", 1)}> Q1 for S<{a}> {{}}'), ('Vec<Self>: Alpha', f'impl<{g.replace("T", "T: Alpha", 1)}> Alpha for S<{a}> {{}}')]):
            q = [(f'Is::<S<{lead}{src}{trail}>, {src}, {dst}, TypeParam<{idx}>>::{tr}', 'Alpha' in UNI[dst][0], f'{p}: {src} -> {dst} ({tr})') for src in ('X1', 'X7') for dst in pts for tr in 'FT']
            if 'U' in g:
                u = trail[2:]
                q += [(f'Is::<S<{lead}X1{trail}>, {u}, {dst}, TypeParam<{idx + 1}>>::{tr}', 'Beta' not in g or 'Beta' in UNI[dst][0], f'{p}: second {u} -> {dst} ({tr})') for dst in pts for tr in 'FT']
            d.add(f'selfparams{k}_{j}', items + f' #[derive(FuncMap, TryFuncMap)] pub struct S<{g}>{f} where {p};', q)
    # relations of an unmapped parameter with the type itself
    its = 'pub trait Rs<X: ?Sized> {} ' + ' '.join(f'impl Rs<S<{x}, X2>> for X2 {{}}' for x in ('X1', 'X3', 'X6'))
    for k, (g, w) in enumerate([('T, U: Rs<Self>', ''), ('T, U', 'U: Rs<Self>'), ('T, U', 'U: Rs<S<T, U>>')]):
        q = [(f'Is::<S<{src}, X2>, {src}, {dst}, TypeParam<0>>::{tr}', dst in ('X1', 'X3', 'X6'), f'{g} {w}: {src} -> {dst} ({tr})') for src in ('X1', 'X6') for dst in pts for tr in 'FT']
        d.add(f'selfother{k}', its + f' #[derive(FuncMap, TryFuncMap)] pub struct S<{g}>(pub T, pub U)' + (f' where {w}' if w else '') + ';', q)


def generics(d, ck):
    """Nothing beyond the conditions is demanded: fully generic functions with exactly the bounds must compile"""
    for i, (g, w, args) in enumerate([
        ('T', '', ''), ("T: Alpha", '', 'Alpha'), ('T', 'T: Beta', 'Beta'), ("T: Alpha", "T: for<'x> Hr<'x>", "Alpha + for<'x> Hr<'x>"), ('T: HasItem<Item = u8>', '', 'HasItem<Item = u8>'),
    ]):
        b = ': ' + args if args else ''
        text = (f'#[derive(FuncMap, TryFuncMap)] pub struct S<{g}>(pub T, pub Vec<(T, [Option<T>; 2])>)' + (f' where {w}' if w else '') + ';\n'
                f'pub fn f<A{b}, B{b}>(s: S<A>, g: impl FnMut(A) -> B) -> S<B> {{ s.func_map(g) }}\n'
                f'pub fn h<A{b}, B{b}, E>(s: S<A>, g: impl FnMut(A) -> Result<B, E>) -> Result<S<B>, E> {{ s.try_func_map(g) }}\n')
        if "'" not in args and 'Item' not in args:
            # borrowed data, no static, no clone
            text += f"pub fn r<'a, 'b>(s: S<&'a Loc>, g: impl FnMut(&'a Loc) -> &'b Loc) -> S<&'b Loc> {{ s.func_map(g) }} pub struct Loc; impl<'a> {args or 'Never'} for &'a Loc {{}} pub trait Never {{}}\n"
        d.add(f'generic{i}', text)
    # lifetime bounds
    for i, (g, w) in enumerate([("'a, T: 'a", ''), ("'a, T", "T: 'a"), ("'a, 'b: 'a, T: 'a + 'b", ''), ("'a, 'b, T", "'b: 'a, T: 'b"), ("'a, T: Lt<'a>", ''), ("'a, 'b, T", "T: Lt<'a>, 'a: 'b"), ("'a, T", "for<'x> T: Lt<'x>, T: 'a")]):
        lts = [x.split(':')[0].strip() for x in g.split(',') if x.strip().startswith("'")]
        fields = ', '.join(f'pub &{l} u8' for l in lts)
        gen = lambda n: g.replace('T', n) if 'T:' in g else None
        text = f"pub trait Lt<'l> {{}}\n#[derive(FuncMap, TryFuncMap)] pub struct S<{g}>({fields}, pub T, pub Vec<T>)" + (f' where {w}' if w else '') + ';\n'
        # same bounds on both sides
        tb = [x.strip() for x in g.split(', ')]
        decl = [x for x in tb if x[0] == "'"] + [x.replace('T', 'A', 1) for x in tb if x[0] == 'T'] + [x.replace('T', 'B', 1) for x in tb if x[0] == 'T']
        wc = []
        for p in w.split(', ') if w else []:
            import re
            if re.search(r'\bT\b', p):
                wc += [re.sub(r'\bT\b', 'A', p), re.sub(r'\bT\b', 'B', p)]
            else:
                wc.append(p)
        L = ', '.join(lts)
        text += f"pub fn f<{', '.join(decl)}>(s: S<{L}, A>, g: impl FnMut(A) -> B) -> S<{L}, B>" + (f' where {", ".join(wc)}' if wc else '') + ' { s.func_map(g) }\n'
        text += f"pub fn h<{', '.join(decl)}, E>(s: S<{L}, A>, g: impl FnMut(A) -> Result<B, E>) -> Result<S<{L}, B>, E>" + (f' where {", ".join(wc)}' if wc else '') + ' { s.try_func_map(g) }\n'
        d.add(f'lifetimes{i}', text)
