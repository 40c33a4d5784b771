"""C18: expansion is deterministic.

The hash seeds of the compiler process are controlled (a preloaded getrandom); they are chosen
so that, wherever a hash-based collection of up to K names is created, every iteration order
occurs. All expansions and all diagnostics must be the same. Every order of a set of definitions
and of derives is explored as well."""
import itertools, json, math, os, re
import c14, gen
from vlib import Broken, chunks, env, pmap, run

SHIM = r'''
#include <stddef.h>
#include <stdlib.h>
#include <stdint.h>
#include <sys/types.h>
static uint64_t st; static int init;
static uint64_t next(void) { uint64_t z = (st += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
ssize_t getrandom(void *buf, size_t n, unsigned flags) {
    (void)flags;
    /* every request gets the same bytes: each thread of the process starts from the same keys */
    const char *s = getenv("FM_SEED"); st = s ? strtoull(s, 0, 10) * 1000003 + 17 : 1;
    unsigned char *p = buf; for (size_t i = 0; i < n; i++) p[i] = (unsigned char)next();
    return (ssize_t)n;
}
int getentropy(void *buf, size_t n) { getrandom(buf, n, 0); return 0; }
'''
ORD = r'''
use std::collections::HashSet;
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let n: usize = a[0].parse().unwrap();
    let mut o = String::new();
    for _ in 0..n {
        let mut s = HashSet::new();
        for x in &a[1..] { s.insert(x.clone()); }
        for x in &s { o += &a[1..].iter().position(|y| y == x).unwrap().to_string(); }
        o.push(' ');
    }
    println!("{o}");
}
'''
PRE = c14.PRE + "\npub trait Alpha {} pub trait Beta {} pub trait Rel<X: ?Sized> {} pub trait Hr<'x> {} pub trait HasItem { type Item; }\n#[derive(FuncMap, TryFuncMap)] pub struct Pair<A, B>(A, B);"


def good():
    """Definitions with several parameters, bounds, options, nested types"""
    out = []
    bounds = ['Alpha', 'Beta', 'Clone', "for<'x> Hr<'x>", 'Rel<T>', 'HasItem<Item = u8>', "'static", 'Rel<Vec<T>>', 'Alpha']
    for i in range(len(bounds)):
        for k in (2, 3, 5):
            bs = (bounds + bounds)[i:i + k]
            out.append(f'pub struct S<T: {" + ".join(bs)}>(pub T, pub Vec<T>);')
            out.append(f'pub struct S<T, U>(pub T, pub Vec<U>, pub Pair<T, U>) where {", ".join(f"T: {b}, U: {b}" for b in bs)};')
            out.append(f'pub enum S<U: {" + ".join(bs[:2]).replace("<T>", "<U>").replace("Vec<T>", "Vec<U>")}, T, V> where T: {" + ".join(bs)}, Vec<T>: Alpha, Vec<V>: Rel<T>, (T, U): Beta {{ A(T, Option<U>), B {{ x: Vec<V>, y: Vec<(T, U, V)> }} }}')
    # lifetimes: bounds in the header, in where clauses, repeated predicates, higher-ranked ones
    ls = ["'a", "'b", "'c", "'d"]
    ph = "std::marker::PhantomData<(&'a (), &'b (), &'c (), &'d ())>"
    hd = ", ".join(ls)
    for n in (2, 3):
        for ps in itertools.permutations(ls[1:], n):
            b = ' + '.join(ps)
            out.append(f"pub struct S<{hd}, T>(pub T, pub {ph}) where 'a: {b};")
            out.append(f"pub struct S<'b, 'c, 'd, 'a: {b}, T: {b}>(pub T, pub {ph});")
            out.append(f"pub enum S<{hd}, T, U> where T: {b}, U: {ps[0]}, 'a: {ps[0]}, 'a: {ps[1]}, Vec<T>: {b} + Alpha, 'a: {b} {{ A(T), B(Vec<U>, {ph}) }}")
    out.append(f"pub struct S<{hd}, T, U>(pub T, pub Vec<U>, pub {ph}) where 'a: 'b, 'b: 'c, 'c: 'd, T: 'a, U: 'b, &'a T: Alpha, &'b T: Alpha, &'c U: Beta, for<'x> &'x T: Hr<'x>, for<'x> &'x U: Hr<'x>, for<'x, 'y> (&'x T, &'y U): Alpha;")
    # const parameters, defaults, attributes and visibilities
    for ps in itertools.permutations(['const N: usize', 'const M: usize', 'T: Alpha', 'U'], 4):
        out.append(f"pub struct S<{', '.join(ps)}>(pub [T; N], pub [Vec<U>; M], [u8; N]) where [T; N]: Alpha, [U; M]: Beta, [u8; N]: Alpha;")
    out.append('#[derive(Clone, Debug)] #[allow(dead_code)] #[warn(missing_docs)] #[allow(clippy::all)] pub(crate) struct S<#[allow(unused)] T = u8, U = Vec<T>, const N: usize = 3>(pub(crate) T, #[allow(unused)] U, [T; N]);')
    out.append('/// docs\n#[derive(Clone)] #[allow(dead_code, unused)] #[deny(non_snake_case)] enum S<T> { #[allow(unused)] A(T), #[deprecated] B { #[allow(dead_code)] x: T }, C }')
    for ps in itertools.permutations('TUVW', 3):
        out.append(f'#[funcmap(params({", ".join(ps)}))] pub struct S<T, U, V, W>(pub T, pub U, pub V, pub Vec<W>, pub Result<Pair<T, U>, Pair<V, W>>);')
        out.append(f'#[funcmap(params({ps[0]}))] #[funcmap(params({ps[1]}), crate = "::funcmap", params({ps[2]}))] pub enum S<T, U, V, W> {{ A(Vec<T>, Option<U>), B {{ v: Box<V>, w: Pair<W, T> }} }}')
    fs = ['Vec<T>', 'Option<T>', 'Box<T>', 'Pair<T, U>', 'Pair<U, T>', 'Result<T, U>', 'std::collections::BTreeMap<u8, T>', 'std::collections::LinkedList<U>', 'String', 'u8', '&\'static str', '[u8; 2]']
    for i in range(len(fs)):
        f = (fs + fs)[i:i + 6]
        out.append(f'pub struct S<T, U>({", ".join(f)}, T, U);')
        out.append(f'pub enum S<T, U> {{ A({", ".join(f[:3])}), B {{ a: {f[3]}, b: {f[4]} }}, C(T, U, {f[5]}) }}')
    # names that are taken: other ones are chosen
    for names in ('AB', 'FE', 'ABEF', 'ABCDEFGH', 'ZYXW'):
        out.append(f'pub struct S<{", ".join(names)}>({", ".join(names)}, Vec<{names[0]}>);')
    out.append('pub struct S<' + ', '.join('ABCDEFGHIJKLMNOPQRSTUVWXYZ') + '>(' + ', '.join('ABCDEFGHIJKLMNOPQRSTUVWXYZ') + ');')
    return out


def faulty():
    out = []
    for name, t in c14.T.items():
        for bits, lines, faults in c14.variants(t):
            n = bits.count('1')
            if n in (len(bits), 2, 3) and (n == len(bits) or len(out) % 3 == 0 or len(bits) < 5):
                out.append('\n'.join(lines))
    for perm in itertools.permutations(['X', 'Y', 'Z', 'N', "'a"], 3):
        out.append(f"#[funcmap(params(T, {', '.join(perm)}))] pub struct S<'a, T, const N: usize>(&'a u8, T);")
    return out


class Expander:
    def __init__(self, ck):
        self.ck = ck
        c = ck.write('shim.c', SHIM)
        self.so = os.path.join(ck.work, 'shim.so')
        rc, o, e = run(['gcc', '-shared', '-fPIC', '-O1', '-o', self.so, c])
        if rc:
            raise Broken('shim: ' + e)
        s = ck.write('ord.rs', ORD)
        self.ord = os.path.join(ck.work, 'ord')
        rc, o, e = run(['rustc', '--edition', '2021', '-O', '-o', self.ord, s])
        if rc:
            raise Broken('ord: ' + e)

    def orders(self, seed, n, names):
        rc, o, e = run([self.ord, str(n)] + names, env=env(LD_PRELOAD=self.so, FM_SEED=str(seed)))
        return o.split()

    def expand(self, path, seed=None, extra=(), cwd=None, more=None):
        ck = self.ck
        cmd = ['rustc', '--edition', '2021', '--error-format=json', '--cap-lints=allow', '-Zunpretty=expanded', '-L', 'dependency=' + os.path.join(ck.target, 'debug', 'deps'), '--extern', 'funcmap=' + ck.rlibs['funcmap'], '--crate-type', 'lib', '--crate-name', 'x'] + list(extra) + [path]
        kw = dict(RUSTC_BOOTSTRAP='1')
        if seed is not None:
            kw.update(LD_PRELOAD=self.so, FM_SEED=str(seed))
        kw.update(more or {})
        rc, o, e = run(cmd, env=env(**kw), cwd=cwd)
        if rc not in (0, 1):
            raise Broken(f'rustc ended with {rc}: {e[-1000:]}')
        return rc, o, e


def modules(text):
    """Expanded text by module m_<key>"""
    r = {}
    for m in re.finditer(r'^pub mod m_(\w+) \{\n(.*?)^\}\n', text, re.S | re.M):
        r[m.group(1)] = m.group(2)
    return r


def messages(err):
    """Diagnostics (message and place), in order, by line"""
    out = []
    for l in err.splitlines():
        if l.startswith('{'):
            j = json.loads(l)
            if j.get('level') == 'error' and j['spans']:
                out.append((j['message'], [(s['line_start'], s['column_start'], s['line_end'], s['column_end']) for s in j['spans']]))
    return out


def source(defs, tr='FuncMap, TryFuncMap'):
    """One module each; returns the text and {key: line range}"""
    lines = PRE.splitlines()
    rng = {}
    for k, d in defs:
        a = len(lines) + 1
        lines += [f'pub mod m_{k} {{ use super::*;', f'#[derive({tr})]'] + d.splitlines() + ['}']
        rng[k] = (a, len(lines))
    return '\n'.join(lines) + '\n', rng


def relative(msgs, rng):
    r = {k: [] for k in rng}
    for m, spans in msgs:
        for k, (a, b) in rng.items():
            if any(a <= s[0] <= b for s in spans):
                r[k].append((m, tuple((s[0] - a, s[1], s[2] - a, s[3]) for s in spans)))
    return r


def c18(ck):
    ck.build()
    x = Expander(ck)
    K = 4 if ck.thorough else 3
    groups = []
    for kind, ds in (('good', good()), ('faulty', faulty())):
        for i, ch in enumerate(chunks([(f'{kind[0]}{n}', d) for n, d in enumerate(ds)], max(1, len(ds) // 40))):
            groups.append((kind, i, ch))
    # seeds: every iteration order of up to K names, for every collection created during the expansion of a group
    OFF = 600
    names = ['T', 'U', 'V', 'W'][:K]
    need = [set(map(''.join, itertools.permutations('0123'[:K]))) for _ in range(OFF)]
    full = len(need[0])
    seeds = 0
    if len(set(x.orders(0, 50, names))) < 2:
        raise Broken('the hash seeds are not under control')
    while any(need):
        batch = range(seeds, seeds + 32)
        for os_ in pmap(lambda s: x.orders(s, OFF, names), batch):
            for j, o in enumerate(os_):
                need[j].discard(o)
        seeds += 32
        if seeds > 3000:
            raise Broken('cannot cover all iteration orders')
    ck.log(f'{seeds} seeds cover all {full} iteration orders of {K} names for each of the first {OFF} collections')
    total = 0
    paths = {}
    for kind, i, ch in groups:
        for tr in ('FuncMap, TryFuncMap', 'FuncMap', 'TryFuncMap') if kind == 'faulty' else ('FuncMap, TryFuncMap',):
            text, rng = source(ch, tr)
            p = ck.write(f'{kind}_{i}_{tr.replace(", ", "")}.rs', text)
            paths[p] = (kind, ch, rng)
    first = {}
    for p, r in zip(paths, pmap(lambda p: x.expand(p), list(paths))):
        first[p] = r
        if r[0] != 0 and paths[p][0] == 'good':
            d = messages(r[2])
            ck.violation(f'valid definitions are rejected: {d[0][0] if d else r[2][:300]}', r[2][:3000])
    jobs = [(p, s) for s in range(seeds) for p in paths]
    bad = {}

    def one(j):
        p, s = j
        r = x.expand(p, s)
        return p, s, r if r != first[p] else None
    for p, s, r in pmap(one, jobs):
        total += 1
        if r is None:
            continue
        kind, ch, rng = paths[p]
        f = first[p]
        ma, mb = modules(f[1]), modules(r[1])
        ea, eb = relative(messages(f[2]), rng), relative(messages(r[2]), rng)
        hit = False
        for k, d in ch:
            if ma.get(k) != mb.get(k) or ea[k] != eb[k]:
                hit = True
                if k not in bad:
                    bad[k] = True
                    ck.violation(f'{k}: the {"expansion" if ma.get(k) != mb.get(k) else "error messages"} of the same definition depend on the hash seed (seed {s})', f'{d}\n\n--- seed by the system\n{ma.get(k)}\n{ea[k]}\n\n--- seed {s}\n{mb.get(k)}\n{eb[k]}')
        if not hit and 'order' not in bad:
            bad['order'] = True
            ck.violation(f'the output for the same file depends on the hash seed (seed {s})', f[1][:3000] + f[2][:3000] + '\n\n---\n' + r[1][:3000] + r[2][:3000])
    # the environment: directory, locale, time zone, parallel front end
    other = dict(TZ='Asia/Tokyo', LC_ALL='C', LANG='C', USER='nobody', FOO='bar', CARGO_PKG_NAME='other', CARGO_CRATE_NAME='other', CARGO_MANIFEST_DIR='/')
    for p, r in zip(paths, pmap(lambda p: x.expand(p, cwd='/', more=other), list(paths))):
        total += 1
        kind, ch, rng = paths[p]
        f = first[p]
        if modules(f[1]) != modules(r[1]) or relative(messages(f[2]), rng) != relative(messages(r[2]), rng):
            a, b = relative(messages(f[2]), rng), relative(messages(r[2]), rng)
            for k, d in ch:
                if modules(f[1]).get(k) != modules(r[1]).get(k) or a[k] != b[k]:
                    ck.violation('the expansion depends on the environment', f'{d}\n\n{modules(f[1]).get(k)}\n{a[k]}\n\n---\n{modules(r[1]).get(k)}\n{b[k]}')
                    break
    positions(ck, x)
    ck.add(states=len(good()) + len(faulty()), transitions=total, traces=total, samples=[good()[3], faulty()[0]])
    return ck.finish(seeds=seeds, orders_of_names=full)


def exhausting():
    """Definitions with every single-letter name, and more"""
    L = [chr(c) for c in range(65, 91)]
    out = []
    for names in (L, L + [f'{a}{i}' for i in (1, 2) for a in L], [l for l in L if l not in 'ABEF'], [l for l in L if l not in 'TUV'], ['T'] + [f'T{i}' for i in range(60)]):
        out.append(f"#[funcmap(params({names[0]}))] pub struct S<{', '.join(names)}>({', '.join('pub ' + n for n in names)});")
    return out


def positions(ck, x):
    """Every order of definitions, repetition, every order of derives"""
    ex = exhausting()
    gs = good()[2::9] + good()[-3:]
    gs = gs[:len(gs) // 3 * 3] + [ex[0], good()[0], ex[1], ex[2], good()[5], ex[3]]
    fs = faulty()[::17]
    n = 0
    ref = {}

    # alone, in every order of three definitions with repetition, after failing ones
    for kind, ds in (('good', gs), ('faulty', fs)):
        sets = [ds[i:i + 3] for i in range(0, len(ds) - 2, 3)]
        jobs = []
        for si, s in enumerate(sets):
            for seq in itertools.product(range(3), repeat=3):
                lead = fs[:2] if kind == 'faulty' and seq[0] == 1 else []
                jobs.append((si, seq, s, lead))

        def one(j):
            si, seq, s, lead = j
            defs = [(f'l{i}', d) for i, d in enumerate(lead)] + [(f'{i}', s[q]) for i, q in enumerate(seq)]
            text, rng = source(defs)
            p = ck.write(f'pos_{kind}_{si}_{"".join(map(str, seq))}.rs', text)
            rc, o, e = x.expand(p)
            mods = modules(o)
            msgs = relative(messages(e), rng)
            return [(si, q, s[q], mods.get(str(i)), msgs[str(i)], seq) for i, q in enumerate(seq)]
        for r in pmap(one, jobs):
            for si, q, d, text, msgs, seq in r:
                n += 1
                # equal diagnostics are printed once per place only; places differ between modules
                a = ref.setdefault((kind, si, q), (text, msgs))
                if a != (text, msgs):
                    ck.violation(f'the result for a definition depends on its position or on other definitions (order {seq})', f'{d}\n\n{a}\n\n{text}\n{msgs}')
    # long histories: every definition, in both orders and again, with definitions that use up many names between them
    allg = good() + exhausting()
    hist = {}
    seqs = [allg, allg[::-1], exhausting() * 3 + allg + allg, allg[len(allg) // 2:] + exhausting() + allg[:len(allg) // 2]]

    def three(j):
        k, ds = j
        text, rng = source([(str(i), d) for i, d in enumerate(ds)])
        rc, o, e = x.expand(ck.write(f'long_{k}.rs', text))
        mods = modules(o)
        return [(d, mods.get(str(i))) for i, d in enumerate(ds)]
    for r in pmap(three, list(enumerate(seqs)) + [(f'one{i}', [d]) for i, d in enumerate(allg)]):
        for d, text in r:
            n += 1
            a = hist.setdefault(d, text)
            if a != text:
                ck.violation('the expansion of a definition depends on the definitions before it', f'{d}\n\n{a}\n\n{text}')
    # order of derives: the set of generated items stays the same
    items = lambda t: sorted(i.strip() for i in re.split(r'\n(?=    (?:#\[|impl|pub|///|use))', t or ''))
    derives = ['FuncMap', 'TryFuncMap', 'Clone', 'Debug']
    jobs = [(i, d, p) for i, d in enumerate(gs) for r in (2, 3, 4) for p in itertools.permutations(derives, r) if 'FuncMap' in p and 'TryFuncMap' in p]
    byorder = {}

    def two(j):
        k, perm_jobs = j
        text, rng = source([(f'{i}', d) for i, d, p in perm_jobs], '@@')
        for i, d, p in perm_jobs:
            text = text.replace('#[derive(@@)]', f'#[derive({", ".join(p)})]', 1)
        f = ck.write(f'derives_{k}.rs', text)
        rc, o, e = x.expand(f)
        return [(i, d, p, modules(o).get(f'{i}')) for i, d, p in perm_jobs]
    by = {}
    for j in jobs:
        by.setdefault(j[2], []).append(j)
    for r in pmap(two, enumerate(by.values())):
        for i, d, p, text in r:
            n += 1
            key = (i, frozenset(p))
            a = byorder.setdefault(key, items(text))
            if a != items(text):
                ck.violation(f'the expansion depends on the order of derives {p}', f'{d}\n\n' + '\n'.join(a) + '\n\n' + (text or ''))
            # other derives do not change what these macros generate
            own = [x for x in items(text) if 'automatically_derived' in x and ('func_map' in x or 'cannot_be_derived' in x)]
            b = byorder.setdefault(i, own)
            if b != own:
                ck.violation(f'the expansion depends on other derives {p}', f'{d}\n\n' + '\n'.join(b) + '\n\n' + '\n'.join(own))
    ck.add(states=0, transitions=n, traces=n)
    ck.log(f'{n} positions')
