"""Helpers of the checks that explore definitions at compile time."""
from vlib import Batch, accept_all, chunks, pmap, show

# `Is::<S, A, B, M>::F` is true iff `S: FuncMap<A, B, M>` (`T`: TryFuncMap); `IsO` also fixes the result type
IS = r'''#![allow(unused, dead_code)]
extern crate funcmap;
use funcmap::{FuncMap, TryFuncMap, TypeParam};
pub mod is {
    pub struct Is<S: ?Sized, A: ?Sized, B: ?Sized, M>(core::marker::PhantomData<(*const S, *const A, *const B, M)>);
    pub struct IsO<S: ?Sized, A: ?Sized, B: ?Sized, M, O: ?Sized>(core::marker::PhantomData<(*const S, *const A, *const B, M, *const O)>);
    pub trait No { const F: bool = false; const T: bool = false; }
    impl<S: ?Sized, A: ?Sized, B: ?Sized, M> No for Is<S, A, B, M> {}
    impl<S: ?Sized, A: ?Sized, B: ?Sized, M, O: ?Sized> No for IsO<S, A, B, M, O> {}
    impl<S: funcmap::FuncMap<A, B, M>, A, B, M: funcmap::FuncMarker<M>> Is<S, A, B, M> { pub const F: bool = true; }
    impl<S: funcmap::TryFuncMap<A, B, M>, A, B, M: funcmap::FuncMarker<M>> Is<S, A, B, M> { pub const T: bool = true; }
    impl<S: funcmap::FuncMap<A, B, M, Output = O>, A, B, M: funcmap::FuncMarker<M>, O> IsO<S, A, B, M, O> { pub const F: bool = true; }
    impl<S: funcmap::TryFuncMap<A, B, M, Output = O>, A, B, M: funcmap::FuncMarker<M>, O> IsO<S, A, B, M, O> { pub const T: bool = true; }
}
'''.rstrip()
USE = 'use super::*; use super::is::{Is, IsO, No};'


class Defs:
    """Collects programs (one module each) with compile-time assertions and judges them together."""

    def __init__(self, ck, header=IS, name='d', edition='2021', shards=16):
        self.ck, self.header, self.name, self.edition, self.shards = ck, header, name, edition, shards
        self.progs = []
        self.asserts = 0
        self.seen = set()
        self.known = {}   # key -> (finding id, error code)

    def add(self, key, text, asserts=(), pre=USE):
        """asserts: (rust bool expression, expected value, what it says)"""
        assert key not in self.seen, 'machinery: duplicate ' + key
        self.seen.add(key)
        body = text
        for expr, want, what in asserts:
            self.asserts += 1
            what = what.replace('\\', '\\\\').replace('"', "'").replace('{', '{{').replace('}', '}}')
            body += f'\nconst _: () = if {expr} != {"true" if want else "false"} {{ panic!("{what}: expected {str(want).lower()}") }};'
        self.progs.append((key, f'pub mod m_{key} {{ {pre}\n{body}\n}}'))

    def judge(self, explain=None):
        ck = self.ck
        bs = []
        for i, ps in enumerate(chunks(self.progs, self.shards)):
            b = Batch(ck, f'{self.name}_{self.edition}_{i}', header=self.header, edition=self.edition)
            for k, t in ps:
                b.add(k, t)
            bs.append(b)
        bad = accept_all(ck, bs, fmrt=False)
        text = dict(self.progs)
        for k, ds in sorted(bad.items()):
            d = next((d for d in ds if d), None)
            what = d.msg if d else 'rejected'
            if k in self.known and d and all(x.code == self.known[k][1] for x in ds) and ck.finding(self.known[k][0], what):
                continue
            if d and d.code == 'E0080':
                what = next((l.split("'")[-2] if "'" in l else l for l in d.text.splitlines() if 'expected' in l), what)
            ck.violation(f'{self.name} {k}: {what}', text.get(k, '') + '\n\n' + show(ds, 4))
        ck.add(states=len(self.progs), transitions=self.asserts, traces=len(self.progs), samples=[self.progs[i][1][:400] for i in (0, len(self.progs) // 2) if i < len(self.progs)])
        return bad
