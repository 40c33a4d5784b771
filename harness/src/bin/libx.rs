//! Exhaustive exploration of the provided implementations: for every supported
//! standard-library type, every construction history and every closure
//! behaviour within the bounds, the real implementation is run and compared with
//! the reference model (and the drop ledger).

#![allow(dead_code, unused)]
use fmrt::*;
use funcmap::{FuncMap, TryFuncMap, TypeParam};
use std::cell::{Cell, RefCell, UnsafeCell};
use std::collections::hash_map::RandomState;
use std::collections::*;
use std::hash::{BuildHasher, Hash};
use std::marker::PhantomData;
use std::ops::*;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::task::Poll;

trait Sub: 'static {
    const NAME: &'static str;
    const KEYED: bool;
    type P: funcmap::FuncMarker<Self::P>;
    type C<T: Item>;
    fn build<T: Item>(cx: &mut Cx) -> Self::C<T>;
}

trait Sub2: 'static {
    const NAME: &'static str;
    type C<T: Item, U: Item>;
    fn build<T: Item, U: Item>(cx: &mut Cx) -> Self::C<T, U>;
}

// --- construction histories ------------------------------------------------------------

/// Sizes and the number of deviations from the default choices at each: all sizes up to 24, powers of two and their
/// neighbours, and others that are multiples of nothing
const LARGE: [(usize, usize); 40] = [
    (4, 1), (5, 1), (6, 1), (7, 1), (8, 1), (9, 1), (10, 1), (11, 1), (12, 1), (13, 1), (14, 1), (15, 1), (16, 1), (17, 1),
    (18, 0), (19, 0), (20, 0), (21, 0), (22, 0), (23, 0), (24, 1), (30, 1), (31, 0), (32, 1), (33, 0), (48, 0), (63, 0),
    (64, 1), (65, 0), (100, 1), (127, 0), (128, 0), (129, 0), (255, 0), (256, 0), (257, 1), (512, 0), (1024, 0), (1025, 0),
    (4099, 0),
];

/// Depth of the operation history, or a large size
enum Size {
    Ops(usize),
    Large(usize),
}

fn size(cx: &mut Cx, depth: usize) -> Size {
    let d = depth + 1 + 2 * usize::from(cx.thorough);
    let large = LARGE.len();
    let c = cx.choose(d + 1 + large);
    if c <= d {
        cx.set_budget(usize::MAX / 2);
        Size::Ops(c)
    } else {
        let (n, budget) = LARGE[c - d - 1];
        cx.set_budget(budget);
        Size::Large(n)
    }
}

trait SeqLike<T>: Default {
    fn ops() -> usize;
    fn op(&mut self, o: usize, leaf: impl FnMut() -> T);
    fn back(&mut self, x: T);
}

impl<T> SeqLike<T> for Vec<T> {
    fn ops() -> usize {
        4
    }
    fn op(&mut self, o: usize, mut leaf: impl FnMut() -> T) {
        match o {
            0 => self.push(leaf()),
            1 => self.insert(0, leaf()),
            2 => drop(self.pop()),
            _ => {
                self.reserve(5);
                self.push(leaf())
            }
        }
    }
    fn back(&mut self, x: T) {
        self.push(x)
    }
}
impl<T> SeqLike<T> for VecDeque<T> {
    fn ops() -> usize {
        5
    }
    fn op(&mut self, o: usize, mut leaf: impl FnMut() -> T) {
        match o {
            0 => self.push_back(leaf()),
            1 => self.push_front(leaf()),
            2 => drop(self.pop_front()),
            3 => drop(self.pop_back()),
            _ => {
                if !self.is_empty() {
                    self.rotate_left(1)
                }
            }
        }
    }
    fn back(&mut self, x: T) {
        // wrap around every few elements
        if self.len() % 3 == 2 {
            self.push_front(x)
        } else {
            self.push_back(x)
        }
    }
}
impl<T> SeqLike<T> for LinkedList<T> {
    fn ops() -> usize {
        5
    }
    fn op(&mut self, o: usize, mut leaf: impl FnMut() -> T) {
        match o {
            0 => self.push_back(leaf()),
            1 => self.push_front(leaf()),
            2 => drop(self.pop_front()),
            3 => drop(self.pop_back()),
            _ => {
                let mut tail = self.split_off(self.len() / 2);
                tail.append(self);
                *self = tail;
            }
        }
    }
    fn back(&mut self, x: T) {
        self.push_back(x)
    }
}

fn seq<T: Item, S: SeqLike<T>>(cx: &mut Cx) -> S {
    let mut s = S::default();
    match size(cx, 3) {
        Size::Ops(n) => {
            for _ in 0..n {
                let o = cx.choose(S::ops());
                s.op(o, || cx.leaf());
            }
        }
        Size::Large(n) => {
            for _ in 0..n {
                s.back(cx.leaf())
            }
        }
    }
    s
}

/// Consumes some elements of an owning iterator from both ends
fn consume<T, I: Iterator<Item = T>>(cx: &mut Cx, mut it: I, back: impl Fn(&mut I) -> Option<T>) -> I {
    const PLANS: [&str; 8] = ["", "f", "b", "ff", "fb", "bb", "fffff", "fbfbfbbb"];
    let n = PLANS.len();
    for c in PLANS[cx.choose(n)].bytes() {
        drop(if c == b'f' { it.next() } else { back(&mut it) });
    }
    it
}

trait MapLike<K, V> {
    fn ins(&mut self, k: K, v: V);
    fn del(&mut self, k: K);
}
impl<K: Ord, V> MapLike<K, V> for BTreeMap<K, V> {
    fn ins(&mut self, k: K, v: V) {
        self.insert(k, v);
    }
    fn del(&mut self, k: K) {
        self.remove(&k);
    }
}
impl<K: Eq + Hash, V, S: BuildHasher> MapLike<K, V> for HashMap<K, V, S> {
    fn ins(&mut self, k: K, v: V) {
        self.insert(k, v);
    }
    fn del(&mut self, k: K) {
        self.remove(&k);
    }
}

fn keyed(cx: &mut Cx, mut ins: impl FnMut(&mut Cx, u32), mut del: impl FnMut(&mut Cx, u32)) {
    match size(cx, 3) {
        Size::Ops(n) => {
            for _ in 0..n {
                match cx.choose(4) {
                    3 => del(cx, 1),
                    c => ins(cx, c as u32),
                }
            }
        }
        Size::Large(n) => {
            for i in 0..n {
                // distinct classes, neither ascending nor descending
                ins(cx, ((i * if n % 7 == 0 { 11 } else { 7 } + 3) % n) as u32)
            }
        }
    }
}

fn key<T: Item>(cx: &mut Cx, class: u32) -> T {
    let id = cx.leaf_id(T::K);
    T::mk(id, class)
}

fn map<K: Item, V: Item, M: MapLike<K, V>>(cx: &mut Cx, m: M) -> M {
    let m = std::cell::RefCell::new(m);
    keyed(
        cx,
        |cx, c| {
            let k = key(cx, c);
            let v = cx.leaf();
            m.borrow_mut().ins(k, v)
        },
        |cx, c| m.borrow_mut().del(key(cx, c)),
    );
    m.into_inner()
}

fn bset<T: Item>(cx: &mut Cx) -> BTreeSet<T> {
    let m = RefCell::new(BTreeSet::new());
    keyed(
        cx,
        |cx, c| {
            m.borrow_mut().insert(key(cx, c));
        },
        |cx, c| {
            m.borrow_mut().remove(&key(cx, c));
        },
    );
    m.into_inner()
}

fn hset<T: Item, S: BuildHasher>(cx: &mut Cx, s: S) -> HashSet<T, S> {
    let m = RefCell::new(HashSet::with_hasher(s));
    keyed(
        cx,
        |cx, c| {
            m.borrow_mut().insert(key(cx, c));
        },
        |cx, c| {
            m.borrow_mut().remove(&key(cx, c));
        },
    );
    m.into_inner()
}

fn heap<T: Item>(cx: &mut Cx) -> BinaryHeap<T> {
    let m = RefCell::new(BinaryHeap::new());
    keyed(
        cx,
        |cx, c| m.borrow_mut().push(key(cx, c)),
        |_, _| {
            m.borrow_mut().pop();
        },
    );
    m.into_inner()
}

thread_local! {
    static RS: RandomState = RandomState::new();
}
fn rs() -> RandomState {
    RS.with(Clone::clone)
}

fn full(cx: &mut Cx) {
    cx.set_budget(usize::MAX / 2)
}

macro_rules! subs {
    ($mac:ident) => { $mac! {
        (Arr0, 0, false, [T; 0], |cx| { full(cx); [] }),
        (Arr1, 0, false, [T; 1], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr2, 0, false, [T; 2], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr3, 0, false, [T; 3], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr4, 0, false, [T; 4], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr5, 0, false, [T; 5], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr8, 0, false, [T; 8], |cx| { full(cx); std::array::from_fn(|_| cx.leaf()) }),
        (Arr33, 0, false, [T; 33], |cx| { cx.set_budget(1); std::array::from_fn(|_| cx.leaf()) }),
        (Arr100, 0, false, [T; 100], |cx| { cx.set_budget(1); std::array::from_fn(|_| cx.leaf()) }),
        (Arr300, 0, false, [T; 300], |cx| { cx.set_budget(1); std::array::from_fn(|_| cx.leaf()) }),
        (Bound_, 0, false, Bound<T>, |cx| { full(cx); match cx.choose(3) {
            0 => Bound::Included(cx.leaf()), 1 => Bound::Excluded(cx.leaf()), _ => Bound::Unbounded } }),
        (Cell_, 0, false, Cell<T>, |cx| { full(cx); let c = Cell::new(cx.leaf());
            if cx.choose(2) == 1 { c.set(cx.leaf()); } c }),
        (ControlFlow0, 0, false, ControlFlow<T, I1>, |cx| { full(cx); match cx.choose(2) {
            0 => ControlFlow::Break(cx.leaf()), _ => ControlFlow::Continue(cx.leaf()) } }),
        (ControlFlow1, 1, false, ControlFlow<I0, T>, |cx| { full(cx); match cx.choose(2) {
            0 => ControlFlow::Break(cx.leaf()), _ => ControlFlow::Continue(cx.leaf()) } }),
        (Option_, 0, false, Option<T>, |cx| { full(cx); match cx.choose(2) { 0 => None, _ => Some(cx.leaf()) } }),
        (OptionIter, 0, false, std::option::IntoIter<T>, |cx| { full(cx);
            let o = match cx.choose(2) { 0 => None, _ => Some(cx.leaf()) };
            consume(cx, o.into_iter(), |i| i.next_back()) }),
        (Phantom, 0, false, PhantomData<T>, |cx| { full(cx); PhantomData }),
        (Poll_, 0, false, Poll<T>, |cx| { full(cx); match cx.choose(2) { 0 => Poll::Pending, _ => Poll::Ready(cx.leaf()) } }),
        (Range_, 0, false, Range<T>, |cx| { full(cx); Range { start: cx.leaf(), end: cx.leaf() } }),
        (RangeFrom_, 0, false, RangeFrom<T>, |cx| { full(cx); RangeFrom { start: cx.leaf() } }),
        (RangeInc, 0, false, RangeInclusive<T>, |cx| { full(cx); RangeInclusive::new(cx.leaf(), cx.leaf()) }),
        (RangeTo_, 0, false, RangeTo<T>, |cx| { full(cx); RangeTo { end: cx.leaf() } }),
        (RangeToInc, 0, false, RangeToInclusive<T>, |cx| { full(cx); RangeToInclusive { end: cx.leaf() } }),
        (RefCell_, 0, false, RefCell<T>, |cx| { full(cx); let c = RefCell::new(cx.leaf());
            match cx.choose(3) { 0 => {}, 1 => drop(c.replace(cx.leaf())), _ => std::mem::forget(c.borrow_mut()) } c }),
        (Result0, 0, false, Result<T, I1>, |cx| { full(cx); match cx.choose(2) { 0 => Ok(cx.leaf()), _ => Err(cx.leaf()) } }),
        (Result1, 1, false, Result<I0, T>, |cx| { full(cx); match cx.choose(2) { 0 => Ok(cx.leaf()), _ => Err(cx.leaf()) } }),
        (ResultIter, 0, false, std::result::IntoIter<T>, |cx| { full(cx);
            let r: Result<T, I1> = match cx.choose(2) { 0 => Err(cx.leaf()), _ => Ok(cx.leaf()) };
            consume(cx, r.into_iter(), |i| i.next_back()) }),
        (UnsafeCell_, 0, false, UnsafeCell<T>, |cx| { full(cx); UnsafeCell::new(cx.leaf()) }),
        (Box_, 0, false, Box<T>, |cx| { full(cx); Box::new(cx.leaf()) }),
        (Vec_, 0, false, Vec<T>, |cx| { seq(cx) }),
        (VecIter, 0, false, std::vec::IntoIter<T>, |cx| { let v: Vec<T> = seq(cx); consume(cx, v.into_iter(), |i| i.next_back()) }),
        (VecDeque_, 0, false, VecDeque<T>, |cx| { seq(cx) }),
        (VecDequeIter, 0, false, vec_deque::IntoIter<T>, |cx| { let v: VecDeque<T> = seq(cx); consume(cx, v.into_iter(), |i| i.next_back()) }),
        (List, 0, false, LinkedList<T>, |cx| { seq(cx) }),
        (ListIter, 0, false, linked_list::IntoIter<T>, |cx| { let v: LinkedList<T> = seq(cx); consume(cx, v.into_iter(), |i| i.next_back()) }),
        (Heap, 0, true, BinaryHeap<T>, |cx| { heap(cx) }),
        (HeapIter, 0, true, binary_heap::IntoIter<T>, |cx| { let h = heap(cx); consume(cx, h.into_iter(), |i| i.next()) }),
        (BTreeMap0, 0, true, BTreeMap<T, I1>, |cx| { map(cx, BTreeMap::new()) }),
        (BTreeMap1, 1, true, BTreeMap<I0, T>, |cx| { map(cx, BTreeMap::new()) }),
        (BTreeMapIter0, 0, true, btree_map::IntoIter<T, I1>, |cx| { let m: BTreeMap<T, I1> = map(cx, BTreeMap::new()); consume(cx, m.into_iter(), |i| i.next_back()) }),
        (BTreeMapIter1, 1, true, btree_map::IntoIter<I0, T>, |cx| { let m: BTreeMap<I0, T> = map(cx, BTreeMap::new()); consume(cx, m.into_iter(), |i| i.next_back()) }),
        (BTreeSet_, 0, true, BTreeSet<T>, |cx| { bset(cx) }),
        (BTreeSetIter, 0, true, btree_set::IntoIter<T>, |cx| { let m: BTreeSet<T> = bset(cx); consume(cx, m.into_iter(), |i| i.next_back()) }),
        (HashMap0, 0, true, HashMap<T, I1, FixedState>, |cx| { map(cx, HashMap::with_hasher(FixedState)) }),
        (HashMap1, 1, true, HashMap<I0, T, FixedState>, |cx| { map(cx, HashMap::with_hasher(FixedState)) }),
        (HashMapR0, 0, true, HashMap<T, I1>, |cx| { map(cx, HashMap::with_hasher(rs())) }),
        (HashMapR1, 1, true, HashMap<I0, T>, |cx| { map(cx, HashMap::with_hasher(rs())) }),
        (HashMapIter0, 0, true, hash_map::IntoIter<T, I1>, |cx| { let m: HashMap<T, I1, FixedState> = map(cx, HashMap::with_hasher(FixedState)); consume(cx, m.into_iter(), |i| i.next()) }),
        (HashMapIter1, 1, true, hash_map::IntoIter<I0, T>, |cx| { let m: HashMap<I0, T, FixedState> = map(cx, HashMap::with_hasher(FixedState)); consume(cx, m.into_iter(), |i| i.next()) }),
        (HashSet_, 0, true, HashSet<T, FixedState>, |cx| { hset(cx, FixedState) }),
        (HashSetR, 0, true, HashSet<T>, |cx| { hset(cx, rs()) }),
        (HashSetIter, 0, true, hash_set::IntoIter<T>, |cx| { let m: HashSet<T, FixedState> = hset(cx, FixedState); consume(cx, m.into_iter(), |i| i.next()) }),
    } }
}

macro_rules! define {
    ($(($name:ident, $k:tt, $keyed:literal, $ty:ty, |$cx:ident| $b:block)),* $(,)?) => { $(
        #[allow(non_camel_case_types)]
        struct $name;
        impl Sub for $name {
            const NAME: &'static str = stringify!($name);
            const KEYED: bool = $keyed;
            type P = TypeParam<$k>;
            type C<T: Item> = $ty;
            fn build<T: Item>($cx: &mut Cx) -> Self::C<T> $b
        }
    )* }
}
subs!(define);

macro_rules! define2 {
    ($(($name:ident, $ty:ty, |$cx:ident| $b:block)),* $(,)?) => { $(
        struct $name;
        impl Sub2 for $name {
            const NAME: &'static str = stringify!($name);
            type C<T: Item, U: Item> = $ty;
            fn build<T: Item, U: Item>($cx: &mut Cx) -> Self::C<T, U> $b
        }
    )* }
}
macro_rules! subs2 { ($mac:ident) => { $mac! {
    (TControlFlow, ControlFlow<T, U>, |cx| { full(cx); match cx.choose(2) { 0 => ControlFlow::Break(cx.leaf()), _ => ControlFlow::Continue(cx.leaf()) } }),
    (TResult, Result<T, U>, |cx| { full(cx); match cx.choose(2) { 0 => Ok(cx.leaf()), _ => Err(cx.leaf()) } }),
    (TBTreeMap, BTreeMap<T, U>, |cx| { map(cx, BTreeMap::new()) }),
    (TBTreeMapIter, btree_map::IntoIter<T, U>, |cx| { let m: BTreeMap<T, U> = map(cx, BTreeMap::new()); consume(cx, m.into_iter(), |i| i.next_back()) }),
    (THashMap, HashMap<T, U, FixedState>, |cx| { map(cx, HashMap::with_hasher(FixedState)) }),
    (THashMapIter, hash_map::IntoIter<T, U>, |cx| { let m: HashMap<T, U, FixedState> = map(cx, HashMap::with_hasher(FixedState)); consume(cx, m.into_iter(), |i| i.next()) }),
} } }
subs2!(define2);

// --- target classes ------------------------------------------------------------------------

/// How the closure assigns classes (equality and order) to new values
#[derive(Clone, Copy, Debug)]
enum Class {
    Same,
    Reversed,
    AllEqual,
    Halves,
    Each,
}

impl Class {
    fn of(self, cx: &mut Cx, id: u32) -> u32 {
        match self {
            Class::Same => id,
            Class::Reversed => 1_000_000 - id,
            Class::AllEqual => 0,
            Class::Halves => id % 2,
            Class::Each => cx.choose(3) as u32,
        }
    }
    /// without merging
    fn inj(cx: &mut Cx, keyed: bool) -> Class {
        if keyed && cx.choose(2) == 1 { Class::Reversed } else { Class::Same }
    }
    fn any(cx: &mut Cx, keyed: bool) -> Class {
        if keyed { [Class::Same, Class::Reversed, Class::AllEqual, Class::Halves][cx.choose(4)] } else { Class::Same }
    }
}

fn small(o: &Ob, k: usize) -> bool {
    o.leaves(k).0.len() <= 4
}

type Log = Vec<(u32, u32, u32)>;

fn check_log(log: &Log, src: &Ob, k: usize, complete: bool) -> Result<(), String> {
    let (mut want, ordered) = src.leaves(k);
    let mut got: Vec<u32> = log.iter().map(|l| l.0).collect();
    if ordered {
        let w = if complete { &want[..] } else { &want[..got.len().min(want.len())] };
        if got != w {
            return Err(format!("closure called with {got:?}, expected {w:?}"));
        }
    } else {
        want.sort_unstable();
        got.sort_unstable();
        if complete && got != want {
            return Err(format!("closure called with {got:?}, expected {want:?} in some order"));
        }
        let mut rest = want.clone();
        for g in &got {
            match rest.iter().position(|w| w == g) {
                Some(i) => drop(rest.remove(i)),
                None => return Err(format!("closure called with {got:?}, not a part of {want:?}")),
            }
        }
    }
    Ok(())
}

fn expect_ob(what: &str, got: Ob, want: Ob) -> Result<(), String> {
    let (got, want) = (got.canon(), want.canon());
    if got != want {
        return Err(format!("{what}: got {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn shape(o: &Ob) -> String {
    let s = format!("{o:?}");
    if s.len() > 120 { format!("{} chars", s.len()) } else { s }
}

// --- C01, C02 ------------------------------------------------------------------------------

fn shape_check<S: Sub, A: Item, B: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, B, S::P> + TryFuncMap<A, B, S::P, Output = <S::C<A> as FuncMap<A, B, S::P>>::Output> + Obs,
    <S::C<A> as FuncMap<A, B, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let class = if S::KEYED && small(&src, A::K) { Class::Each } else { Class::any(cx, S::KEYED) };
    let fallible = cx.choose(2) == 1;
    let mut log = Log::new();
    let mut next = 500;
    let got = if fallible {
        let r: Result<_, Er> = TryFuncMap::<A, B, S::P>::try_func_map(x, |a: A| {
            next += 1;
            let c = class.of(cx, a.id());
            log.push((a.id(), next, c));
            Ok(B::mk(next, c))
        });
        r.map_err(|_| "error although every call succeeded".to_string())?.obs()
    } else {
        FuncMap::<A, B, S::P>::func_map(x, |a: A| {
            next += 1;
            let c = class.of(cx, a.id());
            log.push((a.id(), next, c));
            B::mk(next, c)
        })
        .obs()
    };
    note_state((&src, &log, fallible));
    check_log(&log, &src, A::K, true)?;
    expect_ob("result", got, src.mapped(A::K, 1, &log))?;
    Ledger::check_all_dropped()?;
    Ok(format!("mapped {}: {}", log.len(), shape(&src)))
}

/// As [`shape_check`] for values without identity on either side: the number of calls, the
/// shape of the result and the order in which it holds the new values
fn layout_check<S: Sub, A: Item, B: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, B, S::P> + TryFuncMap<A, B, S::P, Output = <S::C<A> as FuncMap<A, B, S::P>>::Output> + Obs,
    <S::C<A> as FuncMap<A, B, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let fallible = cx.choose(2) == 1;
    let mut n = 0;
    let got = if fallible {
        let r: Result<_, Er> = TryFuncMap::<A, B, S::P>::try_func_map(x, |_: A| {
            n += 1;
            Ok(B::mk(500 + n, 500 + n))
        });
        r.map_err(|_| "error although every call succeeded".to_string())?.obs()
    } else {
        FuncMap::<A, B, S::P>::func_map(x, |_: A| {
            n += 1;
            B::mk(500 + n, 500 + n)
        })
        .obs()
    };
    note_state((&src, n, fallible, "layout"));
    let mut m = 0;
    let want = src.renumbered(A::K, &mut |_| {
        m += 1;
        if B::ZST { (1, 0) } else { (1, 500 + m) }
    });
    if n != m {
        return Err(format!("{n} calls for {m} values"));
    }
    expect_ob("result", got, want)?;
    Ledger::check_all_dropped()?;
    Ok(format!("mapped {n}: {}", shape(&src)))
}

// --- C03 -----------------------------------------------------------------------------------

fn fail_check<S: Sub, A: Item, B: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: TryFuncMap<A, B, S::P> + Obs,
    <S::C<A> as TryFuncMap<A, B, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let class = Class::any(cx, S::KEYED);
    let mut log = Log::new();
    let mut failed: Option<u32> = None;
    let mut after = 0;
    let r: Result<_, Er> = TryFuncMap::<A, B, S::P>::try_func_map(x, |a: A| {
        if failed.is_some() {
            after += 1;
        }
        let (id, n) = (a.id(), 500 + log.len() as u32);
        let fail = failed.is_none() && cx.choose_dev(2) == 1;
        if fail {
            failed = Some(n);
            log.push((id, n, 0));
            return Err(Er::mk(n, n));
        }
        let c = class.of(cx, id);
        log.push((id, n, c));
        Ok(B::mk(n, c))
    });
    note_state((&src, &log, failed));
    if after > 0 {
        return Err(format!("closure called {after} times after it failed"));
    }
    check_log(&log, &src, A::K, failed.is_none())?;
    let out = match (r, failed) {
        (Ok(y), None) => {
            expect_ob("result", y.obs(), src.mapped(A::K, 1, &log))?;
            format!("ok {}", log.len())
        }
        (Err(e), Some(n)) => {
            if e.id() != n {
                return Err(format!("returned error {} instead of {n}", e.id()));
            }
            format!("failed at call {}", log.len())
        }
        (Ok(_), Some(_)) => return Err("success although a call failed".into()),
        (Err(_), None) => return Err("error although no call failed".into()),
    };
    Ok(format!("{out}: {}", shape(&src)))
}

// --- C04 -----------------------------------------------------------------------------------

fn drop_check<S: Sub, A: Item, B: Item, X: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, B, S::P> + TryFuncMap<A, B, S::P>,
{
    let x = S::build::<A>(cx);
    let class = Class::any(cx, S::KEYED);
    let fallible = cx.choose(2) == 1;
    let mut n = 0u32;
    let mut pattern = Vec::new();
    let r = guarded(|| {
        if fallible {
            let r: Result<_, X> = TryFuncMap::<A, B, S::P>::try_func_map(x, |a: A| {
                n += 1;
                let o = cx.choose_dev(3);
                pattern.push(o as u8);
                match o {
                    0 => Ok(B::mk(n, class.of(cx, a.id()))),
                    1 => Err(X::mk(n, n)),
                    _ => boom(),
                }
            });
            if r.is_err() { "error" } else { "value" }
        } else {
            drop(FuncMap::<A, B, S::P>::func_map(x, |a: A| {
                n += 1;
                let o = cx.choose_dev(2);
                pattern.push(2 * o as u8);
                if o == 1 {
                    boom()
                }
                B::mk(n, class.of(cx, a.id()))
            }));
            "value"
        }
    });
    let r = r.unwrap_or("panic");
    note_state((Ledger::created(), &pattern, fallible, r));
    Ledger::check_all_dropped()?;
    Ok(format!("{r}: {n} calls, {} values created", Ledger::created()))
}

// --- C05 -----------------------------------------------------------------------------------

fn agree_check<S: Sub, A: Item, B: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, B, S::P> + TryFuncMap<A, B, S::P, Output = <S::C<A> as FuncMap<A, B, S::P>>::Output> + Obs,
    <S::C<A> as FuncMap<A, B, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let y = rec.again(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let mut classes: HashMap<u32, u32> = HashMap::new();
    let class = if S::KEYED && small(&src, A::K) { Class::Each } else { Class::any(cx, S::KEYED) };
    let (mut l1, mut l2) = (Vec::new(), Vec::new());
    let a1 = FuncMap::<A, B, S::P>::func_map(x, |a: A| {
        let id = a.id();
        let c = class.of(cx, id);
        classes.insert(id, c);
        l1.push(id);
        B::mk(id, c)
    })
    .obs();
    let a2 = TryFuncMap::<A, B, S::P>::try_func_map(y, |a: A| {
        let id = a.id();
        l2.push(id);
        Ok::<_, Er>(B::mk(id, classes.get(&id).copied().unwrap_or(0)))
    })
    .map_err(|_| "fallible mapping failed although every call succeeded".to_string())?
    .obs();
    note_state((&src, &a1));
    if l1 != l2 {
        return Err(format!("calls differ: infallible {l1:?}, fallible {l2:?}"));
    }
    expect_ob("fallible result", a2, a1)?;
    Ok(format!("agree on {}: {}", l1.len(), shape(&src)))
}

// --- C06 -----------------------------------------------------------------------------------

fn law_check<S: Sub, A: Item, B: Item, D: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, A, S::P> + FuncMap<A, B, S::P> + FuncMap<A, D, S::P> + Obs,
    S::C<A>: TryFuncMap<A, A, S::P> + TryFuncMap<A, B, S::P> + TryFuncMap<A, D, S::P>,
    <S::C<A> as FuncMap<A, A, S::P>>::Output: Obs,
    <S::C<A> as FuncMap<A, D, S::P>>::Output: Obs,
    <S::C<A> as FuncMap<A, B, S::P>>::Output: FuncMap<B, D, S::P>,
    <<S::C<A> as FuncMap<A, B, S::P>>::Output as FuncMap<B, D, S::P>>::Output: Obs,
    <S::C<A> as TryFuncMap<A, A, S::P>>::Output: Obs,
    <S::C<A> as TryFuncMap<A, D, S::P>>::Output: Obs,
    <S::C<A> as TryFuncMap<A, B, S::P>>::Output: TryFuncMap<B, D, S::P>,
    <<S::C<A> as TryFuncMap<A, B, S::P>>::Output as TryFuncMap<B, D, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let law = cx.choose(4);
    if law < 2 {
        let y = if law == 0 {
            FuncMap::<A, A, S::P>::func_map(x, |a: A| a).obs()
        } else {
            TryFuncMap::<A, A, S::P>::try_func_map(x, Ok::<A, Er>).map_err(|_| "error")?.obs()
        };
        note_state((&src, law));
        expect_ob("identity", y, src.clone())?;
        return Ok(format!("identity: {}", shape(&src)));
    }
    let (cf, cg) = (Class::inj(cx, S::KEYED), Class::inj(cx, S::KEYED));
    let cell = RefCell::new(cx);
    let f = |a: A| B::mk(a.id(), cf.of(&mut cell.borrow_mut(), a.id()));
    let g = |b: B| D::mk(b.id(), cg.of(&mut cell.borrow_mut(), b.class()));
    let z = rec.again(S::build::<A>);
    let (two, one) = if law == 2 {
        let y = FuncMap::<A, B, S::P>::func_map(x, f);
        (FuncMap::<B, D, S::P>::func_map(y, g).obs(), FuncMap::<A, D, S::P>::func_map(z, |a: A| g(f(a))).obs())
    } else {
        let y = TryFuncMap::<A, B, S::P>::try_func_map(x, |a| Ok::<_, Er>(f(a))).map_err(|_| "error")?;
        (
            TryFuncMap::<B, D, S::P>::try_func_map(y, |a| Ok::<_, Er>(g(a))).map_err(|_| "error")?.obs(),
            TryFuncMap::<A, D, S::P>::try_func_map(z, |a: A| Ok::<_, Er>(g(f(a)))).map_err(|_| "error")?.obs(),
        )
    };
    note_state((&src, law, &one));
    expect_ob("composition (mapping twice)", two, one)?;
    Ok(format!("composition: {}", shape(&src)))
}

/// Identity law for integer ranges in every iteration state; a listed finding is reported
/// through the outcome
fn int_range_check(cx: &mut Cx) -> Result<String, String> {
    let (a, b) = (cx.choose(4) as u8, cx.choose(4) as u8);
    let steps = cx.choose(5);
    let mut r = a..=b;
    let mut calls = Vec::new();
    let mut exhausted = false;
    for _ in 0..steps {
        let back = cx.choose(2) == 1;
        calls.push(if back { "next_back" } else { "next" });
        let was_empty = r.is_empty();
        let x = if back { r.next_back() } else { r.next() };
        if x.is_none() && !was_empty {
            return Err("range ended early".into());
        }
        exhausted |= x.is_some() && r.is_empty();
    }
    let same = if cx.choose(2) == 0 {
        r.clone().func_map(|x: u8| x) == r
    } else {
        r.clone().try_func_map(Ok::<u8, ()>) == Ok(r.clone())
    };
    note_state((a, b, &calls));
    if same {
        Ok("identity: integer range".into())
    } else if exhausted {
        Ok(format!("known-finding exhausted-range-inclusive: {a}..={b} after {calls:?}"))
    } else {
        Err(format!("identity: {a}..={b} after {calls:?} changed"))
    }
}

fn int_range_other(cx: &mut Cx) -> Result<String, String> {
    let (a, b) = (cx.choose(4) as u8, cx.choose(4) as u8);
    let mut r = a..b;
    let mut f = a..;
    for _ in 0..cx.choose(4) {
        if cx.choose(2) == 1 { r.next_back() } else { r.next() };
        f.next();
    }
    note_state((r.start, r.end, f.start));
    let ok = r.clone().func_map(|x: u8| x) == r
        && r.clone().try_func_map(Ok::<u8, ()>) == Ok(r.clone())
        && f.clone().func_map(|x: u8| x) == f
        && f.clone().try_func_map(Ok::<u8, ()>) == Ok(f.clone())
        && (..a).func_map(|x: u8| x) == (..a)
        && (..a).try_func_map(Ok::<u8, ()>) == Ok(..a)
        && (..=a).func_map(|x: u8| x) == (..=a)
        && (..=a).try_func_map(Ok::<u8, ()>) == Ok(..=a);
    if ok { Ok("identity: integer range".into()) } else { Err(format!("identity changed {r:?}, {f:?}, ..{a} or ..={a}")) }
}

// --- C07 -----------------------------------------------------------------------------------

type M0<X, A, B> = <X as FuncMap<A, B, TypeParam<0>>>::Output;
type M1<X, A, B> = <X as FuncMap<A, B, TypeParam<1>>>::Output;
type Y0<X, A, B> = <X as TryFuncMap<A, B, TypeParam<0>>>::Output;
type Y1<X, A, B> = <X as TryFuncMap<A, B, TypeParam<1>>>::Output;

fn commute_check<S: Sub2>(cx: &mut Cx) -> Result<String, String>
where
    S::C<I0, I1>: FuncMap<I0, O0, TypeParam<0>> + FuncMap<I1, O1, TypeParam<1>> + Obs,
    S::C<I0, I1>: TryFuncMap<I0, O0, TypeParam<0>> + TryFuncMap<I1, O1, TypeParam<1>>,
    M0<S::C<I0, I1>, I0, O0>: FuncMap<I1, O1, TypeParam<1>> + Obs,
    M1<S::C<I0, I1>, I1, O1>: FuncMap<I0, O0, TypeParam<0>> + Obs,
    Y0<S::C<I0, I1>, I0, O0>: TryFuncMap<I1, O1, TypeParam<1>>,
    Y1<S::C<I0, I1>, I1, O1>: TryFuncMap<I0, O0, TypeParam<0>>,
    M1<M0<S::C<I0, I1>, I0, O0>, I1, O1>: Obs,
    M0<M1<S::C<I0, I1>, I1, O1>, I0, O0>: Obs,
    Y1<Y0<S::C<I0, I1>, I0, O0>, I1, O1>: Obs,
    Y0<Y1<S::C<I0, I1>, I1, O1>, I0, O0>: Obs,
{
    let (x, rec) = cx.record(S::build::<I0, I1>);
    let mk = || rec.again(S::build::<I0, I1>);
    let src = mk().obs();
    let c0 = Class::inj(cx, true);
    // at most one leaf of either parameter makes its mapping fail
    let mut ids: Vec<u32> = src.leaves(0).0;
    ids.extend(src.leaves(1).0);
    if ids.len() > 600 {
        // very long collections: the ends, the middle and block boundaries only
        let at = [0, 1023.min(ids.len() - 1), ids.len() / 2 - 1, ids.len() / 2, ids.len() - 1];
        ids = at.iter().map(|i| ids[*i]).collect();
    }
    // one choice, so that it is a single deviation in a large container
    let mode = cx.choose(2 + ids.len());
    let failing = (mode >= 2).then(|| ids[mode - 2]);
    let cell = RefCell::new(cx);
    let f = |a: I0| O0::mk(a.id() + 1000, c0.of(&mut cell.borrow_mut(), a.id()));
    let g = |b: I1| O1::mk(b.id() + 2000, b.class());
    let ft = |a: I0| if Some(a.id()) == failing { Err(Er::mk(a.id(), 0)) } else { Ok(f(a)) };
    let gt = |b: I1| if Some(b.id()) == failing { Err(Er::mk(b.id(), 0)) } else { Ok(g(b)) };
    note_state((&src, mode, failing, format!("{c0:?}")));
    if mode == 0 {
        // independence: everything of the other parameter stays
        let (l0, l1) = (src.leaves(0).0, src.leaves(1).0);
        let log0: Log = l0.iter().map(|i| (*i, *i + 1000, c0.of(&mut cell.borrow_mut(), *i))).collect();
        let log1: Log = l1.iter().map(|i| (*i, *i + 2000, *i)).collect();
        expect_ob("mapping over parameter 0", FuncMap::<I0, O0, TypeParam<0>>::func_map(mk(), f).obs(), src.mapped(0, 1, &log0))?;
        expect_ob("mapping over parameter 1", FuncMap::<I1, O1, TypeParam<1>>::func_map(mk(), g).obs(), src.mapped(1, 1, &log1))?;
        let ab = FuncMap::<I1, O1, TypeParam<1>>::func_map(FuncMap::<I0, O0, TypeParam<0>>::func_map(x, f), g).obs();
        let ba = FuncMap::<I0, O0, TypeParam<0>>::func_map(FuncMap::<I1, O1, TypeParam<1>>::func_map(mk(), g), f).obs();
        expect_ob("mapping over both", ab, ba)?;
        return Ok(format!("commute: {}", shape(&src)));
    }
    let ab = TryFuncMap::<I0, O0, TypeParam<0>>::try_func_map(x, ft)
        .and_then(|y| TryFuncMap::<I1, O1, TypeParam<1>>::try_func_map(y, gt));
    let ba = TryFuncMap::<I1, O1, TypeParam<1>>::try_func_map(mk(), gt)
        .and_then(|y| TryFuncMap::<I0, O0, TypeParam<0>>::try_func_map(y, ft));
    let (ab, ba) = (ab.map(Obs::obs).map_err(|e| e.id()), ba.map(Obs::obs).map_err(|e| e.id()));
    match (ab, ba) {
        (Ok(a), Ok(b)) if failing.is_none() => expect_ob("fallible mapping over both", a, b)?,
        (Err(a), Err(b)) if a == b && Some(a) == failing => {}
        (a, b) => return Err(format!("failing value {failing:?}: orders disagree: {a:?} / {b:?}")),
    }
    Ok(format!("commute-fallible: {}", shape(&src)))
}

// --- C22 -----------------------------------------------------------------------------------

fn over_check<S: Sub, A: Item, B: Item>(cx: &mut Cx) -> Result<String, String>
where
    S::C<A>: FuncMap<A, B, S::P> + TryFuncMap<A, B, S::P> + Obs,
    <S::C<A> as FuncMap<A, B, S::P>>::Output: Obs,
    <S::C<A> as TryFuncMap<A, B, S::P>>::Output: Obs,
{
    let (x, rec) = cx.record(S::build::<A>);
    let y = rec.again(S::build::<A>);
    let src = rec.again(S::build::<A>).obs();
    let class = Class::any(cx, S::KEYED);
    let (mut l1, mut l2) = (Vec::new(), Vec::new());
    let fallible = cx.choose(2) == 1;
    if !fallible {
        let a = FuncMap::<A, B, S::P>::func_map(x, |a: A| {
            l1.push(a.id());
            B::mk(a.id(), class.of(cx, a.id()))
        })
        .obs();
        let b = y
            .func_map_over::<S::P, _>(|a: A| {
                l2.push(a.id());
                B::mk(a.id(), class.of(cx, a.id()))
            })
            .obs();
        expect_ob("explicit marker", b, a)?;
    } else {
        let mut fails: HashSet<u32> = HashSet::new();
        let a = TryFuncMap::<A, B, S::P>::try_func_map(x, |a: A| {
            l1.push(a.id());
            if cx.choose_dev(2) == 1 {
                fails.insert(a.id());
                return Err(Er::mk(a.id(), 0));
            }
            Ok(B::mk(a.id(), class.of(cx, a.id())))
        });
        let b = y.try_func_map_over::<S::P, _, _>(|a: A| {
            l2.push(a.id());
            if fails.contains(&a.id()) {
                return Err(Er::mk(a.id(), 0));
            }
            Ok(B::mk(a.id(), class.of(cx, a.id())))
        });
        match (a, b) {
            (Ok(a), Ok(b)) => expect_ob("explicit marker", b.obs(), a.obs())?,
            (Err(a), Err(b)) if a.id() == b.id() => {}
            (a, b) => return Err(format!("explicit marker: failed={} plain: failed={}", b.is_err(), a.is_err())),
        }
    }
    note_state((&src, &l1, fallible));
    if l1 != l2 {
        return Err(format!("calls differ: plain {l1:?}, explicit marker {l2:?}"));
    }
    Ok(format!("agree: {}", shape(&src)))
}

// --- jobs ----------------------------------------------------------------------------------

type Body = Box<dyn Fn(&mut Cx) -> Result<String, String> + Send + Sync>;

fn jobs(mode: &str) -> Vec<(String, Body)> {
    let mut v: Vec<(String, Body)> = Vec::new();
    macro_rules! add { ($(($n:ident, $k:tt, $keyed:literal, $($r:tt)*)),* $(,)?) => { $( {
        type I = It<(), $k, 0>;
        type O = It<(), $k, 1>;
        type Q = It<(), $k, 2>;
        type Wide0 = It<[u64; 5], $k, 0>;
        type Wide1 = It<[u64; 5], $k, 1>;
        type Al0 = It<Al, $k, 0>;
        type Al1 = It<Al, $k, 1>;
        type Z0 = Zi<$k, 0>;
        type Z1 = Zi<$k, 1>;
        type ZE = Zi<9, 3>;
        let name = |s: &str| format!("{}{s}", $n::NAME);
        #[cfg(feature = "c01")]
        if mode == "C01" && !$keyed {
            v.push((name(""), Box::new(shape_check::<$n, I, O>)));
            v.push((name(" small->wide"), Box::new(shape_check::<$n, I, Wide1>)));
            v.push((name(" wide->small"), Box::new(shape_check::<$n, Wide0, O>)));
            v.push((name(" small->aligned"), Box::new(shape_check::<$n, I, Al1>)));
            v.push((name(" aligned->small"), Box::new(shape_check::<$n, Al0, O>)));
            v.push((name(" zst->small"), Box::new(layout_check::<$n, Z0, O>)));
            v.push((name(" small->zst"), Box::new(layout_check::<$n, I, Z1>)));
            v.push((name(" zst->zst"), Box::new(layout_check::<$n, Z0, Z1>)));
        }
        #[cfg(feature = "c02")]
        if mode == "C02" && $keyed {
            v.push((name(""), Box::new(shape_check::<$n, I, O>)));
            v.push((name(" wide->small"), Box::new(shape_check::<$n, Wide0, O>)));
            v.push((name(" small->aligned"), Box::new(shape_check::<$n, I, Al1>)));
        }
        #[cfg(feature = "c03")]
        if mode == "C03" {
            v.push((name(""), Box::new(fail_check::<$n, I, O>)));
            v.push((name(" wide->small"), Box::new(fail_check::<$n, Wide0, O>)));
            v.push((name(" small->wide"), Box::new(fail_check::<$n, I, Wide1>)));
        }
        #[cfg(feature = "c04")]
        if mode == "C04" {
            v.push((name(""), Box::new(drop_check::<$n, I, O, Er>)));
            v.push((name(" wide->small"), Box::new(drop_check::<$n, Wide0, O, Er>)));
            v.push((name(" small->wide"), Box::new(drop_check::<$n, I, Wide1, Er>)));
            v.push((name(" zst->zst"), Box::new(drop_check::<$n, Z0, Z1, ZE>)));
            v.push((name(" aligned->small"), Box::new(drop_check::<$n, Al0, O, Er>)));
            v.push((name(" small->aligned"), Box::new(drop_check::<$n, I, Al1, Er>)));
            v.push((name(" zst->small"), Box::new(drop_check::<$n, Z0, O, Er>)));
            v.push((name(" small->zst"), Box::new(drop_check::<$n, I, Z1, ZE>)));
        }
        #[cfg(feature = "c05")]
        if mode == "C05" {
            v.push((name(""), Box::new(agree_check::<$n, I, O>)));
            v.push((name(" wide->small"), Box::new(agree_check::<$n, Wide0, O>)));
            v.push((name(" small->aligned"), Box::new(agree_check::<$n, I, Al1>)));
        }
        #[cfg(feature = "c06")]
        if mode == "C06" {
            v.push((name(""), Box::new(law_check::<$n, I, O, Q>)));
            v.push((name(" through wide"), Box::new(law_check::<$n, I, Wide1, Q>)));
            v.push((name(" wide"), Box::new(law_check::<$n, Wide0, O, Q>)));
        }
        #[cfg(feature = "c22")]
        if mode == "C22" {
            v.push((name(""), Box::new(over_check::<$n, I, O>)));
        }
    } )* } }
    subs!(add);
    macro_rules! add2 { ($(($n:ident, $($r:tt)*)),* $(,)?) => { $(
        if mode == "C07" { v.push((<$n as Sub2>::NAME.to_string(), Box::new(commute_check::<$n>))); }
    )* } }
    #[cfg(feature = "c07")]
    subs2!(add2);
    if mode == "C06" {
        v.push(("RangeInclusive<u8>".into(), Box::new(int_range_check)));
        v.push(("Range<u8> etc.".into(), Box::new(int_range_other)));
    }
    v
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let mode = args[1].clone();
    let thorough = args[2] == "thorough";
    let js = jobs(&mode);
    if args.len() > 4 {
        // libx MODE TIER JOB CHOICES: replay one execution
        let (n, b) = js.iter().find(|j| j.0 == args[3]).expect("unknown job");
        let ch: Vec<usize> = args[4].split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        let mut cx = Cx::replay(&ch, 0, thorough);
        Ledger::reset();
        let r = b(&mut cx);
        println!("{n}: {r:?}");
        std::process::exit(i32::from(r.is_err()));
    }
    let next = AtomicUsize::new(0);
    let out = Mutex::new(Stats::default());
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= js.len() {
                    break;
                }
                let st = explore(&js[i].0, thorough, |cx| (js[i].1)(cx));
                println!("{{\"job\":{:?},\"stats\":{}}}", js[i].0, st.json());
                out.lock().unwrap().merge(st);
            });
        }
    });
    println!("{{\"total\":{}}}", out.into_inner().unwrap().json());
}
