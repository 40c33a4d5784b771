//! Run-time support for the exhaustive checks: a stateless depth-first explorer
//! over choice points, tracked items with a drop ledger, and structural
//! observations with a reference model of mapping.

pub mod prog;

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::fmt;
use std::hash::{BuildHasher, Hash, Hasher};

// ---------------------------------------------------------------------------
// Explorer
// ---------------------------------------------------------------------------

/// One execution: a sequence of choices, replaying a prefix first
#[derive(Default, Debug, Clone)]
pub struct Cx {
    prefix: Vec<usize>,
    arity: Vec<usize>,
    trace: Vec<usize>,
    replay_only: bool,
    dev_budget: usize,
    recs: Vec<Vec<usize>>,
    pub next_id: u32,
    pub key: Vec<u32>,
    pub leaves: Vec<(usize, u32, Vec<u32>)>,
    pub thorough: bool,
}

impl Cx {
    fn new(prefix: Vec<usize>, arity: Vec<usize>, thorough: bool) -> Self {
        Cx { prefix, arity, thorough, ..Cx::default() }
    }

    /// A context that replays recorded choices (used for building twins)
    pub fn replay(rec: &[usize], next_id: u32, thorough: bool) -> Self {
        Cx {
            prefix: rec.to_vec(),
            replay_only: true,
            next_id,
            thorough,
            ..Cx::default()
        }
    }

    /// An execution choice among `n` alternatives
    pub fn choose(&mut self, n: usize) -> usize {
        assert!(n > 0, "machinery: empty choice");
        let i = self.trace.len();
        let c = if i < self.prefix.len() {
            let c = self.prefix[i];
            if c >= n || (!self.replay_only && self.arity[i] != n) {
                panic!("machinery: replay divergence at {i}: choice {c} arity {n}");
            }
            c
        } else {
            assert!(!self.replay_only, "machinery: replay exhausted");
            self.prefix.push(0);
            self.arity.push(n);
            0
        };
        self.trace.push(c);
        for r in &mut self.recs {
            r.push(c);
        }
        c
    }

    /// A choice whose non-default alternatives consume the deviation budget
    pub fn choose_dev(&mut self, n: usize) -> usize {
        if self.dev_budget == 0 {
            return 0;
        }
        let c = self.choose(n);
        if c != 0 {
            self.dev_budget -= 1;
        }
        c
    }

    pub fn set_budget(&mut self, b: usize) {
        self.dev_budget = b;
    }

    /// Runs `f`, recording the choices it makes
    pub fn record<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> (R, Rec) {
        let id = self.next_id;
        self.recs.push(Vec::new());
        let r = f(self);
        let rec = self.recs.pop().unwrap();
        (r, Rec { choices: rec, id, thorough: self.thorough })
    }

    pub fn trace(&self) -> &[usize] {
        &self.trace
    }

    // --- leaves of generated values -------------------------------------------------

    /// Allocates the next leaf id of parameter `k`, remembering its position key
    pub fn leaf_id(&mut self, k: usize) -> u32 {
        let id = self.next_id;
        self.next_id += 1;
        self.leaves.push((k, id, self.key.clone()));
        id
    }

    pub fn leaf<T: Item>(&mut self) -> T {
        let id = self.leaf_id(T::K);
        T::mk(id, id)
    }

    pub fn push(&mut self, k: usize) -> usize {
        self.key.push(k as u32);
        self.key.len() - 1
    }

    pub fn set(&mut self, pos: usize, k: usize) {
        self.key[pos] = k as u32;
    }

    pub fn pop(&mut self) {
        self.key.pop();
    }

    /// Ids of the leaves of parameter `k` in visiting order
    pub fn visit_order(&self, k: usize) -> Vec<u32> {
        let mut v: Vec<_> = self.leaves.iter().filter(|l| l.0 == k).collect();
        v.sort_by(|a, b| a.2.cmp(&b.2));
        v.iter().map(|l| l.1).collect()
    }
}

#[derive(Debug, Clone)]
pub struct Rec {
    choices: Vec<usize>,
    id: u32,
    thorough: bool,
}

impl Rec {
    pub fn again<R>(&self, f: impl FnOnce(&mut Cx) -> R) -> R {
        let mut cx = Cx::replay(&self.choices, self.id, self.thorough);
        let r = f(&mut cx);
        assert_eq!(cx.trace.len(), self.choices.len(), "machinery: twin diverged");
        r
    }
}

#[derive(Default, Debug, Clone)]
pub struct Stats {
    pub executions: u64,
    pub nodes: u64,
    pub states: u64,
    pub max_depth: usize,
    pub capped: bool,
    pub samples: Vec<String>,
    pub outcomes: BTreeMap<String, u64>,
    pub violations: Vec<String>,
}

impl Stats {
    pub fn merge(&mut self, o: Stats) {
        self.executions += o.executions;
        self.nodes += o.nodes;
        self.states += o.states;
        self.max_depth = self.max_depth.max(o.max_depth);
        self.capped |= o.capped;
        self.samples.extend(o.samples);
        for (k, v) in o.outcomes {
            *self.outcomes.entry(k).or_default() += v;
        }
        self.violations.extend(o.violations);
    }

    pub fn json(&self) -> String {
        let strs = |v: &[String]| {
            v.iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(",")
        };
        format!(
            "{{\"executions\":{},\"nodes\":{},\"states\":{},\"max_depth\":{},\"capped\":{},\"samples\":[{}],\"violations\":[{}],\"outcomes\":{{{}}}}}",
            self.executions,
            self.nodes,
            self.states,
            self.max_depth,
            self.capped,
            strs(&self.samples),
            strs(&self.violations),
            self.outcomes.iter().map(|(k, v)| format!("{k:?}:{v}")).collect::<Vec<_>>().join(",")
        )
    }
}

thread_local! {
    static STATES: RefCell<HashSet<u64>> = RefCell::new(HashSet::new());
}

/// Notes a canonical state reached by the current exploration
pub fn note_state<H: Hash>(h: H) {
    let mut s = std::collections::hash_map::DefaultHasher::new();
    h.hash(&mut s);
    STATES.with(|t| t.borrow_mut().insert(s.finish()));
}

pub const MAX_EXEC: u64 = 40_000_000;

/// Explores all executions of `body` depth-first
pub fn explore(
    name: &str,
    thorough: bool,
    mut body: impl FnMut(&mut Cx) -> Result<String, String>,
) -> Stats {
    let mut st = Stats::default();
    STATES.with(|t| t.borrow_mut().clear());
    let mut prefix = Vec::new();
    let mut arity = Vec::new();
    let mut new_from = 0;
    loop {
        let mut cx = Cx::new(prefix, arity, thorough);
        Ledger::reset();
        let mut r = body(&mut cx);
        if let Some(e) = Ledger::take_error() {
            r = match r {
                Ok(_) => Err(e),
                Err(x) => Err(format!("{x}; {e}")),
            };
        }
        st.executions += 1;
        st.nodes += (cx.trace.len() - new_from.min(cx.trace.len())) as u64;
        st.max_depth = st.max_depth.max(cx.trace.len());
        if cx.trace.len() < cx.prefix.len() {
            panic!("machinery: execution ended inside its prefix");
        }
        match r {
            Ok(outcome) => {
                if st.executions == 1 || (st.executions == 17 && st.samples.len() < 2) {
                    st.samples.push(format!("{name} choices={:?}: {outcome}", cx.trace));
                }
                *st.outcomes.entry(outcome_class(&outcome)).or_default() += 1;
            }
            Err(e) => {
                // a failing schedule must fail the same way again
                let mut again = Cx::new(cx.trace.clone(), cx.arity.clone(), thorough);
                Ledger::reset();
                let mut r2 = body(&mut again);
                if let Some(e) = Ledger::take_error() {
                    r2 = match r2 {
                        Ok(_) => Err(e),
                        Err(x) => Err(format!("{x}; {e}")),
                    };
                }
                if r2.is_ok() {
                    panic!("machinery: violation of {name} does not reproduce: {e}");
                }
                if st.violations.len() < 5 {
                    st.violations.push(format!("{name} choices={:?}: {e}", cx.trace));
                }
            }
        }
        prefix = cx.prefix;
        arity = cx.arity;
        // next in depth-first order
        loop {
            match prefix.last() {
                None => {
                    st.states = STATES.with(|t| t.borrow().len() as u64);
                    return st;
                }
                Some(&c) if c + 1 < *arity.last().unwrap() => {
                    *prefix.last_mut().unwrap() += 1;
                    break;
                }
                Some(_) => {
                    prefix.pop();
                    arity.pop();
                }
            }
        }
        new_from = prefix.len() - 1;
        if st.executions >= MAX_EXEC || st.violations.len() >= 5 {
            st.capped = st.executions >= MAX_EXEC;
            st.states = STATES.with(|t| t.borrow().len() as u64);
            return st;
        }
    }
}

fn outcome_class(s: &str) -> String {
    s.split(':').next().unwrap_or("").to_string()
}

// ---------------------------------------------------------------------------
// Ledger
// ---------------------------------------------------------------------------

#[derive(Default)]
pub struct Ledger {
    dropped: Vec<u8>,
    desc: Vec<(u8, u8, u32)>,
    zst_alive: i64,
    error: Option<String>,
}

thread_local! {
    static LEDGER: RefCell<Ledger> = RefCell::new(Ledger::default());
}

const MAGIC: u32 = 0x5EED_CAFE;

impl Ledger {
    pub fn reset() {
        LEDGER.with(|l| *l.borrow_mut() = Ledger::default());
    }

    fn create(k: u8, s: u8, id: u32) -> u32 {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.dropped.push(0);
            l.desc.push((k, s, id));
            l.dropped.len() as u32 - 1
        })
    }

    fn drop_one(uid: u32, magic: u32) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if magic != MAGIC || uid as usize >= l.dropped.len() {
                l.fail(format!("destructor ran on memory that is not an item (uid {uid:#x})"));
                return;
            }
            l.dropped[uid as usize] += 1;
            if l.dropped[uid as usize] > 1 {
                let d = l.desc[uid as usize];
                l.fail(format!("value {} dropped twice", describe(d)));
            }
        })
    }

    fn alive(uid: u32, magic: u32) {
        LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            if magic != MAGIC || uid as usize >= l.dropped.len() {
                l.fail(format!("access to memory that is not an item (uid {uid:#x})"));
            } else if l.dropped[uid as usize] != 0 {
                let d = l.desc[uid as usize];
                l.fail(format!("value {} used after drop", describe(d)));
            }
        })
    }

    fn fail(&mut self, e: String) {
        if self.error.is_none() {
            self.error = Some(e);
        }
    }

    pub fn take_error() -> Option<String> {
        LEDGER.with(|l| l.borrow_mut().error.take())
    }

    /// All values ever created must have been dropped exactly once
    pub fn check_all_dropped() -> Result<(), String> {
        LEDGER.with(|l| {
            let l = l.borrow();
            if let Some(e) = &l.error {
                return Err(e.clone());
            }
            if let Some(i) = l.dropped.iter().position(|d| *d == 0) {
                return Err(format!("value {} never dropped (leaked)", describe(l.desc[i])));
            }
            if l.zst_alive != 0 {
                return Err(format!("zero-sized values: created minus dropped = {}", l.zst_alive));
            }
            Ok(())
        })
    }

    pub fn created() -> usize {
        LEDGER.with(|l| l.borrow().dropped.len())
    }
}

fn describe((k, s, id): (u8, u8, u32)) -> String {
    let st = ["I", "O", "Q", "E"][s as usize % 4];
    format!("{st}{k}({id})")
}

// ---------------------------------------------------------------------------
// Items
// ---------------------------------------------------------------------------

/// Values put into containers
pub trait Item: Ord + Hash + Obs + 'static {
    const K: usize;
    const ZST: bool;
    fn mk(id: u32, class: u32) -> Self;
    fn id(&self) -> u32;
    fn class(&self) -> u32;
}

pub trait Pad: Default + Copy + 'static {}
impl Pad for () {}
impl Pad for [u64; 5] {}
#[derive(Clone, Copy, Default)]
#[repr(align(64))]
pub struct Al(pub u8);
impl Pad for Al {}

/// Tracked item of parameter `K` in stage `S` (0 = source, 1 and 2 = mapped)
pub struct It<P: Pad, const K: usize, const S: usize> {
    magic: u32,
    uid: u32,
    id: u32,
    class: u32,
    _pad: P,
}

impl<P: Pad, const K: usize, const S: usize> Item for It<P, K, S> {
    const K: usize = K;
    const ZST: bool = false;
    fn mk(id: u32, class: u32) -> Self {
        It { magic: MAGIC, uid: Ledger::create(K as u8, S as u8, id), id, class, _pad: P::default() }
    }
    fn id(&self) -> u32 {
        Ledger::alive(self.uid, self.magic);
        self.id
    }
    fn class(&self) -> u32 {
        Ledger::alive(self.uid, self.magic);
        self.class
    }
}

impl<P: Pad, const K: usize, const S: usize> Drop for It<P, K, S> {
    fn drop(&mut self) {
        Ledger::drop_one(self.uid, self.magic);
        self.magic = 0xDEAD_DEAD;
    }
}

impl<P: Pad, const K: usize, const S: usize> PartialEq for It<P, K, S> {
    fn eq(&self, o: &Self) -> bool {
        self.class() == o.class()
    }
}
impl<P: Pad, const K: usize, const S: usize> Eq for It<P, K, S> {}
impl<P: Pad, const K: usize, const S: usize> PartialOrd for It<P, K, S> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl<P: Pad, const K: usize, const S: usize> Ord for It<P, K, S> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.class().cmp(&o.class())
    }
}
impl<P: Pad, const K: usize, const S: usize> Hash for It<P, K, S> {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.class().hash(h)
    }
}
impl<P: Pad, const K: usize, const S: usize> fmt::Debug for It<P, K, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}{}({})", ["I", "O", "Q", "E"][S], K, self.id())
    }
}

/// Zero-sized tracked item
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Zi<const K: usize, const S: usize>;

impl<const K: usize, const S: usize> Item for Zi<K, S> {
    const K: usize = K;
    const ZST: bool = true;
    fn mk(_: u32, _: u32) -> Self {
        LEDGER.with(|l| l.borrow_mut().zst_alive += 1);
        Zi
    }
    fn id(&self) -> u32 {
        0
    }
    fn class(&self) -> u32 {
        0
    }
}
impl<const K: usize, const S: usize> Drop for Zi<K, S> {
    fn drop(&mut self) {
        LEDGER.with(|l| l.borrow_mut().zst_alive -= 1);
    }
}
impl<const K: usize, const S: usize> fmt::Debug for Zi<K, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "z{}{}", K, S)
    }
}

pub type I0 = It<(), 0, 0>;
pub type I1 = It<(), 1, 0>;
pub type I2 = It<(), 2, 0>;
pub type O0 = It<(), 0, 1>;
pub type O1 = It<(), 1, 1>;
pub type O2 = It<(), 2, 1>;
pub type Q0 = It<(), 0, 2>;
pub type Q1 = It<(), 1, 2>;
pub type Q2 = It<(), 2, 2>;
/// Error values
pub type Er = It<(), 9, 3>;

/// Payload of panics raised by closures under test
pub struct Boom;

/// Runs `f`, catching the panics raised by closures under test only
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, ()> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(r) => Ok(r),
        Err(p) if p.is::<Boom>() => Err(()),
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Silences the panic hook for [`Boom`]
pub fn quiet_panics() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !i.payload().is::<Boom>() {
            old(i)
        }
    }));
}

pub fn boom() -> ! {
    std::panic::panic_any(Boom)
}

/// Hasher with a fixed, order-scrambling function (owns the iteration order)
#[derive(Default, Clone)]
pub struct FixedState;
pub struct FixedHasher(u64);
impl BuildHasher for FixedState {
    type Hasher = FixedHasher;
    fn build_hasher(&self) -> FixedHasher {
        FixedHasher(0xcbf29ce484222325)
    }
}
impl Hasher for FixedHasher {
    fn finish(&self) -> u64 {
        self.0.rotate_left(23)
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100000001b3);
        }
    }
}

// ---------------------------------------------------------------------------
// Observations and the reference model
// ---------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ob {
    Leaf { k: usize, s: usize, id: u32, class: u32 },
    N(u64),
    Tag(&'static str, Vec<Ob>),
    Seq(Vec<Ob>),
    /// entries; `true` if the order of entries is defined (ascending keys)
    Map(bool, Vec<(Ob, Ob)>),
    Set(bool, Vec<Ob>),
    Bag(Vec<Ob>),
}

/// Consuming observation of a value
pub trait Obs {
    fn obs(self) -> Ob;
}

impl<P: Pad, const K: usize, const S: usize> Obs for It<P, K, S> {
    fn obs(self) -> Ob {
        Ob::Leaf { k: K, s: S, id: self.id(), class: self.class() }
    }
}
impl<const K: usize, const S: usize> Obs for Zi<K, S> {
    fn obs(self) -> Ob {
        Ob::Leaf { k: K, s: S, id: 0, class: 0 }
    }
}
macro_rules! nobs { ($($t:ty),*) => { $(impl Obs for $t { fn obs(self) -> Ob { Ob::N(self as u64) } })* } }
nobs!(u8, u16, u32, usize, bool);
impl<T: Obs, const N: usize> Obs for [T; N] {
    fn obs(self) -> Ob {
        Ob::Seq(self.into_iter().map(Obs::obs).collect())
    }
}
macro_rules! seqobs { ($($t:ty),* $(,)?) => { $(impl<T: Obs> Obs for $t { fn obs(self) -> Ob {
    Ob::Seq(self.into_iter().map(Obs::obs).collect()) } })* } }
seqobs!(Vec<T>, VecDeque<T>, LinkedList<T>);

/// Observes an owning iterator from both ends alternately, checking its length
macro_rules! iterobs { ($($t:ty),* $(,)?) => { $(impl<T: Obs> Obs for $t { fn obs(mut self) -> Ob {
    let hint = self.size_hint();
    let (mut front, mut back) = (Vec::new(), Vec::new());
    loop {
        match self.next() { Some(x) => front.push(x.obs()), None => break }
        match self.next_back() { Some(x) => back.push(x.obs()), None => break }
    }
    back.reverse();
    front.extend(back);
    let exact = hint == (front.len(), Some(front.len()));
    Ob::Tag(if exact { "iter" } else { "iter-with-wrong-length" }, vec![Ob::Seq(front)])
} })* } }
iterobs!(
    std::option::IntoIter<T>,
    std::result::IntoIter<T>,
    std::vec::IntoIter<T>,
    std::collections::vec_deque::IntoIter<T>,
    std::collections::linked_list::IntoIter<T>,
);

impl<T: Obs> Obs for Option<T> {
    fn obs(self) -> Ob {
        match self {
            Some(x) => Ob::Tag("Some", vec![x.obs()]),
            None => Ob::Tag("None", vec![]),
        }
    }
}
impl<T: Obs, U: Obs> Obs for Result<T, U> {
    fn obs(self) -> Ob {
        match self {
            Ok(x) => Ob::Tag("Ok", vec![x.obs()]),
            Err(x) => Ob::Tag("Err", vec![x.obs()]),
        }
    }
}
impl<T: Obs, U: Obs> Obs for std::ops::ControlFlow<T, U> {
    fn obs(self) -> Ob {
        match self {
            Self::Break(x) => Ob::Tag("Break", vec![x.obs()]),
            Self::Continue(x) => Ob::Tag("Continue", vec![x.obs()]),
        }
    }
}
impl<T: Obs> Obs for std::ops::Bound<T> {
    fn obs(self) -> Ob {
        match self {
            Self::Included(x) => Ob::Tag("Included", vec![x.obs()]),
            Self::Excluded(x) => Ob::Tag("Excluded", vec![x.obs()]),
            Self::Unbounded => Ob::Tag("Unbounded", vec![]),
        }
    }
}
impl<T: Obs> Obs for std::task::Poll<T> {
    fn obs(self) -> Ob {
        match self {
            Self::Ready(x) => Ob::Tag("Ready", vec![x.obs()]),
            Self::Pending => Ob::Tag("Pending", vec![]),
        }
    }
}
macro_rules! wrapobs { ($($t:ty, $n:literal, |$x:ident| $e:expr;)*) => { $(impl<T: Obs> Obs for $t { fn obs(self) -> Ob {
    let $x = self; Ob::Tag($n, $e) } })* } }
wrapobs! {
    Box<T>, "Box", |x| vec![(*x).obs()];
    std::cell::Cell<T>, "Cell", |x| vec![x.into_inner().obs()];
    std::cell::RefCell<T>, "RefCell", |x| vec![x.into_inner().obs()];
    std::cell::UnsafeCell<T>, "UnsafeCell", |x| vec![x.into_inner().obs()];
    std::ops::Range<T>, "Range", |x| vec![x.start.obs(), x.end.obs()];
    std::ops::RangeFrom<T>, "RangeFrom", |x| vec![x.start.obs()];
    std::ops::RangeTo<T>, "RangeTo", |x| vec![x.end.obs()];
    std::ops::RangeToInclusive<T>, "RangeToInclusive", |x| vec![x.end.obs()];
    std::ops::RangeInclusive<T>, "RangeInclusive", |x| { let (a, b) = x.into_inner(); vec![a.obs(), b.obs()] };
}
impl<T> Obs for std::marker::PhantomData<T> {
    fn obs(self) -> Ob {
        Ob::Tag("PhantomData", vec![])
    }
}
impl<K: Obs + Ord, V: Obs> Obs for BTreeMap<K, V> {
    fn obs(self) -> Ob {
        let n = self.len();
        let e: Vec<_> = self.into_iter().map(|(k, v)| (k.obs(), v.obs())).collect();
        Ob::Tag(if n == e.len() { "BTreeMap" } else { "BTreeMap-with-wrong-length" }, vec![Ob::Map(true, e)])
    }
}
impl<K: Obs, V: Obs> Obs for std::collections::btree_map::IntoIter<K, V> {
    fn obs(mut self) -> Ob {
        let n = self.len();
        let (mut e, mut b) = (Vec::new(), Vec::new());
        loop {
            match self.next() { Some((k, v)) => e.push((k.obs(), v.obs())), None => break }
            match self.next_back() { Some((k, v)) => b.push((k.obs(), v.obs())), None => break }
        }
        b.reverse();
        e.extend(b);
        Ob::Tag(if n == e.len() { "iter" } else { "iter-with-wrong-length" }, vec![Ob::Map(true, e)])
    }
}
impl<K: Obs + Eq + Hash, V: Obs, S: BuildHasher> Obs for HashMap<K, V, S> {
    fn obs(self) -> Ob {
        let all = self.keys().all(|k| self.contains_key(k));
        let n = self.len();
        let e: Vec<_> = self.into_iter().map(|(k, v)| (k.obs(), v.obs())).collect();
        let ok = all && n == e.len();
        Ob::Tag(if ok { "HashMap" } else { "HashMap-broken" }, vec![Ob::Map(false, e)])
    }
}
impl<K: Obs, V: Obs> Obs for std::collections::hash_map::IntoIter<K, V> {
    fn obs(self) -> Ob {
        let n = self.len();
        let e: Vec<_> = self.map(|(k, v)| (k.obs(), v.obs())).collect();
        Ob::Tag(if n == e.len() { "iter" } else { "iter-with-wrong-length" }, vec![Ob::Map(false, e)])
    }
}
impl<T: Obs + Ord> Obs for BTreeSet<T> {
    fn obs(self) -> Ob {
        Ob::Tag("BTreeSet", vec![Ob::Set(true, self.into_iter().map(Obs::obs).collect())])
    }
}
impl<T: Obs> Obs for std::collections::btree_set::IntoIter<T> {
    fn obs(self) -> Ob {
        Ob::Tag("iter", vec![Ob::Set(true, self.map(Obs::obs).collect())])
    }
}
impl<T: Obs + Eq + Hash, S: BuildHasher> Obs for HashSet<T, S> {
    fn obs(self) -> Ob {
        let all = self.iter().all(|k| self.contains(k));
        Ob::Tag(
            if all { "HashSet" } else { "HashSet-broken" },
            vec![Ob::Set(false, self.into_iter().map(Obs::obs).collect())],
        )
    }
}
impl<T: Obs> Obs for std::collections::hash_set::IntoIter<T> {
    fn obs(self) -> Ob {
        Ob::Tag("iter", vec![Ob::Set(false, self.map(Obs::obs).collect())])
    }
}
impl<T: Obs + Ord> Obs for BinaryHeap<T> {
    fn obs(mut self) -> Ob {
        // pops must come out in descending order
        let mut v = Vec::new();
        while let Some(x) = self.pop() {
            v.push(x.obs());
        }
        let cl: Vec<u32> = v.iter().filter_map(|o| if let Ob::Leaf { class, .. } = o { Some(*class) } else { None }).collect();
        let ok = cl.windows(2).all(|w| w[0] >= w[1]);
        Ob::Tag(if ok { "BinaryHeap" } else { "BinaryHeap-broken" }, vec![Ob::Bag(v)])
    }
}
impl<T: Obs> Obs for std::collections::binary_heap::IntoIter<T> {
    fn obs(self) -> Ob {
        Ob::Tag("iter", vec![Ob::Bag(self.map(Obs::obs).collect())])
    }
}

impl Ob {
    /// Sorts the parts whose order is unspecified; forgets which of several equal
    /// keys or set elements is stored
    pub fn canon(self) -> Ob {
        fn key(o: Ob) -> Ob {
            match o.canon() {
                Ob::Leaf { k, s, class, .. } => Ob::Leaf { k, s, id: u32::MAX, class },
                o => o,
            }
        }
        match self {
            Ob::Tag(t, v) => Ob::Tag(t, v.into_iter().map(Ob::canon).collect()),
            Ob::Seq(v) => Ob::Seq(v.into_iter().map(Ob::canon).collect()),
            Ob::Map(ord, v) => {
                let mut v: Vec<_> = v.into_iter().map(|(k, x)| (key(k), x.canon())).collect();
                if !ord {
                    v.sort();
                }
                Ob::Map(ord, v)
            }
            Ob::Set(ord, v) => {
                let mut v: Vec<_> = v.into_iter().map(key).collect();
                if !ord {
                    v.sort();
                }
                Ob::Set(ord, v)
            }
            Ob::Bag(v) => {
                let mut v: Vec<_> = v.into_iter().map(Ob::canon).collect();
                v.sort();
                Ob::Bag(v)
            }
            o => o,
        }
    }

    /// The leaves of parameter `k` in visiting order, and whether that order is defined
    pub fn leaves(&self, k: usize) -> (Vec<u32>, bool) {
        fn go(o: &Ob, k: usize, v: &mut Vec<u32>, ord: &mut bool) {
            match o {
                Ob::Leaf { k: kk, id, .. } if *kk == k => v.push(*id),
                Ob::Tag(_, x) | Ob::Seq(x) => x.iter().for_each(|o| go(o, k, v, ord)),
                Ob::Set(o, x) => {
                    *ord &= *o;
                    x.iter().for_each(|o| go(o, k, v, ord));
                }
                Ob::Bag(x) => {
                    *ord = false;
                    x.iter().for_each(|o| go(o, k, v, ord));
                }
                Ob::Map(o, x) => {
                    *ord &= *o;
                    x.iter().for_each(|(a, b)| {
                        go(a, k, v, ord);
                        go(b, k, v, ord);
                    });
                }
                _ => {}
            }
        }
        let (mut v, mut ord) = (Vec::new(), true);
        go(self, k, &mut v, &mut ord);
        (v, ord)
    }

    /// The leaves of parameter `k` in containers ordered by position, replaced in order
    /// by those with the given stage and number
    pub fn renumbered(&self, k: usize, f: &mut impl FnMut(u32) -> (usize, u32)) -> Ob {
        match self {
            Ob::Leaf { k: kk, id, .. } if *kk == k => {
                let (s, n) = f(*id);
                Ob::Leaf { k, s, id: n, class: n }
            }
            Ob::Tag(t, v) => Ob::Tag(t, v.iter().map(|o| o.renumbered(k, f)).collect()),
            Ob::Seq(v) => Ob::Seq(v.iter().map(|o| o.renumbered(k, f)).collect()),
            o => o.clone(),
        }
    }

    /// Reference model: the observation expected after mapping parameter `k` with
    /// the calls in `log` (in call order): source id, target id, target class
    pub fn mapped(&self, k: usize, stage: usize, log: &[(u32, u32, u32)]) -> Ob {
        let find = |id: u32| log.iter().position(|l| l.0 == id);
        match self {
            Ob::Leaf { k: kk, id, .. } if *kk == k => match find(*id) {
                Some(i) => Ob::Leaf { k, s: stage, id: log[i].1, class: log[i].2 },
                None => Ob::Tag("never-visited", vec![]),
            },
            Ob::Tag(t, v) => Ob::Tag(t, v.iter().map(|o| o.mapped(k, stage, log)).collect()),
            Ob::Seq(v) => Ob::Seq(v.iter().map(|o| o.mapped(k, stage, log)).collect()),
            Ob::Bag(v) => Ob::Bag(v.iter().map(|o| o.mapped(k, stage, log)).collect()),
            Ob::Set(ord, v) => {
                let mut m = BTreeMap::new();
                for o in v {
                    let o = o.mapped(k, stage, log);
                    m.insert(class_of(&o), o);
                }
                Ob::Set(*ord, m.into_values().collect())
            }
            Ob::Map(ord, v) => {
                // in visiting order, a later entry with an equal key replaces an earlier one
                let mut v: Vec<_> = v.iter().collect();
                if v.iter().any(|(key, _)| matches!(key, Ob::Leaf { k: kk, .. } if *kk == k)) {
                    v.sort_by_key(|(key, _)| match key {
                        Ob::Leaf { id, .. } => find(*id),
                        _ => None,
                    });
                }
                let mut m = BTreeMap::new();
                for (key, x) in v {
                    let key = key.mapped(k, stage, log);
                    m.insert(class_of(&key), (key, x.mapped(k, stage, log)));
                }
                Ob::Map(*ord, m.into_values().collect())
            }
            o => o.clone(),
        }
    }
}

fn class_of(o: &Ob) -> u32 {
    match o {
        Ob::Leaf { class, .. } => *class,
        _ => 0,
    }
}

// ---------------------------------------------------------------------------
// Text observations (derived types): Debug output with tracked items
// ---------------------------------------------------------------------------

/// Expected Debug output after mapping parameter `k` from `from` to `to` with `f` on ids
pub fn expect_text(s: &str, k: usize, from: usize, to: usize, f: impl Fn(u32) -> u32) -> String {
    let st = ["I", "O", "Q", "E"];
    let ty_from = format!("It<(), {k}, {from}>");
    let ty_to = format!("It<(), {k}, {to}>");
    let s = s.replace(&ty_from, &ty_to);
    let pat = format!("{}{}(", st[from], k);
    let mut out = String::new();
    let mut rest = &s[..];
    while let Some(i) = rest.find(&pat) {
        let (a, b) = rest.split_at(i);
        out.push_str(a);
        let b = &b[pat.len()..];
        let end = b.find(')').unwrap();
        let id: u32 = b[..end].parse().unwrap();
        out.push_str(&format!("{}{}({})", st[to], k, f(id)));
        rest = &b[end + 1..];
    }
    out.push_str(rest);
    out
}
