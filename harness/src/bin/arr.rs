//! Exhaustive exploration of array mapping, meant to run under Miri: every length,
//! element layout and outcome (value, error, panic) of every closure call within the
//! bounds, plus nested arrays.

use fmrt::*;
use funcmap::{FuncMap, TryFuncMap};
use std::cell::Cell;

thread_local! {
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}

fn alive(d: i64) {
    ALIVE.with(|a| a.set(a.get() + d))
}

/// An element type with a particular layout
trait El: 'static {
    fn mk(id: u32) -> Self;
    /// Reads all of the value; `None` if the value carries no identity
    fn id(&self) -> Option<u32>;
}

macro_rules! els { ($($(#[$m:meta])* $n:ident ($($t:ty),*), |$i:ident| $mk:expr, |$s:ident| $id:expr;)*) => { $(
    $(#[$m])*
    struct $n($($t),*);
    impl El for $n {
        fn mk($i: u32) -> Self { alive(1); let _ = $i; $mk }
        fn id(&self) -> Option<u32> { let $s = self; $id }
    }
    impl Drop for $n { fn drop(&mut self) { let _ = self.id(); alive(-1); } }
)* } }
els! {
    Own(Box<u32>), |i| Own(Box::new(i)), |s| Some(*s.0);
    Big([u64; 5], Box<u32>), |i| Big([i as u64; 5], Box::new(i)), |s| { assert!(s.0.iter().all(|x| *x == *s.1 as u64)); Some(*s.1) };
    #[repr(align(64))] Algn(Box<u32>), |i| Algn(Box::new(i)), |s| { assert_eq!(s as *const _ as usize % 64, 0); Some(*s.0) };
    Byte(u8), |i| Byte(i as u8), |s| Some(s.0 as u32);
    Zst(), |i| Zst(), |_s| None;
}

/// Plain data without a destructor, but with invalid bit patterns
#[derive(Clone, Copy)]
enum Niche {
    A(bool),
    B(char),
}
impl El for Niche {
    fn mk(id: u32) -> Self {
        if id % 2 == 0 { Niche::A(id % 4 == 0) } else { Niche::B(char::from(id as u8)) }
    }
    fn id(&self) -> Option<u32> {
        match self {
            Niche::A(b) => { assert!(*b as u8 <= 1); None }
            Niche::B(c) => Some(*c as u32),
        }
    }
}
impl El for () {
    fn mk(_: u32) {}
    fn id(&self) -> Option<u32> {
        None
    }
}

fn same<T: El>(what: &str, value: &T, id: u32) -> Result<(), String> {
    // small types keep the lowest byte only
    let id = if size_of::<T>() <= 4 { id & 0xff } else { id };
    match value.id() {
        Some(g) if g != id => Err(format!("{what}: read {g} instead of {id}")),
        _ => Ok(()),
    }
}

fn flat<A: El, B: El, X: El, const N: usize>(cx: &mut Cx) -> Result<String, String> {
    ALIVE.with(|a| a.set(0));
    cx.set_budget(1);
    let mut calls = 0u32;
    let mut bad: Result<(), String> = Ok(());
    let mut pattern = Vec::new();
    let fallible = cx.choose(2) == 0;
    let src: [A; N] = std::array::from_fn(|i| A::mk(i as u32 + 1));
    let r = guarded(|| {
        let mut call = |a: A, kinds: usize| {
            calls += 1;
            if bad.is_ok() {
                bad = same("source element", &a, calls);
            }
            // for long arrays only the first, middle and last calls may deviate
            let dev = N <= 8 || [1, N as u32 / 2, N as u32].contains(&calls);
            let o = if dev { cx.choose_dev(kinds) } else { 0 };
            pattern.push(o);
            o
        };
        if fallible {
            let r: Result<[B; N], X> = src.try_func_map(|a| match call(a, 3) {
                0 => Ok(B::mk(9)),
                1 => Err(X::mk(77)),
                _ => boom(),
            });
            r
        } else {
            Ok(src.func_map(|a| match call(a, 2) {
                0 => B::mk(9),
                _ => boom(),
            }))
        }
    });
    bad?;
    let n = pattern.len();
    let failed = pattern.last().copied().unwrap_or(0);
    note_state((std::any::type_name::<(A, B, X)>(), N, &pattern, fallible));
    match (r, failed) {
        (Ok(Ok(out)), 0) if n == N => {
            for b in &out {
                b.id();
            }
        }
        (Ok(Err(e)), 1) => same("error", &e, 77)?,
        (Err(()), f) if f > 0 => {}
        (r, f) => return Err(format!("length {N}: outcome {f} of call {n} gave {}", match r { Ok(Ok(_)) => "a value", Ok(Err(_)) => "an error", Err(()) => "a panic" })),
    }
    let left = ALIVE.with(Cell::get);
    if left != 0 {
        return Err(format!("length {N}, outcome {failed} at call {n}: created minus dropped = {left}"));
    }
    Ok(format!("outcome {failed}: length {N} call {n} fallible {fallible}"))
}


/// Values must arrive at their positions
fn place<A: El, B: El, const N: usize>(cx: &mut Cx) -> Result<String, String> {
    ALIVE.with(|a| a.set(0));
    let fallible = cx.choose(2) == 0;
    let src: [A; N] = std::array::from_fn(|i| A::mk(i as u32 + 1));
    let mut n = 0;
    let mut f = |_: A| {
        n += 1;
        B::mk(n + 100)
    };
    let out: [B; N] = if fallible { src.try_func_map(|a| Ok::<_, ()>(f(a))).unwrap() } else { src.func_map(f) };
    for (i, b) in out.iter().enumerate() {
        same("target element", b, i as u32 + 101)?;
    }
    note_state((std::any::type_name::<(A, B)>(), N, fallible));
    drop(out);
    if ALIVE.with(Cell::get) != 0 {
        return Err(format!("length {N}: created minus dropped = {}", ALIVE.with(Cell::get)));
    }
    Ok(format!("placed: {N}"))
}

/// Nested arrays: the inner mapping fails or panics inside the outer one
fn nested<A: El, B: El, X: El, const N: usize, const M: usize>(cx: &mut Cx) -> Result<String, String> {
    ALIVE.with(|a| a.set(0));
    cx.set_budget(1);
    let src: [[A; M]; N] = std::array::from_fn(|i| std::array::from_fn(|j| A::mk((i * M + j) as u32 + 1)));
    let mut n = 0;
    let mut last = 0;
    let r = guarded(|| {
        let r: Result<[[B; M]; N], X> = src.try_func_map(|row: [A; M]| {
            row.try_func_map(|a: A| {
                n += 1;
                a.id();
                last = cx.choose_dev(3);
                match last {
                    0 => Ok(B::mk(n)),
                    1 => Err(X::mk(77)),
                    _ => boom(),
                }
            })
        });
        r.map(|rows| {
            for row in &rows {
                for b in row {
                    b.id();
                }
            }
        })
    });
    note_state((std::any::type_name::<(A, B, X)>(), N, M, n, last));
    match (r, last) {
        (Ok(Ok(())), 0) => {}
        (Ok(Err(e)), 1) => same("error", &e, 77)?,
        (Err(()), 2) => {}
        _ => return Err(format!("nested [[_; {M}]; {N}]: outcome {last} at call {n} gave a different result")),
    }
    let left = ALIVE.with(Cell::get);
    if left != 0 {
        return Err(format!("nested [[_; {M}]; {N}], outcome {last} at call {n}: created minus dropped = {left}"));
    }
    Ok(format!("nested outcome {last}: [{N}][{M}] call {n}"))
}

type Body = fn(&mut Cx) -> Result<String, String>;

/// Long arrays, run natively: indices beyond any narrow integer type
fn long() -> Vec<(String, Body)> {
    let mut v: Vec<(String, Body)> = Vec::new();
    macro_rules! flats { ($($x:ty, $a:ty => $b:ty; [$($n:literal)*]),*) => { $( $(
        v.push((format!("long [{} -> {} / {}; {}]", stringify!($a), stringify!($b), stringify!($x), $n), flat::<$a, $b, $x, $n>));
        v.push((format!("long place [{} -> {}; {}]", stringify!($a), stringify!($b), $n), place::<$a, $b, $n>));
    )* )* } }
    flats!(
        Own, Own => Own; [15 16 17 64 127 128 129 255 256 257 300 511 512 513 1000 1024 4096 32767 32768 32769 65535 65536 65537 70000],
        Own, Zst => Own; [255 256 257 65536 65537],
        Zst, Own => Zst; [255 256 257 65536 65537],
        Own, Zst => Zst; [255 256 257 65536 65537],
        Byte, Byte => Byte; [255 256 257 65536 65537 131073],
        Own, Big => Algn; [255 256 257 4096],
        Big, Algn => Big; [255 256 257 4096]
    );
    v
}

fn jobs(thorough: bool) -> Vec<(String, Body)> {
    let mut v: Vec<(String, Body)> = Vec::new();
    macro_rules! flats {
        ($x:ty; $($a:ty => $b:ty),*; $ns:tt) => { $( flats!(@ $x, $a, $b; $ns); )* };
        (@ $x:ty, $a:ty, $b:ty; [$($n:literal)*]) => { $(
            v.push((format!("[{} -> {} / {}; {}]", stringify!($a), stringify!($b), stringify!($x), $n), flat::<$a, $b, $x, $n>));
            v.push((format!("place [{} -> {}; {}]", stringify!($a), stringify!($b), $n), place::<$a, $b, $n>));
        )* };
    }
    flats!(Own; Own => Own, Own => Big, Big => Own, Own => Algn, Algn => Own, Zst => Own, Own => Zst, Zst => Zst, Byte => Own, Own => Byte, Niche => Own, Own => Niche, () => (); [0 1 2 3 5]);
    flats!(Zst; Own => Own, Own => Zst, Zst => Zst, Byte => Niche, () => Own; [0 1 2 3 5]);
    flats!(Big; Byte => Byte, Own => Own, Niche => Algn; [0 1 2 3 5]);
    flats!((); Own => Own, Byte => Big; [4 8]);
    flats!(Own; Own => Own; [32]);
    flats!(Own; Byte => Own; [7 9 260]);
    v.push(("nested 2x2".into(), nested::<Own, Own, Own, 2, 2>));
    v.push(("nested 3x2 big".into(), nested::<Own, Big, Byte, 3, 2>));
    v.push(("nested 2x3 zst".into(), nested::<Zst, Own, Zst, 2, 3>));
    v.push(("nested 2x0".into(), nested::<Own, Own, Own, 2, 0>));
    v.push(("nested 0x2".into(), nested::<Own, Own, Own, 0, 2>));
    if thorough {
        flats!(Algn; Own => Algn, Algn => Algn, Big => Algn, Algn => Zst, Zst => Algn, Big => Niche, Niche => Big, Niche => Niche, Byte => Zst, Zst => Byte; [0 1 2 3 5]);
        flats!(Byte; Own => Own, Own => Big, Big => Own, Own => Algn, Zst => Own, Own => Zst, Byte => Niche, Niche => Byte; [4 8]);
        flats!(Own; Own => Own, Own => Big, Zst => Own, Own => Zst, Byte => Own; [33 100]);
        v.push(("nested 3x3".into(), nested::<Big, Own, Own, 3, 3>));
        v.push(("nested 4x3 algn".into(), nested::<Own, Algn, Own, 4, 3>));
        v.push(("nested 2x5".into(), nested::<Byte, Own, Own, 2, 5>));
    }
    v
}

fn main() {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "long" {
        // arr long [JOB]: natively
        let only = args.get(2).cloned();
        let run = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
            quiet_panics();
            let mut total = Stats::default();
            for (name, body) in long() {
                if only.as_ref().is_some_and(|o| *o != name) {
                    continue;
                }
                println!("{{\"start\":{name:?}}}");
                total.merge(explore(&name, false, body));
            }
            println!("{{\"total\":{}}}", total.json());
        });
        run.unwrap().join().unwrap();
        return;
    }
    let thorough = args[1] == "thorough";
    let (shard, of): (usize, usize) = (args[2].parse().unwrap(), args[3].parse().unwrap());
    let only = args.get(4);
    let mut total = Stats::default();
    for (i, (name, body)) in jobs(thorough).into_iter().enumerate() {
        if i % of != shard || only.is_some_and(|o| *o != name) {
            continue;
        }
        println!("{{\"start\":{name:?}}}");
        let st = explore(&name, thorough, body);
        total.merge(st);
    }
    println!("{{\"total\":{}}}", total.json());
}
