//! Drivers for generated programs (derived types)

use crate::*;
use funcmap::{FuncMap, FuncMarker, TryFuncMap, TypeParam};
use std::cell::RefCell;
use std::fmt::Debug;

/// A derived type with one mapped parameter
pub trait Prog1 {
    type P0: FuncMarker<Self::P0>;
    type Ty<T: Item>;
    fn build<T: Item>(cx: &mut Cx) -> Self::Ty<T>;
}

/// A derived type with two mapped parameters
pub trait Prog2 {
    type P0: FuncMarker<Self::P0>;
    type P1: FuncMarker<Self::P1>;
    type Ty<T: Item, U: Item>;
    fn build<T: Item, U: Item>(cx: &mut Cx) -> Self::Ty<T, U>;
}

/// Marker for `TypeParam<N>`
pub type Tp<const N: usize> = TypeParam<N>;

pub type Body = Box<dyn Fn(&mut Cx) -> Result<String, String>>;

fn log_is(what: &str, got: &[u32], want: &[u32]) -> Result<(), String> {
    if got != want {
        return Err(format!("{what}: closure called with {got:?}, expected {want:?}"));
    }
    Ok(())
}

fn text_is(what: &str, got: &str, want: &str) -> Result<(), String> {
    if got != want {
        return Err(format!("{what}: got {got}, expected {want}"));
    }
    Ok(())
}

fn cut(s: &str) -> &str {
    &s[..s.len().min(100)]
}

fn note_ok(class: &str, s: &str) -> Result<String, String> {
    Ok(format!("{class}: {}", cut(s)))
}

type R = Result<String, String>;

/// One mapping, with the outcomes chosen by `pick` (0 value, 1 error, 2 panic)
struct Run {
    log: Vec<u32>,
    outcome: u8,
    after: u32,
}

const STEP: u32 = 500;

macro_rules! single {
    ($cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty, $kind:ident) => {
        single!(@$kind $cx, $k, $x, $src, $P, $A, $B)
    };
    // mapping without failures, both traits
    (@map $cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty) => {{
        let fallible = $cx.choose(2) == 1;
        let want_log = $cx.visit_order($k);
        let mut log = Vec::new();
        let f = |a: $A| {
            log.push(a.id());
            <$B>::mk(a.id() + STEP, a.class())
        };
        let y = if fallible {
            let mut f = f;
            match TryFuncMap::<$A, $B, $P>::try_func_map($x, |a: $A| Ok::<$B, Er>(f(a))) {
                Ok(y) => y,
                Err(_) => return Err("error although every call succeeded".into()),
            }
        } else {
            FuncMap::<$A, $B, $P>::func_map($x, f)
        };
        note_state((&$src, $k));
        note_state(format!("{y:?}"));
        log_is("mapping", &log, &want_log)?;
        text_is("mapping", &format!("{y:?}"), &expect_text(&$src, $k, 0, 1, |i| i + STEP))?;
        note_ok(&format!("mapped {} of parameter {}", log.len(), $k), &$src)
    }};
    // fallible mapping, every failing position
    (@fail $cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty) => {{
        let want_log = $cx.visit_order($k);
        let mut run = Run { log: Vec::new(), outcome: 0, after: 0 };
        let r: Result<_, Er> = TryFuncMap::<$A, $B, $P>::try_func_map($x, |a: $A| {
            if run.outcome != 0 {
                run.after += 1;
                return Err(Er::mk(9999, 0));
            }
            run.log.push(a.id());
            if $cx.choose(2) == 1 {
                run.outcome = 1;
                return Err(Er::mk(a.id(), 0));
            }
            Ok(<$B>::mk(a.id() + STEP, a.class()))
        });
        note_state((&$src, $k));
        note_state((&$src, $k, &run.log, run.outcome));
        if run.after > 0 {
            return Err(format!("closure called {} times after it failed", run.after));
        }
        if run.outcome == 0 {
            log_is("fallible mapping", &run.log, &want_log)?;
        } else {
            log_is("failing mapping", &run.log, &want_log[..run.log.len().min(want_log.len())])?;
        }
        match (r, run.outcome) {
            (Ok(y), 0) => text_is("fallible mapping", &format!("{y:?}"), &expect_text(&$src, $k, 0, 1, |i| i + STEP))?,
            (Err(e), 1) if Some(&e.id()) == run.log.last() => {}
            (Err(e), _) => return Err(format!("returned error {}, calls {:?}", e.id(), run.log)),
            (Ok(_), _) => return Err(format!("success although the call for {:?} failed", run.log.last())),
        }
        note_ok(&format!("failed {} after {} calls", run.outcome, run.log.len()), &$src)
    }};
    // every outcome with the drop ledger
    (@drop $cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty) => {{
        let fallible = $cx.choose(2) == 1;
        let x = $x;
        let mut pat = Vec::new();
        let r = guarded(|| {
            if fallible {
                let r: Result<_, Er> = TryFuncMap::<$A, $B, $P>::try_func_map(x, |a: $A| {
                    let o = $cx.choose(3);
                    pat.push(o);
                    match o {
                        0 => Ok(<$B>::mk(a.id() + STEP, a.class())),
                        1 => Err(Er::mk(a.id(), 0)),
                        _ => boom(),
                    }
                });
                if r.is_ok() { "value" } else { "error" }
            } else {
                drop(FuncMap::<$A, $B, $P>::func_map(x, |a: $A| {
                    let o = $cx.choose(2);
                    pat.push(2 * o);
                    if o == 1 {
                        boom()
                    }
                    <$B>::mk(a.id() + STEP, a.class())
                }));
                "value"
            }
        })
        .unwrap_or("panic");
        note_state((&$src, $k));
        note_state((&$src, $k, &pat));
        Ledger::check_all_dropped()?;
        note_ok(r, &$src)
    }};
    // both traits on twins
    (@agree $cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty) => {{
        let (x, y) = $x;
        let (mut l1, mut l2) = (Vec::new(), Vec::new());
        let a = FuncMap::<$A, $B, $P>::func_map(x, |a: $A| {
            l1.push(a.id());
            <$B>::mk(a.id() + STEP, a.class())
        });
        let b = TryFuncMap::<$A, $B, $P>::try_func_map(y, |a: $A| {
            l2.push(a.id());
            Ok::<$B, Er>(<$B>::mk(a.id() + STEP, a.class()))
        });
        note_state((&$src, $k));
        note_state(format!("{a:?}"));
        log_is("fallible mapping", &l2, &l1)?;
        match b {
            Ok(b) => text_is("fallible mapping", &format!("{b:?}"), &format!("{a:?}"))?,
            Err(_) => return Err("fallible mapping failed although every call succeeded".into()),
        }
        note_ok("agree", &$src)
    }};
    // explicit markers on twins
    (@over $cx:ident, $k:literal, $x:expr, $src:ident, $P:ty, $A:ty, $B:ty) => {{
        let (x, y) = $x;
        let (mut l1, mut l2) = (Vec::new(), Vec::new());
        if $cx.choose(2) == 0 {
            let a = FuncMap::<$A, $B, $P>::func_map(x, |a: $A| {
                l1.push(a.id());
                <$B>::mk(a.id() + STEP, a.class())
            });
            let b = y.func_map_over::<$P, _>(|a: $A| {
                l2.push(a.id());
                <$B>::mk(a.id() + STEP, a.class())
            });
            text_is("explicit marker", &format!("{b:?}"), &format!("{a:?}"))?;
        } else {
            let mut fail = None;
            let a: Result<_, Er> = TryFuncMap::<$A, $B, $P>::try_func_map(x, |a: $A| {
                l1.push(a.id());
                if $cx.choose(2) == 1 {
                    fail = Some(a.id());
                    return Err(Er::mk(a.id(), 0));
                }
                Ok(<$B>::mk(a.id() + STEP, a.class()))
            });
            let b: Result<_, Er> = y.try_func_map_over::<$P, _, _>(|a: $A| {
                l2.push(a.id());
                if fail == Some(a.id()) {
                    return Err(Er::mk(a.id(), 0));
                }
                Ok(<$B>::mk(a.id() + STEP, a.class()))
            });
            text_is("explicit marker", &format!("{b:?}"), &format!("{a:?}"))?;
        }
        note_state((&$src, $k));
        note_state((&$src, $k, &l1));
        log_is("explicit marker", &l2, &l1)?;
        note_ok("agree", &$src)
    }};
}

macro_rules! laws {
    ($cx:ident, $k:literal, $x:expr, $again:expr, $src:ident, $P:ty, $A:ty, $B:ty, $D:ty) => {{
        let law = $cx.choose(4);
        let x = $x;
        note_state((&$src, $k));
        note_state((&$src, $k, law));
        let f = |a: $A| <$B>::mk(a.id() + STEP, a.class());
        let g = |b: $B| <$D>::mk(b.id() + STEP, b.class());
        match law {
            0 => {
                let y = FuncMap::<$A, $A, $P>::func_map(x, |a: $A| a);
                text_is("identity", &format!("{y:?}"), &$src)?;
            }
            1 => match TryFuncMap::<$A, $A, $P>::try_func_map(x, Ok::<$A, Er>) {
                Ok(y) => text_is("identity", &format!("{y:?}"), &$src)?,
                Err(_) => return Err("identity: unexpected error".into()),
            },
            2 => {
                let y = FuncMap::<$B, $D, $P>::func_map(FuncMap::<$A, $B, $P>::func_map(x, f), g);
                let z = FuncMap::<$A, $D, $P>::func_map($again, |a: $A| g(f(a)));
                text_is("composition", &format!("{y:?}"), &format!("{z:?}"))?;
            }
            _ => {
                let y = TryFuncMap::<$A, $B, $P>::try_func_map(x, |a: $A| Ok::<$B, Er>(f(a)))
                    .and_then(|y| TryFuncMap::<$B, $D, $P>::try_func_map(y, |b: $B| Ok(g(b))));
                let z = TryFuncMap::<$A, $D, $P>::try_func_map($again, |a: $A| Ok::<$D, Er>(g(f(a))));
                text_is("composition", &format!("{y:?}"), &format!("{z:?}"))?;
            }
        }
        note_ok(if law < 2 { "identity" } else { "composition" }, &$src)
    }};
}

pub mod one {
    use super::*;

    macro_rules! driver {
        ($($n:ident, $kind:ident, $twin:tt;)*) => { $(
            pub fn $n<S: Prog1 + 'static>() -> Body
            where
                S::Ty<I0>: FuncMap<I0, O0, S::P0, Output = S::Ty<O0>> + TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0>> + Debug,
                S::Ty<O0>: Debug,
            {
                Box::new(|cx| -> R {
                    let (x, rec) = cx.record(S::build::<I0>);
                    let src = format!("{:?}", rec.again(S::build::<I0>));
                    driver!(@$twin $kind, cx, x, rec, src)
                })
            }
        )* };
        (@0 $kind:ident, $cx:ident, $x:ident, $rec:ident, $src:ident) => {
            single!($cx, 0, $x, $src, S::P0, I0, O0, $kind)
        };
        (@2 $kind:ident, $cx:ident, $x:ident, $rec:ident, $src:ident) => {
            single!($cx, 0, ($x, $rec.again(S::build::<I0>)), $src, S::P0, I0, O0, $kind)
        };
    }
    driver! {
        c09, map, 0;
        c10, fail, 0;
        c04, drop, 0;
        c05, agree, 2;
        c22, over, 2;
    }

    pub fn c06<S: Prog1 + 'static>() -> Body
    where
        S::Ty<I0>: FuncMap<I0, I0, S::P0, Output = S::Ty<I0>> + FuncMap<I0, O0, S::P0, Output = S::Ty<O0>> + FuncMap<I0, Q0, S::P0, Output = S::Ty<Q0>>,
        S::Ty<I0>: TryFuncMap<I0, I0, S::P0, Output = S::Ty<I0>> + TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0>> + TryFuncMap<I0, Q0, S::P0, Output = S::Ty<Q0>>,
        S::Ty<O0>: FuncMap<O0, Q0, S::P0, Output = S::Ty<Q0>> + TryFuncMap<O0, Q0, S::P0, Output = S::Ty<Q0>>,
        S::Ty<I0>: Debug,
        S::Ty<Q0>: Debug,
    {
        Box::new(|cx| -> R {
            let (x, rec) = cx.record(S::build::<I0>);
            let src = format!("{:?}", rec.again(S::build::<I0>));
            laws!(cx, 0, x, rec.again(S::build::<I0>), src, S::P0, I0, O0, Q0)
        })
    }
}

pub mod two {
    use super::*;

    macro_rules! driver {
        ($($n:ident, $kind:ident, $twin:tt;)*) => { $(
            pub fn $n<S: Prog2 + 'static>() -> Body
            where
                S::Ty<I0, I1>: FuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + Debug,
                S::Ty<I0, I1>: FuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>> + TryFuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>>,
                S::Ty<O0, I1>: Debug,
                S::Ty<I0, O1>: Debug,
            {
                Box::new(|cx| -> R {
                    let (x, rec) = cx.record(S::build::<I0, I1>);
                    let src = format!("{:?}", rec.again(S::build::<I0, I1>));
                    if cx.choose(2) == 0 {
                        driver!(@$twin $kind, cx, x, rec, src, 0, P0, I0, O0)
                    } else {
                        driver!(@$twin $kind, cx, x, rec, src, 1, P1, I1, O1)
                    }
                })
            }
        )* };
        (@0 $kind:ident, $cx:ident, $x:ident, $rec:ident, $src:ident, $k:literal, $P:ident, $A:ty, $B:ty) => {
            single!($cx, $k, $x, $src, S::$P, $A, $B, $kind)
        };
        (@2 $kind:ident, $cx:ident, $x:ident, $rec:ident, $src:ident, $k:literal, $P:ident, $A:ty, $B:ty) => {
            single!($cx, $k, ($x, $rec.again(S::build::<I0, I1>)), $src, S::$P, $A, $B, $kind)
        };
    }
    driver! {
        c09, map, 0;
        c10, fail, 0;
        c04, drop, 0;
        c05, agree, 2;
        c22, over, 2;
    }

    pub fn c06<S: Prog2 + 'static>() -> Body
    where
        S::Ty<I0, I1>: FuncMap<I0, I0, S::P0, Output = S::Ty<I0, I1>> + FuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + FuncMap<I0, Q0, S::P0, Output = S::Ty<Q0, I1>>,
        S::Ty<I0, I1>: TryFuncMap<I0, I0, S::P0, Output = S::Ty<I0, I1>> + TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + TryFuncMap<I0, Q0, S::P0, Output = S::Ty<Q0, I1>>,
        S::Ty<O0, I1>: FuncMap<O0, Q0, S::P0, Output = S::Ty<Q0, I1>> + TryFuncMap<O0, Q0, S::P0, Output = S::Ty<Q0, I1>>,
        S::Ty<I0, I1>: FuncMap<I1, I1, S::P1, Output = S::Ty<I0, I1>> + FuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>> + FuncMap<I1, Q1, S::P1, Output = S::Ty<I0, Q1>>,
        S::Ty<I0, I1>: TryFuncMap<I1, I1, S::P1, Output = S::Ty<I0, I1>> + TryFuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>> + TryFuncMap<I1, Q1, S::P1, Output = S::Ty<I0, Q1>>,
        S::Ty<I0, O1>: FuncMap<O1, Q1, S::P1, Output = S::Ty<I0, Q1>> + TryFuncMap<O1, Q1, S::P1, Output = S::Ty<I0, Q1>>,
        S::Ty<I0, I1>: Debug,
        S::Ty<Q0, I1>: Debug,
        S::Ty<I0, Q1>: Debug,
    {
        Box::new(|cx| -> R {
            let (x, rec) = cx.record(S::build::<I0, I1>);
            let src = format!("{:?}", rec.again(S::build::<I0, I1>));
            if cx.choose(2) == 0 {
                laws!(cx, 0, x, rec.again(S::build::<I0, I1>), src, S::P0, I0, O0, Q0)
            } else {
                laws!(cx, 1, x, rec.again(S::build::<I0, I1>), src, S::P1, I1, O1, Q1)
            }
        })
    }

    /// Independence and commutation of the two parameters
    pub fn c07<S: Prog2 + 'static>() -> Body
    where
        S::Ty<I0, I1>: FuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + FuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>> + Debug,
        S::Ty<I0, I1>: TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0, I1>> + TryFuncMap<I1, O1, S::P1, Output = S::Ty<I0, O1>>,
        S::Ty<O0, I1>: FuncMap<I1, O1, S::P1, Output = S::Ty<O0, O1>> + TryFuncMap<I1, O1, S::P1, Output = S::Ty<O0, O1>> + Debug,
        S::Ty<I0, O1>: FuncMap<I0, O0, S::P0, Output = S::Ty<O0, O1>> + TryFuncMap<I0, O0, S::P0, Output = S::Ty<O0, O1>> + Debug,
        S::Ty<O0, O1>: Debug,
    {
        Box::new(|cx| -> R {
            let (x, rec) = cx.record(S::build::<I0, I1>);
            let mk = || rec.again(S::build::<I0, I1>);
            let src = format!("{:?}", mk());
            let f = |a: I0| O0::mk(a.id() + STEP, a.class());
            let g = |a: I1| O1::mk(a.id() + STEP, a.class());
            let want0 = expect_text(&src, 0, 0, 1, |i| i + STEP);
            let want1 = expect_text(&src, 1, 0, 1, |i| i + STEP);
            let want01 = expect_text(&want0, 1, 0, 1, |i| i + STEP);
            let mut ids = cx.visit_order(0);
            ids.extend(cx.visit_order(1));
            let mode = cx.choose(2 + ids.len());
            note_state(&src);
            note_state((&src, mode));
            if mode == 0 {
                let a = FuncMap::<I0, O0, S::P0>::func_map(x, f);
                text_is("mapping over the first parameter", &format!("{a:?}"), &want0)?;
                let b = FuncMap::<I1, O1, S::P1>::func_map(mk(), g);
                text_is("mapping over the second parameter", &format!("{b:?}"), &want1)?;
                let ab = FuncMap::<I1, O1, S::P1>::func_map(a, g);
                let ba = FuncMap::<I0, O0, S::P0>::func_map(b, f);
                text_is("first then second", &format!("{ab:?}"), &want01)?;
                text_is("second then first", &format!("{ba:?}"), &want01)?;
                return note_ok("commute", &src);
            }
            let failing = if mode == 1 { None } else { Some(ids[mode - 2]) };
            let cell = RefCell::new(0);
            let ft = |a: I0| if Some(a.id()) == failing { Err(Er::mk(a.id(), 0)) } else { *cell.borrow_mut() += 1; Ok(f(a)) };
            let gt = |a: I1| if Some(a.id()) == failing { Err(Er::mk(a.id(), 0)) } else { *cell.borrow_mut() += 1; Ok(g(a)) };
            let ab = TryFuncMap::<I0, O0, S::P0>::try_func_map(x, ft).and_then(|y| TryFuncMap::<I1, O1, S::P1>::try_func_map(y, gt));
            let ba = TryFuncMap::<I1, O1, S::P1>::try_func_map(mk(), gt).and_then(|y| TryFuncMap::<I0, O0, S::P0>::try_func_map(y, ft));
            match (ab, ba) {
                (Ok(a), Ok(b)) if failing.is_none() => {
                    text_is("first then second", &format!("{a:?}"), &want01)?;
                    text_is("second then first", &format!("{b:?}"), &want01)?;
                }
                (Err(a), Err(b)) if Some(a.id()) == failing && Some(b.id()) == failing => {}
                (a, b) => return Err(format!("failing value {failing:?}: orders disagree: {a:?} / {b:?}")),
            }
            note_ok("commute-fallible", &src)
        })
    }
}

/// Entry point of generated programs: explores all bodies
pub fn run(progs: Vec<(&'static str, Body)>) {
    quiet_panics();
    let args: Vec<String> = std::env::args().collect();
    let thorough = args.get(1).is_some_and(|a| a == "thorough");
    if args.len() > 3 {
        let (n, b) = progs.iter().find(|p| p.0 == args[2]).expect("unknown program");
        let ch: Vec<usize> = args[3].split(',').filter(|s| !s.is_empty()).map(|s| s.trim().parse().unwrap()).collect();
        let mut cx = Cx::replay(&ch, 0, thorough);
        Ledger::reset();
        let r = b(&mut cx);
        println!("{n}: {r:?}");
        std::process::exit(i32::from(r.is_err()));
    }
    let mut total = Stats::default();
    for (name, body) in progs {
        let st = explore(name, thorough, |cx| body(cx));
        total.merge(st);
    }
    total.samples.truncate(3);
    println!("{{\"total\":{}}}", total.json());
}
