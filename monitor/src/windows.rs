//! C19-C22: windows.

use crate::mon::{rasp, Case, Res};
use crate::sample::{close, same, Sample};
use crate::signal::{hostile, signal};
use crate::{ensure, fail};
use rasp::window::{
    apply_window, BartlettIter, BlackmanHarrisIter, BlackmanIter, HammingIter, HannIter, TriangularIter, Window,
};
use std::f64::consts::PI;

pub const NAMES: [&str; 6] = ["Triangular", "Bartlett", "Hann", "Hamming", "Blackman", "BlackmanHarris"];

/// Textbook value i of a window of size n.
pub fn formula(kind: usize, n: usize, i: usize) -> f64 {
    if n == 1 {
        return 1.0;
    }
    let (nf, x) = (n as f64, i as f64);
    // exact symmetry of the reference: fold onto the first half
    let x = x.min(nf - 1.0 - x);
    let th = 2.0 * PI * x / (nf - 1.0);
    match kind {
        0 => 1.0 - ((x - (nf - 1.0) / 2.0) / (nf / 2.0)).abs(),
        1 => 1.0 - ((x - (nf - 1.0) / 2.0) / ((nf - 1.0) / 2.0)).abs(),
        2 => 0.5 * (1.0 - th.cos()),
        3 => 0.54 - 0.46 * th.cos(),
        4 => 0.42 - 0.5 * th.cos() + 0.08 * (2.0 * th).cos(),
        _ => 0.35875 - 0.48829 * th.cos() + 0.14128 * (2.0 * th).cos() - 0.01168 * (3.0 * th).cos(),
    }
}

pub fn tol<T: Sample>() -> f64 {
    if T::EPS < 1e-10 { 2e-14 } else { 5e-6 }
}

/// Runs `$f::<T, I>($args.., constructor)` for the window kind.
macro_rules! by_kind {
    ($k:expr, $t:ty, $f:ident ( $($a:expr),* )) => {
        match $k {
            0 => $f::<$t, TriangularIter<$t>>($($a,)* |n| rasp(|| TriangularIter::new(n))),
            1 => $f::<$t, BartlettIter<$t>>($($a,)* |n| rasp(|| BartlettIter::new(n))),
            2 => $f::<$t, HannIter<$t>>($($a,)* |n| rasp(|| HannIter::new(n))),
            3 => $f::<$t, HammingIter<$t>>($($a,)* |n| rasp(|| HammingIter::new(n))),
            4 => $f::<$t, BlackmanIter<$t>>($($a,)* |n| rasp(|| BlackmanIter::new(n))),
            _ => $f::<$t, BlackmanHarrisIter<$t>>($($a,)* |n| rasp(|| BlackmanHarrisIter::new(n))),
        }
    };
}

fn pull<T: Sample, I: ExactSizeIterator<Item = T>>(n: usize, mk: fn(usize) -> I) -> Vec<T> {
    let mut it = mk(n);
    let mut v = Vec::with_capacity(n.min(1 << 20));
    // one more than allowed is enough to see an overlong iterator
    while v.len() <= n {
        match rasp(|| it.next()) {
            Some(x) => v.push(x),
            None => break,
        }
    }
    v
}

/// All values of a window, obtained with plain next().
pub fn values<T: Sample>(kind: usize, n: usize) -> Vec<T> {
    by_kind!(kind, T, pull(n))
}

fn boxed<T: Sample + 'static, I: ExactSizeIterator<Item = T> + 'static>(n: usize, mk: fn(usize) -> I) -> Box<dyn ExactSizeIterator<Item = u64>> {
    Box::new(mk(n).map(|x| x.bits()))
}
/// A live iterator over the bits of the values; even kinds are f32.
pub fn live(kind: usize, n: usize) -> Box<dyn ExactSizeIterator<Item = u64>> {
    if kind % 2 == 0 { by_kind!(kind / 2, f32, boxed(n)) } else { by_kind!(kind / 2, f64, boxed(n)) }
}

/// apply_window by number: 0 is rectangular, then as NAMES.
pub fn apply_kind<T: Sample>(s: &mut [T], kind: usize) {
    let w = match kind {
        0 => Window::Rectangular,
        1 => Window::Triangular,
        2 => Window::Bartlett,
        3 => Window::Hann,
        4 => Window::Hamming,
        5 => Window::Blackman,
        _ => Window::BlackmanHarris,
    };
    rasp(|| apply_window(s, w))
}

/// Sizes people use: powers of two and their neighbours, common sample rates
/// and their usual fractions, round numbers.
const COMMON: [usize; 62] = [
    255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16383, 16384, 16385, 32767, 32768, 32769,
    400, 441, 480, 500, 512, 600, 640, 720, 800, 882, 960, 1000, 1103, 1200, 1323, 1440, 1536, 1764, 1920, 2000, 2205, 2400, 3000, 3072, 4410, 4800,
    5000, 6144, 8000, 8820, 9600, 10000, 11025, 16000, 22050, 24000, 44100, 48000,
];

fn size_for(c: &mut Case, exhaustive: usize) -> usize {
    if c.index < exhaustive {
        return c.index;
    }
    if c.index < exhaustive + COMMON.len() {
        return COMMON[c.index - exhaustive];
    }
    match c.rng.below(5) {
        0 => c.rng.pick(&COMMON),
        1 => c.rng.range(2000, 20000),
        _ => c.rng.range(1, 2500),
    }
}

fn shape<T: Sample>(c: &mut Case, n: usize) -> Res {
    let tl = tol::<T>();
    for k in 0..6 {
        let v = values::<T>(k, n);
        ensure!(v.len() == n, "{}<{}> window of size {} yields {} values", NAMES[k], T::NAME, n, v.len());
        for i in 0..n {
            let x = v[i].f();
            let e = formula(k, n, i);
            if !close(x, e, tl) {
                fail!("{}<{}> window of size {}: value {} is {:e}, the formula gives {:e}", NAMES[k], T::NAME, n, i, x, e);
            }
            ensure!(x >= -tl && x <= 1.0 + tl, "{}<{}> window of size {}: value {} is {:e}", NAMES[k], T::NAME, n, i, x);
            let m = v[n - 1 - i].f();
            ensure!(close(x, m, 2.0 * tl), "{}<{}> window of size {}: value {} is {:e}, its mirror image {:e}", NAMES[k], T::NAME, n, i, x, m);
        }
        if n % 2 == 1 {
            let mid = v[n / 2].f();
            ensure!(close(mid, 1.0, tl), "{}<{}> window of size {}: middle value is {:e}", NAMES[k], T::NAME, n, mid);
        }
        c.seen("window values judged", n as u64);
    }
    c.seen("windows judged", 6);
    Ok(())
}
pub fn c19_shape(c: &mut Case) -> Res {
    let n = size_for(c, 400);
    c.desc = format!("all six windows of size {}, f32 and f64", n);
    c.mix(n as u64);
    c.nontrivial = n > 0;
    shape::<f32>(c, n)?;
    shape::<f64>(c, n)
}
pub fn c19_large(c: &mut Case) -> Res {
    let n = c.rng.pick(&[65535, 65536, 65537, 88200, 96000, 100_000, 100_001, 131_071, 131_072, 131_073, 192_000, 1 << 18, 441_000, 480_000, 1 << 20, (1 << 20) + 1]);
    c.desc = format!("all six windows of size {}, f32 and f64", n);
    c.mix(n as u64);
    c.nontrivial = true;
    shape::<f32>(c, n)?;
    shape::<f64>(c, n)
}

/// Sizes beyond what f32 can count, one kind at a time, in f64.
fn stream_shape<T: Sample, I: ExactSizeIterator<Item = T>>(c: &mut Case, k: usize, n: usize, mk: fn(usize) -> I) -> Res {
    let tl = 20.0 * tol::<T>();
    let mut it = mk(n);
    for i in 0..n {
        let x = match rasp(|| it.next()) {
            Some(x) => x.f(),
            None => fail!("{}<{}> window of size {} ended after {} values", NAMES[k], T::NAME, n, i),
        };
        let e = formula(k, n, i);
        if !close(x, e, tl) {
            fail!("{}<{}> window of size {}: value {} is {:e}, the formula gives {:e}", NAMES[k], T::NAME, n, i, x, e);
        }
    }
    let x = rasp(|| it.next());
    ensure!(x.is_none(), "{}<{}> window of size {} yields more than {} values", NAMES[k], T::NAME, n, n);
    c.seen("window values judged", n as u64);
    c.seen("windows judged", 1);
    Ok(())
}
pub fn c19_vast(c: &mut Case) -> Res {
    let k = c.index % 6;
    let n = c.rng.pick(&[(1 << 24) + 1, (1 << 24) + 3, (1 << 24) + 1000, 20_000_001]);
    c.desc = format!("{}<f64> window of size {}", NAMES[k], n);
    c.mix((n as u64) << 3 | k as u64);
    c.nontrivial = true;
    by_kind!(k, f64, stream_shape(c, k, n))
}

/// C20: the iterator protocol.
fn protocol<T: Sample, I: ExactSizeIterator<Item = T>>(c: &mut Case, name: &str, n: usize, full: &[T], mk: fn(usize) -> I) -> Res {
    let len_ok = |it: &I, left: usize, when: &str| -> Res {
        let l = rasp(|| it.len());
        ensure!(l == left, "{}<{}> window of size {}: {}: len() is {}, {} values are still to come", name, T::NAME, n, when, l, left);
        let h = rasp(|| it.size_hint());
        ensure!(h == (left, Some(left)), "{}<{}> window of size {}: {}: size_hint() is {:?}, {} values are still to come", name, T::NAME, n, when, h, left);
        Ok(())
    };
    let eq = |a: T, b: T| same(a, b);
    // 1. plain, with length checks at every step, and fused afterwards
    {
        let mut it = mk(n);
        len_ok(&it, n, "new")?;
        for i in 0..n {
            let x = rasp(|| it.next());
            match x {
                Some(x) => ensure!(eq(x, full[i]), "{}<{}> window of size {}: value {} is {:?}, earlier it was {:?}", name, T::NAME, n, i, x, full[i]),
                None => fail!("{}<{}> window of size {} ended after {} values", name, T::NAME, n, i),
            }
            len_ok(&it, n - i - 1, &format!("after {} values", i + 1))?;
            c.seen("length reports judged", 2);
        }
        for k in 0..40 {
            let x = rasp(|| it.next());
            ensure!(x.is_none(), "{}<{}> window of size {} yielded {:?} after its end (call {})", name, T::NAME, n, x, k);
            len_ok(&it, 0, "exhausted")?;
        }
        let x = rasp(|| it.nth(c.rng.below(5)));
        ensure!(x.is_none(), "{}<{}> window of size {}: nth() yielded {:?} after the end", name, T::NAME, n, x);
        len_ok(&it, 0, "exhausted, after nth")?;
        c.seen("calls past the end judged", 41);
    }
    // 2. a random mixture of next, nth and queries
    {
        let mut it = mk(n);
        let mut pos = 0usize;
        let mut steps = 0;
        while steps < 60 {
            steps += 1;
            match c.rng.below(4) {
                0 => {
                    let k = match c.rng.below(40) {
                        0 => c.rng.below(2 * n + 2),
                        1 => usize::MAX - c.rng.below(3),
                        _ => c.rng.below(6),
                    };
                    let x = rasp(|| it.nth(k));
                    if k < n - pos {
                        ensure!(x.map_or(false, |x| eq(x, full[pos + k])), "{}<{}> window of size {}: nth({}) at position {} gave {:?}, value {} is {:?}", name, T::NAME, n, k, pos, x, pos + k, full[pos + k]);
                        pos += k + 1;
                    } else {
                        ensure!(x.is_none(), "{}<{}> window of size {}: nth({}) at position {} gave {:?}", name, T::NAME, n, k, pos, x);
                        pos = n;
                    }
                }
                1 => {
                    // by_ref().take(): partial consumption
                    let k = c.rng.below(5);
                    let got: Vec<T> = rasp(|| it.by_ref().take(k).collect());
                    let want = &full[pos..(pos + k).min(n)];
                    ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: take({}) at position {} gave {:?}, expected {:?}", name, T::NAME, n, k, pos, got, want);
                    pos += want.len();
                }
                _ => {
                    let x = rasp(|| it.next());
                    ensure!(x.is_some() == (pos < n) && x.map_or(true, |x| eq(x, full[pos])), "{}<{}> window of size {}: next() at position {} gave {:?}", name, T::NAME, n, pos, x);
                    pos = (pos + 1).min(n);
                }
            }
            len_ok(&it, n - pos, &format!("at position {}", pos))?;
            c.seen("length reports judged", 2);
        }
        // the rest, through a whole-iterator consumer
        let rest = &full[pos..];
        match c.rng.below(15) {
            0 => {
                let got: Vec<T> = rasp(|| it.collect());
                ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: collecting from position {} gave {} values {:?}...", name, T::NAME, n, pos, got.len(), got.first());
            }
            1 => {
                let k = rasp(|| it.count());
                ensure!(k == rest.len(), "{}<{}> window of size {}: count() from position {} is {}", name, T::NAME, n, pos, k);
            }
            2 => {
                let x = rasp(|| it.last());
                let w = rest.last().cloned();
                ensure!(x.is_some() == w.is_some() && (w.is_none() || eq(x.unwrap(), w.unwrap())), "{}<{}> window of size {}: last() from position {} is {:?}, should be {:?}", name, T::NAME, n, pos, x, w);
            }
            3 => {
                let mut got = vec![];
                rasp(|| it.for_each(|x| got.push(x)));
                ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: for_each from position {} visited {} values", name, T::NAME, n, pos, got.len());
            }
            5 => {
                // the extremes; ties are settled as the iterator protocol says
                // (first of the smallest, last of the largest)
                let low = c.rng.chance(0.5);
                let cmp = |a: &(usize, T), b: &(usize, T)| a.1.f().total_cmp(&b.1.f());
                let plain = |a: &T, b: &T| a.f().total_cmp(&b.f());
                let w = if low { rest.iter().cloned().enumerate().min_by(cmp) } else { rest.iter().cloned().enumerate().max_by(cmp) };
                if c.rng.chance(0.5) {
                    let x = rasp(|| if low { it.min_by(plain) } else { it.max_by(plain) });
                    ensure!(x.is_some() == w.is_some() && w.map_or(true, |w| eq(x.unwrap(), w.1)), "{}<{}> window of size {}: {} from position {} is {:?}, should be {:?}", name, T::NAME, n, if low { "min_by" } else { "max_by" }, pos, x, w);
                } else {
                    let x = rasp(|| if low { it.enumerate().min_by(cmp) } else { it.enumerate().max_by(cmp) });
                    ensure!(x.map(|x| x.0) == w.map(|w| w.0), "{}<{}> window of size {}: {} of the enumerated window from position {} is {:?}, should be {:?}", name, T::NAME, n, if low { "min_by" } else { "max_by" }, pos, x, w);
                }
            }
            6 => {
                // searches stop where they find, and leave the rest behind
                let k = c.rng.below(rest.len() + 1);
                let mut at = 0;
                let x = match c.rng.below(4) {
                    0 => rasp(|| it.position(|_| { at += 1; at == k + 1 })).map(|i| rest[i.min(rest.len() - 1)]),
                    1 => rasp(|| it.find(|_| { at += 1; at == k + 1 })),
                    2 => rasp(|| it.find_map(|x| { at += 1; if at == k + 1 { Some(x) } else { None } })),
                    _ => {
                        if rasp(|| it.any(|_| { at += 1; at == k + 1 })) { Some(rest[k.min(rest.len() - 1)]) } else { None }
                    }
                };
                if k < rest.len() {
                    ensure!(x.map_or(false, |x| eq(x, rest[k])), "{}<{}> window of size {}: a search for value {} from position {} gave {:?}", name, T::NAME, n, k, pos, x);
                    len_ok(&it, rest.len() - k - 1, "after a search")?;
                    let y = rasp(|| it.next());
                    let w = rest.get(k + 1).cloned();
                    ensure!(y.is_some() == w.is_some() && w.map_or(true, |w| eq(y.unwrap(), w)), "{}<{}> window of size {}: after a search to position {} next() is {:?}, should be {:?}", name, T::NAME, n, pos + k, y, w);
                } else {
                    ensure!(x.is_none(), "{}<{}> window of size {}: a search for nothing from position {} gave {:?}", name, T::NAME, n, pos, x);
                    len_ok(&it, 0, "after a search that failed")?;
                }
            }
            7 => {
                let mut i = 0;
                let ok = rasp(|| it.all(|x| {
                    i += 1;
                    i <= rest.len() && eq(x, rest[i - 1])
                }));
                ensure!(ok && i == rest.len(), "{}<{}> window of size {}: all() from position {} stopped after {} values", name, T::NAME, n, pos, i);
                len_ok(&it, 0, "after all()")?;
            }
            8 => {
                let (lo, hi): (Vec<T>, Vec<T>) = rasp(|| it.partition(|x| x.f() < 0.5));
                let (wl, wh): (Vec<T>, Vec<T>) = rest.iter().cloned().partition(|x| x.f() < 0.5);
                let e = |a: &Vec<T>, b: &Vec<T>| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| eq(*x, *y));
                ensure!(e(&lo, &wl) && e(&hi, &wh), "{}<{}> window of size {}: partition from position {} gave {} + {} values, should be {} + {}", name, T::NAME, n, pos, lo.len(), hi.len(), wl.len(), wh.len());
            }
            9 => {
                let other = mk(n);
                let got: Vec<T> = rasp(|| it.chain(other).collect());
                ensure!(got.len() == rest.len() + n && got.iter().zip(rest.iter().chain(full.iter())).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: the rest from position {} chained with a whole window gave {} values", name, T::NAME, n, pos, got.len());
            }
            10 => {
                let a: Vec<T> = rest.to_vec();
                let r = rasp(|| it.partial_cmp(a.iter().cloned()));
                let w = if rest.iter().any(|x| x.f().is_nan()) { r } else { Some(std::cmp::Ordering::Equal) };
                ensure!(r == w, "{}<{}> window of size {}: comparing the rest from position {} with itself gave {:?}", name, T::NAME, n, pos, r);
            }
            11 => {
                let k = c.rng.below(rest.len() + 1);
                let mut seen = 0;
                let r = rasp(|| it.try_fold(0usize, |i, x| {
                    if i < rest.len() && eq(x, rest[i]) {
                        seen += 1;
                    }
                    if i == k { Err(i) } else { Ok(i + 1) }
                }));
                let (w, left) = if k < rest.len() { (Err(k), rest.len() - k - 1) } else { (Ok(rest.len()), 0) };
                ensure!(r == w && seen == rest.len() - left, "{}<{}> window of size {}: try_fold from position {} to stop at {} gave {:?}, {} values right", name, T::NAME, n, pos, k, r, seen);
                len_ok(&it, left, "after try_fold")?;
            }
            12 => {
                let w = rest.iter().cloned().fold(T::zero(), |a, b| a + b);
                let x = rasp(|| it.map(|x| x.f()).sum::<f64>());
                ensure!((x - w.f()).abs() <= 1e-5 * (1.0 + n as f64) || (x.is_nan() && w.is_nan()), "{}<{}> window of size {}: the sum from position {} is {}, should be {:?}", name, T::NAME, n, pos, x, w);
            }
            13 => {
                let m = c.rng.below(4);
                let got: Vec<T> = match m {
                    0 => rasp(|| it.take_while(|_| true).collect()),
                    1 => rasp(|| it.skip_while(|_| false).collect()),
                    2 => rasp(|| it.inspect(|_| ()).filter(|_| true).collect()),
                    _ => rasp(|| it.fuse().scan((), |_, x| Some(x)).collect()),
                };
                ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: adaptor {} from position {} gave {} values", name, T::NAME, n, m, pos, got.len());
            }
            14 => {
                // through a trait object, where no specialised method is seen
                let mut b: Box<dyn Iterator<Item = T>> = Box::new(it);
                let h = rasp(|| b.size_hint());
                ensure!(h == (rest.len(), Some(rest.len())), "{}<{}> window of size {}: size_hint() of the boxed iterator at position {} is {:?}", name, T::NAME, n, pos, h);
                let k = c.rng.below(rest.len() + 1);
                let x = rasp(|| b.nth(k));
                ensure!(x.is_some() == (k < rest.len()) && x.map_or(true, |x| eq(x, rest[k])), "{}<{}> window of size {}: nth({}) of the boxed iterator at position {} is {:?}", name, T::NAME, n, k, pos, x);
            }
            _ => {
                let got = rasp(|| it.fold(Vec::new(), |mut v, x| {
                    v.push(x);
                    v
                }));
                ensure!(got.len() == rest.len() && got.iter().zip(rest).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: fold from position {} visited {} values", name, T::NAME, n, pos, got.len());
            }
        }
    }
    // 3. adaptors
    {
        let k = c.rng.below(n + 2);
        let got: Vec<T> = rasp(|| mk(n).skip(k).collect());
        let want = &full[k.min(n)..];
        ensure!(got.len() == want.len() && got.iter().zip(want).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: skip({}) gave {} values", name, T::NAME, n, k, got.len());
        let st = c.rng.range(1, 5);
        let got: Vec<T> = rasp(|| mk(n).step_by(st).collect());
        let want: Vec<T> = full.iter().cloned().step_by(st).collect();
        ensure!(got.len() == want.len() && got.iter().zip(&want).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: step_by({}) gave {:?}", name, T::NAME, n, st, got.len());
        let m = c.rng.below(n + 4);
        let got: Vec<(usize, T)> = rasp(|| (0..m).zip(mk(n)).collect());
        ensure!(got.len() == m.min(n) && got.iter().all(|(i, x)| eq(*x, full[*i])), "{}<{}> window of size {}: zipped with {} items gave {} pairs", name, T::NAME, n, m, got.len());
        let z = rasp(|| mk(n).zip(0..m)).len();
        ensure!(z == m.min(n), "{}<{}> window of size {}: zip with {} items reports length {}", name, T::NAME, n, m, z);
        let mut pk = rasp(|| mk(n).enumerate().peekable());
        let mut i = 0;
        while rasp(|| pk.peek().is_some()) {
            let l = rasp(|| pk.len());
            ensure!(l == n - i, "{}<{}> window of size {}: enumerate().peekable() at {} reports {}", name, T::NAME, n, i, l);
            let (j, x) = rasp(|| pk.next()).unwrap();
            ensure!(j == i && i < n && eq(x, full[i]), "{}<{}> window of size {}: enumerate().peekable() gave {} {:?} at {}", name, T::NAME, n, j, x, i);
            i += 1;
        }
        ensure!(i == n, "{}<{}> window of size {}: enumerate().peekable() ended after {}", name, T::NAME, n, i);
        // two of them side by side, advanced alternately
        let (mut a, mut b) = (mk(n), mk(n));
        for i in 0..n {
            let x = rasp(|| a.next());
            ensure!(x.map_or(false, |x| eq(x, full[i])), "{}<{}> window of size {}: value {} is {:?} with a second iterator alive", name, T::NAME, n, i, x);
            if i % 2 == 0 {
                let x = rasp(|| b.next());
                ensure!(x.map_or(false, |x| eq(x, full[i / 2])), "{}<{}> window of size {}: value {} of a second iterator is {:?}", name, T::NAME, n, i / 2, x);
            }
        }
        c.seen("adaptor runs judged", 6);
    }
    c.seen("values compared", 6 * n as u64);
    Ok(())
}

pub fn c20_protocol(c: &mut Case) -> Res {
    let k = c.index % 6;
    let j = c.index / 6;
    let n = if j < 70 { j } else { c.rng.range(0, 700) };
    c.desc = format!("{} iterator of size {}", NAMES[k], n);
    c.mix((k * 100_000 + n) as u64);
    c.nontrivial = true;
    if c.rng.chance(0.5) {
        let full = values::<f32>(k, n);
        ensure!(full.len() == n, "{}<f32> window of size {} yields {} values", NAMES[k], n, full.len());
        by_kind!(k, f32, protocol(c, NAMES[k], n, &full))
    } else {
        let full = values::<f64>(k, n);
        ensure!(full.len() == n, "{}<f64> window of size {} yields {} values", NAMES[k], n, full.len());
        by_kind!(k, f64, protocol(c, NAMES[k], n, &full))
    }
}

/// Huge sizes: only a few values are drawn.
fn huge<T: Sample, I: ExactSizeIterator<Item = T>>(c: &mut Case, name: &str, n: usize, k: usize, mk: fn(usize) -> I) -> Res {
    let mut it = mk(n);
    let m = c.rng.range(1, 30);
    for i in 0..m {
        let l = rasp(|| it.len());
        ensure!(l == n - i, "{}<{}> window of size {}: len() after {} values is {}", name, T::NAME, n, i, l);
        let h = rasp(|| it.size_hint());
        ensure!(h == (n - i, Some(n - i)), "{}<{}> window of size {}: size_hint() after {} values is {:?}", name, T::NAME, n, i, h);
        let x = rasp(|| it.next());
        match x {
            Some(x) => ensure!(close(x.f(), formula(k, n, i), tol::<T>()), "{}<{}> window of size {}: value {} is {:?}", name, T::NAME, n, i, x),
            None => fail!("{}<{}> window of size {} ended after {} values", name, T::NAME, n, i),
        }
    }
    c.seen("length reports judged", 2 * m as u64);
    Ok(())
}
/// Long windows, drawn to the end: the count, and every value against one that
/// a second iterator gives when it jumps or is consumed otherwise.
fn long<T: Sample, I: ExactSizeIterator<Item = T>>(c: &mut Case, name: &str, n: usize, mk: fn(usize) -> I) -> Res {
    let eq = |a: T, b: T| a.bits() == b.bits();
    let mut full: Vec<T> = Vec::with_capacity(n + 1);
    let mut it = mk(n);
    loop {
        let l = rasp(|| it.len());
        ensure!(l == n - full.len(), "{}<{}> window of size {}: len() after {} values is {}", name, T::NAME, n, full.len(), l);
        match rasp(|| it.next()) {
            Some(x) => {
                ensure!(full.len() < n, "{}<{}> window of size {} yielded {:?} after its end", name, T::NAME, n, x);
                full.push(x);
            }
            None => break,
        }
    }
    ensure!(full.len() == n, "{}<{}> window of size {} ended after {} values", name, T::NAME, n, full.len());
    let h = rasp(|| it.size_hint());
    ensure!(h == (0, Some(0)), "{}<{}> window of size {}: size_hint() at its end is {:?}", name, T::NAME, n, h);
    // jumps
    let mut it = mk(n);
    let mut pos = 0;
    while pos < n {
        let k = match c.rng.below(3) {
            0 => c.rng.below(4),
            1 => c.rng.below(n / 8 + 1),
            _ => c.rng.below(n / 300 + 1),
        };
        let x = rasp(|| it.nth(k));
        ensure!(x.is_some() == (k < n - pos) && x.map_or(true, |x| eq(x, full[pos + k])), "{}<{}> window of size {}: nth({}) at position {} is {:?}", name, T::NAME, n, k, pos, x);
        pos = (pos + k + 1).min(n);
        let l = rasp(|| it.len());
        ensure!(l == n - pos, "{}<{}> window of size {}: len() after nth() to position {} is {}", name, T::NAME, n, pos, l);
        c.seen("length reports judged", 1);
    }
    // all at once
    match c.rng.below(3) {
        0 => {
            let got: Vec<T> = rasp(|| mk(n).collect());
            ensure!(got.len() == n && got.iter().zip(&full).all(|(a, b)| eq(*a, *b)), "{}<{}> window of size {}: collected {} values, not those next() gives", name, T::NAME, n, got.len());
        }
        1 => {
            let k = rasp(|| mk(n).count());
            ensure!(k == n, "{}<{}> window of size {}: count() is {}", name, T::NAME, n, k);
        }
        _ => {
            let x = rasp(|| mk(n).last());
            ensure!(x.map_or(n == 0, |x| eq(x, full[n - 1])), "{}<{}> window of size {}: last() is {:?}", name, T::NAME, n, x);
        }
    }
    c.seen("values compared", n as u64);
    c.seen("length reports judged", n as u64);
    Ok(())
}
pub fn c20_long(c: &mut Case) -> Res {
    let k = c.index % 6;
    let n = if cfg!(miri) {
        c.rng.range(700, 1500)
    } else {
        match c.rng.below(5) {
            0 => c.rng.pick(&[4096usize, 4097, 8192, 16384, 44100, 48000, 65535, 65536, 65537, 96000, 100_000, 131_071, 131_072, 131_073, 262_144, 1 << 20, (1 << 20) + 1]),
            1 => c.rng.range(65_530, 70_000),
            2 => c.rng.range(100_000, 300_000),
            _ => c.rng.logu(700.0, 400_000.0) as usize,
        }
    };
    c.desc = format!("{} iterator of size {}, to the end", NAMES[k], n);
    c.mix((n as u64).rotate_left(9) ^ k as u64);
    c.nontrivial = true;
    if c.rng.chance(0.5) { by_kind!(k, f32, long(c, NAMES[k], n)) } else { by_kind!(k, f64, long(c, NAMES[k], n)) }
}

pub fn c20_huge(c: &mut Case) -> Res {
    let k = c.index % 6;
    let n = c.rng.pick(&[65536usize, 1 << 24, (1 << 24) + 3, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 5, 1 << 40, usize::MAX / 2, usize::MAX]);
    c.desc = format!("{} iterator of size {}, first values", NAMES[k], n);
    c.mix((n as u64).rotate_left(8) ^ k as u64);
    c.nontrivial = true;
    if c.rng.chance(0.5) { by_kind!(k, f32, huge(c, NAMES[k], n, k)) } else { by_kind!(k, f64, huge(c, NAMES[k], n, k)) }
}

/// C21: applying a window to a slice inside a larger buffer.
fn applied<T: Sample>(c: &mut Case, n: usize) -> Res {
    for kind in 0..7 {
        let guard = c.rng.range(0, 3);
        let amp = 2f64.powi(c.rng.irange(T::LO / 2, T::HI) as i32);
        let host = kind == 0 || c.rng.chance(0.15);
        let mut x = signal::<T>(&mut c.rng, n, amp);
        if host {
            for v in x.iter_mut() {
                if c.rng.chance(0.1) {
                    *v = hostile(&mut c.rng);
                }
            }
        }
        let mut buf = vec![T::of(123.25); guard];
        buf.extend_from_slice(&x);
        buf.extend(vec![T::of(-77.5); guard]);
        apply_kind(&mut buf[guard..guard + n], kind);
        let name = if kind == 0 { "Rectangular" } else { NAMES[kind - 1] };
        ensure!(
            buf[..guard].iter().all(|v| *v == T::of(123.25)) && buf[guard + n..].iter().all(|v| *v == T::of(-77.5)),
            "{} window applied to {} samples wrote outside the slice", name, n
        );
        let w = if kind == 0 { vec![T::one(); n] } else { values::<T>(kind - 1, n) };
        ensure!(w.len() == n, "{} window of size {} yields {} values", name, n, w.len());
        for i in 0..n {
            let (a, got) = (x[i], buf[guard + i]);
            if kind == 0 {
                ensure!(same(got, a) && (a != T::zero() || got.is_sign_negative() == a.is_sign_negative()), "Rectangular window changed sample {} of {} from {:?} to {:?}", i, n, a, got);
                continue;
            }
            if !a.is_finite() {
                if w[i].f() > 0.01 {
                    ensure!(same(got, a), "{} window turned sample {} of {} from {:?} into {:?}", name, i, n, a, got);
                }
                continue;
            }
            // the iterator's value, or the textbook value, times the sample
            let e = (w[i] * a).f();
            let e2 = formula(kind - 1, n, i) * a.f();
            let ok = close(got.f(), e, 4.0 * T::EPS * e.abs() + 2.0 * T::TINY) || close(got.f(), e2, tol::<T>() * a.f().abs() + 2.0 * T::TINY);
            ensure!(ok, "{}<{}> window applied to {} samples: sample {} = {:?} became {:?}, window value {:?} times it is {:e}", name, T::NAME, n, i, a, got, w[i], e);
            if got != a {
                c.nontrivial = true;
            }
        }
        c.seen("windowed samples judged", n as u64);
        c.seen("slices judged", 1);
    }
    Ok(())
}
pub fn c21_apply(c: &mut Case) -> Res {
    let n = size_for(c, 300);
    c.desc = format!("all seven windows applied to {} samples inside a larger buffer, f32 and f64", n);
    c.mix(n as u64);
    if n == 0 {
        c.seen("empty slices", 1);
    }
    applied::<f32>(c, n)?;
    applied::<f64>(c, n)
}

pub fn c21_large(c: &mut Case) -> Res {
    let n = match c.index % 4 {
        0 => c.rng.pick(&[32767, 32768, 32769, 65535, 65536, 65537, 131071, 131072, 131073]),
        1 => c.rng.range(20_000, 66_000),
        2 => c.rng.range(66_000, 200_000),
        _ => c.rng.range(200_000, 1_100_000),
    };
    c.desc = format!("all seven windows applied to {} samples inside a larger buffer, f32 and f64", n);
    c.mix(n as u64);
    applied::<f32>(c, n)?;
    applied::<f64>(c, n)
}

/// C22: overlap-add at 50%.
fn ola<T: Sample>(c: &mut Case, hop: usize) -> Res {
    // (kind, frame length handed to apply_window, gain)
    // Symmetric windows whose period is one less than their length are used
    // with frames of 2*hop+1 points of which the last belongs to the next
    // frame; the triangular window has an even period of its own.
    for (kind, size, gain) in [(1usize, 2 * hop, 1.0), (2, 2 * hop + 1, 1.0), (3, 2 * hop + 1, 1.0), (4, 2 * hop + 1, 1.08)] {
        let frames = c.rng.range(3, 6);
        let total = hop * (frames - 1) + size;
        let amp = 2f64.powi(c.rng.irange(-20, 20) as i32);
        let mut x = signal::<T>(&mut c.rng, total, amp);
        if c.rng.chance(0.3) {
            for v in x.iter_mut() {
                *v = T::of(amp);
            }
        }
        let mut out = vec![0.0f64; total];
        for f in 0..frames {
            let mut fr = x[f * hop..f * hop + size].to_vec();
            apply_kind(&mut fr, kind);
            for (i, v) in fr.iter().take(2 * hop).enumerate() {
                out[f * hop + i] += v.f();
            }
        }
        let tl = 3.0 * tol::<T>();
        for i in hop..hop * frames {
            let e = gain * x[i].f();
            ensure!(
                close(out[i], e, tl * x[i].f().abs() + 8.0 * T::TINY),
                "{}<{}> window, frames of {} at hop {}: reconstructed sample {} is {:e}, should be {} * {:e}", NAMES[kind - 1], T::NAME, size, hop, i, out[i], gain, x[i].f()
            );
        }
        // and the window values themselves
        let w = values::<T>(kind - 1, size);
        ensure!(w.len() == size, "{} window of size {} yields {} values", NAMES[kind - 1], size, w.len());
        for i in 0..hop {
            let s = w[i].f() + w[i + hop].f();
            ensure!(close(s, gain, tl), "{}<{}> window of size {}: values {} and {} add up to {:e}, not {}", NAMES[kind - 1], T::NAME, size, i, i + hop, s, gain);
        }
        c.seen("overlapped samples judged", (hop * (frames - 1)) as u64);
        c.seen("window value sums judged", hop as u64);
    }
    Ok(())
}
pub fn c22_ola(c: &mut Case) -> Res {
    let hop = if c.index < 300 { c.index + 1 } else if c.index < 300 + COMMON.len() { COMMON[c.index - 300] / 2 } else if c.rng.chance(0.1) { c.rng.range(3000, 33000) } else { c.rng.range(1, 3000) };
    c.desc = format!("overlap-add at hop {}, four windows, f32 and f64", hop);
    c.mix(hop as u64);
    c.nontrivial = true;
    ola::<f32>(c, hop)?;
    ola::<f64>(c, hop)
}
