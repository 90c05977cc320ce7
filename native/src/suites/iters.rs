use native::*;
use std::cell::RefCell;
use std::rc::Rc;
use numeric_static_iter::*;

/// counts its own drops
struct D(usize, Rc<RefCell<Vec<u32>>>);
impl Drop for D { fn drop(&mut self) { self.1.borrow_mut()[self.0] += 1 } }
fn ds<const N: usize>() -> ([D; N], Rc<RefCell<Vec<u32>>>) { let k = Rc::new(RefCell::new(vec![0; N])); (core::array::from_fn(|i| D(i, k.clone())), k) }

fn it<const N: usize>(c: &mut Ctx) {
    let a: [i32; N] = core::array::from_fn(|_| c.rng.below(2001) as i32 - 1000);
    let b: [i32; N] = core::array::from_fn(|_| c.rng.below(2001) as i32 - 1000);
    let lim = c.rng.below(2001) as i32 - 1000;
    let sh = || format!("{:?} {:?} limit {}", a, b, lim);
    c.check("collect", sh, Is(a), || a.into_static_iter().collect());
    c.check("collect refs", sh, Is(a), || (&a).into_static_iter().map(|v| *v).collect());
    c.check("map in order, once each", sh, Is((a.map(|v| v * 2 + 1), a.to_vec())), || { let mut seen = vec![]; let r: [i32; N] = a.into_static_iter().map(|v| { seen.push(v); v * 2 + 1 }).collect(); (r, seen) });
    c.check("zip", sh, Is(core::array::from_fn::<_, N, _>(|i| (a[i], b[i]))), || a.into_static_iter().zip(b).collect());
    c.check("enumerate", sh, Is(core::array::from_fn::<_, N, _>(|i| (i, a[i]))), || a.into_static_iter().enumerate().collect());
    c.check("fold", sh, Is(a.iter().fold(7i64, |s, v| s.wrapping_mul(31) ^ *v as i64)), || a.into_static_iter().fold(7i64, |s, v| s.wrapping_mul(31) ^ v as i64));
    let stop = a.iter().position(|v| *v > lim);
    let seen_want = stop.map_or(N, |p| p + 1);
    let mut tf = Ok(0i64);
    for v in a { if v > lim { tf = Err(v); break } tf = tf.map(|s: i64| s * 3 + v as i64 % 7) ; if let Ok(s) = &mut tf { *s %= 1000003 } }
    c.check("try_fold stops at the first error", sh, Is((tf, seen_want)), || { let mut n = 0; let r = a.into_static_iter().try_fold(0i64, |s, v| { n += 1; if v > lim { Err(v) } else { Ok((s * 3 + v as i64 % 7) % 1000003) } }); (r, n) });
    let opt: Option<Vec<i32>> = if stop.is_some() { None } else { Some(a.iter().map(|v| v + 1).collect()) };
    c.check("collect Option", sh, Is((opt.clone(), seen_want)), || { let mut n = 0; let r: Option<[i32; N]> = a.into_static_iter().map(|v| { n += 1; if v > lim { None } else { Some(v + 1) } }).collect(); (r.map(|x| x.to_vec()), n) });
    let res: Result<Vec<i32>, i32> = match stop { Some(p) => Err(a[p]), None => Ok(a.to_vec()) };
    c.check("collect Result", sh, Is((res, seen_want)), || { let mut n = 0; let r: Result<[i32; N], i32> = a.into_static_iter().map(|v| { n += 1; if v > lim { Err(v) } else { Ok(v) } }).collect(); (r.map(|x| x.to_vec()), n) });
    let mut nested = Some(Some(vec![]));
    for (x, y) in a.iter().zip(&b) { if *x > lim { nested = None; break } if *y > lim { nested = Some(None); break } if let Some(Some(v)) = &mut nested { v.push(*x) } }
    c.check("collect Option<Option>", sh, Is(nested.clone()), || { let r: Option<Option<[i32; N]>> = a.into_static_iter().zip(b).map(|(x, y)| if x > lim { None } else { Some(if y > lim { None } else { Some(x) }) }).collect(); r.map(|o| o.map(|x| x.to_vec())) });
    let nr: Result<Option<Vec<i32>>, i32> = { let mut r = Ok(Some(vec![])); for (x, y) in a.iter().zip(&b) { if *x > lim { r = Err(*x); break } if *y > lim { r = Ok(None); break } if let Ok(Some(v)) = &mut r { v.push(*x) } } r };
    c.check("collect Result<Option>", sh, Is(nr), || { let r: Result<Option<[i32; N]>, i32> = a.into_static_iter().zip(b).map(|(x, y)| if x > lim { Err(x) } else { Ok(if y > lim { None } else { Some(x) }) }).collect(); r.map(|o| o.map(|x| x.to_vec())) });
    c.check("any short-circuits", sh, Is((stop.is_some(), seen_want)), || { let mut n = 0; let r = a.into_static_iter().any(|v| { n += 1; v > lim }); (r, n) });
    c.check("all short-circuits", sh, Is((stop.is_none(), seen_want)), || { let mut n = 0; let r = a.into_static_iter().all(|v| { n += 1; v <= lim }); (r, n) });
    c.check("sum", sh, Is(a.iter().sum::<i32>()), || a.into_static_iter().sum());
    let small: [i64; N] = core::array::from_fn(|i| if i < 20 { (a[i] % 5) as i64 } else if a[i] == 0 { 0 } else { 1 - 2 * (a[i] & 1) as i64 });
    c.check("product", sh, Is(small.iter().product::<i64>()), || small.into_static_iter().product());
    c.check("range", sh, Is(core::array::from_fn::<usize, N, _>(|i| i)), || StaticRangeTo::<N>.into_static_iter().collect());
    c.check("range map", sh, Is(core::array::from_fn::<usize, N, _>(|i| i * i)), || StaticRangeTo::<N>.into_static_iter().map(|i| i * i).collect());
    c.check("zip_all arrays", sh, Is(core::array::from_fn::<_, N, _>(|i| [a[i], b[i], a[i]])), || zip_all([a, b, a]).collect());
    c.check("zip_all tuple", sh, Is(core::array::from_fn::<_, N, _>(|i| (a[i], b[i]))), || zip_all((a, b)).collect());
    c.check("codegen helpers", sh, Is((core::array::from_fn::<_, N, _>(|i| a[i] + b[i]), core::array::from_fn::<_, N, _>(|i| a[i] * b[i]), a.map(|v| -v))), || (codegen::zip_add(a, b), codegen::zip_mul(a, b), codegen::map_neg(a)));
    let sa = a.map(|v| v % 9);
    c.check("codegen zip_many", sh, Is(core::array::from_fn::<_, N, _>(|i| sa[i] * a[i] * sa[i] * (b[i] % 5))), || codegen::zip_many(sa, a, sa, b.map(|v| v % 5)));
    // ownership: every element is dropped exactly once, in the order it was produced
    c.check("ownership through collect", sh, Is((vec![0; N], (0..N).collect::<Vec<_>>(), vec![1; N])), || { let (x, k) = ds::<N>(); let r: [D; N] = x.into_static_iter().map(|d| d).collect(); let before = k.borrow().clone(); let ids = r.iter().map(|d| d.0).collect(); drop(r); let after = k.borrow().clone(); (before, ids, after) });
    c.check("ownership through fold", sh, Is(vec![1; N]), || { let (x, k) = ds::<N>(); x.into_static_iter().fold((), |_, d| drop(d)); let v = k.borrow().clone(); v });
    c.check("ownership through Option collect", sh, Is(vec![1; N]), || { let (x, k) = ds::<N>(); let r: Option<[D; N]> = x.into_static_iter().map(Some).collect(); drop(r); let v = k.borrow().clone(); v });
    c.check("no double drop on early exit", sh, Is(true), || { let (x, k) = ds::<N>(); let mut n = 0; let r: Option<[D; N]> = x.into_static_iter().map(|d| { n += 1; if n == 2 { None } else { Some(d) } }).collect(); drop(r); let v = k.borrow().iter().all(|c| *c <= 1); v });
    c.check("owned strings", sh, Is(a.map(|v| v.to_string()).to_vec()), || { let s = a.map(|v| v.to_string()); let r: [String; N] = s.into_static_iter().zip(b).map(|(x, _)| x).collect(); r.to_vec() });
}
pub fn p26(c: &mut Ctx) {
    c.spend(1, 200, |c| { it::<0>(c); it::<1>(c); it::<2>(c); it::<3>(c); it::<4>(c); it::<7>(c); it::<16>(c); if c.rng.below(4) == 0 { it::<17>(c); it::<33>(c); it::<65>(c); } });
}
