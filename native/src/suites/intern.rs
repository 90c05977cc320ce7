use native::*;
use numeric_utils::intern::{InternId, Interner};

fn id(i: usize) -> InternId { InternId::from_usize(i) }
struct Model<T> { live: Vec<(usize, T, usize, usize)>, dead: Vec<usize>, peak: usize, cap: usize }
fn run_hist<T: Clone + PartialEq + core::fmt::Debug + 'static>(c: &mut Ctx, mk: impl Fn(usize) -> T, add: impl Fn(&Interner<T>, T) -> usize, steps: usize, vals: usize, cap: Option<usize>) {
    let it: Interner<T> = match cap { None => if c.rng.bool() { Interner::new() } else { Interner::default() }, Some(k) => Interner::with_capacity(k) };
    let mut m: Model<T> = Model { live: vec![], dead: vec![], peak: 0, cap: cap.unwrap_or(0) };
    let mut hist: Vec<String> = vec![format!("capacity {:?}", cap)];
    let bias = *c.rng.pick(&[0usize, 0, 3, 4]);
    for _ in 0..steps {
        let k = c.rng.below(10).saturating_sub(if c.rng.below(8) < 2 * bias { bias } else { 0 });
        let log = |h: &Vec<String>| h.join("; ");
        if m.live.is_empty() || k < 4 {
            let v = mk(c.rng.below(vals));
            hist.push(format!("add {:?}", v));
            let known = m.live.iter().position(|e| e.1 == v);
            let mut got = usize::MAX;
            let live_ids: Vec<usize> = m.live.iter().map(|e| e.0).collect();
            let want = known.map(|p| m.live[p].0);
            c.check("add: a live value keeps its id, a new one gets an unused id", || log(&hist), Is(true), || { got = add(&it, v.clone()); match want { Some(w) => got == w, None => !live_ids.contains(&got) } });
            if c.fails.len() > 0 { return }
            match known { Some(p) => m.live[p].2 += 1, None => { m.dead.retain(|d| *d != got); m.live.push((got, v, 1, it.get(id(got)) as *const T as usize)); } }
            m.peak = m.peak.max(m.live.len());
            let bound = (m.peak.max(m.cap) + 31) / 32 * 32;
            c.check("storage of dropped values is reused", || log(&hist), Is(true), || got < bound);
        } else if k < 8 {
            let p = c.rng.below(m.live.len());
            let i = m.live[p].0;
            hist.push(format!("decr {}", i));
            it.decr(id(i));
            m.live[p].2 -= 1;
            if m.live[p].2 == 0 { let e = m.live.remove(p); m.dead.push(e.0); }
        } else if k == 8 {
            let p = c.rng.below(m.live.len());
            let i = m.live[p].0;
            hist.push(format!("incr {}", i));
            it.incr(id(i));
            m.live[p].2 += 1;
        } else if !m.dead.is_empty() {
            let d = *c.rng.pick(&m.dead);
            hist.push(format!("decr dead {}", d));
            it.decr(id(d));
        }
        let want: Vec<(usize, T, usize, usize)> = m.live.clone();
        let full = c.rng.below(4) == 0;
        let sub: Vec<_> = if full || want.len() < 4 { want } else { (0..3).map(|_| want[c.rng.below(want.len())].clone()).collect() };
        c.check("live ids keep value, count and address", || log(&hist), Is(sub.clone()), || sub.iter().map(|e| { let r = it.get(id(e.0)); (e.0, r.clone(), it.refcount(id(e.0)), r as *const T as usize) }).collect());
        c.check("try_get of a live id", || log(&hist), Is(sub.iter().map(|e| Some(e.1.clone())).collect::<Vec<_>>()), || sub.iter().map(|e| it.try_get(id(e.0)).cloned()).collect());
        if let Some(d) = m.dead.last().cloned() {
            c.check("dead ids are refused", || log(&hist), Is((true, 0)), || (it.try_get(id(d)).is_none(), it.refcount(id(d))));
            if c.rng.below(16) == 0 { c.check("get of a dead id panics", || log(&hist), Panics, || it.get(id(d)).clone()); }
        }
        if !c.time_left() && c.cases > 200000 { return }
        if c.fails.len() > 0 { return }
    }
}
/// many blocks, and counts far beyond the width of a small integer
fn large(c: &mut Ctx) {
    let n = 4500usize;
    let it = Interner::<usize>::new();
    let ids: Vec<usize> = (0..n).map(|k| it.add::<usize, usize>(k).into_usize()).collect();
    let mut s = ids.clone(); s.sort(); s.dedup();
    c.check("ids of different live values differ", || format!("add 0..{n}"), Is(n), || s.len());
    for k in 0..n {
        c.check("value of a live id", || format!("add 0..{n}; get the id of {k}"), Is(Some(k)), || it.try_get(id(ids[k])).copied());
        if c.fails.len() > 0 { return }
    }
    for k in (0..n).step_by(97) { c.check("add: a live value keeps its id", || format!("add 0..{n}; add {k}"), Is(ids[k]), || it.add::<usize, usize>(k).into_usize()); }
    let i = ids[n - 40];
    let mut count = it.refcount(id(i));
    for up in [true, false] {
        for _ in 0..70_000 {
            if up { it.incr(id(i)); count += 1 } else { it.decr(id(i)); count -= 1 }
            let got = (it.refcount(id(i)), it.try_get(id(i)).copied());
            if got != (count, Some(n - 40)) {
                c.check("count and value after that many incr / decr", || format!("add 0..{n}; incr {i} 70000 times, then decr, at count {count}"), Is((count, Some(n - 40))), || got);
                return;
            }
        }
    }
}
pub fn p16(c: &mut Ctx) {
    large(c);
    c.spend(1, 40, |c| {
        let steps = *c.rng.pick(&[20, 80, 300, 300, 600, 1500]);
        let vals = *c.rng.pick(&[2, 5, 40, 90, 250, 1200]);
        let cap = *c.rng.pick(&[None, Some(0), Some(1), Some(32), Some(33), Some(70)]);
        match c.rng.below(3) {
            0 => run_hist::<usize>(c, |k| k, |i, v| i.add::<usize, usize>(v).into_usize(), steps, vals, cap),
            1 => run_hist::<String>(c, |k| format!("s{}", k), |i, v| i.add::<&str, str>(v.as_str()).into_usize(), steps, vals, cap),
            _ => run_hist::<Box<[usize]>>(c, |k| vec![k; k % 3 + 1].into(), |i, v| i.add::<Box<[usize]>, [usize]>(v).into_usize(), steps, vals, cap),
        }
    });
}
