pub mod add {
use super::*;
/// carry propagation invariant after k digits
pub open spec fn add_inv(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, k: nat, c: bool) -> bool {
    val(out, k) + b2i(c) * pw(k) == val(l, k) + val(r, k)
}
pub proof fn lemma_add_init(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>)
    ensures add_inv(l, r, out, 0, false),
{ lemma_val_step(l, 0); lemma_val_step(r, 0); lemma_val_step(out, 0); lemma_pw_step(0); }

pub proof fn lemma_add_step(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, out2: Seq<Limb>, k: nat, c: bool, c2: bool)
    requires add_inv(l, r, out, k, c),
        forall|i: int| 0 <= i < k ==> dg(out2, i) == dg(out, i),
        dg(l, k as int) + dg(r, k as int) + b2i(c) == dg(out2, k as int) + BB() * b2i(c2),
    ensures add_inv(l, r, out2, k + 1, c2),
{
    lemma_val_ext(out, out2, k);
    lemma_val_step(l, k); lemma_val_step(r, k); lemma_val_step(out2, k);
    lemma_pw_step(k);
    lemma_carry_step(dg(l, k as int), dg(r, k as int), b2i(c), dg(out2, k as int), b2i(c2), pw(k));
}
/// once both operands are exhausted there is no carry left after one more digit
pub proof fn lemma_add_done(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, k: nat, c: bool)
    requires add_inv(l, r, out, k + 1, c), l.len() <= k, r.len() <= k,
    ensures !c, val(out, k + 1) == num(l) + num(r),
{
    lemma_val_pad(l, k); lemma_val_pad(r, k); lemma_val_pad(l, k + 1); lemma_val_pad(r, k + 1);
    lemma_val_bound(l, k); lemma_val_bound(r, k); lemma_val_bound(out, k + 1);
    lemma_pw_step(k); lemma_pw_ge2(k);
    assert(b2i(c) * pw(k + 1) == (if c { pw(k + 1) } else { 0 })) by(nonlinear_arith);
}
/// the wrapped result and the overflow flag of a fixed-width add
pub proof fn lemma_add_wrap(l: Seq<Limb>, r: Seq<Limb>, full: Seq<Limb>, fin: Seq<Limb>, c: bool, t: bool)
    requires add_inv(l, r, full, full.len(), c), l.len() <= full.len(), r.len() <= full.len(),
        fin.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> fin[i] == full[i],
        t == (exists|i: int| l.len() <= i < full.len() && full[i] != 0),
    ensures num(fin) == (num(l) + num(r)) % pw(l.len()), (c || t) == (num(l) + num(r) >= pw(l.len())),
{
    let n = l.len(); let k = full.len();
    lemma_val_pad(l, k); lemma_val_pad(r, k);
    lemma_val_ext(fin, full, n);
    lemma_mod(full, n);
    lemma_val_bound(full, n); lemma_val_bound(full, k);
    lemma_pw_pos(n); lemma_pw_mono(n, k);
    lemma_pw_add(n, (k - n) as nat);
    let s = num(l) + num(r);
    assert(s == num(full) + b2i(c) * pw(k));
    lemma_fundamental_div_mod(num(full), pw(n));
    let q = num(full) / pw(n) + b2i(c) * pw((k - n) as nat);
    assert(s == q * pw(n) + val(full, n)) by(nonlinear_arith)
        requires s == num(full) + b2i(c) * pw(k), num(full) == pw(n) * (num(full) / pw(n)) + val(full, n),
            q == num(full) / pw(n) + b2i(c) * pw((k - n) as nat), pw(k) == pw(n) * pw((k - n) as nat);
    lemma_div_mod_unique(s, pw(n), q, val(full, n));
    if !t {
        lemma_val_zeros(full, n, k);
    } else {
        let i = choose|i: int| l.len() <= i < full.len() && full[i] != 0;
        lemma_val_ge_digit(full, i as nat, k);
        lemma_pw_mono(n, i as nat);
    }
}
pub proof fn lemma_val_ge_digit(s: Seq<Limb>, i: nat, k: nat)
    requires i < k, dg(s, i as int) != 0,
    ensures val(s, k) >= pw(i),
    decreases k,
{
    lemma_val_step(s, (k - 1) as nat);
    lemma_val_bound(s, (k - 1) as nat);
    lemma_pw_pos((k - 1) as nat);
    let d = dg(s, k - 1); let p = pw((k - 1) as nat);
    assert(d * p >= 0) by(nonlinear_arith) requires d >= 0, p >= 1;
    if i == k - 1 { assert(d * p >= p) by(nonlinear_arith) requires d >= 1, p >= 1; }
    else { lemma_val_ge_digit(s, i, (k - 1) as nat); }
}

pub trait ElementAdd: BitSliceExt {
//@fn ElementAdd::add bits/src/algos/element/add.rs trait:ElementAdd/add limb params=left,right
    requires fits(left.v()), fits(right.v()),
    ensures num(r@) == num(left.v()) + num(right.v()), norm(r@), r@.len() > 0,
        r@.len() <= (if left.v().len() > right.v().len() { left.v().len() } else { right.v().len() }) + 1,
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant out@.len() == len + 1, __k0 <= len + 1, __e0 == len,
        add_inv(left.v(), right.v(), out@, __k0 as nat, carry),
    decreases len + 1 - __k0,
//@let carry#0
    proof { lemma_add_init(left.v(), right.v(), out@); }
//@start 0
    let ghost out0 = out@; let ghost c0 = carry;
//@end 0
    proof { lemma_flag_mul(carry); lemma_add_step(left.v(), right.v(), out0, out@, idx as nat, c0, carry); }
//@after 0
    proof { lemma_add_done(left.v(), right.v(), out@, len as nat, carry); }
//@endfn
//@fn ElementAdd::add_overflowing bits/src/algos/element/add.rs trait:ElementAdd/add_overflowing limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r.0).v() == final(left).v(),
        r.0.v().len() == old(left).v().len(),
        num(r.0.v()) == (num(old(left).v()) + num(right.v())) % pw(old(left).v().len()),
        r.1 == (num(old(left).v()) + num(right.v()) >= pw(old(left).v().len())),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l0 = left.v(); let ghost mut full: Seq<Limb> = Seq::empty();
    proof { lemma_add_init(l0, right.v(), full); }
//@loop 0
    invariant full.len() == __k0, __k0 <= len, __e0 == len, left.v().len() == l0.len(),
        add_inv(l0, right.v(), full, __k0 as nat, carry),
        forall|i: int| 0 <= i < l0.len() ==> left.v()[i] == (if i < __k0 { full[i] } else { l0[i] }),
        truncated == (exists|i: int| l0.len() <= i < full.len() && full[i] != 0),
    decreases len - __k0,
//@start 0
    let ghost c0 = carry; let ghost full0 = full;
//@end 0
    proof {
        lemma_flag_mul(carry);
        let d = (dg(l0, idx as int) + dg(right.v(), idx as int) + b2i(c0) - BB() * b2i(carry)) as Limb;
        full = full0.push(d);
        assert(dg(full, idx as int) == d);
        lemma_add_step(l0, right.v(), full0, full, idx as nat, c0, carry);
        assert(forall|i: int| 0 <= i < full0.len() ==> full[i] == full0[i]);
        if idx >= l0.len() && d != 0 { assert(full[idx as int] != 0); }
        if exists|i: int| l0.len() <= i < full0.len() && full0[i] != 0 {
            let w = choose|i: int| l0.len() <= i < full0.len() && full0[i] != 0;
            assert(full[w] != 0);
        }
    }
//@after 0
    proof { lemma_add_wrap(l0, right.v(), full, left.v(), carry, truncated); }
//@endfn
//@fn ElementAdd::add_checked bits/src/algos/element/add.rs trait:ElementAdd/add_checked limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures
        r is None <==> num(old(left).v()) + num(right.v()) >= pw(old(left).v().len()),
        r matches Some(o) ==> final(o).v() == final(left).v() && o.v().len() == old(left).v().len()
            && num(o.v()) == num(old(left).v()) + num(right.v()),
        r is None ==> final(left).v().len() == old(left).v().len(),
//@entry
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v());
        if num(left.v()) + num(right.v()) < pw(left.v().len()) { lemma_small_mod((num(left.v()) + num(right.v())) as nat, pw(left.v().len()) as nat); } }
//@endfn
//@fn ElementAdd::add_wrapping bits/src/algos/element/add.rs trait:ElementAdd/add_wrapping limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) + num(right.v())) % pw(old(left).v().len()),
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementAdd for T {}
}
pub use add::*;
