pub mod sub {
use super::*;
pub open spec fn sub_inv(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, k: nat, c: bool) -> bool {
    val(out, k) - b2i(c) * pw(k) == val(l, k) - val(r, k)
}
pub proof fn lemma_sub_init(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>)
    ensures sub_inv(l, r, out, 0, false),
{ lemma_val_step(l, 0); lemma_val_step(r, 0); lemma_val_step(out, 0); lemma_pw_step(0); }

pub proof fn lemma_sub_step(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, out2: Seq<Limb>, k: nat, c: bool, c2: bool)
    requires sub_inv(l, r, out, k, c),
        forall|i: int| 0 <= i < k ==> dg(out2, i) == dg(out, i),
        dg(l, k as int) - dg(r, k as int) - b2i(c) == dg(out2, k as int) - BB() * b2i(c2),
    ensures sub_inv(l, r, out2, k + 1, c2),
{
    lemma_val_ext(out, out2, k);
    lemma_val_step(l, k); lemma_val_step(r, k); lemma_val_step(out2, k);
    lemma_pw_step(k);
    let (a, b, d, p) = (dg(l, k as int), dg(r, k as int), dg(out2, k as int), pw(k));
    // a == d + b + c - B c2
    assert(a * p - b * p - b2i(c) * p == d * p - b2i(c2) * (BB() * p)) by(nonlinear_arith)
        requires a - b - b2i(c) == d - BB() * b2i(c2);
}
pub proof fn lemma_sub_done(l: Seq<Limb>, r: Seq<Limb>, out: Seq<Limb>, c: bool)
    requires sub_inv(l, r, out, out.len(), c), l.len() <= out.len(), r.len() <= out.len(),
    ensures c == (num(l) < num(r)), num(out) == num(l) - num(r) + b2i(c) * pw(out.len()),
{
    lemma_val_pad(l, out.len()); lemma_val_pad(r, out.len());
    lemma_num_bound(out);
    lemma_val_bound(l, out.len()); lemma_val_bound(r, out.len());
}
/// wrapped result of a fixed-width subtract
pub proof fn lemma_sub_wrap(l: Seq<Limb>, r: Seq<Limb>, full: Seq<Limb>, fin: Seq<Limb>, c: bool)
    requires sub_inv(l, r, full, full.len(), c), l.len() <= full.len(), r.len() <= full.len(),
        fin.len() == l.len(), forall|i: int| 0 <= i < l.len() ==> fin[i] == full[i],
    ensures num(fin) == (num(l) - num(r)) % pw(l.len()), c == (num(l) < num(r)),
{
    let n = l.len(); let k = full.len();
    lemma_sub_done(l, r, full, c);
    lemma_val_ext(fin, full, n);
    lemma_mod(full, n);
    lemma_val_bound(full, n);
    lemma_pw_pos(n);
    lemma_pw_add(n, (k - n) as nat);
    let s = num(l) - num(r);
    lemma_fundamental_div_mod(num(full), pw(n));
    let q = num(full) / pw(n) - b2i(c) * pw((k - n) as nat);
    assert(s == q * pw(n) + val(full, n)) by(nonlinear_arith)
        requires s == num(full) - b2i(c) * pw(k), num(full) == pw(n) * (num(full) / pw(n)) + val(full, n),
            q == num(full) / pw(n) - b2i(c) * pw((k - n) as nat), pw(k) == pw(n) * pw((k - n) as nat);
    lemma_div_mod_unique(s, pw(n), q, val(full, n));
}
pub proof fn lemma_not(s: Seq<Limb>, t: Seq<Limb>, k: nat)
    requires s.len() == t.len(), k <= s.len(), forall|i: int| 0 <= i < s.len() ==> t[i] == !s[i],
    ensures val(t, k) == pw(k) - 1 - val(s, k),
    decreases k,
{
    if k == 0 { lemma_val_step(s, 0); lemma_val_step(t, 0); lemma_pw_step(0); }
    else {
        let j = (k - 1) as nat;
        lemma_not(s, t, j);
        lemma_val_step(s, j); lemma_val_step(t, j); lemma_pw_step(j);
        let x = s[j as int]; 
        assert(add(x, !x) == !(0 as Limb) && add(x, !x) >= x) by(bit_vector);
        assert(!(0 as Limb) == Limb::MAX) by(bit_vector);
        lemma_not_digit(x);
        let p = pw(j);
        let d = dg(s, j as int);
        assert(dg(t, j as int) == BB() - 1 - d);
        assert((BB() - 1 - d) * p == BB() * p - p - d * p) by(nonlinear_arith);
    }
}
pub proof fn lemma_not_digit(x: Limb)
    ensures (!x) as int == BB() - 1 - x as int,
{
    assert(sub(!(0 as Limb), x) == !x && !(0 as Limb) >= x) by(bit_vector);
    assert(!(0 as Limb) == Limb::MAX) by(bit_vector);
}

pub trait ElementNot: BitSliceExt {
//@fn ElementNot::not bits/src/algos/element/neg.rs trait:ElementNot/not limb params=this
    ensures final(this).v().len() == old(this).v().len(),
        forall|i: int| 0 <= i < old(this).v().len() ==> final(this).v()[i] == !old(this).v()[i],
        num(final(this).v()) == pw(old(this).v().len()) - 1 - num(old(this).v()),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost s0 = this.v();
//@loop 0
    invariant __k0 <= s0.len(), this.v().len() == s0.len(),
        forall|i: int| 0 <= i < s0.len() ==> this.v()[i] == (if i < __k0 { !s0[i] } else { s0[i] }),
    decreases s0.len() - __k0,
//@after 0
    proof { lemma_not(s0, this.v(), s0.len()); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementNot for T {}

pub trait ElementSub: BitSliceExt {
//@fn ElementSub::sub bits/src/algos/element/sub.rs trait:ElementSub/sub limb params=left,right
    requires fits(left.v()), fits(right.v()),
    ensures r.1 == (num(left.v()) < num(right.v())),
        num(r.0@) == (if num(left.v()) < num(right.v()) { num(right.v()) - num(left.v()) } else { num(left.v()) - num(right.v()) }),
        norm(r.0@),
        r.0@.len() <= (if left.v().len() > right.v().len() { left.v().len() } else { right.v().len() }),
        left.v().len() + right.v().len() > 0 ==> r.0@.len() > 0,
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant out@.len() == len, __k0 <= len, __e0 == len,
        sub_inv(left.v(), right.v(), out@, __k0 as nat, carry),
    decreases len - __k0,
//@let carry#0
    proof { lemma_sub_init(left.v(), right.v(), out@); }
//@start 0
    let ghost out0 = out@; let ghost c0 = carry;
//@end 0
    proof { lemma_flag_mul(carry); lemma_sub_step(left.v(), right.v(), out0, out@, idx as nat, c0, carry); }
//@after 0
    proof { lemma_sub_done(left.v(), right.v(), out@, carry);
        lemma_num_bound(left.v()); lemma_num_bound(right.v()); lemma_num_bound(out@); 
        lemma_one_seq();
        if carry { lemma_val_pad(right.v(), len as nat); lemma_val_bound(right.v(), len as nat); lemma_small_mod((num(right.v()) - num(left.v())) as nat, pw(len as nat) as nat); } }
//@endfn
//@fn ElementSub::sub_overflowing bits/src/algos/element/sub.rs trait:ElementSub/sub_overflowing limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r.0).v() == final(left).v(), r.0.v().len() == old(left).v().len(),
        num(r.0.v()) == (num(old(left).v()) - num(right.v())) % pw(old(left).v().len()),
        r.1 == (num(old(left).v()) < num(right.v())),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l0 = left.v(); let ghost mut full: Seq<Limb> = Seq::empty();
    proof { lemma_sub_init(l0, right.v(), full); }
//@loop 0
    invariant full.len() == __k0, __k0 <= len, __e0 == len, left.v().len() == l0.len(),
        sub_inv(l0, right.v(), full, __k0 as nat, carry),
        forall|i: int| 0 <= i < l0.len() ==> left.v()[i] == (if i < __k0 { full[i] } else { l0[i] }),
    decreases len - __k0,
//@start 0
    let ghost c0 = carry; let ghost full0 = full;
//@end 0
    proof {
        lemma_flag_mul(carry);
        let d = (dg(l0, idx as int) - dg(right.v(), idx as int) - b2i(c0) + BB() * b2i(carry)) as Limb;
        full = full0.push(d);
        assert(dg(full, idx as int) == d);
        lemma_sub_step(l0, right.v(), full0, full, idx as nat, c0, carry);
        assert(forall|i: int| 0 <= i < full0.len() ==> full[i] == full0[i]);
    }
//@after 0
    proof { lemma_sub_wrap(l0, right.v(), full, left.v(), carry); }
//@endfn
//@fn ElementSub::sub_checked bits/src/algos/element/sub.rs trait:ElementSub/sub_checked limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures
        r is None <==> num(old(left).v()) < num(right.v()),
        r matches Some(o) ==> final(o).v() == final(left).v() && o.v().len() == old(left).v().len()
            && num(o.v()) == num(old(left).v()) - num(right.v()),
        r is None ==> final(left).v().len() == old(left).v().len(),
//@entry
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v());
        if num(left.v()) >= num(right.v()) { lemma_small_mod((num(left.v()) - num(right.v())) as nat, pw(left.v().len()) as nat); } }
//@endfn
//@fn ElementSub::sub_wrapping bits/src/algos/element/sub.rs trait:ElementSub/sub_wrapping limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) - num(right.v())) % pw(old(left).v().len()),
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementSub for T {}

/// the one-element slice holding 1 (or 0) denotes 1 (or 0)
pub proof fn lemma_one_seq()
    ensures forall|s: Seq<Limb>| #![trigger num(s)] s.len() == 1 ==> num(s) == s[0] as int,
{
    assert forall|s: Seq<Limb>| #![trigger num(s)] s.len() == 1 implies num(s) == s[0] as int by {
        lemma_val_step(s, 0); lemma_pw_step(0);
    }
}
}
pub use sub::*;
