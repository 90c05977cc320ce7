pub mod mul {
use super::*;
/// one step of adding `v` at digit `i`: the digit becomes `d`, the carry `c` moves to the next position
pub proof fn lemma_item_step(s: Seq<Limb>, i: nat, v: int, d: Limb, c: bool)
    requires i < s.len(), s[i as int] as int + v == d as int + b2i(c) * BB(),
    ensures num(s.update(i as int, d)) + b2i(c) * pw(i + 1) == num(s) + v * pw(i),
{
    lemma_val_update(s, i as int, d, s.len());
    lemma_pw_step(i);
    let p = pw(i);
    assert((d as int - s[i as int] as int) * p + b2i(c) * (BB() * p) == v * p) by(nonlinear_arith)
        requires s[i as int] as int + v == d as int + b2i(c) * BB();
}
/// a digit times a digit slice, in progress: sum of the low parts so far plus the pending carry
pub proof fn lemma_mul_inner(l: int, r: Seq<Limb>, k: nat, lo: int, hi: int, c: int)
    requires lo + hi * BB() == l * dg(r, k as int) + c,
    ensures lo * pw(k) + hi * pw(k + 1) == l * (val(r, k + 1) - val(r, k)) + c * pw(k),
{
    lemma_pw_step(k); lemma_val_step(r, k);
    let p = pw(k); let d = dg(r, k as int);
    assert(lo * p + hi * (BB() * p) == l * (d * p) + c * p) by(nonlinear_arith) requires lo + hi * BB() == l * d + c;
}
pub proof fn lemma_scale(x: int, i: nat, k: nat)
    ensures x * pw(i + k) == (x * pw(k)) * pw(i),
{ lemma_pw_add(i, k); assert(x * (pw(i) * pw(k)) == (x * pw(k)) * pw(i)) by(nonlinear_arith); }

/// the product of a k-digit prefix and r fits k + r.len() digits
pub proof fn lemma_prod_bound(l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat)
    ensures 0 <= val(l, i) * val(r, j) , i + j > 0 ==> val(l, i) * val(r, j) < pw(i + j),
        val(l, i) * val(r, j) < pw(i) * pw(j),
{
    lemma_val_bound(l, i); lemma_val_bound(r, j); lemma_pw_add(i, j);
    let (a, b, p, q) = (val(l, i), val(r, j), pw(i), pw(j));
    assert(0 <= a * b < p * q) by(nonlinear_arith) requires 0 <= a < p, 0 <= b < q;
}
pub open spec fn mul_inv(out: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, carry: int) -> bool {
    num(out) + carry * pw(i + j) == val(l, i) * num(r) + (dg(l, i as int) * val(r, j)) * pw(i)
}
/// mul_inv bounds the output so that the next low digit cannot carry out of the slice
pub proof fn lemma_mul_room(out: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, carry: int)
    requires mul_inv(out, l, r, i, j, carry), i < l.len(), j <= r.len(), out.len() == l.len() + r.len(), carry >= 0,
    ensures val(l, i) * num(r) + (dg(l, i as int) * val(r, j)) * pw(i) < pw(out.len()),
{
    let d = dg(l, i as int);
    lemma_val_bound(r, j); lemma_num_bound(r); lemma_val_bound(l, i); lemma_val_step(l, i);
    lemma_val_mono(r, j, r.len());
    lemma_pw_pos(i);
    // (val(l,i) + d*pw(i)) * num(r) = val(l,i+1)*num(r) < pw(i+1)*pw(r.len())
    assert((d * val(r, j)) * pw(i) <= (d * pw(i)) * num(r)) by(nonlinear_arith)
        requires d >= 0, 0 <= val(r, j) <= num(r), pw(i) >= 1;
    assert(val(l, i) * num(r) + (d * pw(i)) * num(r) == val(l, i + 1) * num(r)) by(nonlinear_arith)
        requires val(l, i + 1) == val(l, i) + d * pw(i);
    lemma_prod_bound(l, r, i + 1, r.len());
    lemma_pw_mono(i + 1 + r.len(), out.len());
}
pub proof fn lemma_val_mono(s: Seq<Limb>, j: nat, k: nat)
    requires j <= k,
    ensures val(s, j) <= val(s, k),
    decreases k - j,
{
    if j < k {
        lemma_val_mono(s, j, (k - 1) as nat);
        lemma_val_step(s, (k - 1) as nat);
        lemma_pw_pos((k - 1) as nat);
        let d = dg(s, k - 1); let p = pw((k - 1) as nat);
        assert(d * p >= 0) by(nonlinear_arith) requires d >= 0, p >= 1;
    }
}
/// one inner step of `mul`
pub proof fn lemma_mul_step(out0: Seq<Limb>, out: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, c0: int, lo: int, hi: int, ov: bool)
    requires mul_inv(out0, l, r, i, j, c0), i < l.len(), j < r.len(), out0.len() == l.len() + r.len(), out.len() == out0.len(),
        lo + hi * BB() == dg(l, i as int) * dg(r, j as int) + c0, lo >= 0, hi >= 0, c0 >= 0,
        num(out) + b2i(ov) * pw(out.len()) == num(out0) + lo * pw(i + j),
    ensures mul_inv(out, l, r, i, j + 1, hi), !ov,
{
    let d = dg(l, i as int);
    lemma_mul_inner(d, r, j, lo, hi, c0);
    lemma_scale(lo, i, j); lemma_scale(hi, i, j + 1); lemma_scale(c0, i, j);
    let p = pw(i);
    let dv = val(r, j + 1) - val(r, j);
    assert((lo * pw(j)) * p + (hi * pw(j + 1)) * p == (d * dv) * p + (c0 * pw(j)) * p) by(nonlinear_arith)
        requires lo * pw(j) + hi * pw(j + 1) == d * dv + c0 * pw(j);
    assert((d * dv) * p == (d * val(r, j + 1)) * p - (d * val(r, j)) * p) by(nonlinear_arith) requires dv == val(r, j + 1) - val(r, j);
    let tot = val(l, i) * num(r) + (d * val(r, j + 1)) * p;
    assert(num(out) + b2i(ov) * pw(out.len()) + hi * pw(i + j + 1) == tot);
    // room: tot < pw(len), so no overflow
    let d1 = j + 1;
    lemma_num_bound(out); lemma_pw_pos(i + j + 1); lemma_pw_pos(out.len());
    assert(hi * pw(i + j + 1) >= 0) by(nonlinear_arith) requires hi >= 0, pw(i + j + 1) >= 1;
    lemma_mul_room_tot(l, r, i, d1, out.len());
    if ov { assert(b2i(ov) * pw(out.len()) == pw(out.len())) by(nonlinear_arith) requires b2i(ov) == 1; }
    assert(!ov);
    assert(b2i(ov) * pw(out.len()) == 0) by(nonlinear_arith) requires b2i(ov) == 0;
    assert(i + j + 1 == i + (j + 1));
}
pub proof fn lemma_mul_room_tot(l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, n: nat)
    requires i < l.len(), j <= r.len(), n == l.len() + r.len(),
    ensures val(l, i) * num(r) + (dg(l, i as int) * val(r, j)) * pw(i) < pw(n),
{
    let d = dg(l, i as int);
    lemma_val_bound(r, j); lemma_num_bound(r); lemma_val_bound(l, i); lemma_val_step(l, i);
    lemma_val_mono(r, j, r.len());
    lemma_pw_pos(i);
    assert((d * val(r, j)) * pw(i) <= (d * pw(i)) * num(r)) by(nonlinear_arith)
        requires d >= 0, 0 <= val(r, j) <= num(r), pw(i) >= 1;
    assert(val(l, i) * num(r) + (d * pw(i)) * num(r) == val(l, i + 1) * num(r)) by(nonlinear_arith)
        requires val(l, i + 1) == val(l, i) + d * pw(i);
    lemma_prod_bound(l, r, i + 1, r.len());
    lemma_pw_mono(i + 1 + r.len(), n);
}
/// the row's final carry goes in without overflow, and the row is complete
pub proof fn lemma_mul_row(out0: Seq<Limb>, out: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, c: int, ov: bool)
    requires mul_inv(out0, l, r, i, r.len(), c), i < l.len(), out0.len() == l.len() + r.len(), out.len() == out0.len(), c >= 0,
        num(out) + b2i(ov) * pw(out.len()) == num(out0) + c * pw(i + r.len()),
    ensures num(out) == val(l, i + 1) * num(r), !ov,
{
    let d = dg(l, i as int);
    lemma_val_step(l, i);
    assert((d * num(r)) * pw(i) == (d * pw(i)) * num(r)) by(nonlinear_arith);
    assert(val(l, i) * num(r) + (d * pw(i)) * num(r) == val(l, i + 1) * num(r)) by(nonlinear_arith)
        requires val(l, i + 1) == val(l, i) + d * pw(i);
    lemma_mul_room_tot(l, r, i, r.len(), out.len());
    lemma_num_bound(out); lemma_pw_pos(out.len());
    if ov { assert(b2i(ov) * pw(out.len()) == pw(out.len())) by(nonlinear_arith) requires b2i(ov) == 1; }
    assert(!ov);
    assert(b2i(ov) * pw(out.len()) == 0) by(nonlinear_arith) requires b2i(ov) == 0;
}

/// the flag and the wrapped value of adding one digit at a position
pub proof fn lemma_item_mod(s: Seq<Limb>, t: Seq<Limb>, i: nat, v: int, c: bool)
    requires t.len() == s.len(), 0 <= v < BB(),
        i < s.len() ==> num(t) + b2i(c) * pw(s.len()) == num(s) + v * pw(i),
        i >= s.len() ==> t == s && c == (v != 0),
    ensures num(t) == (num(s) + v * pw(i)) % pw(s.len()), c == (num(s) + v * pw(i) >= pw(s.len())),
{
    let n = s.len(); let m = pw(n);
    lemma_num_bound(s); lemma_num_bound(t); lemma_pw_pos(n); lemma_pw_pos(i);
    let x = num(s) + v * pw(i);
    if i < n {
        lemma_div_mod_unique(x, m, b2i(c), num(t));
        assert(b2i(c) * m == (if c { m } else { 0 })) by(nonlinear_arith) requires b2i(c) == (if c { 1int } else { 0 });
    } else {
        lemma_pw_add(n, (i - n) as nat);
        let q = v * pw((i - n) as nat);
        assert(v * pw(i) == q * m) by(nonlinear_arith) requires pw(i) == m * pw((i - n) as nat), q == v * pw((i - n) as nat);
        lemma_div_mod_unique(x, m, q, num(s));
        lemma_pw_pos((i - n) as nat);
        if v == 0 { assert(v * pw(i) == 0) by(nonlinear_arith) requires v == 0; }
        else { assert(v * pw(i) >= m) by(nonlinear_arith) requires v >= 1, pw(i) == m * pw((i - n) as nat), pw((i - n) as nat) >= 1, m >= 1; }
    }
}
/// what has been carried out of a fixed-width slice so far, after reducing x to x % m
pub proof fn lemma_out_step(x: int, m: int, q: int) -> (q2: int)
    requires m >= 1, x >= 0, q >= 0,
    ensures q2 >= 0, x % m + q2 * m == x + q * m, (q2 > 0) == (q > 0 || x >= m),
{
    let q2 = q + x / m;
    lemma_fundamental_div_mod(x, m);
    lemma_mod_bound(x, m);
    lemma_div_pos_is_pos(x, m);
    assert(x % m + q2 * m == x + q * m) by(nonlinear_arith) requires x == m * (x / m) + x % m, q2 == q + x / m;
    if x >= m { assert(x / m >= 1) by(nonlinear_arith) requires x == m * (x / m) + x % m, x % m < m, x >= m, m >= 1; }
    else { lemma_small_mod(x as nat, m as nat); assert(x / m == 0) by(nonlinear_arith) requires x == m * (x / m) + x % m, x % m >= 0, 0 <= x < m, m >= 1, x / m >= 0; }
    q2
}
/// the digits from k up, as a number
pub open spec fn up(s: Seq<Limb>, k: nat) -> int { num(s) - val(s, k) }

/// in row i after j digits of r: value held, carried out (q) and pending (c)
pub open spec fn mulo_inv(cur: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, q: int, c: int) -> bool {
    num(cur) + q * pw(l.len()) + c * pw(i + j) == val(l, i) + up(l, i + 1) * num(r) + (dg(l, i as int) * val(r, j)) * pw(i)
}
pub proof fn lemma_mulo_start(cur: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, q: int)
    requires num(cur) + q * pw(l.len()) == val(l, i + 1) + up(l, i + 1) * num(r), i < cur.len(), cur.len() == l.len(), cur[i as int] == l[i as int],
    ensures mulo_inv(cur.update(i as int, 0), l, r, i, 0, q, 0),
{
    lemma_val_update(cur, i as int, 0, cur.len());
    lemma_val_step(l, i); lemma_val_step(r, 0);
    let d = dg(l, i as int);
    assert((0 - d) * pw(i) == -(d * pw(i))) by(nonlinear_arith);
    assert((d * 0) * pw(i) == 0) by(nonlinear_arith);
    assert(0 * pw(i + 0) == 0);
}
pub proof fn lemma_mulo_step(cur: Seq<Limb>, cur2: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, j: nat, q: int, c: int, lo: int, hi: int) -> (q2: int)
    requires mulo_inv(cur, l, r, i, j, q, c), lo + hi * BB() == dg(l, i as int) * dg(r, j as int) + c, q >= 0, lo >= 0,
        cur.len() == l.len(), num(cur2) == (num(cur) + lo * pw(i + j)) % pw(l.len()),
    ensures mulo_inv(cur2, l, r, i, j + 1, q2, hi), q2 >= 0, (q2 > 0) == (q > 0 || num(cur) + lo * pw(i + j) >= pw(l.len())),
{
    let d = dg(l, i as int); let p = pw(i);
    lemma_mul_inner(d, r, j, lo, hi, c);
    lemma_scale(lo, i, j); lemma_scale(hi, i, j + 1); lemma_scale(c, i, j);
    let dv = val(r, j + 1) - val(r, j);
    assert((lo * pw(j)) * p + (hi * pw(j + 1)) * p == (d * dv) * p + (c * pw(j)) * p) by(nonlinear_arith)
        requires lo * pw(j) + hi * pw(j + 1) == d * dv + c * pw(j);
    assert((d * dv) * p == (d * val(r, j + 1)) * p - (d * val(r, j)) * p) by(nonlinear_arith) requires dv == val(r, j + 1) - val(r, j);
    lemma_num_bound(cur); lemma_pw_pos(l.len()); lemma_pw_pos(i + j);
    assert(lo * pw(i + j) >= 0) by(nonlinear_arith) requires lo >= 0, pw(i + j) >= 1;
    assert(i + j + 1 == i + (j + 1));
    lemma_out_step(num(cur) + lo * pw(i + j), pw(l.len()), q)
}
pub proof fn lemma_mulo_row(cur: Seq<Limb>, cur2: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, i: nat, q: int, c: int) -> (q2: int)
    requires mulo_inv(cur, l, r, i, r.len(), q, c), q >= 0, c >= 0, i < l.len(),
        cur.len() == l.len(), c != 0 ==> num(cur2) == (num(cur) + c * pw(i + r.len())) % pw(l.len()), c == 0 ==> cur2 == cur,
    ensures num(cur2) + q2 * pw(l.len()) == val(l, i) + up(l, i) * num(r), q2 >= 0,
        (q2 > 0) == (q > 0 || (c != 0 && num(cur) + c * pw(i + r.len()) >= pw(l.len()))),
{
    let d = dg(l, i as int);
    lemma_val_step(l, i);
    assert(up(l, i + 1) * num(r) + (d * num(r)) * pw(i) == up(l, i) * num(r)) by(nonlinear_arith) requires up(l, i) == up(l, i + 1) + d * pw(i);
    assert(0 * pw(i + r.len()) == 0);
    lemma_num_bound(cur); lemma_pw_pos(l.len()); lemma_pw_pos(i + r.len());
    assert(c * pw(i + r.len()) >= 0) by(nonlinear_arith) requires c >= 0, pw(i + r.len()) >= 1;
    if c == 0 { q } else { lemma_out_step(num(cur) + c * pw(i + r.len()), pw(l.len()), q) }
}
pub proof fn lemma_mulo_end(cur: Seq<Limb>, l: Seq<Limb>, r: Seq<Limb>, q: int)
    requires num(cur) + q * pw(l.len()) == val(l, 0) + up(l, 0) * num(r), q >= 0, cur.len() == l.len(),
    ensures num(cur) == (num(l) * num(r)) % pw(l.len()), (q > 0) == (num(l) * num(r) >= pw(l.len())),
{
    lemma_val_step(l, 0); lemma_num_bound(cur); lemma_pw_pos(l.len());
    lemma_div_mod_unique(num(l) * num(r), pw(l.len()), q, num(cur));
    if q == 0 { assert(q * pw(l.len()) == 0) by(nonlinear_arith) requires q == 0; }
    else { assert(q * pw(l.len()) >= pw(l.len())) by(nonlinear_arith) requires q >= 1, pw(l.len()) >= 1; }
}

pub trait ElementMulItem: BitSliceExt {
//@fn ElementMul::add_item bits/src/algos/element/mul.rs trait:ElementMul/add_item limb params=idx,val
    requires fits(old(self).v()),
    ensures final(self).v().len() == old(self).v().len(),
        idx < old(self).v().len() ==> num(final(self).v()) + b2i(r) * pw(old(self).v().len()) == num(old(self).v()) + val as int * pw(idx as nat),
        idx >= old(self).v().len() ==> final(self).v() == old(self).v() && r == (val != 0),
        num(final(self).v()) == (num(old(self).v()) + val as int * pw(idx as nat)) % pw(old(self).v().len()),
        r == (num(old(self).v()) + val as int * pw(idx as nat) >= pw(old(self).v().len())),
        forall|i: int| 0 <= i < idx && i < old(self).v().len() ==> final(self).v()[i] == old(self).v()[i],
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@entry
    let ghost idx0 = idx; let ghost val0 = val; let ghost s0 = self.v(); let ghost mut cur = self.v();
    let ghost T = num(s0) + val0 as int * pw(idx0 as nat);
//@loop 0
    invariant_except_break
        idx0 <= idx, slice@ == cur, cur.len() == s0.len(),
        idx == idx0 ==> val == val0 && cur == s0 && carry == (idx >= s0.len() && val0 != 0),
        idx > idx0 ==> idx <= s0.len() && carry && val == 1,
        idx0 < s0.len() ==> num(cur) + val as int * pw(idx as nat) == T,
        forall|i: int| 0 <= i < idx0 && i < s0.len() ==> cur[i] == s0[i],
    ensures forall|i: int| 0 <= i < idx0 && i < s0.len() ==> slice@[i] == s0[i],
        slice@.len() == s0.len(),
        idx0 < s0.len() ==> num(slice@) + b2i(carry) * pw(s0.len()) == T,
        idx0 >= s0.len() ==> slice@ == s0 && carry == (val0 != 0),
    decreases s0.len() - idx,
//@let new_carry#0
    proof {
        lemma_item_step(cur, idx as nat, val as int, new, new_carry);
        cur = cur.update(idx as int, new);
        assert(0 * pw(s0.len()) == 0 && 0 * pw(idx as nat + 1) == 0);
    }
//@after 0
    proof { lemma_item_mod(s0, slice@, idx0 as nat, val0 as int, carry); }
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementMulItem for T {}
pub trait ElementMul: BitSliceExt {
//@fn ElementMul::mul bits/src/algos/element/mul.rs trait:ElementMul/mul limb params=left,right
    requires fits(left.v()), fits(right.v()), left.v().len() + right.v().len() <= 0x3f_ffff_ffff_ffff,
    ensures num(r@) == num(left.v()) * num(right.v()), norm(r@), r@.len() <= left.v().len() + right.v().len(),
        left.v().len() + right.v().len() > 0 ==> r@.len() > 0,
//@attr
#[verifier::loop_isolation(false)]
//@let out#0
    proof { lemma_num_zeros(out@); lemma_val_step(left.v(), 0); assert(0 * num(right.v()) == 0); }
//@loop 0
    invariant out@.len() == left.v().len() + right.v().len(), __k0 <= left.v().len(), __s0@ == left.v(),
        num(out@) == val(left.v(), __k0 as nat) * num(right.v()),
    decreases left.v().len() - __k0,
//@start 0
    let ghost mut out1 = out@; let ghost mut c1: int = 0;
    proof { lemma_val_step(right.v(), 0); assert((dg(left.v(), idx as int) * 0) * pw(idx as nat) == 0) by(nonlinear_arith); 
        assert(0 * pw(idx as nat) == 0); }
//@loop 1
    invariant out@.len() == left.v().len() + right.v().len(), __k1 <= right.v().len(), __s1@ == right.v(),
        idx < left.v().len(), l == left.v()[idx as int],
        mul_inv(out@, left.v(), right.v(), idx as nat, __k1 as nat, carry as int),
    decreases right.v().len() - __k1,
//@start 1
    let ghost out0 = out@; let ghost c0 = carry as int;
//@end 1
    proof {
        let ov = num(out@) != num(out0) + low as int * pw(idx as nat + offset as nat);
        assert(exists|ov: bool| num(out@) + b2i(ov) * pw(out@.len()) == num(out0) + low as int * pw((idx + offset) as nat));
        let ov = choose|ov: bool| num(out@) + b2i(ov) * pw(out@.len()) == num(out0) + low as int * pw((idx + offset) as nat);
        assert(dg(left.v(), idx as int) == l as int && dg(right.v(), offset as int) == r as int);
        assert((idx + offset) as nat == idx as nat + offset as nat);
        lemma_mul_step(out0, out@, left.v(), right.v(), idx as nat, offset as nat, c0, low as int, carry as int, ov);
    }
//@after 1
    proof { out1 = out@; c1 = carry as int; }
//@end 0
    proof {
        assert(0 * pw(idx as nat + right.v().len()) == 0);
        if c1 == 0 { assert(b2i(false) * pw(out@.len()) == 0) by(nonlinear_arith); lemma_mul_row(out1, out@, left.v(), right.v(), idx as nat, c1, false); }
        else {
            assert((idx + right.v().len()) as nat == idx as nat + right.v().len());
            assert(exists|ov: bool| num(out@) + b2i(ov) * pw(out@.len()) == num(out1) + c1 * pw((idx + right.v().len()) as nat));
            let ov = choose|ov: bool| num(out@) + b2i(ov) * pw(out@.len()) == num(out1) + c1 * pw((idx + right.v().len()) as nat);
            lemma_mul_row(out1, out@, left.v(), right.v(), idx as nat, c1, ov);
        }
    }
//@endfn
//@fn ElementMul::mul_overflowing bits/src/algos/element/mul.rs trait:ElementMul/mul_overflowing limb params=left,right ops=|=->vor_assign
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r.0).v() == final(left).v(), r.0.v().len() == old(left).v().len(),
        num(r.0.v()) == (num(old(left).v()) * num(right.v())) % pw(old(left).v().len()),
        r.1 == (num(old(left).v()) * num(right.v()) >= pw(old(left).v().len())),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost l0 = left.v(); let ghost mut q: int = 0; let ghost rv = right.v();
    proof { assert(0 * pw(l0.len()) == 0); assert(up(l0, l0.len()) * num(rv) == 0) by(nonlinear_arith) requires up(l0, l0.len()) == 0; }
//@loop 0
    invariant __e0 == 0, __k0 <= l0.len(), left.v().len() == l0.len(), q >= 0, overflow == (q > 0),
        forall|i: int| 0 <= i < __k0 ==> left.v()[i] == l0[i],
        num(left.v()) + q * pw(l0.len()) == val(l0, __k0 as nat) + up(l0, __k0 as nat) * num(rv),
    decreases __k0,
//@start 0
    let ghost cur0 = left.v(); let ghost mut cur1 = left.v(); let ghost mut c1: int = 0;
    proof { lemma_mulo_start(cur0, l0, rv, idx as nat, q); }
//@loop 1
    invariant idx < l0.len(), l == l0[idx as int], __s1@ == rv, __k1 <= rv.len(), left.v().len() == l0.len(), q >= 0, (overflow || new_overflow) == (q > 0),
        forall|i: int| 0 <= i < idx ==> left.v()[i] == l0[i],
        mulo_inv(left.v(), l0, rv, idx as nat, __k1 as nat, q, carry as int),
    decreases rv.len() - __k1,
//@start 1
    let ghost cur = left.v(); let ghost c0 = carry as int;
//@end 1
    proof {
        assert((idx + offset) as nat == idx as nat + offset as nat);
        q = lemma_mulo_step(cur, left.v(), l0, rv, idx as nat, offset as nat, q, c0, low as int, carry as int);
    }
//@after 1
    proof { cur1 = left.v(); c1 = carry as int; }
//@end 0
    proof {
        assert((idx + rv.len()) as nat == idx as nat + rv.len());
        q = lemma_mulo_row(cur1, left.v(), l0, rv, idx as nat, q, c1);
    }
//@after 0
    proof { lemma_mulo_end(left.v(), l0, rv, q); }
//@endfn
//@fn ElementMul::mul_checked bits/src/algos/element/mul.rs trait:ElementMul/mul_checked limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures
        r is None <==> num(old(left).v()) * num(right.v()) >= pw(old(left).v().len()),
        r matches Some(o) ==> final(o).v() == final(left).v() && o.v().len() == old(left).v().len()
            && num(o.v()) == num(old(left).v()) * num(right.v()),
        r is None ==> final(left).v().len() == old(left).v().len(),
//@entry
    proof { lemma_num_bound(left.v()); lemma_num_bound(right.v());
        let p = num(left.v()) * num(right.v());
        assert(p >= 0) by(nonlinear_arith) requires num(left.v()) >= 0, num(right.v()) >= 0, p == num(left.v()) * num(right.v());
        if p < pw(left.v().len()) { lemma_small_mod(p as nat, pw(left.v().len()) as nat); } }
//@endfn
//@fn ElementMul::mul_wrapping bits/src/algos/element/mul.rs trait:ElementMul/mul_wrapping limb params=left,right
    requires fits(old(left).v()), fits(right.v()),
    ensures final(r).v() == final(left).v(), r.v().len() == old(left).v().len(),
        num(r.v()) == (num(old(left).v()) * num(right.v())) % pw(old(left).v().len()),
//@endfn
}
impl<T: ?Sized + BitSliceExt> ElementMul for T {}
}
pub use mul::*;
