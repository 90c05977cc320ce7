// text of big integers
pub mod bround {
use super::*;
/// what was formatted parses back: over the contracts of Display and from_str_radix
pub proof fn lemma_round_trip(v: int)
    ensures parse(minus(v < 0) + text(digs(iabs(v), 10), dec_chars()), 10) == Some(v),
{
    let t = text(digs(iabs(v), 10), dec_chars());
    lemma_pdig_text(iabs(v), 10, dec_chars());
    if v == 0 { reveal_with_fuel(pdig, 3); assert(t.len() == 1 && t[0] == '0'); assert(t.drop_last() =~= Seq::empty()); }
    assert(pdig(t, 10) == Some(iabs(v)));
    let s = minus(v < 0) + t;
    if v < 0 { assert(s.skip(1) =~= t); assert(s[0] == '-'); }
    else {
        assert(s =~= t);
        lemma_div_dec(if v == 0 { 1 } else { v }, 10);
        let d = digs(iabs(v), 10);
        assert(d.len() > 0);
        lemma_dig(iabs(v), 10, d.len() - 1);
        assert(t[0] == dec_chars()[d[d.len() - 1] as int]);
        assert(t[0] != '-');
    }
}
}
pub mod bfmt {
use super::*;
impl BigInt {
    /// with_slice runs its argument once on the digits (contract of with_slice): the argument's body in place of the call
    #[verifier::external_body]
    pub fn v_slice(&self) -> (r: &[usize]) requires self.wf() ensures r@ == self.digits() { unimplemented!() }
//@fn BigInt::write_base ints/src/big_int.rs impl:BigInt/write_base pub params=base,w,chars subst=W->VOut;fmt::Result->Result<(),FmtErr> ops===->v_eqi;>->v_gti;<->v_lti;>=->v_gei;<=->v_lei;%->v_rem;/=->v_div_assign methods=clone->v_clone;expect->v_expect2 calls=u8::from_checked-><u8~as~VCast>::v_from_checked
    requires self.wf(), 2 <= base <= 36, chars@.len() >= base,
    ensures wrote(*old(w), *final(w), r, text(digs(self.mag(), base as int), chars@)),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost m = self.mag(); let ghost bb = base as int; let ghost w0 = *w;
    proof { lemma_wf(*self); }
//@let digits
    let ghost mut dd: Seq<u8> = Seq::empty();
//@loop 0
    invariant *w == w0, scratch.wf(), scratch.iv() >= 0, digits@ + low(scratch.iv(), bb) =~= low(m, bb), scratch.iv() == m || digits@.len() > 0,
    decreases scratch.iv(),
//@start 0
    proof { lemma_wf(scratch); lemma_div_dec(scratch.iv(), bb); }
//@loop 1
    invariant digits@ == digs(m, bb), w.0@ =~= w0.0@ + text(digs(m, bb), chars@).take(digits@.len() - __k0), w.1@ == w0.1@, __k0 <= digits@.len(), __s0@ == digits@,
    decreases __k0,
//@start 1
    proof { let n = digits@.len() - __k0; let t = text(digs(m, bb), chars@); lemma_dig(m, bb, __k0 as int); assert(t.take(n as int) =~= t.take(n - 1).push(t[n - 1])); }
//@tail
    proof { let t = text(digs(m, bb), chars@); assert(t.take(t.len() as int) =~= t); }
//@endfn
//@fn BigInt::display ints/src/big_int.rs impl:Display~for~BigInt/fmt pub name=v_display params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr>
    requires self.wf(),
    ensures wrote(*old(f), *final(f), r, minus(self.iv() < 0) + text(digs(self.mag(), 10), dec_chars())),
//@entry
    proof { lemma_wf(*self); lemma_dec(digs(self.mag(), 10)); reveal_strlit("-"); reveal_strlit("0x"); assert("-"@ =~= seq!['-']); assert("0x"@ =~= seq!['0', 'x']); }
//@endfn
//@fn BigInt::debug ints/src/big_int.rs impl:Debug~for~BigInt/fmt pub name=v_debug params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr> calls=Display::fmt->BigInt::v_display
    requires self.wf(),
    ensures wrote(*old(f), *final(f), r, minus(self.iv() < 0) + text(digs(self.mag(), 10), dec_chars())),
//@endfn
//@fn BigInt::lower_hex ints/src/big_int.rs impl:LowerHex~for~BigInt/fmt pub name=v_lower_hex params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr>
    requires self.wf(),
    ensures wrote(*old(f), *final(f), r, minus(self.iv() < 0) + seq!['0', 'x'] + text(digs(self.mag(), 16), hex_chars())),
//@entry
    proof { lemma_wf(*self); lemma_hex(digs(self.mag(), 16)); reveal_strlit("-"); reveal_strlit("0x"); assert("-"@ =~= seq!['-']); assert("0x"@ =~= seq!['0', 'x']); }
//@endfn
//@fn BigInt::upper_hex ints/src/big_int.rs impl:UpperHex~for~BigInt/fmt pub name=v_upper_hex params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr>
    requires self.wf(),
    ensures wrote(*old(f), *final(f), r, minus(self.iv() < 0) + seq!['0', 'x'] + text(digs(self.mag(), 16), heX_chars())),
//@entry
    proof { lemma_wf(*self); lemma_heX(digs(self.mag(), 16)); reveal_strlit("-"); reveal_strlit("0x"); assert("-"@ =~= seq!['-']); assert("0x"@ =~= seq!['0', 'x']); }
//@endfn
}
}
pub mod bbin {
use super::*;
/// n binary digits of v, highest first
pub open spec fn bin_text(v: int, n: nat) -> Seq<char> { Seq::new(n, |i: int| if nbit(v, (n - 1 - i) as nat) { '1' } else { '0' }) }
/// core: u8 from bool
#[verifier::external_body]
pub fn v_u8(b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 }) { u8::from(b) }
impl BigInt {
//@fn BigInt::binary ints/src/big_int.rs impl:Binary~for~BigInt/fmt pub name=v_binary params=f subst=fmt::Formatter<'_>->VOut;fmt::Result->Result<(),FmtErr> beta=with_slice->v_slice calls=u8::from->v_u8
    requires self.wf(),
    ensures wrote(*old(f), *final(f), r, minus(self.iv() < 0) + seq!['0', 'b'] + bin_text(self.mag(), (self.digits().len() * 64) as nat)),
//@attr
#[verifier::loop_isolation(false)]
//@entry
    let ghost t = bin_text(self.mag(), (self.digits().len() * 64) as nat); let ghost p = minus(self.iv() < 0) + seq!['0', 'b']; let ghost f0 = *f;
    proof { lemma_wf(*self); reveal_strlit("-"); reveal_strlit("0b"); assert("-"@ =~= seq!['-']); assert("0b"@ =~= seq!['0', 'b']); }
//@loop 0
    invariant __e0 == 0, __k0 <= t.len(), f.0@ =~= f0.0@ + p + t.take(t.len() - __k0), f.1@ == f0.1@,
    decreases __k0,
//@start 0
    proof { let n = t.len() - __k0; assert(t.take(n as int) =~= t.take(n - 1).push(t[n - 1])); }
//@tail
    proof { assert(t.take(t.len() as int) =~= t); }
//@endfn
}
}
pub mod bparse {
use super::*;
pub assume_specification[ char::to_ascii_lowercase ](c: &char) -> (r: char) ensures r as u32 == (if 65 <= *c as u32 <= 90 { (*c as u32 + 32) as u32 } else { *c as u32 });
#[verifier::external_body]
pub fn v_try_u32(x: usize) -> (r: Result<u32, FmtErr>) ensures x <= u32::MAX ==> r == Ok::<u32, FmtErr>(x as u32), x > u32::MAX ==> r is Err { unimplemented!() }
/// std: str::strip_prefix, str::chars
pub struct VChars(pub Ghost<Seq<char>>);
pub trait VStr { spec fn vs(&self) -> Seq<char>; fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) ensures (self.vs().len() > 0 && self.vs()[0] == c) == (r is Some), r is Some ==> r->0@ == self.vs().skip(1); fn v_chars(&self) -> (r: VChars) ensures r.0@ == self.vs(); }
impl VStr for str {
    open spec fn vs(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn v_strip_prefix(&self, c: char) -> (r: Option<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn v_chars(&self) -> (r: VChars) { unimplemented!() }
}
impl VChars {
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<char>) ensures old(self).0@.len() == 0 ==> r is None && final(self).0@ == old(self).0@, old(self).0@.len() > 0 ==> r == Some(old(self).0@[0]) && final(self).0@ == old(self).0@.skip(1) { unimplemented!() }
}
pub open spec fn tab(i: int) -> int { if i < 10 { 48 + i } else { 87 + i } }
impl RadixChars {
//@fn RadixChars::val_from_char ints/src/big_int.rs impl:RadixChars/val_from_char pub params=c,radix calls=u32::try_from->v_try_u32
    ensures match r {
        Ok(x) => dval(c, radix) == Some(x as int),
        Err(FromStrError::InvalidRadix(x)) => x == radix && radix > 36,
        Err(FromStrError::InvalidChar(x)) => x == c && radix <= 36 && dval(c, radix) is None,
    },
//@let INSENS_CHARS
    assert forall|i: int| 0 <= i < 36 implies INSENS_CHARS@[i] as u32 as int == tab(i) by {
        if i < 12 { } else if i < 24 { } else { }
    }
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant __k0 <= __s0@.len(), __s0@ == INSENS_CHARS@.take(radix as int), match __r0 { Some(x) => dval(c, radix) == Some(x as int), None => forall|i: int| 0 <= i < __k0 ==> dval(c, radix) != Some(i) },
    decreases __s0@.len() - __k0,
//@endfn
}
impl BigInt {
//@fn BigInt::from_str_radix ints/src/big_int.rs impl:FromStrRadix~for~BigInt/from_str_radix pub params=str,radix subst=Self::Error->FromStrError methods=strip_prefix->v_strip_prefix;chars->v_chars ops=*->v_mul;+->v_add;u-->v_neg
    ensures match r {
        Ok(x) => x.wf() && parse(str@, radix) == Some(x.iv()),
        Err(FromStrError::InvalidRadix(x)) => x == radix && radix > 36 && parse(str@, radix) is None,
        Err(FromStrError::InvalidChar(x)) => radix <= 36 && dval(x, radix) is None && str@.contains(x) && parse(str@, radix) is None,
    },
//@attr
#[verifier::loop_isolation(false)]
//@loop 0
    invariant __it0.0@.len() <= digits@.len(), __it0.0@ =~= digits@.skip(digits@.len() - __it0.0@.len()), out.wf(), pdig(digits@.take(digits@.len() - __it0.0@.len()), radix) == Some(out.iv()),
    decreases __it0.0@.len(),
//@start 0
    proof {
        let k = digits@.len() - __it0.0@.len();
        assert(digits@[k - 1] == digit);
        assert(digits@.take(k).drop_last() =~= digits@.take(k - 1));
        if dval(digit, radix) is None { lemma_pdig_none(digits@, radix, k); if neg { assert(str@[k] == digit); } else { assert(str@[k - 1] == digit); } }
    }
//@endfn
}
}
