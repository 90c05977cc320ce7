// text of numbers: digits, characters, the writer
#[derive(Debug)]
pub struct FmtErr;
/// what has been written so far, and whether a write has failed
pub struct VOut(pub Ghost<Seq<char>>, pub Ghost<bool>);
pub open spec fn wrote(a: VOut, b: VOut, r: Result<(), FmtErr>, s: Seq<char>) -> bool {
    match r { Ok(_) => b.0@ =~= a.0@ + s && b.1@ == a.1@, Err(_) => b.1@ }
}
impl VOut {
    #[verifier::external_body]
    pub fn write_char(&mut self, c: char) -> (r: Result<(), FmtErr>) ensures wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_write_str(&mut self, s: &str) -> (r: Result<(), FmtErr>) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_write_num(&mut self, x: u8) -> (r: Result<(), FmtErr>) ensures x == 0 ==> wrote(*old(self), *final(self), r, seq!['0']), x == 1 ==> wrote(*old(self), *final(self), r, seq!['1']) { unimplemented!() }
}
/// expect whose success is an obligation
pub trait VExp2<T> { spec fn vx(&self) -> Option<T>; fn v_expect2(self, m: &str) -> (r: T) requires self.vx() is Some ensures self.vx() == Some(r); }
impl<T> VExp2<T> for Option<T> {
    open spec fn vx(&self) -> Option<T> { *self }
    fn v_expect2(self, m: &str) -> (r: T) { self.unwrap() }
}
/// digits of v in base b, lowest first
pub open spec fn low(v: int, b: int) -> Seq<u8> decreases v via low_dec { if v <= 0 || b < 2 { Seq::empty() } else { seq![(v % b) as u8] + low(v / b, b) } }
#[via_fn]
proof fn low_dec(v: int, b: int) { if v > 0 && b >= 2 { fmtmath::lemma_div_dec(v, b); } }
pub open spec fn digs(v: int, b: int) -> Seq<u8> { if v == 0 { seq![0u8] } else { low(v, b) } }
pub open spec fn text(d: Seq<u8>, chars: Seq<char>) -> Seq<char> { Seq::new(d.len(), |i: int| chars[d[d.len() - 1 - i] as int]) }
/// value of a digit character
pub open spec fn dval(c: char, radix: u32) -> Option<int> {
    let x = c as u32 as int;
    let v = if 48 <= x <= 57 { x - 48 } else if 65 <= x <= 90 { x - 55 } else if 97 <= x <= 122 { x - 87 } else { 1000 };
    if radix <= 36 && v < radix { Some(v) } else { None }
}
pub open spec fn pdig(s: Seq<char>, radix: u32) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0int) } else {
        match (pdig(s.drop_last(), radix), dval(s.last(), radix)) { (Some(a), Some(d)) => Some(a * radix + d), _ => None }
    }
}
pub open spec fn parse(s: Seq<char>, radix: u32) -> Option<int> {
    if s.len() > 0 && s[0] == '-' { match pdig(s.skip(1), radix) { Some(x) => Some(-x), None => None } } else { pdig(s, radix) }
}
pub open spec fn minus(neg: bool) -> Seq<char> { if neg { seq!['-'] } else { Seq::empty() } }
pub open spec fn dec_chars() -> Seq<char> { seq!['0', '1', '2', '3', '4', '5', '6', '7', '8', '9'] }
pub open spec fn hex_chars() -> Seq<char> { dec_chars() + seq!['a', 'b', 'c', 'd', 'e', 'f'] }
pub open spec fn heX_chars() -> Seq<char> { dec_chars() + seq!['A', 'B', 'C', 'D', 'E', 'F'] }
pub enum FromStrError { InvalidRadix(u32), InvalidChar(char) }
pub struct RadixChars;
pub mod fmtmath {
use super::*;
pub proof fn lemma_dig(v: int, b: int, i: int)
    requires v >= 0, 2 <= b <= 256,
    ensures 0 <= i < low(v, b).len() ==> low(v, b)[i] < b,
    decreases v,
{ if v > 0 { lemma_div_dec(v, b); lemma_fundamental_div_mod(v, b); if i > 0 { lemma_dig(v / b, b, i - 1); } } }
pub proof fn lemma_div_dec(v: int, b: int)
    requires v > 0, b >= 2,
    ensures 0 <= v / b < v, 0 <= v % b < b, v == v / b * b + v % b,
{ lemma_fundamental_div_mod(v, b); lemma_div_pos_is_pos(v, b); lemma_mod_bound(v, b); assert(v / b * b == b * (v / b)) by(nonlinear_arith); assert(v / b < v) by(nonlinear_arith) requires v == b * (v / b) + v % b, v > 0, b >= 2, v % b >= 0, v / b >= 0; }
pub proof fn lemma_pdig_text(v: int, b: u32, chars: Seq<char>)
    requires v >= 0, 2 <= b <= 36, chars.len() >= b, forall|i: int| 0 <= i < b ==> dval(chars[i], b) == Some(i),
    ensures pdig(text(low(v, b as int), chars), b) == Some(v),
    decreases v,
{
    let d = low(v, b as int);
    if v > 0 {
        lemma_div_dec(v, b as int);
        lemma_pdig_text(v / (b as int), b, chars);
        let t = text(d, chars);
        assert(t.drop_last() =~= text(low(v / (b as int), b as int), chars)) by {
            let e = low(v / (b as int), b as int);
            assert forall|i: int| 0 <= i < e.len() implies t[i] == text(e, chars)[i] by { assert(d[d.len() - 1 - i] == e[e.len() - 1 - i]); }
        }
        assert(t.last() == chars[v % (b as int)]);
    } else { assert(text(d, chars) =~= Seq::empty()); }
}
pub proof fn lemma_dec(d: Seq<u8>)
    ensures forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 10 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' ==> text(d, c) == text(d, dec_chars()),
{ assert forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 10 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' implies text(d, c) == text(d, dec_chars()) by { assert(c =~= dec_chars()); } }
pub proof fn lemma_hex(d: Seq<u8>)
    ensures forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 16 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' && c[10] == 'a' && c[11] == 'b' && c[12] == 'c' && c[13] == 'd' && c[14] == 'e' && c[15] == 'f' ==> text(d, c) == text(d, hex_chars()),
{ assert forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 16 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' && c[10] == 'a' && c[11] == 'b' && c[12] == 'c' && c[13] == 'd' && c[14] == 'e' && c[15] == 'f' implies text(d, c) == text(d, hex_chars()) by { assert(c =~= hex_chars()); } }
pub proof fn lemma_heX(d: Seq<u8>)
    ensures forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 16 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' && c[10] == 'A' && c[11] == 'B' && c[12] == 'C' && c[13] == 'D' && c[14] == 'E' && c[15] == 'F' ==> text(d, c) == text(d, heX_chars()),
{ assert forall|c: Seq<char>| #![trigger text(d, c)] c.len() == 16 && c[0] == '0' && c[1] == '1' && c[2] == '2' && c[3] == '3' && c[4] == '4' && c[5] == '5' && c[6] == '6' && c[7] == '7' && c[8] == '8' && c[9] == '9' && c[10] == 'A' && c[11] == 'B' && c[12] == 'C' && c[13] == 'D' && c[14] == 'E' && c[15] == 'F' implies text(d, c) == text(d, heX_chars()) by { assert(c =~= heX_chars()); } }
pub proof fn lemma_pdig_none(s: Seq<char>, radix: u32, k: int)
    requires 0 <= k <= s.len(), pdig(s.take(k), radix) is None,
    ensures pdig(s, radix) is None,
    decreases s.len() - k,
{
    if k == s.len() { assert(s.take(k) =~= s); }
    else { assert(s.take(k + 1).drop_last() =~= s.take(k)); lemma_pdig_none(s, radix, k + 1); }
}
}
pub use fmtmath::*;
