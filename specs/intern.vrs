// the append-only block list and the interner, for one user at a time
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, non_camel_case_types)]
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use core::marker::PhantomData;
verus! {
global size_of usize == 8;
//%include std.vrs
/// an array filled in index order
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VBuild<T, const N: usize> { a: core::marker::PhantomData<[T; N]> }
impl<T, const N: usize> View for VBuild<T, N> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T, const N: usize> VBuild<T, N> {
    #[verifier::external_body]
    pub fn v_new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn v_push(&mut self, x: T) requires old(self)@.len() < N, ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn v_finish(self) -> (r: [T; N]) requires self@.len() == N, ensures r@ == self@ { unimplemented!() }
}
pub enum Ordering { Relaxed, Acquire, Release, AcqRel, SeqCst }
/// Shared memory of one list as one user at a time sees it: pointer cells and heap nodes. A raw
/// pointer is the number of a node, 0 for null; an atomic pointer is the number of a cell.
pub mod linked {
use super::*;
#[derive(Clone, Copy)]
pub struct VP { pub a: usize }
impl VP {
    pub fn is_null(self) -> (r: bool) ensures r == (self.a == 0) { self.a == 0 }
    pub fn v_null() -> (r: VP) ensures r.a == 0 { VP { a: 0 } }
}
pub struct VLoc<T> { pub k: usize, pub p: PhantomData<T> }
impl<T> Copy for VLoc<T> {}
impl<T> Clone for VLoc<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
pub struct LMem<T> { pub ptrs: Vec<VP>, pub nodes: Vec<Node<T>> }
pub struct Node<T> { pub next: VLoc<T>, pub val: T }
impl<T> VLoc<T> {
    pub fn v_load(&self, o: Ordering, h: &LMem<T>) -> (r: VP) requires self.k < h.ptrs@.len(), ensures r == h.ptrs@[self.k as int] { h.ptrs[self.k] }
    pub fn v_cas(&self, e: VP, n: VP, o1: Ordering, o2: Ordering, h: &mut LMem<T>) -> (r: Result<VP, VP>)
        requires self.k < old(h).ptrs@.len(),
        ensures r is Ok == (old(h).ptrs@[self.k as int].a == e.a), r is Ok ==> final(h).ptrs@ == old(h).ptrs@.update(self.k as int, n), r is Err ==> final(h).ptrs@ == old(h).ptrs@, final(h).nodes@ == old(h).nodes@,
    {
        let c = h.ptrs[self.k];
        if c.a == e.a { h.ptrs.set(self.k, n); Ok(c) } else { Err(c) }
    }
}
pub fn v_loc_new<T>(p: VP, h: &mut LMem<T>) -> (r: VLoc<T>)
    ensures r.k == old(h).ptrs@.len(), final(h).ptrs@ == old(h).ptrs@.push(p), final(h).nodes@ == old(h).nodes@
{ let k = h.ptrs.len(); h.ptrs.push(p); VLoc { k, p: PhantomData } }
pub fn v_loc_default<T>(h: &mut LMem<T>) -> (r: VLoc<T>)
    ensures r.k == old(h).ptrs@.len(), final(h).ptrs@ == old(h).ptrs@.push(VP { a: 0 }), final(h).nodes@ == old(h).nodes@
{ v_loc_new(VP { a: 0 }, h) }
pub fn v_box<T>(x: Node<T>) -> (r: Node<T>) ensures r == x { x }
pub fn v_into_raw<T>(x: Node<T>, h: &mut LMem<T>) -> (r: VP)
    requires old(h).nodes@.len() < usize::MAX,
    ensures r.a == old(h).nodes@.len() + 1, final(h).nodes@ == old(h).nodes@.push(x), final(h).ptrs@ == old(h).ptrs@
{ h.nodes.push(x); VP { a: h.nodes.len() } }
pub fn v_node<'a, T>(p: VP, h: &'a LMem<T>) -> (r: &'a Node<T>) requires 0 < p.a <= h.nodes@.len(), ensures *r == h.nodes@[p.a - 1] { &h.nodes[p.a - 1] }
pub open spec fn valid<T>(p: VP, h: LMem<T>) -> bool { 0 < p.a <= h.nodes@.len() && h.nodes@[p.a - 1].next.k < h.ptrs@.len() }
/// the first n nodes, in the order they were made, hang off `head`, and the last of them ends the list
pub open spec fn chain<T>(head: VLoc<T>, h: LMem<T>, n: int) -> bool {
    &&& 0 <= n <= h.nodes@.len() < usize::MAX
    &&& head.k < h.ptrs@.len() && h.ptrs@[head.k as int].a == (if n == 0 { 0int } else { 1 })
    &&& forall|i: int| 0 <= i < h.nodes@.len() ==> (#[trigger] h.nodes@[i]).next.k < h.ptrs@.len() && h.nodes@[i].next.k != head.k
    &&& forall|i: int, j: int| 0 <= i < j < h.nodes@.len() ==> (#[trigger] h.nodes@[i]).next.k != (#[trigger] h.nodes@[j]).next.k
    &&& forall|i: int| 0 <= i < h.nodes@.len() ==> h.ptrs@[(#[trigger] h.nodes@[i]).next.k as int].a == (if i + 1 < n { i + 2 } else { 0 })
}
/// how many nodes are linked: all, or all but the newest
pub open spec fn cl<T>(head: VLoc<T>, h: LMem<T>) -> int { if chain(head, h, h.nodes@.len() as int) { h.nodes@.len() as int } else { h.nodes@.len() - 1 } }
pub open spec fn linked_up<T>(head: VLoc<T>, h: LMem<T>) -> bool { chain(head, h, cl(head, h)) }
impl<T> Node<T> {
//@fn Node::new utils/src/linked.rs impl:Node<T>/new pub params=val subst=*mutNode<T>->VP calls=Box::into_raw->v_into_raw@h;Box::new->v_box;AtomicPtr::default->v_loc_default@h extra=h:&mut~LMem<T>
    requires old(h).nodes@.len() + 1 < usize::MAX,
    ensures r.a == old(h).nodes@.len() + 1, final(h).nodes@.len() == old(h).nodes@.len() + 1, final(h).nodes@.drop_last() == old(h).nodes@, final(h).nodes@.last().val == val, final(h).nodes@.last().next.k == old(h).ptrs@.len(), final(h).ptrs@ == old(h).ptrs@.push(VP { a: 0 }), old(h).ptrs@.len() <= usize::MAX,
//@entry
    proof { assert(h.ptrs@.len() == h.ptrs.len()); }
//@endfn
//@fn Node::get_next utils/src/linked.rs impl:Node<T>/get_next pub params=this subst=*mutNode<T>->VP;AtomicPtr<Node<T>>->VLoc<T> deref=this->v_node(this,h) extra=h:&'a~LMem<T>
    requires valid(this, *h),
    ensures *r == h.nodes@[this.a - 1].next,
//@endfn
//@fn Node::set_next utils/src/linked.rs impl:Node<T>/set_next pub params=this,new subst=*mutNode<T>->VP calls=Self::get_next->Self::v_get_next@h;ptr::null_mut->VP::v_null methods=compare_exchange->v_cas@h extra=h:&mut~LMem<T>
    requires valid(this, *old(h)),
    ensures r == (old(h).ptrs@[old(h).nodes@[this.a - 1].next.k as int].a == 0), final(h).nodes@ == old(h).nodes@,
        final(h).ptrs@ == (if r { old(h).ptrs@.update(old(h).nodes@[this.a - 1].next.k as int, new) } else { old(h).ptrs@ }),
//@endfn
    /// get_next with the cell number copied out of the model's node
    pub fn v_get_next(this: VP, h: &LMem<T>) -> (r: VLoc<T>) requires valid(this, *h), ensures r == h.nodes@[this.a - 1].next { *Self::get_next(this, h) }
//@fn Node::get_next_opt utils/src/linked.rs impl:Node<T>/get_next_opt pub params=this subst=*mutNode<T>->VP;AtomicPtr<Node<T>>->VLoc<T> calls=Self::get_next->Self::get_next@h methods=load->v_load@h extra=h:&'a~LMem<T>
    requires valid(this, *h),
    ensures r is Some == (h.ptrs@[h.nodes@[this.a - 1].next.k as int].a != 0), r is Some ==> *r->0 == h.nodes@[this.a - 1].next,
//@endfn
//@fn Node::get_val utils/src/linked.rs impl:Node<T>/get_val pub params=this subst=*mutNode<T>->VP deref=this->v_node(this,h) extra=h:&'a~LMem<T>
    requires valid(this, *h),
    ensures *r == h.nodes@[this.a - 1].val,
//@endfn
}
pub struct UnsyncLinked<T> { pub head: VLoc<T> }
pub struct Iter<'a, T> { pub cur: &'a VLoc<T>, pub phantom: PhantomData<&'a ()> }
impl<T> UnsyncLinked<T> {
    pub open spec fn wf(&self, h: LMem<T>) -> bool { chain(self.head, h, h.nodes@.len() as int) }
//@fn UnsyncLinked::new utils/src/linked.rs impl:UnsyncLinked<T>/new pub calls=AtomicPtr::new->v_loc_new@h;ptr::null_mut->VP::v_null extra=h:&mut~LMem<T>
    requires old(h).nodes@.len() == 0,
    ensures r.wf(*final(h)), final(h).nodes@ == old(h).nodes@,
//@endfn
//@fn UnsyncLinked::tail utils/src/linked.rs impl:UnsyncLinked<T>/tail pub subst=*mutNode<T>->VP calls=Node::get_next_opt->Node::get_next_opt@h methods=load->v_load@h extra=h:&LMem<T>
    requires linked_up(self.head, *h),
    ensures r.1 == cl(self.head, *h), r.0.a == cl(self.head, *h),
//@loop 0
    invariant linked_up(self.head, *h), 1 <= len <= cl(self.head, *h), cur_node.a == len,
    ensures cur_node.a == cl(self.head, *h), len == cl(self.head, *h),
    decreases cl(self.head, *h) - len,
//@endfn
//@fn UnsyncLinked::len utils/src/linked.rs impl:UnsyncLinked<T>/len pub methods=tail->tail@h extra=h:&LMem<T>
    requires self.wf(*h),
    ensures r == h.nodes@.len(),
//@endfn
//@fn UnsyncLinked::is_empty utils/src/linked.rs impl:UnsyncLinked<T>/is_empty pub methods=load->v_load@h extra=h:&LMem<T>
    requires self.wf(*h),
    ensures r == (h.nodes@.len() == 0),
//@endfn
//@fn UnsyncLinked::push utils/src/linked.rs impl:UnsyncLinked<T>/push pub params=val subst=*mutNode<T>->VP calls=Node::new->Node::new@h;ptr::null_mut->VP::v_null;Node::set_next->Node::set_next@h;Node::get_next_opt->Node::get_next_opt@h methods=compare_exchange->v_cas@h;tail->tail@h;load->v_load@h extra=h:&mut~LMem<T>
    requires self.wf(*old(h)), old(h).nodes@.len() + 2 < usize::MAX,
    ensures self.wf(*final(h)), r == old(h).nodes@.len() + 1, final(h).nodes@.len() == old(h).nodes@.len() + 1,
        final(h).nodes@.drop_last() == old(h).nodes@, final(h).nodes@.last().val == val,
//@attr
#[verifier::exec_allows_no_decreases_clause]
//@entry
    let ghost h0 = *h;
    let ghost n = h.nodes@.len() as int;
//@let new#0
    let ghost h1 = *h;
    proof {
        assert forall|i: int| 0 <= i < n implies #[trigger] h1.nodes@[i] == h0.nodes@[i] by { assert(h1.nodes@.drop_last()[i] == h0.nodes@[i]); }
        assert(chain(self.head, h1, n));
    }
//@loop 0
    invariant_except_break tail.a == n, len == n, n >= 1, h.ptrs@ == h1.ptrs@, h.nodes@ == h1.nodes@, chain(self.head, h1, n), h1.nodes@.len() == n + 1,
    ensures tail.a == n, len == n, n >= 1, h.nodes@ == h1.nodes@, h.ptrs@ == h1.ptrs@.update(h1.nodes@[n - 1].next.k as int, new),
//@tail
    proof { assert(chain(self.head, *h, n + 1)); }
//@endfn
//@fn UnsyncLinked::get utils/src/linked.rs impl:UnsyncLinked<T>/get pub params=idx subst=*mutNode<T>->VP calls=Node::get_next_opt->Node::get_next_opt@h;Node::get_val->Node::get_val@h methods=load->v_load@h addgen='h extra=h:&'h~LMem<T> ret=Option<&'h~T>
    requires self.wf(*h),
    ensures r is Some == (idx < h.nodes@.len()), r is Some ==> *r->0 == h.nodes@[idx as int].val,
//@loop 0
    invariant self.wf(*h), __k0 <= __e0, __e0 == idx, __k0 < h.nodes@.len(), cur_node.a == __k0 + 1,
    decreases __e0 - __k0,
//@endfn
//@fn UnsyncLinked::iter utils/src/linked.rs impl:UnsyncLinked<T>/iter pub
    ensures *r.cur == self.head,
//@endfn
//@fn UnsyncLinked::index utils/src/linked.rs impl:Index<usize>~for~UnsyncLinked<T>/index pub name=v_index params=index methods=get->get@h addgen='h extra=h:&'h~LMem<T> ret=&'h~T
    requires self.wf(*h),
    ensures index < h.nodes@.len(), *r == h.nodes@[index as int].val,
//@panic 0
    index < h.nodes@.len()
//@endfn
}
impl<'a, T> Iter<'a, T> {
    /// k nodes have been visited
    pub open spec fn at(&self, head: VLoc<T>, h: LMem<T>, k: int) -> bool { 0 <= k <= h.nodes@.len() && *self.cur == (if k == 0 { head } else { h.nodes@[k - 1].next }) }
    /// ghost: the position
    pub open spec fn wf(&self, h: LMem<T>) -> bool { exists|head: VLoc<T>, k: int| #![trigger self.at(head, h, k)] chain(head, h, h.nodes@.len() as int) && self.at(head, h, k) }
//@fn Iter::next utils/src/linked.rs impl:Iterator~for~Iter<'a,T>/next pub subst=Self::Item->&'a~T calls=Node::get_val->Node::get_val@h;Node::get_next->Node::get_next@h methods=load->v_load@h extra=h:&'a~LMem<T>
    requires old(self).wf(*h),
    ensures final(self).wf(*h),
        forall|head: VLoc<T>, k: int| #![trigger old(self).at(head, *h, k)] chain(head, *h, h.nodes@.len() as int) && old(self).at(head, *h, k) ==> (if k < h.nodes@.len() { r is Some && *r->0 == h.nodes@[k].val && final(self).at(head, *h, k + 1) } else { r is None && final(self).at(head, *h, k) }),
//@entry
    proof {
        assert forall|head: VLoc<T>, k: int| #![trigger self.at(head, *h, k)] chain(head, *h, h.nodes@.len() as int) && self.at(head, *h, k) implies self.cur.k < h.ptrs@.len() && h.ptrs@[self.cur.k as int].a == (if k < h.nodes@.len() { k + 1 } else { 0 }) by { if k > 0 { let _ = h.nodes@[k - 1]; } }
        assert(forall|i: int| 0 <= i < h.nodes@.len() ==> (#[trigger] h.nodes@[i]).next.k < h.ptrs@.len());
    }
    let ghost (hd, kk) = choose|head: VLoc<T>, k: int| #![trigger self.at(head, *h, k)] chain(head, *h, h.nodes@.len() as int) && self.at(head, *h, k);
//@tail
    proof { assert(kk < h.nodes@.len() ==> self.at(hd, *h, kk + 1)); assert(kk >= h.nodes@.len() ==> self.at(hd, *h, kk)); }
//@endfn
}
}
pub use linked::*;
pub mod intern {
use super::*;
//@const CHUNK_SIZE utils/src/intern.rs usize 32
/// values compare by a key (lawful ==); Borrow and Into keep it
pub trait VKey { spec fn key(&self) -> int; }
pub trait VEqv: VKey { fn v_same(&self, o: &Self) -> (r: bool) ensures r == (self.key() == o.key()); }
pub trait VEq2: Sized { spec fn kv(self) -> int; fn v_eq(self, o: Self) -> (r: bool) ensures r == (self.kv() == o.kv()); }
impl<U: VEqv + ?Sized> VEq2 for &U { open spec fn kv(self) -> int { (*self).key() } fn v_eq(self, o: Self) -> (r: bool) { self.v_same(o) } }
impl VEq2 for usize { open spec fn kv(self) -> int { self as int } fn v_eq(self, o: Self) -> (r: bool) { self == o } }
pub trait VBorrow<U: ?Sized + VKey>: VKey { fn v_borrow(&self) -> (r: &U) ensures r.key() == self.key(); }
pub trait VInto<T: VKey>: VKey + Sized { fn v_into(self) -> (r: T) ensures r.key() == self.key(); }
pub struct VCnt { pub k: usize }
impl Copy for VCnt {}
impl Clone for VCnt { #[verifier::external_body] fn clone(&self) -> Self { *self } }
pub struct VCell<T> { pub k: usize, pub p: PhantomData<T> }
impl<T> Copy for VCell<T> {}
impl<T> Clone for VCell<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
pub struct VFlag { pub k: usize }
/// shared memory of one interner: counters, value cells, the block list's memory and the lock
pub struct Mem<T> { pub l: LMem<[Interned<T>; CHUNK_SIZE]>, pub refs: Vec<usize>, pub vals: Vec<Option<T>>, pub lock: bool }
pub struct Interned<T> { pub refs: VCnt, pub val: VCell<T> }
impl<T> Copy for Interned<T> {}
impl<T> Clone for Interned<T> { #[verifier::external_body] fn clone(&self) -> Self { *self } }
pub struct InternId(pub usize);
impl Copy for InternId {}
impl Clone for InternId { #[verifier::external_body] fn clone(&self) -> Self { *self } }
impl InternId {
//@fn InternId::from_usize utils/src/intern.rs impl:InternId/from_usize pub params=val
    ensures r.0 == val,
//@endfn
//@fn InternId::into_usize utils/src/intern.rs impl:InternId/into_usize pub
    ensures r == self.0,
//@endfn
}
pub struct AddGuard<'a>(pub &'a VFlag);
impl<'a> AddGuard<'a> {
//@fn AddGuard::new utils/src/intern.rs impl:AddGuard<'a>/new pub params=lock subst=AtomicBool->VFlag methods=swap->v_swap@h calls=core::hint::spin_loop->v_spin addgen=T extra=h:&mut~Mem<T>
    requires !old(h).lock,
    ensures final(h).lock, final(h).vals@ == old(h).vals@, final(h).refs@ == old(h).refs@, final(h).l == old(h).l,
//@attr
#[verifier::exec_allows_no_decreases_clause]
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@loop 0
    invariant_except_break !h.lock,
    invariant h.vals@ == old(h).vals@, h.refs@ == old(h).refs@, h.l == old(h).l,
    ensures h.lock,
//@endfn
//@fn AddGuard::drop utils/src/intern.rs impl:Drop~for~AddGuard<'_>/drop pub name=v_drop methods=store->v_store@h addgen=T extra=h:&mut~Mem<T>
    ensures !final(h).lock, final(h).vals@ == old(h).vals@, final(h).refs@ == old(h).refs@, final(h).l == old(h).l,
//@endfn
}
pub fn v_spin() {}
pub enum Find<T> { Exists(T), Dead(T), None }
pub struct Interner<T> { pub inner: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, pub adding: VFlag }
pub fn v_cnt_new<T>(x: usize, h: &mut Mem<T>) -> (r: VCnt) ensures r.k == old(h).refs@.len(), final(h).refs@ == old(h).refs@.push(x), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock
{ let k = h.refs.len(); h.refs.push(x); VCnt { k } }
pub fn v_cell_new<T>(x: Option<T>, h: &mut Mem<T>) -> (r: VCell<T>) ensures r.k == old(h).vals@.len(), final(h).vals@ == old(h).vals@.push(x), final(h).refs@ == old(h).refs@, final(h).l == old(h).l, final(h).lock == old(h).lock
{ let k = h.vals.len(); h.vals.push(x); VCell { k, p: PhantomData } }
impl VCnt {
    pub fn v_load<T>(&self, o: Ordering, h: &Mem<T>) -> (r: usize) requires self.k < h.refs@.len(), ensures r == h.refs@[self.k as int] { h.refs[self.k] }
    pub fn v_fetch_add<T>(&self, x: usize, o: Ordering, h: &mut Mem<T>) -> (r: usize)
        requires self.k < old(h).refs@.len(),
        ensures r == old(h).refs@[self.k as int], final(h).refs@ == old(h).refs@.update(self.k as int, (if r + x <= usize::MAX { r + x } else { r + x - usize::MAX - 1 }) as usize), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock
    { let c = h.refs[self.k]; let n = if x <= usize::MAX - c { c + x } else { x - (usize::MAX - c) - 1 }; h.refs.set(self.k, n); c }
    pub fn v_fetch_sub<T>(&self, x: usize, o: Ordering, h: &mut Mem<T>) -> (r: usize)
        requires self.k < old(h).refs@.len(),
        ensures r == old(h).refs@[self.k as int], final(h).refs@ == old(h).refs@.update(self.k as int, (if r >= x { r - x } else { r - x + usize::MAX + 1 }) as usize), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
    { let c = h.refs[self.k]; let n = if x <= c { c - x } else { usize::MAX - (x - c) + 1 }; h.refs.set(self.k, n); c }
    pub fn v_store<T>(&self, x: usize, o: Ordering, h: &mut Mem<T>)
        requires self.k < old(h).refs@.len(),
        ensures final(h).refs@ == old(h).refs@.update(self.k as int, x), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
    { h.refs.set(self.k, x); }
    pub fn v_swap<T>(&self, x: usize, o: Ordering, h: &mut Mem<T>) -> (r: usize)
        requires self.k < old(h).refs@.len(),
        ensures r == old(h).refs@[self.k as int], final(h).refs@ == old(h).refs@.update(self.k as int, x), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
    { let c = h.refs[self.k]; h.refs.set(self.k, x); c }
    pub fn v_compare_exchange<T>(&self, a: usize, b: usize, o1: Ordering, o2: Ordering, h: &mut Mem<T>) -> (r: Result<usize, usize>)
        requires self.k < old(h).refs@.len(),
        ensures old(h).refs@[self.k as int] == a ==> r == Ok::<usize, usize>(a) && final(h).refs@ == old(h).refs@.update(self.k as int, b),
            old(h).refs@[self.k as int] != a ==> r == Err::<usize, usize>(old(h).refs@[self.k as int]) && final(h).refs@ == old(h).refs@, final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
    { let c = h.refs[self.k]; if c == a { h.refs.set(self.k, b); Ok(c) } else { Err(c) } }
    pub fn v_fetch_update<T, F: Fn(usize) -> Option<usize>>(&self, o1: Ordering, o2: Ordering, f: F, h: &mut Mem<T>) -> (r: Result<usize, usize>)
        requires self.k < old(h).refs@.len(), f.requires((old(h).refs@[self.k as int],)),
        ensures r is Ok ==> exists|n: usize| #[trigger] f.ensures((old(h).refs@[self.k as int],), Some(n)) && final(h).refs@ == old(h).refs@.update(self.k as int, n),
            r is Err ==> f.ensures((old(h).refs@[self.k as int],), None::<usize>) && final(h).refs@ == old(h).refs@,
            final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock
    { let c = h.refs[self.k]; match f(c) { Some(n) => { h.refs.set(self.k, n); Ok(c) } None => Err(c) } }
}
impl<T> VCell<T> {
    pub fn v_get<'h>(&self, h: &'h Mem<T>) -> (r: &'h Option<T>) requires self.k < h.vals@.len(), ensures *r == h.vals@[self.k as int] { &h.vals[self.k] }
    #[verifier::external_body]
    pub fn v_get_mut<'h>(&self, h: &'h mut Mem<T>) -> (r: &'h mut Option<T>)
        requires self.k < old(h).vals@.len(),
        ensures *r == old(h).vals@[self.k as int], final(h).vals@ == old(h).vals@.update(self.k as int, *final(r)), final(h).refs@ == old(h).refs@, final(h).l == old(h).l, final(h).lock == old(h).lock
    { &mut h.vals[self.k] }
}
impl VFlag {
    pub fn v_swap<T>(&self, x: bool, o: Ordering, h: &mut Mem<T>) -> (r: bool) ensures r == old(h).lock, final(h).lock == x, final(h).vals@ == old(h).vals@, final(h).refs@ == old(h).refs@, final(h).l == old(h).l { let c = h.lock; h.lock = x; c }
    pub fn v_store<T>(&self, x: bool, o: Ordering, h: &mut Mem<T>) ensures final(h).lock == x, final(h).vals@ == old(h).vals@, final(h).refs@ == old(h).refs@, final(h).l == old(h).l { h.lock = x; }
}
pub fn v_flag_new<T>(x: bool, h: &mut Mem<T>) -> VFlag ensures final(h).lock == x, final(h).vals@ == old(h).vals@, final(h).refs@ == old(h).refs@, final(h).l == old(h).l { h.lock = x; VFlag { k: 0 } }
impl<T> UnsyncLinked<[Interned<T>; CHUNK_SIZE]> {
    /// v_index with the handles copied out of the model
    pub fn v_index_c(&self, i: usize, h: &Mem<T>) -> (r: [Interned<T>; CHUNK_SIZE]) requires self.wf(h.l), ensures i < h.l.nodes@.len(), r == h.l.nodes@[i as int].val { *self.v_index(i, &h.l) }
}
impl<T> Interned<T> {
    pub open spec fn ok(&self, h: Mem<T>) -> bool { self.refs.k < h.refs@.len() && self.val.k < h.vals@.len() }
//@fn Interned::new_uninit utils/src/intern.rs impl:Interned<T>/new_uninit pub calls=AtomicUsize::new->v_cnt_new@h;UnsafeCell::new->v_cell_new@h extra=h:&mut~Mem<T>
    ensures r.refs.k == old(h).refs@.len(), r.val.k == old(h).vals@.len(), final(h).refs@ == old(h).refs@.push(0), final(h).vals@ == old(h).vals@.push(None), final(h).l == old(h).l, final(h).lock == old(h).lock,
//@endfn
//@fn Interned::val_opt utils/src/intern.rs impl:Interned<T>/val_opt pub methods=get->v_get@h addgen='h extra=h:&'h~Mem<T> ret=Option<&'h~T>
    requires self.ok(*h),
    ensures r is Some == (h.vals@[self.val.k as int] is Some), r is Some ==> *r->0 == h.vals@[self.val.k as int]->0,
//@endfn
//@fn Interned::val utils/src/intern.rs impl:Interned<T>/val pub name=v_val methods=val_opt->val_opt@h addgen='h extra=h:&'h~Mem<T> ret=&'h~T
    requires self.ok(*h), h.vals@[self.val.k as int] is Some,
    ensures *r == h.vals@[self.val.k as int]->0,
//@endfn
//@fn Interned::set_val utils/src/intern.rs impl:Interned<T>/set_val pub params=val methods=get->v_get_mut@h extra=h:&mut~Mem<T>
    requires self.ok(*old(h)),
    ensures final(h).vals@ == old(h).vals@.update(self.val.k as int, Some(val)), final(h).refs@ == old(h).refs@, final(h).l == old(h).l, final(h).lock == old(h).lock,
//@endfn
}
pub open spec fn d0(o: Option<(usize, usize)>) -> int { (o->0).0 as int }
pub open spec fn d1(o: Option<(usize, usize)>) -> int { (o->0).1 as int }
pub open spec fn inr<T>(h: Mem<T>, a: int, b: int) -> bool { 0 <= a < h.l.nodes@.len() && 0 <= b < 32 }
pub open spec fn pc<T>(h: Mem<T>, a: int, b: int) -> Interned<T> { h.l.nodes@[a].val[b] }
/// count and value of slot b of block a
pub open spec fn rc<T>(h: Mem<T>, a: int, b: int) -> usize { h.refs@[pc(h, a, b).refs.k as int] }
pub open spec fn vl<T>(h: Mem<T>, a: int, b: int) -> Option<T> { h.vals@[pc(h, a, b).val.k as int] }
pub open spec fn holds<T: VKey>(h: Mem<T>, a: int, b: int, key: int) -> bool { vl(h, a, b) is Some && (vl(h, a, b)->0).key() == key }
pub open spec fn mem_ok<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h: Mem<T>) -> bool {
    &&& list.wf(h.l) && CHUNK_SIZE == 32
    &&& forall|a: int, b: int| inr(h, a, b) ==> (#[trigger] pc(h, a, b)).ok(h)
    &&& forall|a: int, b: int, c: int, d: int| inr(h, a, b) && inr(h, c, d) && (a != c || b != d) ==> (#[trigger] pc(h, a, b)).refs.k != (#[trigger] pc(h, c, d)).refs.k && pc(h, a, b).val.k != pc(h, c, d).val.k
}
/// the memory gained one fresh, empty slot per entry of blk
pub open spec fn fresh<T>(h0: Mem<T>, h1: Mem<T>, blk: Seq<Interned<T>>) -> bool {
    &&& h1.l == h0.l && h1.lock == h0.lock
    &&& h1.refs@.len() == h0.refs@.len() + blk.len() && h1.vals@.len() == h0.vals@.len() + blk.len()
    &&& forall|i: int| 0 <= i < h0.refs@.len() ==> #[trigger] h1.refs@[i] == h0.refs@[i]
    &&& forall|i: int| 0 <= i < h0.vals@.len() ==> #[trigger] h1.vals@[i] == h0.vals@[i]
    &&& forall|j: int| 0 <= j < blk.len() ==> (#[trigger] blk[j]).refs.k == h0.refs@.len() + j && blk[j].val.k == h0.vals@.len() + j && h1.refs@[blk[j].refs.k as int] == 0 && h1.vals@[blk[j].val.k as int] is None
}
pub open spec fn all_dead<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h: Mem<T>) -> bool {
    &&& mem_ok(list, h)
    &&& forall|a: int, b: int| inr(h, a, b) ==> #[trigger] rc(h, a, b) == 0
    &&& forall|a: int, b: int| inr(h, a, b) ==> #[trigger] vl(h, a, b) is None
}
/// the old slots are as they were, and a block of empty slots was added
pub open spec fn grown<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h0: Mem<T>, h1: Mem<T>) -> bool {
    &&& mem_ok(list, h1) && h1.lock == h0.lock && h1.l.nodes@.len() == h0.l.nodes@.len() + 1
    &&& forall|a: int, b: int| inr(h0, a, b) ==> #[trigger] rc(h1, a, b) == rc(h0, a, b)
    &&& forall|a: int, b: int| inr(h0, a, b) ==> #[trigger] vl(h1, a, b) == vl(h0, a, b)
    &&& forall|b: int| 0 <= b < 32 ==> #[trigger] rc(h1, h0.l.nodes@.len() as int, b) == 0
    &&& forall|b: int| 0 <= b < 32 ==> #[trigger] vl(h1, h0.l.nodes@.len() as int, b) is None
}
pub proof fn lemma_block<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h0: Mem<T>, hb: Mem<T>, h1: Mem<T>, blk: Seq<Interned<T>>)
    requires mem_ok(list, h0), fresh(h0, hb, blk), blk.len() == 32, list.wf(h1.l), h1.l.nodes@.len() == h0.l.nodes@.len() + 1, h1.l.nodes@.drop_last() == h0.l.nodes@, h1.l.nodes@.last().val@ == blk, h1.refs@ == hb.refs@, h1.vals@ == hb.vals@, h1.lock == hb.lock,
    ensures grown(list, h0, h1),
{
    let n = h0.l.nodes@.len() as int;
    assert forall|a: int, b: int| inr(h0, a, b) implies #[trigger] pc(h1, a, b) == pc(h0, a, b) by { assert(h1.l.nodes@.drop_last()[a] == h1.l.nodes@[a]); }
    assert forall|b: int| 0 <= b < 32 implies #[trigger] pc(h1, n, b) == blk[b] by { assert(h1.l.nodes@.last().val@[b] == blk[b]); }
    assert forall|a: int, b: int| inr(h1, a, b) implies (#[trigger] pc(h1, a, b)).ok(h1) by { if a < n { let _ = pc(h0, a, b); } else { let _ = blk[b]; } }
    assert forall|a: int, b: int| inr(h0, a, b) implies #[trigger] rc(h1, a, b) == rc(h0, a, b) by { let _ = pc(h1, a, b); let _ = pc(h0, a, b); }
    assert forall|a: int, b: int| inr(h0, a, b) implies #[trigger] vl(h1, a, b) == vl(h0, a, b) by { let _ = pc(h1, a, b); let _ = pc(h0, a, b); }
    assert forall|b: int| 0 <= b < 32 implies #[trigger] rc(h1, n, b) == 0 by { let _ = pc(h1, n, b); let _ = blk[b]; }
    assert forall|b: int| 0 <= b < 32 implies #[trigger] vl(h1, n, b) is None by { let _ = pc(h1, n, b); let _ = blk[b]; }
    assert forall|a: int, b: int, c: int, d: int| inr(h1, a, b) && inr(h1, c, d) && (a != c || b != d) implies (#[trigger] pc(h1, a, b)).refs.k != (#[trigger] pc(h1, c, d)).refs.k && pc(h1, a, b).val.k != pc(h1, c, d).val.k by {
        if a < n { let _ = pc(h0, a, b); } else { let _ = blk[b]; }
        if c < n { let _ = pc(h0, c, d); } else { let _ = blk[d]; }
    }
}
pub proof fn lemma_cong<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h0: Mem<T>, h1: Mem<T>)
    requires mem_ok(list, h0), h1.l == h0.l, h1.refs@ == h0.refs@, h1.vals@ == h0.vals@,
    ensures mem_ok(list, h1), forall|a: int, b: int| #[trigger] rc(h1, a, b) == rc(h0, a, b), forall|a: int, b: int| #[trigger] vl(h1, a, b) == vl(h0, a, b),
{
    assert forall|a: int, b: int| #[trigger] pc(h1, a, b) == pc(h0, a, b) by {}
    assert forall|c: int, d: int| inr(h1, c, d) implies (#[trigger] pc(h1, c, d)).ok(h1) by { let _ = pc(h0, c, d); }
    assert forall|a: int, b: int, c: int, d: int| inr(h1, a, b) && inr(h1, c, d) && (a != c || b != d) implies (#[trigger] pc(h1, a, b)).refs.k != (#[trigger] pc(h1, c, d)).refs.k && pc(h1, a, b).val.k != pc(h1, c, d).val.k by { let _ = pc(h0, a, b); let _ = pc(h0, c, d); }
}
/// one slot's count and value were written
pub proof fn lemma_slot<T>(list: UnsyncLinked<[Interned<T>; CHUNK_SIZE]>, h0: Mem<T>, h1: Mem<T>, a: int, b: int, x: usize, y: Option<T>)
    requires mem_ok(list, h0), inr(h0, a, b), h1.l == h0.l, h1.refs@ == h0.refs@.update(pc(h0, a, b).refs.k as int, x), h1.vals@ == h0.vals@.update(pc(h0, a, b).val.k as int, y) || (h1.vals@ == h0.vals@ && vl(h0, a, b) == y),
    ensures mem_ok(list, h1), rc(h1, a, b) == x, vl(h1, a, b) == y,
        forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) ==> #[trigger] rc(h1, c, d) == rc(h0, c, d),
        forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) ==> #[trigger] vl(h1, c, d) == vl(h0, c, d),
{
    let p = pc(h0, a, b);
    assert forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) implies #[trigger] rc(h1, c, d) == rc(h0, c, d) by { let _ = pc(h0, c, d); }
    assert forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) implies #[trigger] vl(h1, c, d) == vl(h0, c, d) by { let _ = pc(h0, c, d); }
    assert forall|c: int, d: int| inr(h1, c, d) implies (#[trigger] pc(h1, c, d)).ok(h1) by { let _ = pc(h0, c, d); }
    assert forall|a: int, b: int, c: int, d: int| inr(h1, a, b) && inr(h1, c, d) && (a != c || b != d) implies (#[trigger] pc(h1, a, b)).refs.k != (#[trigger] pc(h1, c, d)).refs.k && pc(h1, a, b).val.k != pc(h1, c, d).val.k by { let _ = pc(h0, a, b); let _ = pc(h0, c, d); }
}
/// h0 the state before, hg with the block list it ends up with, h1 with the slot filled
pub proof fn lemma_added<T: VKey>(s: Interner<T>, h0: Mem<T>, hg: Mem<T>, h1: Mem<T>, key: int, a: int, b: int)
    requires s.wf(h0), mem_ok(s.inner, h1), !h1.lock, hg.l == h1.l, inr(h1, a, b), holds(h1, a, b, key),
        (hg.l == h0.l && hg.refs@ == h0.refs@ && hg.vals@ == h0.vals@) || (grown(s.inner, h0, hg) || hg.l.nodes@.len() == h0.l.nodes@.len() + 1 && exists|z: Mem<T>| z.l == h0.l && z.refs@ == h0.refs@ && z.vals@ == h0.vals@ && #[trigger] grown(s.inner, z, hg)) && a == h0.l.nodes@.len() && (forall|c: int, d: int| inr(h0, c, d) ==> !#[trigger] holds(h0, c, d, key) && rc(h0, c, d) > 0),
        forall|c: int, d: int| inr(hg, c, d) && (c != a || d != b) ==> #[trigger] rc(h1, c, d) == rc(hg, c, d),
        forall|c: int, d: int| inr(hg, c, d) && (c != a || d != b) ==> #[trigger] vl(h1, c, d) == vl(hg, c, d),
        inr(h0, a, b) && holds(h0, a, b, key) && vl(h1, a, b) == vl(h0, a, b) && rc(h1, a, b) == rc(h0, a, b) + 1
        || (forall|c: int, d: int| inr(h0, c, d) ==> !#[trigger] holds(h0, c, d, key)) && rc(h1, a, b) == 1 && (inr(h0, a, b) ==> rc(h0, a, b) == 0),
    ensures s.wf(h1), Interner::<T>::added(h0, h1, key, a, b),
{
    let n = h0.l.nodes@.len() as int;
    assert forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) implies #[trigger] rc(h1, c, d) == rc(h0, c, d) by { let _ = rc(hg, c, d); }
    assert forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) implies #[trigger] vl(h1, c, d) == vl(h0, c, d) by { let _ = vl(hg, c, d); }
    assert forall|c: int, d: int| inr(h1, c, d) && c >= n && (c != a || d != b) implies #[trigger] rc(h1, c, d) == 0 by { let _ = rc(hg, n, d); }
    assert forall|c: int, d: int| inr(h1, c, d) && c >= n && (c != a || d != b) implies #[trigger] vl(h1, c, d) is None by { let _ = vl(hg, n, d); }
    assert forall|c: int, d: int| inr(h1, c, d) && #[trigger] rc(h1, c, d) > 0 implies vl(h1, c, d) is Some by { if c < n && (c != a || d != b) { let _ = rc(h0, c, d); let _ = vl(h1, c, d); } }
    if inr(h0, a, b) && holds(h0, a, b, key) {
        assert forall|c: int, d: int| inr(h0, c, d) implies #[trigger] vl(h1, c, d) == vl(h0, c, d) by { }
    } else {
        assert forall|c: int, d: int| inr(h0, c, d) implies !#[trigger] holds(h0, c, d, key) by { }
        if h1.l.nodes@.len() > n { assert forall|c: int, d: int| inr(h0, c, d) implies #[trigger] rc(h0, c, d) > 0 by { let _ = holds(h0, c, d, key); } }
    }
    assert forall|x: int, y: int, c: int, d: int| inr(h1, x, y) && inr(h1, c, d) && (#[trigger] vl(h1, x, y)) is Some && (#[trigger] vl(h1, c, d)) is Some && (vl(h1, x, y)->0).key() == (vl(h1, c, d)->0).key() implies x == c && y == d by {
        if x < n { let _ = vl(h0, x, y); let _ = holds(h0, x, y, key); } if c < n { let _ = vl(h0, c, d); let _ = holds(h0, c, d, key); }
    }
}
impl<T: VKey> Interner<T> {
    /// what add(val) does: val's slot is (a, b)
    pub open spec fn added(h0: Mem<T>, h1: Mem<T>, key: int, a: int, b: int) -> bool {
        &&& inr(h1, a, b) && holds(h1, a, b, key) && h1.l.nodes@.len() >= h0.l.nodes@.len()
        &&& forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) ==> #[trigger] rc(h1, c, d) == rc(h0, c, d)
        &&& forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) ==> #[trigger] vl(h1, c, d) == vl(h0, c, d)
        &&& forall|c: int, d: int| inr(h1, c, d) && c >= h0.l.nodes@.len() && (c != a || d != b) ==> #[trigger] rc(h1, c, d) == 0
        &&& if exists|c: int, d: int| inr(h0, c, d) && #[trigger] holds(h0, c, d, key) {
                inr(h0, a, b) && holds(h0, a, b, key) && vl(h1, a, b) == vl(h0, a, b) && rc(h1, a, b) == rc(h0, a, b) + 1 && h1.l == h0.l
            } else {
                rc(h1, a, b) == 1 && (inr(h0, a, b) ==> rc(h0, a, b) == 0) && (h1.l.nodes@.len() > h0.l.nodes@.len() ==> forall|c: int, d: int| inr(h0, c, d) ==> #[trigger] rc(h0, c, d) > 0)
            }
    }
    pub open spec fn wf(&self, h: Mem<T>) -> bool {
        &&& mem_ok(self.inner, h) && !h.lock
        &&& forall|a: int, b: int| inr(h, a, b) && #[trigger] rc(h, a, b) > 0 ==> vl(h, a, b) is Some
        &&& forall|a: int, b: int, c: int, d: int| inr(h, a, b) && inr(h, c, d) && (#[trigger] vl(h, a, b)) is Some && (#[trigger] vl(h, c, d)) is Some && (vl(h, a, b)->0).key() == (vl(h, c, d)->0).key() ==> a == c && b == d
    }
//@fn Interner::new utils/src/intern.rs impl:Interner<T>/new pub calls=UnsyncLinked::new->UnsyncLinked::new@&mut~h.l;AtomicBool::new->v_flag_new@h extra=h:&mut~Mem<T>
    requires old(h).l.nodes@.len() == 0, CHUNK_SIZE == 32,
    ensures r.wf(*final(h)), final(h).l.nodes@.len() == 0,
//@endfn
//@fn Interner::with_capacity utils/src/intern.rs impl:Interner<T>/with_capacity pub params=capacity fromfn=CHUNK_SIZE:Interned<T> methods=push->push@&mut~h.l calls=UnsyncLinked::new->UnsyncLinked::new@&mut~h.l;AtomicBool::new->v_flag_new@h;Interned::new_uninit->Interned::new_uninit@h extra=h:&mut~Mem<T>
    requires old(h).l.nodes@.len() == 0, old(h).refs@.len() == 0, old(h).vals@.len() == 0, capacity + 32 <= usize::MAX, CHUNK_SIZE == 32,
    ensures r.wf(*final(h)), 32 * final(h).l.nodes@.len() >= capacity, forall|a: int, b: int| inr(*final(h), a, b) ==> #[trigger] rc(*final(h), a, b) == 0,
//@entry
    let ghost mut hz = *h;
//@loop 0
    invariant all_dead(list, *h), __k0 <= __e0, __e0 == (capacity + 31) / 32, CHUNK_SIZE == 32, capacity + 32 <= usize::MAX, h.l.nodes@.len() == __k0,
    decreases __e0 - __k0,
//@start 0
    let ghost h1 = *h;
    let ghost mut hb = *h;
    let ghost mut blk = Seq::<Interned<T>>::empty();
//@loop 1
    invariant __k1 <= 32, CHUNK_SIZE == 32, __b1@.len() == __k1, fresh(h1, *h, __b1@),
    decreases 32 - __k1,
//@after 1
    proof { hb = *h; blk = __b1@; }
//@end 0
    proof { lemma_block(list, h1, hb, *h, blk); }
//@after 0
    proof { hz = *h; }
//@tail
    proof { lemma_cong(__ret.inner, hz, *h); }
//@endfn
//@fn Interner::find utils/src/intern.rs impl:Interner<T>/find pub params=list,val iterfn=list ops===->v_eq nowhere where=U:VEqv+?Sized,T:VBorrow<U> methods=next->next@&h.l;load->v_load@h;val_opt->val_opt@h;borrow->v_borrow extra=h:&Mem<T>
    requires mem_ok(*list, *h),
    ensures match r {
            Find::Exists(p) => inr(*h, p.0 as int, p.1 as int) && holds(*h, p.0 as int, p.1 as int, val.key()),
            Find::Dead(p) => inr(*h, p.0 as int, p.1 as int) && rc(*h, p.0 as int, p.1 as int) == 0 && forall|a: int, b: int| inr(*h, a, b) ==> !#[trigger] holds(*h, a, b, val.key()),
            Find::None => forall|a: int, b: int| inr(*h, a, b) ==> !#[trigger] holds(*h, a, b, val.key()) && rc(*h, a, b) > 0,
        },
//@attr
#[verifier::loop_isolation(false)]
#[verifier::allow_complex_invariants]
//@loop 0
    invariant mem_ok(*list, *h), 0 <= __k0 <= h.l.nodes@.len(), __it0.at(list.head, h.l, __k0 as int), __it0.wf(h.l),
        forall|a: int, b: int| 0 <= a < __k0 && 0 <= b < 32 ==> !#[trigger] holds(*h, a, b, val.key()),
        dead is Some ==> inr(*h, d0(dead), d1(dead)) && rc(*h, d0(dead), d1(dead)) == 0,
        dead is None ==> forall|a: int, b: int| 0 <= a < __k0 && 0 <= b < 32 ==> #[trigger] rc(*h, a, b) > 0,
    ensures __k0 == h.l.nodes@.len(),
    decreases h.l.nodes@.len() - __k0,
//@start 0
    proof { assert(*i == h.l.nodes@[idx as int].val); }
//@loop 1
    invariant 0 <= __k1 <= 32, **__s1 == h.l.nodes@[idx as int].val,
        forall|a: int, b: int| (0 <= a < idx && 0 <= b < 32) || (a == idx && 0 <= b < __k1) ==> !#[trigger] holds(*h, a, b, val.key()),
        dead is Some ==> inr(*h, d0(dead), d1(dead)) && rc(*h, d0(dead), d1(dead)) == 0,
        dead is None ==> forall|a: int, b: int| (0 <= a < idx && 0 <= b < 32) || (a == idx && 0 <= b < __k1) ==> #[trigger] rc(*h, a, b) > 0,
    decreases 32 - __k1,
//@start 1
    proof { assert(*i == pc(*h, idx as int, idx2 as int)); }
//@tail
    proof { assert forall|a: int, b: int| inr(*h, a, b) && dead is None implies !#[trigger] holds(*h, a, b, val.key()) && rc(*h, a, b) > 0 by { let _ = rc(*h, a, b); } }
//@endfn
//@fn Interner::incr_inner utils/src/intern.rs impl:Interner<T>/incr_inner pub params=interned methods=load->v_load@h;store->v_store@h;swap->v_swap@h;fetch_add->v_fetch_add@h;fetch_sub->v_fetch_sub@h;fetch_update->v_fetch_update@h;compare_exchange->v_compare_exchange@h extra=h:&mut~Mem<T>
    requires interned.refs.k < old(h).refs@.len(), old(h).refs@[interned.refs.k as int] < usize::MAX,
    ensures final(h).refs@ == old(h).refs@.update(interned.refs.k as int, (old(h).refs@[interned.refs.k as int] + 1) as usize), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
//@assert 0
    true
//@endfn
//@fn Interner::decr_inner utils/src/intern.rs impl:Interner<T>/decr_inner pub params=interned methods=load->v_load@h;store->v_store@h;swap->v_swap@h;fetch_add->v_fetch_add@h;fetch_sub->v_fetch_sub@h;fetch_update->v_fetch_update@h;compare_exchange->v_compare_exchange@h extra=h:&mut~Mem<T>
    requires interned.refs.k < old(h).refs@.len(),
    ensures final(h).refs@ == old(h).refs@.update(interned.refs.k as int, (if old(h).refs@[interned.refs.k as int] > 0 { old(h).refs@[interned.refs.k as int] - 1 } else { 0 }) as usize), final(h).vals@ == old(h).vals@, final(h).l == old(h).l, final(h).lock == old(h).lock,
//@closure 0
usize -> Option<usize>
 ensures __r == (if __a0 > 0 { Some((__a0 - 1) as usize) } else { None::<usize> })
//@endfn
//@fn Interner::offset_to_idx utils/src/intern.rs impl:Interner<T>/offset_to_idx pub params=offset
    ensures r.0 == offset.0 / 32, r.1 == offset.0 % 32,
//@endfn
    /// an id names slot b of block a
    pub open spec fn is_id(i: usize, a: int, b: int) -> bool { i as int == a * 32 + b }
    /// the blocks and values are as before, and only this slot's count changed
    pub open spec fn only(h0: Mem<T>, h1: Mem<T>, a: int, b: int) -> bool {
        &&& h1.l == h0.l
        &&& forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) ==> #[trigger] rc(h1, c, d) == rc(h0, c, d)
        &&& forall|c: int, d: int| inr(h0, c, d) ==> #[trigger] vl(h1, c, d) == vl(h0, c, d)
    }
//@fn Interner::incr utils/src/intern.rs impl:Interner<T>/incr pub params=offset ixcall=self.inner->v_index_c@h calls=Self::incr_inner->Self::incr_inner@h extra=h:&mut~Mem<T>
    requires self.wf(*old(h)), offset.0 < 32 * old(h).l.nodes@.len(), 0 < rc(*old(h), offset.0 as int / 32, offset.0 as int % 32) < usize::MAX,
    ensures self.wf(*final(h)), Self::only(*old(h), *final(h), offset.0 as int / 32, offset.0 as int % 32), rc(*final(h), offset.0 as int / 32, offset.0 as int % 32) == rc(*old(h), offset.0 as int / 32, offset.0 as int % 32) + 1,
//@entry
    let ghost h0 = *h;
    proof { if offset.0 < 32 * h.l.nodes@.len() { lemma_at(*self, h0, offset.0 as int / 32, offset.0 as int % 32); } }
//@tail
    proof { lemma_only(*self, h0, *h, offset.0 as int / 32, offset.0 as int % 32); }
//@endfn
//@fn Interner::decr utils/src/intern.rs impl:Interner<T>/decr pub params=offset ixcall=self.inner->v_index_c@h calls=Self::decr_inner->Self::decr_inner@h extra=h:&mut~Mem<T>
    requires self.wf(*old(h)), offset.0 < 32 * old(h).l.nodes@.len(),
    ensures self.wf(*final(h)), Self::only(*old(h), *final(h), offset.0 as int / 32, offset.0 as int % 32), rc(*final(h), offset.0 as int / 32, offset.0 as int % 32) == (if rc(*old(h), offset.0 as int / 32, offset.0 as int % 32) > 0 { rc(*old(h), offset.0 as int / 32, offset.0 as int % 32) - 1 } else { 0 }),
//@entry
    let ghost h0 = *h;
    proof { if offset.0 < 32 * h.l.nodes@.len() { lemma_at(*self, h0, offset.0 as int / 32, offset.0 as int % 32); } }
//@tail
    proof { lemma_only(*self, h0, *h, offset.0 as int / 32, offset.0 as int % 32); }
//@endfn
//@fn Interner::add utils/src/intern.rs impl:Interner<T>/add pub params=val fromfn=CHUNK_SIZE:Interned<T> methods=push->push@&mut~h.l;borrow->v_borrow;into->v_into;set_val->set_val@h calls=Self::find->Self::find@h;Self::incr_inner->Self::incr_inner@h;Interned::new_uninit->Interned::new_uninit@h;AddGuard::new->AddGuard::new@h ixcall=self.inner->v_index_c@h nowhere where=U:VInto<T>+VBorrow<V>,T:VBorrow<V>,V:VEqv+?Sized extra=h:&mut~Mem<T>
    requires self.wf(*old(h)), 32 * (old(h).l.nodes@.len() + 3) < usize::MAX, forall|a: int, b: int| inr(*old(h), a, b) ==> #[trigger] rc(*old(h), a, b) < usize::MAX,
    ensures self.wf(*final(h)), Self::added(*old(h), *final(h), val.key(), r.0 as int / 32, r.0 as int % 32),
//@entry
    let ghost h0 = *h;
    let ghost mut hb = *h;
    let ghost mut blk = Seq::<Interned<T>>::empty();
//@let _guard#0
    let ghost hl = *h;
    proof { lemma_cong(self.inner, h0, hl); }
    let ghost k = val.key();
    let ghost mut hg = *h;
//@let find#0
    proof {
        lemma_find(h0, hl, k);
        match find { Find::Exists(p) => { lemma_at(*self, h0, p.0 as int, p.1 as int); assert(rc(h0, p.0 as int, p.1 as int) < usize::MAX); assert(h.refs@[pc(*h, p.0 as int, p.1 as int).refs.k as int] < usize::MAX); } Find::Dead(p) => { lemma_at(*self, h0, p.0 as int, p.1 as int); assert(h.refs@[pc(*h, p.0 as int, p.1 as int).refs.k as int] == 0); } _ => {} }
    }
//@loop 0
    invariant __k0 <= 32, CHUNK_SIZE == 32, __b0@.len() == __k0, fresh(hl, *h, __b0@),
    decreases 32 - __k0,
//@after 0
    proof { hb = *h; blk = __b0@; }
//@let len#0
    proof { lemma_block(self.inner, hl, hb, *h, blk); hg = *h; }
//@tail
    let ghost hf = *h;
    let mut __g = _guard;
    __g.v_drop(h);
    proof {
        let (a, b) = (__ret.0 as int / 32, __ret.0 as int % 32);
        let l = self.inner;
        if hf.vals@ == hl.vals@ { lemma_slot(l, hg, *h, a, b, rc(hf, a, b), vl(hf, a, b)); } else { lemma_slot(l, hg, *h, a, b, rc(hf, a, b), vl(hf, a, b)); }
        lemma_added(*self, h0, hg, *h, k, a, b);
    }
//@endfn
//@fn Interner::refcount utils/src/intern.rs impl:Interner<T>/refcount pub params=offset ixcall=self.inner->v_index_c@h methods=load->v_load@h extra=h:&Mem<T>
    requires self.wf(*h),
    ensures offset.0 < 32 * h.l.nodes@.len(), r == rc(*h, offset.0 as int / 32, offset.0 as int % 32),
//@entry
    proof { if offset.0 < 32 * h.l.nodes@.len() { lemma_at(*self, *h, offset.0 as int / 32, offset.0 as int % 32); } }
//@endfn
//@fn Interner::try_get utils/src/intern.rs impl:Interner<T>/try_get pub params=offset ixcall=self.inner->v_index_c@h methods=load->v_load@h;val->v_val@h addgen='h extra=h:&'h~Mem<T> ret=Option<&'h~T>
    requires self.wf(*h),
    ensures offset.0 < 32 * h.l.nodes@.len(), r is Some == (rc(*h, offset.0 as int / 32, offset.0 as int % 32) > 0), r is Some ==> *r->0 == vl(*h, offset.0 as int / 32, offset.0 as int % 32)->0,
//@entry
    proof { if offset.0 < 32 * h.l.nodes@.len() { lemma_at(*self, *h, offset.0 as int / 32, offset.0 as int % 32); } }
//@endfn
//@fn Interner::get utils/src/intern.rs impl:Interner<T>/get pub params=offset methods=try_get->try_get@h addgen='h extra=h:&'h~Mem<T> ret=&'h~T unwrap
    requires self.wf(*h),
    ensures offset.0 < 32 * h.l.nodes@.len(), rc(*h, offset.0 as int / 32, offset.0 as int % 32) > 0, *r == vl(*h, offset.0 as int / 32, offset.0 as int % 32)->0,
//@unwrap 0
    rc(*h, offset.0 as int / 32, offset.0 as int % 32) > 0
//@endfn
}
pub proof fn lemma_at<T: VKey>(s: Interner<T>, h: Mem<T>, a: int, b: int)
    requires s.wf(h), inr(h, a, b),
    ensures pc(h, a, b).ok(h), rc(h, a, b) > 0 ==> vl(h, a, b) is Some,
{ assert(pc(h, a, b).ok(h)); assert(rc(h, a, b) >= 0); }
pub proof fn lemma_find<T: VKey>(h0: Mem<T>, h1: Mem<T>, key: int)
    requires h1.l == h0.l, h1.refs@ == h0.refs@, h1.vals@ == h0.vals@,
    ensures forall|a: int, b: int| #[trigger] holds(h0, a, b, key) == holds(h1, a, b, key),
{ assert forall|a: int, b: int| #[trigger] holds(h0, a, b, key) == holds(h1, a, b, key) by { assert(vl(h0, a, b) == vl(h1, a, b)); } }
pub proof fn lemma_only<T: VKey>(s: Interner<T>, h0: Mem<T>, h1: Mem<T>, a: int, b: int)
    requires s.wf(h0), inr(h0, a, b), h1.l == h0.l, h1.vals@ == h0.vals@, h1.lock == h0.lock, exists|x: usize| h1.refs@ == #[trigger] h0.refs@.update(pc(h0, a, b).refs.k as int, x), rc(h1, a, b) == 0 || vl(h0, a, b) is Some,
    ensures s.wf(h1), Interner::<T>::only(h0, h1, a, b),
{
    assert forall|c: int, d: int| inr(h0, c, d) && (c != a || d != b) implies #[trigger] rc(h1, c, d) == rc(h0, c, d) by { let _ = pc(h0, c, d); let _ = pc(h0, a, b); }
    assert forall|c: int, d: int| inr(h0, c, d) implies #[trigger] vl(h1, c, d) == vl(h0, c, d) by { }
    assert forall|c: int, d: int| inr(h1, c, d) && #[trigger] rc(h1, c, d) > 0 implies vl(h1, c, d) is Some by { let _ = rc(h0, c, d); }
    assert forall|c: int, d: int| inr(h1, c, d) implies (#[trigger] pc(h1, c, d)).ok(h1) by { let _ = pc(h0, c, d); }
    assert forall|a: int, b: int, c: int, d: int| inr(h1, a, b) && inr(h1, c, d) && (#[trigger] vl(h1, a, b)) is Some && (#[trigger] vl(h1, c, d)) is Some && (vl(h1, a, b)->0).key() == (vl(h1, c, d)->0).key() implies a == c && b == d by { let _ = vl(h0, a, b); let _ = vl(h0, c, d); }
    assert forall|a: int, b: int, c: int, d: int| inr(h1, a, b) && inr(h1, c, d) && (a != c || b != d) implies (#[trigger] pc(h1, a, b)).refs.k != (#[trigger] pc(h1, c, d)).refs.k && pc(h1, a, b).val.k != pc(h1, c, d).val.k by { let _ = pc(h0, a, b); let _ = pc(h0, c, d); }
}
/// one operation of one user: an add, or a count going up or down by one
pub open spec fn step<T: VKey>(h0: Mem<T>, h1: Mem<T>) -> bool {
    ||| exists|k: int, a: int, b: int| #[trigger] Interner::<T>::added(h0, h1, k, a, b)
    ||| exists|a: int, b: int| #[trigger] Interner::<T>::only(h0, h1, a, b)
}
/// over any history, a slot that stays live keeps the value it had
pub proof fn prop_live_stable<T: VKey>(s: Interner<T>, hs: Seq<Mem<T>>, a: int, b: int)
    requires hs.len() > 0, forall|i: int| 0 <= i < hs.len() ==> s.wf(#[trigger] hs[i]) && inr(hs[i], a, b) && rc(hs[i], a, b) > 0, forall|i: int, j: int| 0 <= i && j == i + 1 && j < hs.len() ==> step(#[trigger] hs[i], #[trigger] hs[j]),
    ensures vl(hs.last(), a, b) == vl(hs[0], a, b),
    decreases hs.len(),
{
    if hs.len() > 1 {
        let n = hs.len() - 2;
        assert forall|i: int| 0 <= i < hs.drop_last().len() implies s.wf(#[trigger] hs.drop_last()[i]) && inr(hs.drop_last()[i], a, b) && rc(hs.drop_last()[i], a, b) > 0 by { let _ = hs[i]; }
        assert forall|i: int, j: int| 0 <= i && j == i + 1 && j < hs.drop_last().len() implies step(#[trigger] hs.drop_last()[i], #[trigger] hs.drop_last()[j]) by { let _ = (hs[i], hs[j]); }
        prop_live_stable(s, hs.drop_last(), a, b);
        let (x, y) = (hs[n], hs[n + 1]);
        assert(step(x, y));
        if exists|c: int, d: int| #[trigger] Interner::<T>::only(x, y, c, d) {
            let (c, d) = choose|c: int, d: int| #[trigger] Interner::<T>::only(x, y, c, d);
            assert(vl(y, a, b) == vl(x, a, b));
        } else {
            let (k, c, d) = choose|k: int, c: int, d: int| #[trigger] Interner::<T>::added(x, y, k, c, d);
            assert(vl(y, a, b) == vl(x, a, b));
        }
    }
}
/// adding a live value gives its id; any other value gets an id no live value has
pub proof fn prop_add_id<T: VKey>(s: Interner<T>, h0: Mem<T>, h1: Mem<T>, key: int, a: int, b: int, c: int, d: int)
    requires s.wf(h0), s.wf(h1), Interner::<T>::added(h0, h1, key, a, b), inr(h0, c, d), rc(h0, c, d) > 0,
    ensures vl(h0, c, d) is Some, (vl(h0, c, d)->0).key() == key ==> (a, b) == (c, d) && rc(h1, c, d) == rc(h0, c, d) + 1,
        (vl(h0, c, d)->0).key() != key ==> (a, b) != (c, d) && rc(h1, c, d) == rc(h0, c, d) && vl(h1, c, d) == vl(h0, c, d),
{
    lemma_at(s, h0, c, d);
    if (vl(h0, c, d)->0).key() == key { assert(holds(h0, c, d, key)); assert(vl(h0, a, b) is Some); }
}
}
pub use intern::*;
fn main() {}
} // verus!
