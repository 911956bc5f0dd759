// The trusted shims for std and user code.
@prelude
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unused_parens, unused_braces, non_snake_case, unused_assignments, unused_labels, unreachable_code)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::range::*;
use std::cmp::Ordering;
use std::marker::PhantomData;
use std::ops::{Bound, RangeBounds};
verus! {
global size_of usize == 8;

// ---------- Box<dyn Error> ----------
#[derive(Clone, Copy)]
pub enum VErr { Compaction(CompactionErr), Other }
pub trait VpErr<E>: Sized { spec fn vp_errs(self) -> E; fn vp_err(self) -> (r: E) ensures r == self.vp_errs(); }
impl VpErr<VErr> for CompactionErr {
    open spec fn vp_errs(self) -> VErr { VErr::Compaction(self) }
    fn vp_err(self) -> (r: VErr) { VErr::Compaction(self) }
}
impl VpErr<VErr> for VErr {
    open spec fn vp_errs(self) -> VErr { self }
    fn vp_err(self) -> (r: VErr) { self }
}
impl VErr {
    pub fn vp_downcast(self) -> (r: Result<Box<CompactionErr>, VErr>)
        ensures self is Compaction ==> r is Ok && *r->Ok_0 == self->Compaction_0, self is Other ==> r is Err
    { match self { VErr::Compaction(c) => Ok(Box::new(c)), VErr::Other => Err(self) } }
}
pub enum ConfigError { InvalidConfig(VString) }
pub struct VString {}
pub fn vp_string() -> VString { VString {} }
pub trait VpToOwned { fn vp_to_owned(&self) -> VString; }
impl VpToOwned for str { #[verifier::external_body] fn vp_to_owned(&self) -> VString { unimplemented!() } }

// ---------- std shims (trusted contracts) ----------
pub trait VpClone: Sized { fn vp_clone(&self) -> (r: Self) ensures r == *self; }
impl<A: Clone> VpClone for A { #[verifier::external_body] fn vp_clone(&self) -> (r: Self) { unimplemented!() } }

// a panic on a failed storage call stops the server: nothing is claimed about what follows
pub trait VpExpectR<A>: Sized { spec fn vp_ok(&self) -> Option<A>; spec fn vp_must(&self) -> bool;
    fn vp_expect(self) -> (r: A) requires self.vp_must() ==> self.vp_ok() is Some, ensures self.vp_ok() == Some(r);
    fn vp_unwrap(self) -> (r: A) requires self.vp_must() ==> self.vp_ok() is Some, ensures self.vp_ok() == Some(r);
}
impl<A, E> VpExpectR<A> for Result<A, E> {
    open spec fn vp_ok(&self) -> Option<A> { match self { Ok(x) => Some(*x), Err(_) => None } }
    open spec fn vp_must(&self) -> bool { false }
    #[verifier::external_body] fn vp_expect(self) -> (r: A) { unimplemented!() }
    #[verifier::external_body] fn vp_unwrap(self) -> (r: A) { unimplemented!() }
}
impl<A> VpExpectR<A> for Option<A> {
    open spec fn vp_ok(&self) -> Option<A> { *self }
    open spec fn vp_must(&self) -> bool { true }
    fn vp_expect(self) -> (r: A) { self.unwrap() }
    fn vp_unwrap(self) -> (r: A) { self.unwrap() }
}
#[verifier::external_body]
pub fn vp_panic<A>() -> (r: A) requires false { unimplemented!() }
pub fn vp_assert(c: bool) requires c { }

pub trait VpTake: Sized { spec fn vp_empty(&self) -> bool; fn vp_take_(&mut self) -> (r: Self) ensures r == *old(self), final(self).vp_empty(); }
impl<A> VpTake for Vec<A> {
    open spec fn vp_empty(&self) -> bool { self@ == Seq::<A>::empty() }
    #[verifier::external_body] fn vp_take_(&mut self) -> (r: Self) { unimplemented!() } }
impl<A> VpTake for Option<A> {
    open spec fn vp_empty(&self) -> bool { *self == None::<A> }
    #[verifier::external_body] fn vp_take_(&mut self) -> (r: Self) { unimplemented!() } }
pub fn vp_take<A: VpTake>(x: &mut A) -> (r: A) ensures r == *old(x), final(x).vp_empty() { x.vp_take_() }

// additive machine arithmetic is treated as mathematical (indices, counters and ballot numbers do not wrap)
pub trait VpNum: Sized { spec fn vp_int(self) -> int; fn vp_add_(self, o: Self) -> (r: Self) ensures r.vp_int() == self.vp_int() + o.vp_int(); }
impl VpNum for usize { open spec fn vp_int(self) -> int { self as int } #[verifier::external_body] fn vp_add_(self, o: Self) -> (r: Self) { unimplemented!() } }
impl VpNum for u64 { open spec fn vp_int(self) -> int { self as int } #[verifier::external_body] fn vp_add_(self, o: Self) -> (r: Self) { unimplemented!() } }
impl VpNum for u32 { open spec fn vp_int(self) -> int { self as int } #[verifier::external_body] fn vp_add_(self, o: Self) -> (r: Self) { unimplemented!() } }
pub fn vp_add<A: VpNum>(a: A, b: A) -> (r: A) ensures r.vp_int() == a.vp_int() + b.vp_int() { a.vp_add_(b) }

pub assume_specification<A: std::cmp::Ord + std::marker::Destruct> [std::cmp::max](a: A, b: A) -> (r: A)
    ensures A::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { a } else { b });
pub assume_specification<A: std::cmp::Ord + std::marker::Destruct> [std::cmp::min](a: A, b: A) -> (r: A)
    ensures A::obeys_cmp_spec() ==> r == (if a.cmp_spec(&b) == Ordering::Greater { b } else { a });
pub assume_specification<A: std::cmp::PartialEq> [<[A]>::contains](s: &[A], x: &A) -> (r: bool)
    ensures A::obeys_eq_spec() ==> (r <==> exists|i: int| 0 <= i < s@.len() && (#[trigger] s@[i]).eq_spec(x));
#[verifier::external_body]
pub fn vp_vec_elem<A>(x: A, n: usize) -> (r: Vec<A>) ensures r@ == Seq::new(n as nat, |i: int| x) { unimplemented!() }

pub trait VpVec<A> {
    spec fn vp_seq(&self) -> Seq<A>;
    fn vp_extend(&mut self, o: Vec<A>) ensures final(self).vp_seq() == old(self).vp_seq() + o@;
    fn vp_extend_from_slice(&mut self, o: &[A]) ensures final(self).vp_seq() == old(self).vp_seq() + o@;
    fn vp_drain(&mut self, a: usize, b: usize) -> (r: Vec<A>)
        requires a <= b <= old(self).vp_seq().len(),
        ensures r@ == old(self).vp_seq().subrange(a as int, b as int),
                final(self).vp_seq() == old(self).vp_seq().take(a as int) + old(self).vp_seq().skip(b as int);
    fn vp_drain_from(&mut self, a: usize) -> (r: Vec<A>)
        requires a <= old(self).vp_seq().len(),
        ensures r@ == old(self).vp_seq().skip(a as int), final(self).vp_seq() == old(self).vp_seq().take(a as int);
    fn vp_get_range(&self, a: usize, b: usize) -> (r: Option<&[A]>)
        ensures a <= b <= self.vp_seq().len() ==> r is Some && r->Some_0@ == self.vp_seq().subrange(a as int, b as int),
                !(a <= b <= self.vp_seq().len()) ==> r is None;
    fn vp_get_from(&self, a: usize) -> (r: Option<&[A]>)
        ensures a <= self.vp_seq().len() ==> r is Some && r->Some_0@ == self.vp_seq().skip(a as int),
                a > self.vp_seq().len() ==> r is None;
}
impl<A> VpVec<A> for Vec<A> {
    open spec fn vp_seq(&self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vp_extend(&mut self, o: Vec<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_extend_from_slice(&mut self, o: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vp_drain(&mut self, a: usize, b: usize) -> (r: Vec<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_drain_from(&mut self, a: usize) -> (r: Vec<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_get_range(&self, a: usize, b: usize) -> (r: Option<&[A]>) { unimplemented!() }
    #[verifier::external_body] fn vp_get_from(&self, a: usize) -> (r: Option<&[A]>) { unimplemented!() }
}
pub trait VpSlice<A> { spec fn vp_sseq(&self) -> Seq<A>;
    fn vp_to_vec(&self) -> (r: Vec<A>) ensures r@ == self.vp_sseq();
    fn vp_iter_rev(&self) -> (r: Vec<&A>) ensures r@.len() == self.vp_sseq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vp_sseq()[r@.len() - 1 - i];
    fn vp_slice(&self, a: usize, b: usize) -> (r: &[A]) requires a <= b <= self.vp_sseq().len() ensures r@ == self.vp_sseq().subrange(a as int, b as int);
    fn vp_slice_to(&self, b: usize) -> (r: &[A]) requires b <= self.vp_sseq().len() ensures r@ == self.vp_sseq().take(b as int);
    fn vp_slice_from(&self, a: usize) -> (r: &[A]) requires a <= self.vp_sseq().len() ensures r@ == self.vp_sseq().skip(a as int);
}
impl<A> VpSlice<A> for [A] {
    open spec fn vp_sseq(&self) -> Seq<A> { self@ }
    #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<A>) { unimplemented!() }
    #[verifier::external_body] fn vp_iter_rev(&self) -> (r: Vec<&A>) { unimplemented!() }
    #[verifier::external_body] fn vp_slice(&self, a: usize, b: usize) -> (r: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vp_slice_to(&self, b: usize) -> (r: &[A]) { unimplemented!() }
    #[verifier::external_body] fn vp_slice_from(&self, a: usize) -> (r: &[A]) { unimplemented!() }
}
// a range tells its bounds
pub trait VpRange { spec fn vp_s(&self) -> Bound<&usize>; spec fn vp_e(&self) -> Bound<&usize>;
    fn vp_start_bound(&self) -> (r: Bound<&usize>) ensures r == self.vp_s();
    fn vp_end_bound(&self) -> (r: Bound<&usize>) ensures r == self.vp_e(); }
impl<R: RangeBounds<usize>> VpRange for R {
    open spec fn vp_s(&self) -> Bound<&usize> { self.spec_start_bound() }
    open spec fn vp_e(&self) -> Bound<&usize> { self.spec_end_bound() }
    #[verifier::external_body] fn vp_start_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
    #[verifier::external_body] fn vp_end_bound(&self) -> (r: Bound<&usize>) { unimplemented!() }
}
pub trait VpCopied<A> { fn vp_copied(self) -> Option<A>; }
impl<'a, A: Copy> VpCopied<A> for Option<&'a A> {
    fn vp_copied(self) -> (r: Option<A>) ensures self is None ==> r is None, self is Some ==> r == Some(*self->Some_0)
    { match self { Some(x) => Some(*x), None => None } }
}
} // verus!
@end
