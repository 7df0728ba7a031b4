// ROOTS: ndarray
// Assumed contracts on the crate ndarray (trusted). A matrix is a sequence of rows of equal length.
pub ghost struct Mat<T> { pub w: int, pub d: Seq<Seq<T>> }
impl<T> Mat<T> {
    pub open spec fn h(self) -> int { self.d.len() as int }
    pub open spec fn wf(self) -> bool { self.w >= 0 && forall|r: int| 0 <= r < self.d.len() ==> (#[trigger] self.d[r]).len() == self.w }
    pub open spec fn at(self, r: int, c: int) -> T { self.d[r][c] }
    pub open spec fn set(self, r: int, c: int, x: T) -> Mat<T> { Mat { w: self.w, d: self.d.update(r, self.d[r].update(c, x)) } }
    pub open spec fn with_row(self, r: int, v: Seq<T>) -> Mat<T> { Mat { w: self.w, d: self.d.update(r, v) } }
    pub open spec fn col(self, c: int) -> Seq<T> { Seq::new(self.d.len(), |r: int| self.d[r][c]) }
    pub open spec fn with_col(self, c: int, v: Seq<T>) -> Mat<T> { Mat { w: self.w, d: Seq::new(self.d.len(), |r: int| self.d[r].update(c, v[r])) } }
    // the leading h2 x w2 block, and the matrix with that block replaced
    pub open spec fn block(self, h2: int, w2: int) -> Mat<T> { Mat { w: w2, d: Seq::new(h2 as nat, |r: int| self.d[r].take(w2)) } }
    pub open spec fn rest_rows(self, h2: int) -> Mat<T> { Mat { w: self.w, d: self.d.skip(h2) } }
    pub open spec fn rest_cols(self, w2: int) -> Mat<T> { Mat { w: self.w - w2, d: Seq::new(self.d.len(), |r: int| self.d[r].skip(w2)) } }
    pub open spec fn put_block(self, b: Mat<T>) -> Mat<T> { Mat { w: self.w, d: Seq::new(self.d.len(), |r: int| if r < b.d.len() { b.d[r] + self.d[r].skip(b.w) } else { self.d[r] }) } }
    pub open spec fn same_dim<U>(self, o: Mat<U>) -> bool { self.w == o.w && self.d.len() == o.d.len() }
}
pub open spec fn rows_of<T>(s: Seq<T>, h: int, w: int) -> Mat<T> { Mat { w, d: Seq::new(h as nat, |r: int| s.subrange(r * w, (r + 1) * w)) } }
pub open spec fn cells_of<T>(m: Mat<T>) -> Seq<T> { Seq::new((m.h() * m.w) as nat, |i: int| m.at(i / m.w, i % m.w)) }
pub open spec fn mat_of<T>(s: Seq<T>, h: int, w: int) -> Mat<T> { Mat { w, d: Seq::new(h as nat, |r: int| Seq::new(w as nat, |c: int| s[r * w + c])) } }
pub open spec fn flat_rows<T>(d: Seq<Seq<T>>) -> Seq<T> decreases d.len() { if d.len() == 0 { seq![] } else { flat_rows(d.drop_last()) + d.last() } }
pub mod ndarray {
    use vstd::prelude::*;
    use crate::vx_core::*;
    use super::*;
    #[verifier::external_body]
    #[verifier::reject_recursive_types(S)]
    #[verifier::reject_recursive_types(D)]
    pub struct ArrayBase<S, D> { p: core::marker::PhantomData<(S, D)> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(A)]
    pub struct ViewRepr<A> { p: core::marker::PhantomData<A> }
    #[verifier::external_body]
    #[verifier::reject_recursive_types(A)]
    pub struct OwnedRepr<A> { p: core::marker::PhantomData<A> }
    pub struct Ix2(pub usize, pub usize);
    pub struct Ix1(pub usize);
    pub struct Axis(pub usize);
    pub struct Dim;
    pub struct ShapeError;
    pub type Ix = usize;
    pub type Array2<A> = ArrayBase<OwnedRepr<A>, Ix2>;
    pub type Array1<A> = ArrayBase<OwnedRepr<A>, Ix1>;
    pub type Array<A, D> = ArrayBase<OwnedRepr<A>, D>;
    pub type ArrayViewMut2<'a, A> = ArrayBase<ViewRepr<&'a mut A>, Ix2>;
    pub type ArrayViewMut1<'a, A> = ArrayBase<ViewRepr<&'a mut A>, Ix1>;
    // ---- owned matrices
    impl<T> View for ArrayBase<OwnedRepr<T>, Ix2> { type V = Mat<T>; uninterp spec fn view(&self) -> Mat<T>; }
    impl<T> View for ArrayBase<OwnedRepr<T>, Ix1> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    pub broadcast axiom fn ax_owned_wf<T>(a: ArrayBase<OwnedRepr<T>, Ix2>) ensures (#[trigger] a@).wf(), a@.h() <= usize::MAX, a@.w <= usize::MAX;
    impl<T> ArrayBase<OwnedRepr<T>, Ix2> {
        #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 as int == self@.h(), r.1 as int == self@.w { unimplemented!() }
        #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r as int == self@.h() { unimplemented!() }
        #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r as int == self@.w { unimplemented!() }
        // mapv: the cells in row order, and a matrix of the same shape made of new cells
        #[verifier::external_body] pub fn vx_cells(&self) -> (r: Vec<T>) ensures r@ == cells_of(self@) { unimplemented!() }
        #[verifier::external_body] pub fn vx_from_cells<U>(&self, c: Vec<U>) -> (r: ArrayBase<OwnedRepr<U>, Ix2>) requires c@.len() == self@.h() * self@.w ensures r@ == mat_of(c@, self@.h(), self@.w) { unimplemented!() }
        #[verifier::external_body] pub fn view_mut<'a>(&'a mut self) -> (r: ArrayBase<ViewRepr<&'a mut T>, Ix2>) ensures r.vw() == old(self)@, final(self)@ == r.fut() { unimplemented!() }
        #[verifier::external_body] pub fn from_shape_vec(shape: [usize; 2], v: Vec<T>) -> (r: Result<ArrayBase<OwnedRepr<T>, Ix2>, ShapeError>)
            ensures (r is Ok) == (v@.len() == shape@[0] * shape@[1]), r is Ok ==> r->Ok_0@ == rows_of(v@, shape@[0] as int, shape@[1] as int) { unimplemented!() }
        #[verifier::external_body] pub fn into_raw_vec(self) -> (r: Vec<T>) ensures r@ == flat_rows(self@.d) { unimplemented!() }
        #[verifier::external_body] pub fn vx_get<'a>(&'a self, i: Ix2) -> (r: Option<&'a T>)
            ensures (r is Some) == (i.0 < self@.h() && i.1 < self@.w), r is Some ==> *r->Some_0 == self@.at(i.0 as int, i.1 as int) { unimplemented!() }
    }
    impl<T> VxIter for ArrayBase<OwnedRepr<T>, Ix2> {
        type Elem = T;
        open spec fn iter_view(&self) -> Seq<T> { cells_of(self@) }
        #[verifier::external_body] fn vx_iter<'a>(&'a self) -> (r: Vec<&'a T>) { unimplemented!() }
    }
    impl<T> VxClone for ArrayBase<OwnedRepr<T>, Ix2> {
        open spec fn cloned(&self, r: Self) -> bool { r@ == self@ }
        #[verifier::external_body] fn vx_clone(&self) -> (r: Self) { unimplemented!() }
    }
    impl<T> ArrayBase<OwnedRepr<T>, Ix1> {
        #[verifier::external_body] pub fn from(v: Vec<T>) -> (r: ArrayBase<OwnedRepr<T>, Ix1>) ensures r@ == v@ { unimplemented!() }
        #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: ArrayBase<OwnedRepr<T>, Ix1>) ensures r@ == v@ { unimplemented!() }
        #[verifier::external_body] pub fn assign_to<'a>(&self, to: ArrayBase<ViewRepr<&'a mut T>, Ix1>) requires to.vw().len() == self@.len() ensures to.fut() == self@ { unimplemented!() }
    }
    // ---- mutable views: vw is the content now, fut the content when the view ends
    impl<'a, T> ArrayBase<ViewRepr<&'a mut T>, Ix1> {
        pub uninterp spec fn vw(&self) -> Seq<T>;
        pub uninterp spec fn fut(&self) -> Seq<T>;
        pub broadcast axiom fn ax_resolved1(s: ArrayBase<ViewRepr<&'a mut T>, Ix1>) ensures #[trigger] has_resolved(s) ==> s.fut() == s.vw();
        #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.vw().len() { unimplemented!() }
        #[verifier::external_body] pub fn vx_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vw() { unimplemented!() }
        #[verifier::external_body] pub fn assign(&mut self, from: &ArrayBase<OwnedRepr<T>, Ix1>) requires from@.len() == old(self).vw().len() ensures final(self).vw() == from@, final(self).fut() == old(self).fut() { unimplemented!() }
    }
    pub broadcast axiom fn ax_view1_dim<'a, T>(s: ArrayBase<ViewRepr<&'a mut T>, Ix1>) ensures (#[trigger] s.fut()).len() == s.vw().len();
    impl<'a, T> ArrayBase<ViewRepr<&'a mut T>, Ix2> {
        pub uninterp spec fn vw(&self) -> Mat<T>;
        pub uninterp spec fn fut(&self) -> Mat<T>;
        pub broadcast axiom fn ax_resolved2(s: ArrayBase<ViewRepr<&'a mut T>, Ix2>) ensures #[trigger] has_resolved(s) ==> s.fut() == s.vw();
        #[verifier::external_body] pub fn dim(&self) -> (r: (usize, usize)) ensures r.0 as int == self.vw().h(), r.1 as int == self.vw().w { unimplemented!() }
        #[verifier::external_body] pub fn nrows(&self) -> (r: usize) ensures r as int == self.vw().h() { unimplemented!() }
        #[verifier::external_body] pub fn ncols(&self) -> (r: usize) ensures r as int == self.vw().w { unimplemented!() }
        #[verifier::external_body] pub fn vx_get<'b>(&'b self, i: Ix2) -> (r: Option<&'b T>)
            ensures (r is Some) == (i.0 < self.vw().h() && i.1 < self.vw().w), r is Some ==> *r->Some_0 == self.vw().at(i.0 as int, i.1 as int) { unimplemented!() }
        #[verifier::external_body] pub fn get_mut<'b>(&'b mut self, i: Ix2) -> (r: Option<&'b mut T>)
            ensures (r is Some) == (i.0 < old(self).vw().h() && i.1 < old(self).vw().w),
                r is Some ==> *r->Some_0 == old(self).vw().at(i.0 as int, i.1 as int) && final(self).vw() == old(self).vw().set(i.0 as int, i.1 as int, *final(r->Some_0)),
                r is None ==> final(self).vw() == old(self).vw(),
                final(self).fut() == old(self).fut() { unimplemented!() }
        // the first part of split_at; the other part ends unchanged
        #[verifier::external_body] pub fn vx_split_first(self, axis: Axis, i: usize) -> (r: ArrayBase<ViewRepr<&'a mut T>, Ix2>)
            requires axis.0 < 2, i <= (if axis.0 == 0 { self.vw().h() } else { self.vw().w }),
            ensures r.vw() == (if axis.0 == 0 { self.vw().block(i as int, self.vw().w) } else { self.vw().block(self.vw().h(), i as int) }),
                self.fut() == self.vw().put_block(r.fut()) { unimplemented!() }
        #[verifier::external_body] pub fn vx_rows_mut_count(&self) -> (r: usize) ensures r as int == self.vw().h() { unimplemented!() }
        #[verifier::external_body] pub fn vx_columns_mut_count(&self) -> (r: usize) ensures r as int == self.vw().w { unimplemented!() }
        #[verifier::external_body] pub fn vx_rows_mut_at<'b>(&'b mut self, i: usize) -> (r: ArrayBase<ViewRepr<&'b mut T>, Ix1>)
            requires i < old(self).vw().h(),
            ensures r.vw() == old(self).vw().d[i as int], final(self).vw() == old(self).vw().with_row(i as int, r.fut()), final(self).fut() == old(self).fut() { unimplemented!() }
        #[verifier::external_body] pub fn vx_columns_mut_at<'b>(&'b mut self, i: usize) -> (r: ArrayBase<ViewRepr<&'b mut T>, Ix1>)
            requires i < old(self).vw().w,
            ensures r.vw() == old(self).vw().col(i as int), final(self).vw() == old(self).vw().with_col(i as int, r.fut()), final(self).fut() == old(self).fut() { unimplemented!() }
    }
    pub broadcast axiom fn ax_view2_wf<'a, T>(s: ArrayBase<ViewRepr<&'a mut T>, Ix2>) ensures (#[trigger] s.vw()).wf();
    pub broadcast axiom fn ax_view2_dim<'a, T>(s: ArrayBase<ViewRepr<&'a mut T>, Ix2>) ensures (#[trigger] s.fut()).wf(), s.fut().same_dim(s.vw());
    pub trait AssignElem<T>: Sized { fn assign_elem(self, x: T); }
    impl<'a, T> AssignElem<T> for &'a mut T {
        #[verifier::external_body] fn assign_elem(self, x: T) ensures *final(self) == x { unimplemented!() }
    }
}
pub broadcast group group_ndarray { ndarray::ax_owned_wf, ndarray::ax_view2_wf, ndarray::ax_view2_dim, ndarray::ax_view1_dim, ndarray::ArrayBase::ax_resolved1, ndarray::ArrayBase::ax_resolved2 }
