//! Opaque building blocks.  The analysis never looks into these bodies: every function in this module
//! is an uninterpreted operation of the user's types, so what is decided holds for every user type.
use core::cmp::Ordering;
use core::ops::*;
use num_traits::{Bounded, Num, One, Signed, Zero};
use rstar::*;

macro_rules! o {
    () => {
        loop {}
    };
}

/// An arbitrary scalar.
#[derive(Debug)]
pub struct S(());
impl Clone for S { fn clone(&self) -> S { o!() } }
impl Copy for S {}
impl PartialEq for S { fn eq(&self, _: &S) -> bool { o!() } fn ne(&self, _: &S) -> bool { o!() } }
impl PartialOrd for S {
    fn partial_cmp(&self, _: &S) -> Option<Ordering> { o!() }
    fn lt(&self, _: &S) -> bool { o!() }
    fn le(&self, _: &S) -> bool { o!() }
    fn gt(&self, _: &S) -> bool { o!() }
    fn ge(&self, _: &S) -> bool { o!() }
}
impl Add for S { type Output = S; fn add(self, _: S) -> S { o!() } }
impl Sub for S { type Output = S; fn sub(self, _: S) -> S { o!() } }
impl Mul for S { type Output = S; fn mul(self, _: S) -> S { o!() } }
impl Div for S { type Output = S; fn div(self, _: S) -> S { o!() } }
impl Rem for S { type Output = S; fn rem(self, _: S) -> S { o!() } }
impl Neg for S { type Output = S; fn neg(self) -> S { o!() } }
impl Zero for S { fn zero() -> S { o!() } fn is_zero(&self) -> bool { o!() } }
impl One for S { fn one() -> S { o!() } fn is_one(&self) -> bool { o!() } }
impl Num for S { type FromStrRadixErr = (); fn from_str_radix(_: &str, _: u32) -> Result<S, ()> { o!() } }
impl Signed for S {
    fn abs(&self) -> S { o!() }
    fn abs_sub(&self, _: &S) -> S { o!() }
    fn signum(&self) -> S { o!() }
    fn is_positive(&self) -> bool { o!() }
    fn is_negative(&self) -> bool { o!() }
}
impl Bounded for S { fn min_value() -> S { o!() } fn max_value() -> S { o!() } }

/// An arbitrary point type.
#[derive(Debug)]
pub struct Pt(());
impl Clone for Pt { fn clone(&self) -> Pt { o!() } }
impl PartialEq for Pt { fn eq(&self, _: &Pt) -> bool { o!() } }
impl Point for Pt {
    type Scalar = S;
    const DIMENSIONS: usize = 2;
    fn generate(_: impl FnMut(usize) -> S) -> Pt { o!() }
    fn nth(&self, _: usize) -> S { o!() }
    fn nth_mut(&mut self, _: usize) -> &mut S { o!() }
}

/// An arbitrary envelope type.
#[derive(Debug)]
pub struct Env(());
impl Clone for Env { fn clone(&self) -> Env { o!() } }
impl PartialEq for Env { fn eq(&self, _: &Env) -> bool { o!() } }
impl Envelope for Env {
    type Point = Pt;
    fn new_empty() -> Env { o!() }
    fn contains_point(&self, _: &Pt) -> bool { o!() }
    fn contains_envelope(&self, _: &Env) -> bool { o!() }
    fn merge(&mut self, _: &Env) { o!() }
    fn merged(&self, _: &Env) -> Env { o!() }
    fn intersects(&self, _: &Env) -> bool { o!() }
    fn intersection_area(&self, _: &Env) -> S { o!() }
    fn area(&self) -> S { o!() }
    fn distance_2(&self, _: &Pt) -> S { o!() }
    fn min_max_dist_2(&self, _: &Pt) -> S { o!() }
    fn center(&self) -> Pt { o!() }
    fn perimeter_value(&self) -> S { o!() }
    fn sort_envelopes<T: RTreeObject<Envelope = Env>>(_: usize, _: &mut [T]) { o!() }
    fn partition_envelopes<T: RTreeObject<Envelope = Env>>(_: usize, _: &mut [T], _: usize) { o!() }
}

/// An arbitrary object: neither `Clone` nor `Copy`, so that it cannot be duplicated.
#[derive(Debug)]
pub struct Obj(());
impl PartialEq for Obj { fn eq(&self, _: &Obj) -> bool { o!() } }
impl RTreeObject for Obj { type Envelope = Env; fn envelope(&self) -> Env { o!() } }
impl PointDistance for Obj {
    fn distance_2(&self, _: &Pt) -> S { o!() }
    fn contains_point(&self, _: &Pt) -> bool { o!() }
    fn distance_2_if_less_or_equal(&self, _: &Pt, _: S) -> Option<S> { o!() }
}

/// An object that can be cloned.
#[derive(Debug)]
pub struct Cop(());
impl Clone for Cop { fn clone(&self) -> Cop { o!() } }
impl RTreeObject for Cop { type Envelope = Env; fn envelope(&self) -> Env { o!() } }

/// An object that relies on the default methods of `PointDistance`.
#[derive(Debug)]
pub struct Def(());
impl RTreeObject for Def { type Envelope = Env; fn envelope(&self) -> Env { o!() } }
impl PointDistance for Def { fn distance_2(&self, _: &Pt) -> S { o!() } }

/// Arbitrary (verified) tree parameters.
pub struct Par;
impl Clone for Par { fn clone(&self) -> Par { o!() } }
impl RTreeParams for Par {
    const MIN_SIZE: usize = 3;
    const MAX_SIZE: usize = 6;
    const REINSERTION_COUNT: usize = 2;
    type DefaultInsertionStrategy = RStarInsertionStrategy;
}

/// An arbitrary selection function.
pub struct Sel(());
impl SelectionFunction<Obj> for Sel {
    fn should_unpack_parent(&self, _: &Env) -> bool { o!() }
    fn should_unpack_leaf(&self, _: &Obj) -> bool { o!() }
}

/// The value with which a visitor stops.
pub struct Brk(());

pub fn choice() -> bool { o!() }
/// The user received this object from a query.
pub fn yielded(_: &Obj) { o!() }
/// The user received this object, by value, from a removal.
pub fn taken(_: Obj) { o!() }
pub fn yielded_at(_: &Obj, _: &S) { o!() }
/// The answer to a yes or no question.
pub fn answer(_: bool) { o!() }
/// What the user got from a query with a visitor.
pub fn report(_: core::ops::ControlFlow<Brk>) { o!() }
pub fn pair(_: &Obj, _: &Obj) { o!() }
/// The size that a tree reports.
pub fn counted(_: usize) { o!() }
/// The user's visitor.
pub fn visit(_: &Obj) -> core::ops::ControlFlow<Brk> { o!() }

/// The analysis must be able to show that the argument is true.
pub fn check(_: bool) { o!() }
/// The analysis must be able to show that both scalars are equal.
pub fn same(_: S, _: S) { o!() }
/// The analysis must be able to show that both envelopes are the same.
pub fn same_env(_: Env, _: Env) { o!() }
/// Only states in which the argument is true are of interest.
pub fn given(_: bool) { o!() }
/// This object is the one at that place.
pub fn same_obj(_: &Obj, _: &Obj) { o!() }
/// An arbitrary coordinate for an index.
pub fn coord(_: usize) -> S { o!() }
/// Arbitrary payload.
#[derive(Debug)]
pub struct Dat(());
/// From here on both are the same object (the analysis substitutes one for the other).
pub fn given_same(_: &Obj, _: &Obj) { o!() }
