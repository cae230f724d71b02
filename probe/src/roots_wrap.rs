//! Wrappers around an arbitrary object, and the default methods of the traits.
use crate::opq::*;
use num_traits::Zero;
use rstar::primitives::*;
use rstar::*;
use std::rc::Rc;
use std::sync::Arc;

fn alike<W: PointDistance<Envelope = Env>>(w: &W, o: &Obj, p: &Pt, m: S) {
    same_env(w.envelope(), o.envelope());
    same(w.distance_2(p), o.distance_2(p));
    check(w.contains_point(p) == o.contains_point(p));
    match (w.distance_2_if_less_or_equal(p, m), o.distance_2_if_less_or_equal(p, m)) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => (),
        _ => check(false),
    }
}
pub fn root_c14_geom_with_data(o: Obj, x: Obj, p: &Pt, m: S) {
    given_same(&o, &x);
    let w = GeomWithData::new(o, 7usize);
    alike(&w, &x, p, m);
    same_obj(w.geom(), &x);
    check(w.data == 7);
}
pub fn root_c14_cached_envelope(o: Obj, x: Obj, p: &Pt, m: S) {
    given_same(&o, &x);
    let w = CachedEnvelope::new(o);
    alike(&w, &x, p, m);
    same_obj(&w, &x);
}
pub fn root_c14_object_ref(o: Obj, p: &Pt, m: S) {
    let w = ObjectRef::new(&o);
    alike(&w, &o, p, m);
    same_obj(&w, &o);
}
pub fn root_c14_arc(o: Obj, x: Obj, p: &Pt, m: S) {
    given_same(&o, &x);
    alike(&Arc::new(o), &x, p, m);
}
pub fn root_c14_rc(o: Obj, x: Obj, p: &Pt, m: S) {
    given_same(&o, &x);
    alike(&Rc::new(o), &x, p, m);
}
#[allow(deprecated)]
pub fn root_c14_point_with_data(o: [S; 2], p: &[S; 2], m: S) {
    let w = PointWithData::new(7usize, o);
    check(w.data == 7);
    same(w.position()[0], o[0]);
    same(w.position()[1], o[1]);
    same(w.envelope().lower()[0], o[0]);
    same(w.envelope().lower()[1], o[1]);
    same(w.envelope().upper()[0], o[0]);
    same(w.envelope().upper()[1], o[1]);
    same(PointDistance::distance_2(&w, p), PointDistance::distance_2(&o, p));
    check(w.contains_point(p) == o.contains_point(p));
    match (w.distance_2_if_less_or_equal(p, m), o.distance_2_if_less_or_equal(p, m)) {
        (Some(a), Some(b)) => same(a, b),
        (None, None) => (),
        _ => check(false),
    }
}
/// An object with the default methods: at most the requested distance, and exactly the distance.
pub fn root_c15_default(o: &Def, p: &Pt, m: S) {
    let d = o.distance_2(p);
    match o.distance_2_if_less_or_equal(p, m) {
        Some(r) => { same(r, d); check(!(m < d)); }
        None => check(m < d),
    }
}
pub fn root_c15_default_contains(o: &Def, p: &Pt) {
    check(o.contains_point(p) == !(S::zero() < o.distance_2(p)));
}
