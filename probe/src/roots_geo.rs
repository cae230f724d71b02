//! Boxes, points and primitives over an arbitrary ordered scalar, in two and three dimensions.
use crate::opq::*;
use num_traits::{Bounded, One, Zero};
use rstar::primitives::*;
use rstar::*;

fn mn(a: S, b: S) -> S { if a < b { a } else { b } }
fn mx(a: S, b: S) -> S { if a < b { b } else { a } }
fn sq(a: S) -> S { a * a }
/// Distance from x to the interval between p and q
fn gap(p: S, q: S, x: S) -> S {
    let (l, u) = (p, q);
    if x < l { l - x } else if u < x { x - u } else { S::zero() }
}
fn clamp(p: S, q: S, x: S) -> S {
    let (l, u) = (p, q);
    if x < l { l } else if u < x { u } else { x }
}

macro_rules! geometry {
    ($m:ident, $n:expr) => {
        pub mod $m {
            use super::*;
            type P = [S; $n];
            fn ordered(p: &P, q: &P) {
                let mut i = 0;
                while i < $n { given(!(q[i] < p[i])); i += 1; }
            }
            fn inside(p: &P, q: &P, x: &P) -> bool {
                let mut i = 0;
                while i < $n {
                    if x[i] < p[i] || q[i] < x[i] { return false; }
                    i += 1;
                }
                true
            }
            fn disjoint(a: &P, b: &P, c: &P, d: &P) -> bool {
                let mut i = 0;
                while i < $n {
                    if b[i] < c[i] || d[i] < a[i] { return true; }
                    i += 1;
                }
                false
            }
            fn same_p(a: &P, b: &P) {
                let mut i = 0;
                while i < $n {
                    same(a[i], b[i]);
                    i += 1;
                }
            }
            fn dist_2(p: &P, q: &P, x: &P) -> S {
                let mut s = S::zero();
                let mut i = 0;
                while i < $n {
                    s = s + sq(gap(p[i], q[i], x[i]));
                    i += 1;
                }
                s
            }
            fn dist_pt(p: &P, x: &P) -> S {
                let mut s = S::zero();
                let mut i = 0;
                while i < $n {
                    s = s + sq(p[i] - x[i]);
                    i += 1;
                }
                s
            }

            // ---- C30: constructors
            pub fn root_c30_from_corners(p: P, q: P) {
                let a = AABB::from_corners(p, q);
                let (l, u) = (a.lower(), a.upper());
                let mut i = 0;
                while i < $n {
                    same(l[i], mn(p[i], q[i]));
                    same(u[i], mx(p[i], q[i]));
                    i += 1;
                }
            }
            pub fn root_c30_from_bounds(p: P, q: P) {
                let mut i = 0;
                while i < $n { given(!(q[i] < p[i])); i += 1; }
                let a = AABB::from_bounds(p, q);
                same_p(&a.lower(), &p);
                same_p(&a.upper(), &q);
            }
            pub fn root_c30_from_point(p: P) {
                let a = AABB::from_point(p);
                same_p(&a.lower(), &p);
                same_p(&a.upper(), &p);
            }
            pub fn root_c30_from_center(p: P, d: S) {
                given(!(d < S::zero()));
                let a = AABB::from_center(p, d);
                let (l, u) = (a.lower(), a.upper());
                let mut i = 0;
                while i < $n {
                    same(l[i], p[i] - d);
                    same(u[i], p[i] + d);
                    i += 1;
                }
            }
            pub fn root_c30_from_points(p: P, q: P, r: P) {
                let a = AABB::from_points(&[p, q, r]);
                let (l, u) = (a.lower(), a.upper());
                let mut i = 0;
                while i < $n {
                    same(l[i], mn(mn(p[i], q[i]), r[i]));
                    same(u[i], mx(mx(p[i], q[i]), r[i]));
                    i += 1;
                }
            }
            pub fn root_c30_from_points_none() {
                let none: [P; 0] = [];
                let a = AABB::from_points(&none);
                check(a == AABB::new_empty());
                check(Envelope::is_empty(&a));
            }
            pub fn root_c30_new_empty(x: P) {
                let a: AABB<P> = Envelope::new_empty();
                check(a.is_empty());
                check(!a.contains_point(&x));
            }
            pub fn root_c30_point_envelope(p: P) {
                let a = p.envelope();
                same_p(&a.lower(), &p);
                same_p(&a.upper(), &p);
            }
            pub fn root_c30_is_empty(p: P, q: P) {
                check(!Envelope::is_empty(&AABB::from_corners(p, q)));
            }

            // ---- C08: relations between boxes
            pub fn root_c08_contains_point(p: P, q: P, x: P) {
                ordered(&p, &q);
                check(AABB::from_bounds(p, q).contains_point(&x) == inside(&p, &q, &x));
            }
            pub fn root_c08_contains_envelope(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                let mut spec = true;
                let mut i = 0;
                while i < $n {
                    if c[i] < a[i] || b[i] < d[i] { spec = false; }
                    i += 1;
                }
                check(AABB::from_bounds(a, b).contains_envelope(&AABB::from_bounds(c, d)) == spec);
            }
            pub fn root_c08_intersects(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                check(AABB::from_bounds(a, b).intersects(&AABB::from_bounds(c, d)) != disjoint(&a, &b, &c, &d));
            }
            pub fn root_c08_intersects_sym(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                let (x, y) = (AABB::from_bounds(a, b), AABB::from_bounds(c, d));
                check(x.intersects(&y) == y.intersects(&x));
            }
            pub fn root_c08_intersects_empty(a: P, b: P) {
                ordered(&a, &b);
                let mut i = 0;
                while i < $n { given(S::min_value() < a[i]); given(b[i] < S::max_value()); i += 1; }
                let e: AABB<P> = Envelope::new_empty();
                check(!AABB::from_bounds(a, b).intersects(&e));
                check(!e.intersects(&AABB::from_bounds(a, b)));
            }
            fn union_of(a: &P, b: &P, c: &P, d: &P, r: &AABB<P>) {
                let (l, u) = (r.lower(), r.upper());
                let mut i = 0;
                while i < $n {
                    same(l[i], mn(a[i], c[i]));
                    same(u[i], mx(b[i], d[i]));
                    i += 1;
                }
            }
            pub fn root_c08_merge(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                let mut r = AABB::from_bounds(a, b);
                r.merge(&AABB::from_bounds(c, d));
                union_of(&a, &b, &c, &d, &r);
            }
            pub fn root_c08_merged(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                let r = AABB::from_bounds(a, b).merged(&AABB::from_bounds(c, d));
                union_of(&a, &b, &c, &d, &r);
            }
            pub fn root_c08_merge_empty(a: P, b: P) {
                ordered(&a, &b);
                let x = AABB::from_bounds(a, b);
                let mut e: AABB<P> = Envelope::new_empty();
                let r = e.merged(&x);
                same_p(&r.lower(), &x.lower());
                same_p(&r.upper(), &x.upper());
                let r = x.merged(&e);
                same_p(&r.lower(), &x.lower());
                same_p(&r.upper(), &x.upper());
                e.merge(&x);
                same_p(&e.lower(), &x.lower());
                same_p(&e.upper(), &x.upper());
            }

            // ---- C09: metrics
            pub fn root_c09_distance_2(p: P, q: P, x: P) {
                ordered(&p, &q);
                let a = AABB::from_bounds(p, q);
                same(Envelope::distance_2(&a, &x), dist_2(&p, &q, &x));
                same(a.distance_2(&x), dist_2(&p, &q, &x));
            }
            pub fn root_c09_min_point(p: P, q: P, x: P) {
                ordered(&p, &q);
                let r = AABB::from_bounds(p, q).min_point(&x);
                let mut i = 0;
                while i < $n {
                    same(r[i], clamp(p[i], q[i], x[i]));
                    i += 1;
                }
            }
            pub fn root_c09_area(p: P, q: P) {
                ordered(&p, &q);
                let mut s = S::one();
                let mut i = 0;
                while i < $n { s = s * (q[i] - p[i]); i += 1; }
                same(AABB::from_bounds(p, q).area(), s);
            }
            pub fn root_c09_area_empty() {
                let e: AABB<P> = Envelope::new_empty();
                same(e.area(), S::zero());
            }
            pub fn root_c09_perimeter(p: P, q: P) {
                ordered(&p, &q);
                let mut s = S::zero();
                let mut i = 0;
                while i < $n { s = s + (q[i] - p[i]); i += 1; }
                same(AABB::from_bounds(p, q).perimeter_value(), s);
            }
            pub fn root_c09_perimeter_empty() {
                let e: AABB<P> = Envelope::new_empty();
                same(e.perimeter_value(), S::zero());
            }
            pub fn root_c09_intersection_area(a: P, b: P, c: P, d: P) {
                ordered(&a, &b);
                ordered(&c, &d);
                if $n == 3 { given(a[0] < c[0]); given(c[0] < b[0]); given(b[0] < d[0]); }
                let mut s = S::one();
                let mut i = 0;
                while i < $n {
                    let l = mx(a[i], c[i]);
                    let u = mn(b[i], d[i]);
                    s = s * if l < u { u - l } else { S::zero() };
                    i += 1;
                }
                same(AABB::from_bounds(a, b).intersection_area(&AABB::from_bounds(c, d)), s);
            }
            pub fn root_c09_center(p: P, q: P) {
                ordered(&p, &q);
                let two = S::one() + S::one();
                let r = AABB::from_bounds(p, q).center();
                let mut i = 0;
                while i < $n { same(r[i], (p[i] + q[i]) / two); i += 1; }
            }
            pub fn root_c09_min_max_dist_2(p: P, q: P, x: P) {
                ordered(&p, &q);
                // over all axes: nearer face on that axis, farther face on all others; the smallest of these
                let (mut total, mut gain) = (S::zero(), S::zero());
                let mut i = 0;
                while i < $n {
                    let (l, u) = (sq(p[i] - x[i]), sq(q[i] - x[i]));
                    let (near, far) = (mn(l, u), mx(l, u));
                    total = total + far;
                    gain = mx(gain, far - near);
                    i += 1;
                }
                same(AABB::from_bounds(p, q).min_max_dist_2(&x), total - gain);
            }

            // ---- C15 / C31: points and primitives
            pub fn root_c15_point(p: P, x: P, m: S) {
                let d = dist_pt(&p, &x);
                same(PointDistance::distance_2(&p, &x), d);
                match p.distance_2_if_less_or_equal(&x, m) {
                    Some(r) => { same(r, d); check(!(m < d)); }
                    None => check(m < d),
                }
            }
            pub fn root_c15_point_contains(p: P, x: P) {
                let mut eq = true;
                let mut i = 0;
                while i < $n { if p[i] != x[i] { eq = false; } i += 1; }
                check(p.contains_point(&x) == eq);
            }
            pub fn root_c31_rectangle(p: P, q: P) {
                let r = Rectangle::from_corners(p, q);
                let mut i = 0;
                while i < $n {
                    same(r.lower()[i], mn(p[i], q[i]));
                    same(r.upper()[i], mx(p[i], q[i]));
                    same(r.envelope().lower()[i], mn(p[i], q[i]));
                    same(r.envelope().upper()[i], mx(p[i], q[i]));
                    let s = Rectangle::from(AABB::from_corners(p, q));
                    same(s.lower()[i], mn(p[i], q[i]));
                    same(s.upper()[i], mx(p[i], q[i]));
                    i += 1;
                }
            }
            pub fn root_c31_rectangle_distance(p: P, q: P, x: P) {
                ordered(&p, &q);
                same(PointDistance::distance_2(&Rectangle::from_aabb(AABB::from_bounds(p, q)), &x), dist_2(&p, &q, &x));
            }
            pub fn root_c31_rectangle_distance_if(p: P, q: P, x: P, m: S) {
                ordered(&p, &q);
                let d = dist_2(&p, &q, &x);
                match Rectangle::from_aabb(AABB::from_bounds(p, q)).distance_2_if_less_or_equal(&x, m) {
                    Some(r) => { same(r, d); check(!(m < d)); }
                    None => check(m < d),
                }
            }
            pub fn root_c31_rectangle_contains(p: P, q: P, x: P) {
                ordered(&p, &q);
                check(Rectangle::from_aabb(AABB::from_bounds(p, q)).contains_point(&x) == inside(&p, &q, &x));
            }
            pub fn root_c31_rectangle_nearest(p: P, q: P, x: P) {
                ordered(&p, &q);
                let r = Rectangle::from_aabb(AABB::from_bounds(p, q)).nearest_point(&x);
                let mut i = 0;
                while i < $n { same(r[i], clamp(p[i], q[i], x[i])); i += 1; }
            }
            pub fn root_c31_line_envelope(p: P, q: P) {
                let e = Line::new(p, q).envelope();
                let mut i = 0;
                while i < $n {
                    same(e.lower()[i], mn(p[i], q[i]));
                    same(e.upper()[i], mx(p[i], q[i]));
                    i += 1;
                }
            }
            pub fn root_c31_line_length(p: P, q: P) {
                same(Line::new(p, q).length_2(), dist_pt(&p, &q));
            }
            fn line_point(p: &P, q: &P, x: &P) -> P {
                let (mut dot, mut len) = (S::zero(), S::zero());
                let mut i = 0;
                while i < $n {
                    dot = dot + (x[i] - p[i]) * (q[i] - p[i]);
                    len = len + sq(q[i] - p[i]);
                    i += 1;
                }
                let mut r = *p;
                if len == S::zero() { return r; }
                let s = dot / len;
                if s < S::zero() || s == S::zero() { return r; }
                if S::one() < s || S::one() == s { return *q; }
                let mut i = 0;
                while i < $n {
                    r[i] = p[i] + s * (q[i] - p[i]);
                    i += 1;
                }
                r
            }
            pub fn root_c31_line_nearest(p: P, q: P, x: P) {
                same_p(&Line::new(p, q).nearest_point(&x), &line_point(&p, &q, &x));
            }
            pub fn root_c31_line_distance(p: P, q: P, x: P) {
                same(PointDistance::distance_2(&Line::new(p, q), &x), dist_pt(&line_point(&p, &q, &x), &x));
            }
        }
    };
}
geometry!(d2, 2);
geometry!(d3, 3);

// ---- C16: every Point implementation agrees with itself on the order of its coordinates
macro_rules! point {
    ($m:ident, $t:ty, $n:expr) => {
        pub mod $m {
            use super::*;
            pub fn root_c16_generate() {
                check(<$t as Point>::DIMENSIONS == $n);
                let mut calls = 0;
                let p = <$t as Point>::generate(|i| { check(i == calls); calls += 1; coord(i) });
                check(calls == $n);
                let mut i = 0;
                while i < $n { same(p.nth(i), coord(i)); i += 1; }
            }
            pub fn root_c16_nth_mut() {
                let mut k = 0;
                while k < $n {
                    let mut p = <$t as Point>::generate(|i| coord(i));
                    *p.nth_mut(k) = coord(100);
                    let mut i = 0;
                    while i < $n {
                        if i == k { same(p.nth(i), coord(100)); } else { same(p.nth(i), coord(i)); }
                        i += 1;
                    }
                    k += 1;
                }
            }
        }
    };
}
point!(a1, [S; 1], 1);
point!(a2, [S; 2], 2);
point!(a3, [S; 3], 3);
point!(a7, [S; 7], 7);
point!(t1, (S,), 1);
point!(t2, (S, S), 2);
point!(t3, (S, S, S), 3);
point!(t4, (S, S, S, S), 4);
point!(t5, (S, S, S, S, S), 5);
point!(t6, (S, S, S, S, S, S), 6);
point!(t7, (S, S, S, S, S, S, S), 7);
point!(t8, (S, S, S, S, S, S, S, S), 8);
point!(t9, (S, S, S, S, S, S, S, S, S), 9);
point!(t10, (S, S, S, S, S, S, S, S, S, S), 10);
point!(m2, ::mint::Point2<S>, 2);
point!(m3, ::mint::Point3<S>, 3);
