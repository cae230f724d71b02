use crate::opq::*;
use core::ops::ControlFlow;
use rstar::*;

pub type Tree = RTree<Obj, Par>;

pub fn root_new() -> Tree { RTree::new_with_params() }
pub fn root_default() -> Tree { Default::default() }
pub fn root_insert(tree: &mut Tree, t: Obj) { tree.insert(t); }
pub fn root_bulk(els: Vec<Obj>) -> Tree { RTree::bulk_load_with_params(els) }
pub fn root_size(tree: &Tree) { counted(tree.size()) }
pub fn root_into_iter(tree: Tree) {
    let mut it = tree.into_iter();
    while let Some(t) = it.next() { taken(t); }
    // nothing comes after the end
    if let Some(t) = it.next() { taken(t); }
}

pub fn root_sel(tree: &Tree, f: Sel) {
    let mut it = tree.locate_with_selection_function(f);
    while let Some(t) = it.next() { yielded(t); }
    if let Some(t) = it.next() { yielded(t); }
}
pub fn root_sel_mut(tree: &mut Tree, f: Sel) {
    let mut it = tree.locate_with_selection_function_mut(f);
    while let Some(t) = it.next() { yielded(t); }
}
pub fn root_drain_sel(tree: &mut Tree, f: Sel) {
    let mut it = tree.drain_with_selection_function(f);
    while let Some(t) = it.next() { taken(t); }
    if let Some(t) = it.next() { taken(t); }
}
pub fn root_drain_sel_some(tree: &mut Tree, f: Sel) {
    let mut it = tree.drain_with_selection_function(f);
    loop {
        if choice() { break; }
        match it.next() { Some(t) => taken(t), None => break }
    }
}

macro_rules! each {
    ($e:expr) => {{
        let mut it = $e;
        while let Some(t) = it.next() { yielded(t); }
        if let Some(t) = it.next() { yielded(t); }
    }};
}

pub fn root_all_iter(tree: &Tree) { each!(tree.iter()) }
pub fn root_all_iter_mut(tree: &mut Tree) { each!(tree.iter_mut()) }
pub fn root_all_ref(tree: &Tree) { each!(tree.into_iter()) }
pub fn root_all_ref_mut(tree: &mut Tree) { each!(tree.into_iter()) }

pub fn root_q_in_env(tree: &Tree, e: Env) { each!(tree.locate_in_envelope(e)) }
pub fn root_q_in_env__mut(tree: &mut Tree, e: Env) { each!(tree.locate_in_envelope_mut(e)) }
pub fn root_q_isect_env(tree: &Tree, e: Env) { each!(tree.locate_in_envelope_intersecting(e)) }
pub fn root_q_isect_env__mut(tree: &mut Tree, e: Env) { each!(tree.locate_in_envelope_intersecting_mut(e)) }
pub fn root_q_all_at_point(tree: &Tree, p: Pt) { each!(tree.locate_all_at_point(p)) }
pub fn root_q_all_at_point__mut(tree: &mut Tree, p: Pt) { each!(tree.locate_all_at_point_mut(p)) }
pub fn root_q_at_point(tree: &Tree, p: Pt) { if let Some(t) = tree.locate_at_point(p) { yielded(t); } }
pub fn root_q_at_point__mut(tree: &mut Tree, p: Pt) { if let Some(t) = tree.locate_at_point_mut(p) { yielded(t); } }
pub fn root_q_near(tree: &Tree, p: Pt, d: S) { each!(tree.locate_within_distance(p, d)) }
pub fn root_q_contains(tree: &Tree, t: &Obj) { answer(tree.contains(t)) }

// the visitor forms
pub fn root_q_in_env__int(tree: &Tree, e: Env) { report(tree.locate_in_envelope_int(e, |t| visit(t))) }
pub fn root_q_in_env__intmut(tree: &mut Tree, e: Env) { report(tree.locate_in_envelope_int_mut(e, |t| visit(t))) }
pub fn root_q_isect_env__int(tree: &Tree, e: Env) { report(tree.locate_in_envelope_intersecting_int(e, |t| visit(t))) }
pub fn root_q_isect_env__intmut(tree: &mut Tree, e: Env) { report(tree.locate_in_envelope_intersecting_int_mut(e, |t| visit(t))) }
pub fn root_q_all_at_point__int(tree: &Tree, p: Pt) { report(tree.locate_all_at_point_int(p, |t| visit(t))) }
pub fn root_q_all_at_point__intmut(tree: &mut Tree, p: Pt) { report(tree.locate_all_at_point_int_mut(p, |t| visit(t))) }
pub fn root_q_at_point__int(tree: &Tree, p: Pt) { if let Some(t) = tree.locate_at_point_int(p) { yielded(t); } }
pub fn root_q_at_point__intmut(tree: &mut Tree, p: Pt) { if let Some(t) = tree.locate_at_point_int_mut(p) { yielded(t); } }

// removals
macro_rules! take_each {
    ($e:expr) => {{
        let mut it = $e;
        while let Some(t) = it.next() { taken(t); }
    }};
}
macro_rules! take_one {
    ($e:expr) => { if let Some(t) = $e { taken(t); } };
}
pub fn root_drain_leak(tree: &mut Tree, f: Sel) {
    let mut it = tree.drain_with_selection_function(f);
    loop {
        if choice() { break; }
        match it.next() { Some(t) => taken(t), None => break }
    }
    core::mem::forget(it);
}
pub fn root_drain_all(tree: &mut Tree) { take_each!(tree.drain()) }
pub fn root_drain_q_in_env(tree: &mut Tree, e: Env) { take_each!(tree.drain_in_envelope(e)) }
pub fn root_drain_q_isect_env(tree: &mut Tree, e: Env) { take_each!(tree.drain_in_envelope_intersecting(e)) }
pub fn root_drain_q_near(tree: &mut Tree, p: Pt, d: S) { take_each!(tree.drain_within_distance(p, d)) }
pub fn root_rm_sel(tree: &mut Tree, f: Sel) { take_one!(tree.remove_with_selection_function(f)) }
pub fn root_rm_q_contains(tree: &mut Tree, t: &Obj) { take_one!(tree.remove(t)) }
pub fn root_rm_q_at_point(tree: &mut Tree, p: Pt) { take_one!(tree.remove_at_point(p)) }

// nearest neighbours
macro_rules! each_at {
    ($e:expr) => {{
        let mut it = $e;
        while let Some((t, d)) = it.next() { yielded_at(t, &d); }
    }};
}
pub fn root_nn_iter(tree: &Tree, p: Pt) { each!(tree.nearest_neighbor_iter(p)) }
pub fn root_nn_iter__d(tree: &Tree, p: Pt) { each_at!(tree.nearest_neighbor_iter_with_distance(p)) }
pub fn root_nn_iter__d2(tree: &Tree, p: Pt) { each_at!(tree.nearest_neighbor_iter_with_distance_2(p)) }
pub fn root_nn_one(tree: &Tree, p: Pt) { if let Some(t) = tree.nearest_neighbor(p) { yielded(t); } }
pub fn root_nn_one__d2(tree: &Tree, p: Pt) { if let Some((t, d)) = tree.nearest_neighbor_with_distance_2(p) { yielded_at(t, &d); } }
pub fn root_nn_all(tree: &Tree, p: &Pt) { each!(tree.nearest_neighbors(p).into_iter()) }
pub fn root_nn_all__d2(tree: &Tree, p: &Pt) {
    if let Some((v, d)) = tree.nearest_neighbors_with_distance_2(p) {
        let mut it = v.into_iter();
        while let Some(t) = it.next() { yielded_at(t, &d); }
    }
}
pub fn root_pop_nn(tree: &mut Tree, p: Pt) { take_one!(tree.pop_nearest_neighbor(p)) }

pub fn root_void_bulk() -> Tree { RTree::bulk_load_with_params(Vec::new()) }

// pairs
pub fn root_pairs(tree: &Tree, other: &RTree<Obj>) {
    let mut it = tree.intersection_candidates_with_other_tree(other);
    while let Some((a, b)) = it.next() { pair(a, b); }
    if let Some((a, b)) = it.next() { pair(a, b); }
}

// copies
pub fn root_dup(tree: &RTree<Cop, Par>) -> RTree<Cop, Par> { tree.clone() }
