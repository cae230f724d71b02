//! C17: every way to create a tree.
use crate::opq::*;
use rstar::*;

pub fn root_c17_new() -> RTree<Obj> { RTree::new() }
pub fn root_c17_default() -> RTree<Obj, Par> { Default::default() }
pub fn root_c17_new_with_params() -> RTree<Obj, Par> { RTree::new_with_params() }
pub fn root_c17_bulk_load(els: Vec<Obj>) -> RTree<Obj> { RTree::bulk_load(els) }
pub fn root_c17_bulk_load_with_params(els: Vec<Obj>) -> RTree<Obj, Par> { RTree::bulk_load_with_params(els) }
