"""Writes properties.jsonl (kept as a script so that the statements stay readable)."""
import json
P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=['rstar/src/' + f for f in files], mechanism=[dict(name=n, where='rstar/src/' + w) for n, w in mech])))


IH = ['inputs', 'histories']
ANYT = 'every tree that any sequence of public operations can produce, every object type, envelope type and parameter set, every argument'
SAMPLE = 'The tests run a few hundred random points and small hand made trees; '

p('C01', 'Insertion adds exactly the given object and keeps every other one',
  'After inserting an object into a tree, the tree stores exactly the objects it stored before plus the inserted one: none is lost, duplicated or replaced, whatever splitting, reinsertion or growth the insertion triggers.',
  IH, ANYT, SAMPLE + 'a loss needs a particular combination of overflow, reinsertion and root split, for one of infinitely many trees.',
  ['algorithm/rstar.rs', 'rtree.rs'], [('insert', 'algorithm/rstar.rs'), ('recursive_insert / split / get_nodes_for_reinsertion', 'algorithm/rstar.rs')])
p('C02', 'Removal takes out exactly the selected objects and keeps all others',
  'Removing with a selection function takes out one selected object if there is one; a drain hands out every selected object exactly once and each handed out object has left the tree. All other objects stay, also when the drain is dropped half way; a drain that is leaked leaves a usable tree.',
  IH, ANYT + ', and every point at which the drain is stopped',
  SAMPLE + 'drains are stopped at a handful of points on fixed trees, and node removal on the way up depends on the exact shape.',
  ['algorithm/removal.rs', 'rtree.rs'], [('DrainIterator', 'algorithm/removal.rs'), ('remove_with_selection_function', 'rtree.rs')])
p('C03', 'The reported size is always the number of stored objects',
  'At every moment at which the user can look at a tree, its reported size is the number of objects stored in it, after every kind of construction, insertion and removal, finished or not.',
  IH, ANYT, SAMPLE + 'size is a separate counter that every one of these paths has to maintain.',
  ['rtree.rs', 'algorithm/removal.rs', 'algorithm/rstar.rs'], [('size', 'rtree.rs'), ('original_size / removed', 'algorithm/removal.rs')])
p('C04', 'Every inner node covers exactly its children',
  'In every tree a user can obtain, the envelope of every inner node is the union of the envelopes of its children, so that no stored object is hidden from a query by an ancestor that does not cover it.',
  IH, ANYT, SAMPLE + 'a stale envelope shows only for a query that touches the missing part.',
  ['node.rs', 'algorithm/rstar.rs', 'algorithm/removal.rs', 'algorithm/bulk_load/bulk_load_sequential.rs'],
  [('envelope_for_children', 'node.rs'), ('DrainIterator::pop_node', 'algorithm/removal.rs'), ('insert_by_children', 'algorithm/rstar.rs')])
p('C05', 'Bulk loading stores each given element exactly once',
  'A tree bulk loaded from any sequence of elements stores exactly these elements, each once, for every number of elements, every number of dimensions and every parameter set.',
  ['inputs', 'configurations'], 'every sequence of elements of every length, every parameter set', SAMPLE + 'the partitioning depends on roots and logarithms of the element count.',
  ['algorithm/bulk_load/bulk_load_sequential.rs', 'algorithm/bulk_load/cluster_group_iterator.rs'], [('bulk_load_recursive', 'algorithm/bulk_load/bulk_load_sequential.rs'), ('ClusterGroupIterator', 'algorithm/bulk_load/cluster_group_iterator.rs')])
p('C06', 'A located selection is exactly the set of selected objects',
  'Locating with a selection function yields every object for which the function accepts the object and all envelopes above it, each once and no other; this holds for shared and for mutable location, and for full iteration, which yields every stored object once.',
  IH, ANYT + ' and every selection function', SAMPLE + 'the traversals keep an explicit stack whose handling depends on the tree shape and on what the function answers on each level.',
  ['algorithm/iterators.rs', 'rtree.rs'], [('SelectionIterator', 'algorithm/iterators.rs'), ('SelectionIteratorMut', 'algorithm/iterators.rs')])
p('C07', 'Queries by envelope, point or distance never prune a matching object',
  'Each public query, built on a selection, decides a subtree by a test on its envelope that holds whenever the documented test holds for some object below it. So a query returns exactly the objects that satisfy its documented condition.',
  IH, ANYT + ', every query envelope, point and distance', SAMPLE + 'wrong pruning needs an object that is selected while an ancestor is just missed.',
  ['algorithm/selection_functions.rs', 'rtree.rs'], [('should_unpack_parent', 'algorithm/selection_functions.rs')])
p('C08', 'Relations between boxes and merging are exact',
  'For axis aligned boxes, containment of a point, containment of a box, intersection (symmetric, touching included) and merging agree with the coordinate wise definitions, for all boxes including degenerate ones; an empty box is neutral for merging and intersects nothing.',
  ['inputs'], 'all boxes and points over any totally ordered scalar type, in 2 and 3 dimensions', 'Tests compare a few concrete boxes; every relation has many orderings of the operands\' coordinates.',
  ['aabb.rs', 'point.rs'], [('Envelope for AABB', 'aabb.rs'), ('PointExt', 'point.rs')])
p('C09', 'Box metrics are exact',
  'For axis aligned boxes, area, perimeter value, intersection area, center, closest point, squared distance and the min-max distance bound equal their definitions in exact arithmetic, for every position of the boxes and points relative to each other; an empty box has area and perimeter value zero.',
  ['inputs'], 'all boxes and points over an ordered field, in 2 and 3 dimensions', 'Tests sample a few concrete boxes; the formulas branch on the ordering of coordinates.',
  ['aabb.rs', 'point.rs'], [('distance_2, min_max_dist_2, area, perimeter_value, intersection_area, center', 'aabb.rs')])
p('C10', 'Nearest neighbor iteration yields all objects in order of distance',
  'Iterating the nearest neighbors of a point yields every stored object exactly once and in nondecreasing order of its distance to the point; the variants with distances report the distance of the object.',
  IH, ANYT + ' and every query point', SAMPLE + 'order errors need particular ties between envelopes and objects.',
  ['algorithm/nearest_neighbor.rs', 'rtree.rs'], [('NearestNeighborDistance2Iterator', 'algorithm/nearest_neighbor.rs'), ('Ord for RTreeNodeDistanceWrapper', 'algorithm/nearest_neighbor.rs')])
p('C11', 'The nearest neighbor is a stored object that no other beats',
  'Asking for the nearest neighbor returns nothing exactly if the tree is empty, and otherwise a stored object to which no other stored object is closer; asking for all nearest neighbors returns every object at that distance and no other.',
  IH, ANYT + ' and every query point', SAMPLE + 'the branch and bound pruning depends on min-max distances of inner nodes.',
  ['algorithm/nearest_neighbor.rs', 'rtree.rs'], [('nearest_neighbor / nearest_neighbors', 'algorithm/nearest_neighbor.rs')])
p('C12', 'Intersection candidates are exactly the pairs with intersecting envelopes',
  'Intersecting two trees yields every pair of one object from each whose envelopes intersect, each pair once and no other, for trees of any shapes and heights.',
  IH, 'every pair of trees, object types, parameter sets', SAMPLE + 'the pairing of nodes of different heights has many cases.',
  ['algorithm/intersection_iterator.rs'], [('IntersectionIterator', 'algorithm/intersection_iterator.rs')])
p('C13', 'Sibling forms of one query agree',
  'The shared, mutable, visitor and draining form of one public query select the same objects: the same documented condition on the same argument, in every form.',
  ['inputs', 'programs'], 'every tree, argument and form of the query', 'Tests exercise some of the forms, on a few trees.',
  ['rtree.rs', 'algorithm/selection_functions.rs'], [('locate_*, drain_*, remove_*, *_int', 'rtree.rs')])
p('C14', 'Wrapping an object does not change how it is found',
  'An object wrapped in a reference wrapper, a cached envelope, a shared pointer or together with data has the same envelope, the same distances, the same distance test and the same containment of points as the object itself, and gives the object and the data back unchanged.',
  ['inputs', 'programs'], 'every object (also with its own, faster or looser, distance and containment methods), point and distance', 'Tests use points, whose methods all agree anyway; a wrapper that forwards to a default method shows only with an object that overrides it.',
  ['primitives/geom_with_data.rs', 'primitives/cached_envelope.rs', 'primitives/object_ref.rs', 'primitives/point_with_data.rs', 'object.rs'],
  [('PointDistance for GeomWithData, CachedEnvelope, ObjectRef, PointWithData', 'primitives/'), ('RTreeObject and PointDistance for Arc and Rc', 'object.rs')])
p('C15', 'Distance test and containment agree with the distance',
  'For points, and for every object that defines only its squared distance, the bounded distance test returns exactly the squared distance if it is at most the bound and nothing otherwise, and the object contains a point exactly if its squared distance to it is not positive (a point: if all coordinates are equal).',
  ['inputs', 'programs'], 'every object, point and bound; points in 2 and 3 dimensions over an ordered field', 'Tests sample a few points and hardly touch the bound itself.',
  ['object.rs', 'point.rs'], [('default methods of PointDistance', 'object.rs'), ('PointDistance for P: Point', 'object.rs')])
p('C16', 'Every point type agrees with itself on its coordinates',
  'For every point type the library provides (arrays, tuples up to ten, mint points), generating a point calls the function once per dimension in increasing order, the n-th coordinate reads back what was generated for n, and writing coordinate n changes that coordinate and no other.',
  ['inputs', 'configurations'], 'every provided point type and every index; arrays of 1, 2, 3 and 7 coordinates', 'The tests use two and three dimensional points; the tuple implementations up to ten are generated by a macro with an explicit index table.',
  ['point.rs', 'mint.rs'], [('Point for arrays and tuples', 'point.rs'), ('Point for mint points', 'mint.rs')])
p('C17', 'No tree exists with invalid parameters',
  'Every constructor of a tree (empty, default, and bulk loading of any sequence) rejects, by panicking, exactly the parameter sets with a minimum size of zero, a minimum above half the maximum (rounded up), a maximum below four, or a reinsertion count of at least maximum minus minimum, and the object types whose points have fewer than two dimensions. (Reading a serialised tree is not a constructor in this sense.)',
  ['configurations', 'programs'], 'every parameter set and object type, every constructor', 'Tests use a few valid parameter sets; a constructor without the check shows only with an invalid one.',
  ['params.rs', 'rtree.rs'], [('verify_parameters', 'params.rs'), ('new_from_bulk_loading / new_with_params', 'rtree.rs')])
p('C18', 'Serialised types keep all their fields',
  'With serialisation enabled, every stored field of the tree, its nodes, boxes and primitives is written and read under the same name; none is skipped, defaulted or renamed on one side only.',
  ['inputs', 'configurations'], 'every serialisable type of the library and every value of it', 'One test round-trips one small tree.',
  ['rtree.rs', 'node.rs', 'aabb.rs', 'primitives/'], [('serde derives', 'rtree.rs, node.rs, aabb.rs, primitives/')])
p('C19', 'The library is free of unsafe code and hidden sharing',
  'The crate contains no unsafe code and no interior mutability, and its trees and iterators can be sent to and shared between threads exactly as their contents can; concurrent readers of one tree cannot race.',
  ['schedules', 'programs'], 'every program that shares or sends trees and iterators', 'No test runs concurrently; data races do not show in single threaded runs.',
  ['lib.rs', 'rtree.rs', 'algorithm/iterators.rs', 'algorithm/removal.rs'], [('forbid(unsafe_code)', 'lib.rs'), ('auto traits', 'lib.rs')])
p('C20', 'Users can look at the inside of a tree but not change it',
  'Outside the crate nobody can obtain mutable access to nodes, child lists, node envelopes or the size of a tree, or build inner nodes or put nodes into a tree themselves; mutation is possible only through the operations of the tree.',
  ['programs'], 'every program using the public API', 'A test is itself a program that compiles; that others are rejected it cannot show.',
  ['rtree.rs', 'node.rs', 'lib.rs'], [('visibility of fields and methods', 'node.rs, rtree.rs')])
p('C21', 'Popping the nearest neighbor removes exactly it',
  'Popping the nearest neighbor of a point removes and returns one stored object to which no other stored object is closer, keeps all others, and returns nothing only if the tree is empty.',
  IH, ANYT + ' and every query point', SAMPLE + 'the removal identifies the object by comparison, which can hit another one.',
  ['rtree.rs', 'algorithm/selection_functions.rs'], [('pop_nearest_neighbor', 'rtree.rs'), ('SelectByObjRefFunction', 'algorithm/selection_functions.rs')])
p('C22', 'All objects of a tree lie at the same depth',
  'In every tree built by bulk loading and insertion, with removals in between, all leaves are at the same depth, which splitting and reinsertion rely on.',
  IH, ANYT, SAMPLE + 'an unbalanced tree shows only when a later insertion mixes leaves and inner nodes.',
  ['algorithm/rstar.rs', 'algorithm/bulk_load/bulk_load_sequential.rs', 'algorithm/removal.rs'], [('recursive_insert, split', 'algorithm/rstar.rs'), ('bulk_load_recursive', 'algorithm/bulk_load/bulk_load_sequential.rs')])
p('C23', 'No insertion leaves a node with more children than the configured maximum',
  'If no node of a tree holds more children than the maximum size of its parameters, then none does after an insertion either, whatever splitting and reinsertion it triggers. (Bulk loading chooses its own node sizes.)',
  IH, ANYT, SAMPLE + 'an overfull node shows only as a slow tree.',
  ['algorithm/rstar.rs'], [('resolve_overflow / split', 'algorithm/rstar.rs')])
p('C24', 'Operations on empty trees never fail',
  'Every public operation also works on empty trees and on trees emptied by removals: none panics, and each reports the absence of objects.',
  IH, 'every operation and every tree without objects, however it came to be empty', SAMPLE + 'emptied trees are used by few of them.',
  ['rtree.rs', 'algorithm/removal.rs', 'algorithm/nearest_neighbor.rs'], [('handling of the empty root', 'algorithm/')])
p('C29', 'Visitor queries stop at the first break and hand it on',
  'The visitor forms of the queries call the visitor once for each selected object until it breaks, do not call it again after that, and return the value of the break; without a break they visit every selected object.',
  IH, ANYT + ' and every visitor', SAMPLE + 'visitors that break in the middle of a deep tree are rare.',
  ['algorithm/iterators.rs', 'rtree.rs'], [('select_nodes, select_nodes_mut', 'algorithm/iterators.rs')])
p('C30', 'Constructed boxes are the tightest boxes around what they are built from',
  'A box made from corners, bounds, a point, a center and distance, or a collection of points has exactly the coordinate wise minimum and maximum of what it is made from as its corners; the box of no points is empty and contains no point, and no other box counts as empty.',
  ['inputs'], 'all points over any ordered scalar type, in 2 and 3 dimensions; collections of none and of three points', 'Tests use a few concrete points.',
  ['aabb.rs', 'envelope.rs'], [('from_corners, from_bounds, from_point, from_center, from_points, new_empty, is_empty', 'aabb.rs')])
p('C31', 'Rectangles and lines have exact envelopes, distances and nearest points',
  'For rectangles and lines, the envelope is the tightest box, the nearest point is the closest point of the shape, the squared distance is the squared distance to it, and a rectangle contains exactly the points within its bounds; a line whose ends coincide behaves as a point.',
  ['inputs'], 'all rectangles, lines and points over an ordered field, in 2 and 3 dimensions', 'Tests sample a few concrete shapes; the projection onto a line branches on the position of the point.',
  ['primitives/line.rs', 'primitives/rectangle.rs'], [('Line::nearest_point, project_point', 'primitives/line.rs'), ('Rectangle', 'primitives/rectangle.rs')])
p('C32', 'Consuming a tree lists every object once',
  'Turning a tree into an owning iterator yields every stored object exactly once, and what is not taken is dropped with it.',
  IH, ANYT, SAMPLE + 'the owning iterator is tested on one kind of tree.',
  ['algorithm/iterators.rs', 'rtree.rs'], [('IntoIter', 'algorithm/removal.rs'), ('IntoIterator for RTree', 'rtree.rs')])
p('C33', 'Containment and removal by value go by equality within the envelope',
  'A tree contains a value exactly if it stores an object equal to it; removing a value removes one stored object equal to it, if there is one, and otherwise changes nothing.',
  IH, ANYT + ' for which equal objects have equal envelopes', SAMPLE + 'a wrong selection shows only with several objects sharing an envelope.',
  ['rtree.rs', 'algorithm/selection_functions.rs'], [('contains, remove', 'rtree.rs'), ('SelectEqualsFunction', 'algorithm/selection_functions.rs')])
p('C34', 'No operation panics on a valid tree',
  'Applied to any tree that public operations can produce, with any arguments, no operation of the tree panics: no index is out of bounds, no unwrap fails and no unsigned number underflows. User supplied code, memory exhaustion and comparisons of unordered scalars (NaN) are excepted.',
  IH, ANYT, SAMPLE + 'a panic needs a shape of the tree that no test builds, such as a node with a single child.',
  ['algorithm/', 'rtree.rs'], [('insert, split, choose_subtree', 'algorithm/rstar.rs'), ('DrainIterator::pop_node', 'algorithm/removal.rs'), ('ClusterGroupIterator', 'algorithm/bulk_load/cluster_group_iterator.rs')])
p('C35', 'Mutable queries leave the tree as it is',
  'A query through an exclusive reference (the _mut forms, with iterators or visitors, finished or stopped early) hands out references to objects but leaves the tree itself as it was: the same objects, size, envelopes and heights.',
  IH, ANYT, SAMPLE + 'nothing in the types keeps these forms from restructuring the tree.',
  ['algorithm/iterators.rs', 'rtree.rs'], [('SelectionIteratorMut, select_nodes_mut', 'algorithm/iterators.rs')])
p('C36', 'A cloned tree holds the same objects',
  'Cloning a tree clones each stored object once and gives a valid tree with the same objects and the same size; the original is not changed.',
  IH, 'every tree over objects that can be cloned', SAMPLE + 'trees are hardly cloned in them.',
  ['rtree.rs', 'node.rs'], [('Clone for RTree', 'rtree.rs'), ('Clone for ParentNode, RTreeNode', 'node.rs')])
p('C40', 'Queries take logarithmic time on well separated data',
  'On a balanced tree with little overlap a query visits a number of nodes logarithmic in the number of objects, plus what it yields.',
  ['inputs', 'histories'], 'every tree and query', 'Tests do not measure time.', ['algorithm/'], [('R*-tree heuristics', 'algorithm/rstar.rs')])
p('C41', 'Floating point rounding never loses an object',
  'With floating point coordinates, rounding in box and distance computations never makes a query miss an object that satisfies its condition as computed.',
  ['inputs'], 'every floating point coordinate, including extremes and values that are not numbers', 'Tests use benign coordinates.', ['aabb.rs', 'algorithm/nearest_neighbor.rs'], [('distance_2 and min_max_dist_2', 'aabb.rs')])
p('C42', 'Serialised trees round-trip through every format',
  'Serialising a tree and reading it back through any data format gives a tree with the same objects and the same answers to all queries.',
  ['inputs', 'configurations'], 'every tree and data format', 'One test round-trips one small tree through one format.', ['rtree.rs'], [('serde derives', 'rtree.rs')])
p('C43', 'Nodes are split and chosen by the R*-tree criteria',
  'Insertion descends into the child with the least overlap or area enlargement and splits along the axis and at the position with the best perimeter and overlap, as published for the R*-tree.',
  ['inputs', 'histories'], 'every tree and inserted object', 'Tests look at the results of queries only.', ['algorithm/rstar.rs'], [('choose_subtree, get_split_axis', 'algorithm/rstar.rs')])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
