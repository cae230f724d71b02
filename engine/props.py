"""Which roots decide which property."""

CLAIMS = 'claims'
API = 'api'
PARAMS = 'params'
TREE = 'tree'

# id -> (kind, root prefix, what is shown)
PROPS = {
    'C01': (TREE, ('root_insert',), 'insertion into an arbitrary well-formed tree keeps every object and adds the given one, and leaves a well-formed tree'),
    'C02': (TREE, ('root_drain_', 'root_rm_'), 'removals and drains, stopped or leaked at any point, take out exactly the selected objects and keep the rest'),
    'C03': (TREE, ('root_size', 'root_new', 'root_default', 'root_bulk', 'root_insert', 'root_drain_', 'root_rm_', 'root_pop_nn'), 'the size field equals the number of stored objects after every operation, for arbitrary trees'),
    'C04': (TREE, ('root_new', 'root_default', 'root_bulk', 'root_insert', 'root_drain_', 'root_rm_', 'root_pop_nn'), 'after every operation the envelope of every node is the union of those of its children, for arbitrary trees'),
    'C05': (TREE, ('root_bulk',), 'bulk loading an arbitrary sequence stores exactly its elements, in a well-formed tree'),
    'C06': (TREE, ('root_sel', 'root_all_'), 'traversals yield exactly the selected objects, over arbitrary trees and selection functions'),
    'C07': (TREE, ('root_q_',), 'every query skips a subtree only after a test on its envelope that excludes all matches, and yields only matches'),
    'C08': (CLAIMS, 'root_c08_', 'AABB relations and merging, for every ordering of the coordinates of the operands'),
    'C09': (CLAIMS, 'root_c09_', 'AABB metrics, as polynomials in the coordinates for every ordering of the coordinates'),
    'C10': (TREE, ('root_nn_iter',), 'the iterator yields every stored object once, in the order of their distances, over arbitrary trees'),
    'C11': (TREE, ('root_nn_one', 'root_nn_all'), 'the nearest neighbors are stored objects that no other is closer than, and all of them'),
    'C12': (TREE, ('root_pairs',), 'an arbitrary pair of objects is handed out once if the envelopes intersect, and otherwise not, for arbitrary pairs of trees'),
    'C13': (TREE, ('root_q_', 'root_drain_q_', 'root_rm_q_'), 'every form of a query selects by its documented condition'),
    'C14': (CLAIMS, 'root_c14_', 'every wrapper answers exactly what the wrapped (uninterpreted) object answers'),
    'C15': (CLAIMS, 'root_c15_', 'the default methods of PointDistance, over an uninterpreted distance'),
    'C16': (CLAIMS, 'root_c16_', 'generate, nth and nth_mut of every Point implementation agree index by index'),
    'C17': (PARAMS, 'root_c17_', 'every constructor of a tree rejects exactly the invalid parameters'),
    'C18': (API, None, 'the code derived for writing and reading handles every field, under one name'),
    'C19': (API, None, 'no unsafe code, no interior mutability, and auto traits that follow from the contents'),
    'C20': (API, None, 'no function or field reachable from outside gives mutable access to nodes'),
    'C21': (TREE, ('root_pop_nn',), 'popping takes out one stored object that no other is closer than, and keeps the rest'),
    'C22': (TREE, ('root_new', 'root_default', 'root_bulk', 'root_insert', 'root_drain_', 'root_rm_', 'root_pop_nn'), 'after every operation all leaves lie at the same depth, for arbitrary trees'),
    'C23': (TREE, ('root_insert',), 'after an insertion no node has more children than the maximum, if none had before'),
    'C24': (TREE, ('root_sel', 'root_all', 'root_q_', 'root_drain_', 'root_rm_', 'root_nn_', 'root_pop_nn', 'root_insert', 'root_size', 'root_into_iter', 'root_pairs', 'root_new', 'root_default', 'root_void'), 'every operation on trees without objects, however they came to be empty'),
    'C29': (TREE, ('root_q_',), 'the visitor is called once per selected object until it breaks, and its break is handed on'),
    'C30': (CLAIMS, 'root_c30_', 'AABB constructors, for every ordering of the coordinates'),
    'C31': (CLAIMS, 'root_c31_', 'Rectangle and Line geometry, for every ordering of the coordinates'),
    'C32': (TREE, ('root_into_iter',), 'consuming a tree lists every object once'),
    'C33': (TREE, ('root_q_contains', 'root_rm_q_contains'), 'containment and removal by value, by equality below envelopes that contain that of the value'),
    'C35': (TREE, ('root_sel_mut', 'root_all_', 'root_q_'), 'after a query through an exclusive reference the tree has the objects, size, envelopes and heights it had'),
    'C36': (TREE, ('root_dup',), 'the clone of an arbitrary tree has its objects and size and is well-formed'),
    'C34': (TREE, ('root_sel', 'root_all', 'root_q_', 'root_drain_', 'root_rm_', 'root_nn_', 'root_pop_nn', 'root_insert', 'root_bulk', 'root_size', 'root_into_iter', 'root_pairs', 'root_new', 'root_default'),
            'no operation on any tree reaches a panic: no index out of bounds, failed unwrap or underflow'),
}
