BASE_NOTE = ('Every obligation generated from /repo\'s current source is discharged for all inputs, sizes, positions and all '
             'outcomes of the allocator and of element copies, function by function, loops by inductive invariants. Assumes the '
             'environment contracts in DESIGN.md (element type, allocator), clang\'s IR, and the verifier in /verif/dv.')
VF = ['nestl/implementation/vector.hpp', 'nestl/detail/destroy.hpp', 'nestl/detail/uninitialised_copy.hpp', 'nestl/class_operations.hpp']
prop('C01', 'A vector is the sequence its operations say it is',
     'For every vector state and every argument, an operation that succeeds leaves exactly the documented sequence of values: insert, push_back, emplace_back, resize, assign, copy, swap, move and comparison behave as on an abstract sequence, also when the value passed refers to an element of the same vector. Size, capacity, iterators and element access agree with that sequence, and no reallocation happens while the capacity suffices.',
     ['inputs', 'histories'], 'all vector contents, sizes, capacities, positions, counts and argument aliasing; every public operation from every well-formed state',
     'The tests use a few fixed sizes of int vectors and never pass a reference to an element of the vector itself.',
     VF, [('insert_value shifts the tail and constructs in the gap', 'nestl/implementation/vector.hpp'), ('do_reserve copies into fresh storage before releasing the old one', 'nestl/implementation/vector.hpp')],
     note=BASE_NOTE)
prop('C02', 'Vector elements and storage live exactly as long as they should',
     'Every element a vector constructs is destroyed exactly once, no operation touches an element before its construction or after its destruction, and every block obtained from the allocator is returned exactly once with the size it was obtained with. This holds for every operation, successful or failed, and for destruction of the vector.',
     ['inputs', 'histories', 'fault_sequences'], 'all states and arguments, and every point at which the allocator or an element copy may fail',
     'The tests use trivially destructible ints, and failures are injected only by an allocator that always fails.',
     VF, [('destruction and deallocation guards', 'nestl/detail/destroy.hpp'), ('uninitialised_copy guard', 'nestl/detail/uninitialised_copy.hpp')],
     note=BASE_NOTE)
prop('C03', 'A failed vector operation is reported and leaves a usable vector',
     'A vector operation sets the error object if and only if the allocator or an element copy failed; a request that needs neither cannot fail. After a failure the vector is still well-formed: reserve, shrink and push_back leave the contents unchanged, insert keeps at least everything before the position, resize loses nothing, and assign leaves a prefix of the requested contents.',
     ['fault_sequences', 'inputs'], 'every failing allocation or element copy at every point of every operation',
     'The tests inject failure only with an allocator that always fails on an empty vector.',
     VF, [('early return on error before the state is changed', 'nestl/implementation/vector.hpp')], note=BASE_NOTE)

LF = ['nestl/implementation/list.hpp', 'nestl/detail/destroy.hpp', 'nestl/class_operations.hpp']
prop('C04', 'A list is the sequence its operations say it is, in both directions',
     'For every list and every argument, each operation that succeeds leaves exactly the documented sequence of values, and forward and backward traversal, size, empty, front and back agree with it. insert (one, n copies, a range), emplace, push and pop at both ends, erase (one or a range), clear, assign, copy, move, swap, comparison and splice (whole list, one element, a range, also within the same list) put the elements where documented and in the documented order; elements that are not removed stay in their nodes, so that iterators and references to them stay valid, and the returned iterator designates the documented element.',
     ['inputs', 'histories'], 'all list contents, lengths, positions, ranges and counts, from every well-formed state of one or two lists',
     'The tests use a few short lists of ints, never check backward links, and barely touch splice and range insertion.',
     LF, [('link surgery', 'nestl/implementation/list.hpp list_node_base::inject/remove/transfer/swap'), ('insert and splice wrappers', 'nestl/implementation/list.hpp')],
     note=BASE_NOTE)
prop('C05', 'Merging and sorting lists give an ordered, stable rearrangement',
     'merge of two ordered lists leaves the other list empty and this list ordered, holding exactly the nodes of both; sort leaves this list ordered, holding exactly its own nodes. No element is copied, moved, created or destroyed. Both are stable: equivalent elements keep their relative order, and in a merge those of this list come before those of the other. Holds for every strict weak ordering, with the default and with a given comparison, for every length.',
     ['inputs'], 'all pairs of ordered lists / all lists, all strict weak orderings on the values',
     'The tests sort a few small int lists, where stability is not observable.',
     LF, [('merge loop', 'nestl/implementation/list.hpp list::merge'), ('bottom-up merge sort with 64 bins', 'nestl/implementation/list.hpp list::sort')],
     note=BASE_NOTE + ' merge is proved; sort is checked by bounded execution of the real code only. The comparison is assumed to be a strict weak ordering.')
prop('C06', 'List nodes live exactly as long as they should, also when an operation fails',
     'Every node a list allocates holds one constructed element from insertion to removal; on removal or destruction of the list the element is destroyed exactly once and the node is returned exactly once to an allocator equal to the one it came from. If the allocator or an element copy fails, the operation reports it, leaks nothing and leaves a usable list: single insertions leave the list unchanged, a multi-element insertion keeps the old elements plus a prefix of the new ones in place, assign and copy leave a prefix of the requested contents. An operation that needs neither cannot fail.',
     ['fault_sequences', 'inputs', 'histories'], 'every failing allocation or element copy at every point, all list states and arguments, all allocator identities',
     'The tests use trivially destructible ints and an allocator that always fails, only on empty lists.',
     LF, [('node guard in create_node', 'nestl/implementation/list.hpp'), ('destroy_list_content', 'nestl/implementation/list.hpp')], note=BASE_NOTE)

TF = ['nestl/implementation/set.hpp', 'nestl/implementation/detail/red_black_tree.hpp', 'nestl/detail/destroy.hpp', 'nestl/class_operations.hpp']
SNOTE = BASE_NOTE + ' The element order is assumed to be a strict weak ordering, and the colour field of a node to hold a 32-bit value.'
prop('C07', 'A set is the ordered set of distinct elements its operations say it is',
     'For every set and every argument, insert adds the element exactly if no equal one is present and says which; find, erase (by iterator and by key), clear, copy, move construction and assignment, size and empty agree with the abstract set; erase by key says how many elements went. Iteration, forwards and backwards and from any position, visits exactly the elements, in strictly increasing order, and begin, end and the reverse iterators designate the documented positions. Elements that are not removed stay in their nodes, so iterators and references to them stay valid; erase returns nothing it should not, and a moved-from set is empty and usable.',
     ['inputs', 'histories'], 'all trees of any size and shape, all keys, every strict weak ordering, every operation from every well-formed state of one or two sets',
     'The tests insert a few ints and never remove anything or walk the tree backwards.',
     TF, [('link surgery and rebalancing', 'nestl/implementation/detail/red_black_tree.hpp rb_tree_insert_and_rebalance/rb_tree_rebalance_for_erase'), ('search for the insert position', 'nestl/implementation/detail/red_black_tree.hpp m_get_insert_unique_pos')], note=SNOTE)
prop('C08', 'The tree behind a set stays balanced',
     'After every operation the tree behind a set satisfies the red-black conditions: the root is black, no red node has a red child, and every path from a node down to a missing child passes the same number of black nodes. Hence the longest path is at most twice the shortest, and searching, inserting and removing take a number of comparisons logarithmic in the size, for every history of operations.',
     ['histories', 'inputs'], 'all trees of any size and shape and every insertion and removal, including all rebalancing cases on both sides',
     'The tests look only at the elements of sets of a few ints; a degenerate tree passes them all.',
     TF, [('rebalancing after insertion', 'nestl/implementation/detail/red_black_tree.hpp rb_tree_insert_and_rebalance'), ('rebalancing after removal', 'nestl/implementation/detail/red_black_tree.hpp rb_tree_rebalance_for_erase'), ('structural copy', 'nestl/implementation/detail/red_black_tree.hpp m_copy')], note=SNOTE)
prop('C09', 'Set nodes live exactly as long as they should, also when an operation fails',
     'Every node a set allocates holds one constructed element from insertion to removal; on removal, clear, copying over or destruction the element is destroyed exactly once and the node is returned exactly once to an allocator equal to the one it came from. If the allocator or an element copy fails, insert and copy report it, leak nothing and leave a usable set: a failed insertion leaves the set unchanged, a failed copy leaves it empty. An operation that needs neither cannot fail.',
     ['fault_sequences', 'inputs', 'histories'], 'every failing allocation or element copy at every point, all trees and arguments, all allocator identities',
     'The tests use trivially destructible ints and an allocator that always fails, only on empty sets.',
     TF, [('node guard in m_create_node', 'nestl/implementation/detail/red_black_tree.hpp'), ('guard of the half-copied tree in m_copy', 'nestl/implementation/detail/red_black_tree.hpp')], note=SNOTE)

SF = ['nestl/implementation/shared_ptr.hpp', 'nestl/detail/destroy.hpp', 'nestl/class_operations.hpp']
prop('C10', 'A shared object lives exactly as long as a shared_ptr owns it',
     'For every history of constructing, copying, converting, moving, assigning, swapping, resetting and destroying shared_ptr objects, the owned value is destroyed exactly once, at the moment the last owner goes away, and never while an owner exists; the storage is returned to the allocator it came from once no shared_ptr and no weak_ptr refers to it. get, operator*, use_count, unique and the bool conversion report exactly the current ownership. This also holds for self-assignment, for a value whose destructor releases a weak_ptr to itself, and for assignment from a shared_ptr that lives inside the object being released.',
     ['histories', 'inputs'], 'every combination of counts and of argument pointers (null, equal, distinct, self, nested in the pointee) before every operation',
     'The tests run a handful of fixed histories on ints, whose destruction is not observable.',
     SF, [('use count and weak count of the control block', 'nestl/implementation/shared_ptr.hpp shared_count_base'), ('release destroys the value while holding a weak reference', 'nestl/implementation/shared_ptr.hpp')],
     note=BASE_NOTE + ' Counters are assumed to stay below 2^62 and use is single-threaded.')
prop('C11', 'A weak_ptr observes without owning and never revives a dead object',
     'A weak_ptr never keeps the value alive. use_count and expired always tell the number of owners of the value it was made from, also after the value died; lock yields an owner of exactly that value when it is still alive and an empty shared_ptr otherwise. Construction, copy, move, assignment (including self-assignment), reset and destruction of weak_ptr keep the control block alive exactly while some pointer still refers to it.',
     ['histories', 'inputs'], 'every combination of use and weak counts and of argument pointers before every operation',
     'The tests exercise only a few live/expired states with ints and never observe the control block.',
     SF, [('weak count keeps the control block', 'nestl/implementation/shared_ptr.hpp weak_ptr'), ('lock tests expired()', 'nestl/implementation/shared_ptr.hpp')],
     note=BASE_NOTE + ' Counters are assumed to stay below 2^62 and use is single-threaded.')
prop('C12', 'make_shared yields one owner of the requested value, or an error and nothing',
     'make_shared_a_nothrow either returns a shared_ptr that is the only owner of a value constructed from the arguments, stored in a block obtained from the allocator it was given (with a copy of that allocator kept to return the block), or sets the error, returns an empty shared_ptr and leaves no object, no allocator copy and no storage behind, wherever the failure happened.',
     ['fault_sequences', 'inputs'], 'every point at which allocation or construction may fail, for every allocator',
     'The tests never make the value construction fail and use the default stateless allocator.',
     SF, [('deallocation and destruction guards in make_shared_a_nothrow', 'nestl/implementation/shared_ptr.hpp')], note=BASE_NOTE)
