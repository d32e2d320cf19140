#!/usr/bin/env python3
"""writes properties.jsonl"""
import json, os
P = []
def p(id, title, st, over, q, why, files, mech, obs=None):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': st, 'quantifier': {'over': over, 'text': q}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': obs or ['public API'], 'hook_needed': None}})

RZ, TC, LT, AS, ST, ME, SK = 'src/raz.rs', 'src/tree_cursor.rs', 'src/level_tree.rs', 'src/archive_stack.rs', 'src/stack.rs', 'src/raz_meta.rs', 'src/skiplist.rs'

p('C01', 'Raz cursor edits behave as edits of a list with a cursor',
  'Starting from any sequence and any cursor position, any mix of push, pop, peek and archive on either side returns exactly what the same edits of a plain list with a cursor return: pops and peeks give the neighbouring element (None only when that side is exhausted), crossing archive points and stored tree data, and peek changes nothing. A push returns the number of elements on that side since its last archive point. It holds with and without archive names, under the from-scratch engine and under the dependency-graph engine, and no operation panics.',
  ['inputs', 'histories', 'configurations'], 'every tree shape (archive levels), cursor position, element values, operation sequence, named or unnamed archives, both engines',
  'The tests run five fixed edit scripts with fixed levels; the code that runs depends on the relative order of levels, on the cursor position relative to leaf boundaries, and on the order of operations.',
  [RZ, AS, TC], [('Raz::{push,pop,peek,archive}_{left,right}', RZ), ('AStack::{pop,peek,archive}', AS), ('Cursor::{down_left_force,down_right_force,up}', TC)])
p('C02', 'Unfocusing loses, duplicates and reorders nothing',
  'Unfocusing a cursor yields a tree whose elements, left to right, are exactly the elements left of the cursor followed by those right of it, and the tree is empty exactly when there are none. This holds through any number of rounds of focusing anywhere, editing, and unfocusing, with archive points of any levels at any places, named or not, under both engines.',
  ['inputs', 'histories', 'configurations'], 'every tree shape, every focus position, every edit script, every archive level, any number of rounds, both engines',
  'The tests unfocus a handful of hand-built sequences; the joins done depend on the order relation of all archive levels and on which of the four cursor parts are empty.',
  [RZ, TC], [('Raz::unfocus', RZ), ('Cursor::join', TC), ('Cursor::up', TC)])
p('C03', 'Focusing by index lands exactly there, and only there',
  'Focusing a sequence of n elements at index i (0 <= i <= n) gives a cursor with exactly i elements to its left and n-i to its right; the largest index value means the end, and focus_left means the beginning. An index above n never yields a cursor on a sequence with elements (it gives None, or panics when all elements are in one leaf), and an empty sequence focuses at any index.',
  ['inputs', 'histories'], 'every tree shape (archive levels, leaf sizes), every index including those out of range and those on leaf boundaries',
  'Tests focus on five indices of a fixed tree; boundaries between leaves, both ends, and the out-of-range values of every subtree are not exercised for other shapes.',
  [RZ, ME, TC], [('RazTree::focus, focus_left', RZ), ('Count::navigate, split_vec', ME), ('Cursor::split', TC)])
p('C04', 'Archive points keep their place, level and name',
  'After unfocusing, every archive point that was set and not consumed by a pop, and that has elements on both sides, is found at the same place in the sequence with its level, and with its name if it has one (a tree shows the name given to archive as that name paired with "tree"; a name already in the tree stays as it is); where edits made several archive points adjacent, exactly one of them remains, and there are no others. Refocusing and unfocusing without edits changes no element, archive point, level or name.',
  ['inputs', 'histories', 'configurations'], 'every tree shape, focus position and edit script, named and unnamed, both engines',
  'Tests look at names and levels of two fixed trees only; which node a name ends up on depends on the join order, hence on the levels and on the cursor position.',
  [RZ, TC, AS], [('Raz::unfocus', RZ), ('Cursor::join', TC), ('AStack::name, next_archive', AS)])
p('C05', 'Trees are canonical: the levels alone determine the structure',
  'In every tree obtained by editing and unfocusing, the archive points, one for each place between elements where any were made, form a binary tree in which each left subtree has strictly lower levels than its node and each right subtree has levels no higher, with non-empty leaves. Hence sequences with the same archive levels have the same structure, whatever order the edits were made in.',
  ['inputs', 'histories'], 'every assignment of levels (including ties) to archive points, every order of edits, focus positions and sides',
  'Canonical form is checked by tests on two fixed level assignments without ties; ties and most relative orders are not reached.',
  [RZ, TC, LT], [('Cursor::join', TC), ('Cursor::up', TC), ('MemoFrom<AtTail/AtHead> for RazTree', RZ)])
p('C06', 'The count metadata equals the number of elements',
  'The count reported by a tree equals the number of elements in it, however the tree was made: by editing and unfocusing, from a vector, by joining, by mapping, or by conversion from an archive stack.',
  ['inputs', 'histories'], 'every tree shape and edit history', 'Counts are never asserted by tests except through a few focus calls; a wrong count in a rebuilt node shows only for some shapes and later focus positions.',
  [RZ, ME], [('TreeData::rebuild', RZ), ('treetop_meta', RZ), ('Count::from_vec, from_meta', ME)])
p('C07', 'Focusing by name lands at the archive point of that name',
  'In a sequence indexed by names, focusing on the name a tree shows for an archive point gives a cursor directly between the element before and the element after that archive point, whatever edits were made elsewhere; a name that is not in the sequence gives no cursor if there are archive points, and the left and right ends can always be focused.',
  ['inputs', 'histories'], 'every tree shape, every name in it, and names not in it, before and after edits elsewhere',
  'Two tests look up names in one level assignment each.', [ME, RZ], [('Names::navigate, from_meta, from_vec', ME), ('RazTree::focus', RZ)])
p('C08', 'Bottom-up folds combine every element once, in order',
  'fold_up with any associative function equals the left-to-right combination of the mapped elements; fold_up_nl additionally combines exactly at each archive point, with its level and name; fold_up_gauged passes each maximal run of elements between archive points once as a vector, in order. An empty sequence gives None, and the result is the same under both engines.',
  ['inputs', 'programs', 'configurations'], 'every tree shape, element values, named and unnamed points, both engines; fold functions that record their arguments',
  'Tests fold with max and sum (commutative) over one tree.', [RZ, LT], [('RazTree::fold_up, fold_up_nl, fold_up_gauged', RZ), ('Tree::fold_up, fold_up_meta', LT)])
p('C09', 'Left-to-right folds visit elements and archive points in order',
  'fold_lr applies its function to the elements exactly once each, from left to right; fold_lr_meta also visits each archive point, between the elements it separates, with its level and name; fold_lr_archive closes each run of elements with the name of the archive point before it (or the start marker for the first run) and visits each archive point with its level. The result is the same under both engines.',
  ['inputs', 'programs', 'configurations'], 'every tree shape, element values, named and unnamed points, both engines',
  'One test folds one fixed tree.', [RZ, LT], [('RazTree::fold_lr, fold_lr_meta, fold_lr_archive', RZ), ('Tree::fold_lr_meta', LT)])
p('C10', 'Mapping applies the function everywhere and keeps the structure',
  'Mapping a tree gives a tree with the function applied to each element once, in the same order, with the same structure, archive levels and names, and with metadata that is right for the new tree, so that it can be focused and edited like any other.',
  ['inputs', 'programs', 'configurations'], 'every tree shape, element values, named and unnamed points, both engines, both metadata types',
  'One test maps one fixed tree.', [RZ, LT], [('RazTree::map', RZ), ('Tree::map', LT)])
p('C11', 'Incremental recomputation gives the from-scratch result',
  'Under the dependency-graph engine, rerunning a fold, a map or a conversion after any edits (changes of values, insertions, deletions, new or removed archive points, refocusing elsewhere) gives exactly the result that a from-scratch run on the edited sequence gives, even when the edited values equal old ones. This holds over any number of edit-and-rerun rounds.',
  ['inputs', 'histories', 'programs'], 'every tree shape, edit position, edit script and element values (equal or not to the replaced ones), several rounds',
  'No test reruns a computation after an edit under the dependency-graph engine.', [RZ, LT, ST], [('memo! in fold_up_meta, fold_lr_meta, map', LT), ('memo! in memo_from', RZ), ('cell/put by name', LT)])
p('C12', 'Recomputation redoes only the edited part',
  'Under the dependency-graph engine, with all archive points named, rerunning a bottom-up fold on an unedited sequence calls the element function not at all below the topmost archive point, and rerunning after an edit calls it only for elements of the leaf runs that were edited. A left-to-right fold reruns nothing to the left of the leaf run before the edit; the same holds for map and its element function.',
  ['inputs', 'histories'], 'every tree shape and edit position', 'No test measures reuse.', [LT, RZ], [('memo! in fold_up_meta, fold_lr_meta, map', LT), ('Cursor::up keeps names', TC)])
p('C13', 'The archive stack is a stack with segment boundaries',
  'Any mix of push, pop, pop_meta, peek, archive, next_archive and iteration on an archive stack returns what a plain stack divided into segments returns: last in first out across segments, archive metadata and names exactly where they were put, archive of an empty active part refused, and is_empty, active_len, active_data and name consistent with it. Cloned stacks with unnamed archives do not affect one another.',
  ['inputs', 'histories', 'configurations'], 'every operation sequence, metadata and element values, named or not, both engines',
  'Four tests run fixed scripts; none uses pop_meta or checks names, active_len, refused archives or clones.', [AS, ST], [('AStack methods', AS), ('Stack', ST)])
p('C14', 'The persistent stack is a persistent list',
  'push, pull, peek, name, is_empty and iter on a stack (or non-empty head) agree with a persistent cons list: pushing or pulling yields a new stack and leaves every earlier stack as it was; two stacks are equal exactly when they hold the same elements under the same names.',
  ['inputs', 'histories', 'configurations'], 'every operation sequence over several versions, element values, names, both engines', 'Two tests look at a two-element stack.', [ST], [('Stack, Head, push_onto', ST)])
p('C15', 'Tree cursor movement and rebuilding is faithful',
  'A tree cursor moves to the branch or parent it reports, refuses moves to absent branches (unless forced), and shows the data, level, name and subtrees of the node it is at; moving around without changes and back to the root gives the original tree, with no data rebuilt. After a branch is discarded, moving up rebuilds exactly the nodes above with updated data, keeps their levels and names, and gives the tree with that node replaced by the branch below it; up_discard drops such changes.',
  ['inputs', 'histories'], 'every tree shape and level assignment, every sequence of moves', 'One test walks one fixed tree.', [TC], [('Cursor::{down_left_force,down_right_force,up,up_discard,peek*,*_tree}', TC)])
p('C16', 'Splitting and joining tree cursors is canonical and lossless',
  'Splitting a tree at a node gives everything before it, the node, and everything after it; joining two cursors at a new node gives a tree whose in-order sequence is the left one, the new node, and the right one, in canonical form if both trees were (left levels strictly lower, right levels no higher), with all names and levels kept and data rebuilt at exactly the changed nodes. Splitting at any node and joining again at the same level restores the tree.',
  ['inputs', 'histories'], 'all level assignments (with ties) of both trees and the new node, all cursor positions in both', 'One test joins and splits one fixed tree.', [TC], [('Cursor::split, join', TC), ('Cursor::up', TC)])
p('C17', 'Tree iterators visit exactly the rest of the tree in order',
  'Turning a cursor at any node into iterators gives a right iterator that yields, in order and once each, the data of the nodes after the node the cursor is at, and folding the iterator outwards accumulates in this same order, under both engines.',
  ['inputs', 'histories', 'configurations'], 'every tree shape, every cursor position', 'One test iterates one fixed tree.', [TC], [('Cursor::into_iters', TC), ('IterR::next, fold_out', TC)])
p('C18', 'Level tree folds, maps and the level check are exact',
  'fold_up gives each node exactly the results of its own left and right subtrees (None where absent) with its data, level and name; fold_lr visits all nodes in order; map gives a tree of the same shape, levels and names with mapped data that may use the mapped subtrees. good_levels holds exactly for trees in canonical form.',
  ['inputs', 'programs', 'configurations'], 'every tree shape with missing branches, all level assignments, named or not, both engines', 'Two tests use one fixed tree; good_levels is only called on good trees.', [LT], [('Tree::{fold_up,fold_up_meta,fold_lr,fold_lr_meta,map}', LT), ('good_levels', LT)])
p('C19', 'Generated levels are in range with the right distribution',
  'For every output of the random generator, the generated branch level is between 1 and 64 and equals one more than the number of trailing zero bits of the output (64 at most), so that level k has probability 2^-k; the levels the crate itself offers (inc_level) are so made of successive outputs of the thread\'s generator; the same holds for the small-integer level type, whose increment and decrement are inverse and order preserving, with the extremes as least and greatest.',
  ['inputs'], 'all 2^64 generator outputs, all level values', 'No test checks generated levels; the rare outputs (long runs of zero bits) are not reached by sampling.', [LT, 'src/trees.rs'], [('gen_branch_level', LT), ('inc_level', 'src/lib.rs'), ('NegBin::rand, Level', 'src/trees.rs')])
p('C20', 'The skiplist is a finite map for every hash function',
  'After any sequence of insertions, updates, removals and archive calls, looking up a key gives the value of its last insertion, or None if there is none or it was removed since, and each update returns the previous value; this holds for every key hash function (including colliding ones) and every path length, under both engines, and older copies keep answering as before when names are not reused.',
  ['inputs', 'histories', 'configurations'], 'every operation sequence, every hash value of every key, path lengths, both engines', 'Tests use one hash function and path length 8, where the order in which hashes share low bits is whatever SipHash gives.', [SK], [('build_path_step, build_path_rec', SK), ('FinMap::{ext,get,rem,put,archive}', SK)])
p('C21', 'Edits of a copy leave the original alone (unnamed data)',
  'When archives are unnamed, editing, unfocusing, joining or mapping a clone of a sequence, cursor or tree has no effect on the original, and edits of the original none on the clone.',
  ['inputs', 'histories', 'configurations'], 'every tree shape, every pair of edit scripts on original and copy, both engines', 'No test clones and edits.', [RZ, TC, AS, LT], [('Rc sharing in AStack and Tree', AS), ('put for unnamed nodes', LT)])
p('C22', 'Conversion from an archive stack keeps the sequence and is canonical',
  'Converting an archive stack read from its tail (or from its head) to a tree gives exactly the elements in that reading order, with an archive point of the given level and name between consecutive segments, in the canonical structure for these levels, whether the active part is empty or not; the result equals the structure obtained by editing. Converting an empty stack gives an empty sequence, and the stack itself is unchanged.',
  ['inputs', 'histories', 'configurations'], 'every number of segments, all level assignments with ties, empty or non-empty active part, named or not, both directions, both engines', 'Two tests convert one fixed stack with distinct levels and a non-empty active part.', [RZ, AS], [('MemoFrom<AtTail>, MemoFrom<AtHead>', RZ)])
p('C23', 'Joining trees and building from vectors concatenates',
  'Joining two non-empty trees gives their concatenation with the given archive level and name between them and every other archive point as it was, and None if either is empty; building from a vector gives its elements in order, or None for an empty one; the empty tree is empty. Every tree made so can be focused, edited, unfocused and folded like any other.',
  ['inputs', 'histories'], 'all pairs of tree shapes, all join levels higher than or equal to those below, edits after joining', 'No test joins or builds from a vector.', [RZ], [('RazTree::join, from_vec, empty', RZ)])
p('C24', 'All accumulator types of the evaluation crate are stacks',
  'Pushing to and popping from any sequence type offered by the evaluation interface (cursor, archive stack, vector, and the four list types), with archive calls in between, named or unnamed, gives the same elements in last-in-first-out order; an emptied one gives none and can be used again, and a copy taken at any time keeps its elements.',
  ['inputs', 'histories', 'configurations'], 'every operation sequence on each type, both engines', 'Evaluation tests only time these types or use one build-up and one pass.', ['eval/src/interface.rs', 'eval/src/accum_lists.rs'], [('IFaceSeq, IFaceArchive, IFaceNew', 'eval/src/interface.rs')])
p('C25', 'The evaluation drivers perform the edits they are asked for',
  'Initialising an evaluation sequence with n elements holds exactly the n generated elements in order, one made from given contents holds these, appending a batch adds it at the end, inserting a batch puts it contiguously at the chosen place (the vector driver last element first), for all gauges: each datagauge-th element is followed by an archive point, each namegauge-th of which is named, with no name twice. Every computation offered on it (maximum, folds with and without metadata, tree folds, map, reversal, native) gives the result a plain vector with the same contents gives, however it is wrapped as an action, and an edit-and-compute test computes once after creation and once after each of its edits, on the contents at that time.',
  ['inputs', 'histories', 'configurations'], 'sizes, gauges, element values, edit locations, both engines', 'The evaluation tests print timings and compare nothing but one example.', ['eval/src/eval_iraz.rs', 'eval/src/eval_vec.rs', 'eval/src/eval_raz_name_index.rs', 'eval/src/actions.rs', 'eval/src/test_seq.rs', 'eval/src/test_build.rs'], [('Creator, Editor and Computor actions', 'eval/src/actions.rs'), ('EditComputeSequence', 'eval/src/test_seq.rs'), ('CreateInc, EditAppend, EditInsert, Comp*', 'eval/src/primitives.rs')])
p('C26', 'Tries are finite maps and union combines their bindings',
  'A trie made from a hash map finds exactly its bindings, whatever hash value is passed along, and the empty trie none; a copy, or the union with an empty trie on either side, is equal to it and finds the same; and the union of two tries with different keys finds, with the hashes of the keys, exactly the bindings of both.',
  ['inputs', 'histories'], 'all pairs of maps', 'Tries have no tests.', ['src/trie.rs'], [('Trie::{from_hashmap,find,union}', 'src/trie.rs')])
p('C27', 'Metadata of any type describes exactly the tree it is on',
  'For any metadata type a user defines, the metadata of a tree is what its functions give for that tree: from_vec of each run of elements and from_meta of the metadata of the two branches, each with the level and name of the archive point above (0 and none at the top), from_none for the empty sequence, whether the tree was made by editing, joining, mapping, conversion or from a vector. Focusing follows its navigate function, which sees the metadata of the two branches at the place reached and the index it returned last, to the place chosen there and by split_vec, or gives None if it says so.',
  ['inputs', 'histories', 'programs', 'configurations'], 'every metadata type (the free one decides for all), tree shape, way down, edit script, levels, names, both engines',
  'The tests use the two metadata types of the crate, neither of which looks at levels.', [RZ, 'src/raz_meta.rs', TC], [('RazMeta', 'src/raz_meta.rs'), ('TreeData::rebuild, treetop_meta, bin, RazTree::focus, map', RZ), ('TreeUpdate::rebuild in Cursor::up, join', TC)])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
