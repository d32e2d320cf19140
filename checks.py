"""What each check runs: harness, parameters, shards; bounds in words."""
COMMON_ASSUMPTIONS = [
    'rustc 1.101 nightly, opt-level 2, overflow checks on, panic=abort: the LLVM IR it emits for /repo, adapton, rand and std is the semantics that is executed',
    'memory allocation never fails; RandomState keys are one fixed pair; rand\'s thread generator is not used by the harnesses',
]
CHECKS = {}
VALUES = 'every 64-bit element value and every 32-bit archive level (0 and 2^32-1, which the library reserves, excepted) are symbolic; '


def job(h, p, what='', **k):
    d = {'h': h, 'p': p, 'what': what}
    d.update(k)
    return d


def check(pid, quick, thorough, bounds, outside, **k):
    d = {'quick': quick, 'thorough': quick + thorough, 'bounds': bounds, 'outside': outside}
    d.update(k)
    CHECKS[pid] = d


def prop(pid):
    return int(pid[1:])


# ---- h_edit: [property, engine, segments, segment size, names, operations, peek, rounds]
def edit(n, e, seg, size, named, ops, peek, rounds, **k):
    return job('h_edit', [n, e, seg, size, named, ops, peek, rounds],
               'engine %s, %d segments of %d, names %s, %d operations, %d round(s)' % (['naive', 'dcg'][e], seg, size, ['none', 'all', 'any', 'two of three'][named], ops, rounds), **k)


check('C01', [
    edit(1, 0, 0, 1, 0, 4, 1, 1, shards=2),
    edit(1, 0, 4, 1, 0, 3, 1, 1, shards=2),
    edit(1, 1, 3, 1, 2, 2, 1, 1),
    job('h_drain', [1, 0, 3, 1, 0, 3], 'cursor emptied', shards=2),
    job('h_drain', [1, 1, 3, 2, 1, 2], 'cursor emptied, dcg'),
    job('h_big', [1, 2, 520, 1], 'leaves of 520 elements'),
], [
    edit(1, 0, 0, 1, 0, 5, 1, 1, shards=8),
    edit(1, 0, 5, 1, 0, 4, 1, 1, shards=16),
    edit(1, 0, 4, 2, 0, 3, 1, 1, shards=8),
    edit(1, 1, 4, 1, 2, 3, 1, 1, shards=16),
    job('h_drain', [1, 0, 4, 1, 0, 4], 'cursor emptied', shards=16),
    job('h_big', [1, 3, 520, 2], 'leaves of 520 elements', shards=8),
], 'trees of up to 4 segments (thorough 5) of 1-2 elements or 3 of 520, focused at every position, then every sequence of up to 4 (thorough 5) of the 6 operations push/pop/archive on either side, peeking after each; ' + VALUES + 'both engines, archives named and unnamed',
    'longer edit sequences between focus and observation; more segments')

check('C02', [
    edit(2, 0, 0, 1, 0, 4, 0, 1, shards=2),
    edit(2, 0, 4, 1, 0, 3, 0, 1, shards=2),
    edit(2, 0, 2, 1, 0, 2, 0, 2, shards=3),
    edit(2, 1, 3, 2, 1, 2, 0, 1),
    edit(2, 1, 2, 1, 2, 1, 0, 2),
    job('h_big', [2, 2, 520, 1], 'leaves of 520 elements'),
], [
    edit(2, 0, 0, 1, 0, 5, 0, 1, shards=8),
    edit(2, 0, 5, 1, 0, 4, 0, 1, shards=16),
    edit(2, 0, 3, 1, 0, 2, 0, 2, shards=8),
    edit(2, 0, 2, 1, 0, 1, 0, 3, shards=8),
    edit(2, 1, 4, 1, 2, 3, 0, 1, shards=16),
    edit(2, 1, 3, 1, 1, 2, 0, 2, shards=16),
    job('h_big', [2, 3, 520, 2], 'leaves of 520 elements', shards=8),
], 'as for C01, each cursor unfocused and the tree read back; one, two (thorough: three) rounds of focus anywhere, edit, unfocus; ' + VALUES + 'both engines',
    'more rounds; more segments')

check('C03', [
    job('h_focus', [3, 0, 3, 2, 0], 'arbitrary 64-bit index', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 0, 4, 1, 0], 'arbitrary 64-bit index', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 1, 3, 2, 1], 'arbitrary 64-bit index, dcg', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 0, 5, 1, 0], 'arbitrary 64-bit index', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 1, 5, 1, 1], 'arbitrary 64-bit index, dcg', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 0, 1, 3, 0], 'single leaf', reach=[0, 1, 3]),
    job('h_focus', [3, 0, 0, 1, 0], 'empty sequence', reach=[1, 2]),
    edit(3, 0, 3, 1, 0, 1, 1, 2),
    edit(3, 1, 2, 1, 2, 1, 1, 2),
    job('h_big', [3, 3, 520, 1], 'leaves of 520 elements', shards=2),
], [
    job('h_focus', [3, 0, 5, 2, 0], 'arbitrary 64-bit index', reach=[0, 1, 2, 3], shards=16),
    job('h_focus', [3, 0, 6, 1, 0], 'arbitrary 64-bit index', reach=[0, 1, 2, 3], shards=16),
    job('h_focus', [3, 1, 4, 3, 2], 'arbitrary 64-bit index, dcg', reach=[0, 1, 2, 3], shards=16),
    edit(3, 0, 2, 1, 0, 2, 1, 2, shards=8),
], 'trees of up to 4 (thorough 6) segments of 1 to 3 elements, or 3 of 520, in every shape the levels give, and an arbitrary 64-bit index; also after one round of edits; ' + VALUES,
    'more segments')

check('C04', [
    edit(4, 0, 4, 1, 1, 2, 0, 1, shards=2),
    edit(4, 0, 3, 1, 2, 3, 0, 1, shards=4),
    edit(4, 0, 2, 1, 0, 2, 0, 2, shards=3),
    edit(4, 1, 3, 1, 2, 2, 0, 1),
    edit(4, 1, 2, 1, 1, 1, 0, 2),
], [
    edit(4, 0, 5, 1, 1, 3, 0, 1, shards=16),
    edit(4, 0, 0, 1, 2, 5, 0, 1, shards=16),
    edit(4, 0, 3, 1, 1, 2, 0, 2, shards=16),
    edit(4, 1, 4, 1, 2, 3, 0, 1, shards=16),
], 'trees of up to 4 (thorough 5) segments, every sequence of up to 3 (thorough 5) edits anywhere, one or two rounds; ' + VALUES + 'names all, none or any subset',
    'more rounds; more segments')

check('C05', [
    edit(5, 0, 5, 1, 0, 1, 0, 1),
    edit(5, 0, 4, 1, 0, 2, 0, 1, shards=2),
    edit(5, 0, 3, 1, 0, 3, 0, 1, shards=2),
    edit(5, 0, 2, 1, 0, 2, 0, 2, shards=3),
    edit(5, 1, 4, 1, 1, 2, 0, 1, shards=2),
    edit(5, 1, 2, 1, 2, 1, 0, 2),
], [
    edit(5, 0, 7, 1, 0, 1, 0, 1, shards=16),
    edit(5, 0, 5, 1, 0, 3, 0, 1, shards=16),
    edit(5, 0, 3, 1, 0, 2, 0, 2, shards=16),
    edit(5, 1, 5, 1, 1, 2, 0, 1, shards=16),
], 'trees of up to 5 (thorough 7) segments, every sequence of up to 3 edits anywhere, one or two rounds; ' + VALUES,
    'more rounds; more segments')

check('C06', [
    edit(6, 0, 4, 1, 0, 3, 0, 1, shards=2),
    edit(6, 0, 2, 1, 0, 2, 0, 2, shards=3),
    edit(6, 1, 3, 2, 1, 2, 0, 1),
    edit(6, 1, 2, 1, 1, 1, 0, 2),
    job('h_map', [6, 0, 3, 1, 1, 1, 0], 'mapped'),
    job('h_map', [6, 1, 3, 2, 1, 1, 0], 'mapped, dcg'),
    job('h_memo_from', [6, 0, 4, 1, 2], 'converted', reach=[0, 1]),
    job('h_join', [6, 0, 2, 2, 1, 0, 0, 0], 'joined'),
    job('h_join', [6, 1, 2, 2, 1, 1, 0, 0], 'joined, dcg'),
    job('h_join', [6, 0, 2, 2, 1, 0, 1, 1], 'joined at any level'),
    job('h_join', [6, 1, 3, 3, 1, 1, 0, 1], 'joined at any level, dcg'),
    job('h_from_vec', [6, 5], 'from a vector'),
    job('h_big', [6, 3, 520, 1], 'leaves of 520 elements'),
], [
    edit(6, 0, 5, 1, 0, 4, 0, 1, shards=16),
    edit(6, 1, 3, 1, 1, 2, 0, 2, shards=16),
    job('h_map', [6, 1, 4, 1, 1, 2, 0], 'mapped, dcg', shards=8),
    job('h_memo_from', [6, 0, 6, 1, 1], 'converted', reach=[0, 1], shards=8),
], 'as for C02, C10, C22 and C23',
    'sums over 2^64 elements (overflow); more segments')

check('C07', [
    job('h_names', [7, 0, 4, 1, 1, 1], 'all named', reach=[0, 1]),
    job('h_names', [7, 0, 5, 1, 1, 0], 'all named', reach=[0, 1]),
    job('h_names', [7, 0, 6, 1, 1, 0], 'all named', reach=[0, 1]),
    job('h_names', [7, 1, 5, 1, 1, 0], 'all named, dcg', reach=[0, 1]),
    job('h_names', [7, 0, 3, 1, 2, 2], 'names on any subset', reach=[0, 1], shards=4),
    job('h_names', [7, 0, 2, 2, 1, 2], 'all named', reach=[0, 1], shards=2),
    job('h_names', [7, 1, 3, 1, 1, 2], 'dcg', reach=[0, 1], shards=2),
    job('h_names', [7, 1, 3, 2, 2, 1], 'dcg', reach=[0, 1]),
    job('h_made_names', [7, 0, 0, 2, 1, 1, 1], 'joined', reach=[0, 1]),
    job('h_made_names', [7, 0, 4, 2, 1, 1, 0], 'joined twice', reach=[0, 1]),
    job('h_made_names', [7, 1, 0, 2, 1, 2, 1], 'joined, dcg', reach=[0, 1]),
    job('h_made_names', [7, 0, 1, 4, 1, 1, 1], 'from a stack', reach=[0, 1]),
    job('h_made_names', [7, 1, 2, 3, 1, 2, 1], 'from a stack, dcg', reach=[0, 1]),
    job('h_made_names', [7, 1, 3, 3, 1, 1, 1], 'mapped, dcg', reach=[0, 1]),
    job('h_ends', [7, 0, 3, 1, 0, 1], 'ends'),
    job('h_ends', [7, 1, 3, 1, 2, 1], 'ends, dcg'),
], [
    job('h_names', [7, 0, 5, 1, 1, 2], 'all named', reach=[0, 1], shards=16),
    job('h_names', [7, 1, 4, 1, 2, 2], 'dcg', reach=[0, 1], shards=16),
    job('h_names', [7, 0, 3, 1, 2, 3], 'names on any subset', reach=[0, 1], shards=16),
    job('h_made_names', [7, 1, 4, 3, 1, 1, 1], 'joined twice, dcg', reach=[0, 1], shards=8),
    job('h_made_names', [7, 0, 0, 3, 1, 2, 2], 'joined', reach=[0, 1], shards=8),
    job('h_ends', [7, 0, 3, 1, 0, 2], 'ends', shards=16),
], 'trees of up to 4 segments (6 without edits; thorough 5) with any subset named, focused by every name, by both ends and by an absent name, edited by up to 2 (thorough 3) operations, and focused again the same ways; ' + VALUES,
    'names whose hashes collide: names are concrete; more segments')

check('C08', [
    job('h_fold_up', [8, 0, 4, 1, 2, 1], ''),
    job('h_fold_up', [8, 0, 3, 2, 0, 2], '', shards=2),
    job('h_fold_up', [8, 1, 3, 1, 2, 2], 'dcg', shards=4),
    job('h_fold_up', [8, 1, 5, 1, 1, 0], 'dcg'),
    job('h_fold_up', [8, 1, 0, 1, 1, 3], 'dcg'),
], [
    job('h_fold_up', [8, 0, 5, 1, 0, 3], '', shards=16),
    job('h_fold_up', [8, 1, 4, 1, 1, 3], 'dcg', shards=16),
    job('h_fold_up', [8, 1, 7, 1, 1, 0], 'dcg', shards=16),
], 'trees of up to 5 (thorough 7) segments after up to 2 (thorough 3) edits; folds with list concatenation (which distinguishes order, multiplicity and place), with the tree structure, and with wrapping addition, each run twice; ' + VALUES,
    'other functions: they are called on the same arguments as these; more segments')

check('C09', [
    job('h_fold_lr', [9, 0, 4, 1, 2, 1], ''),
    job('h_fold_lr', [9, 0, 3, 2, 0, 2], '', shards=2),
    job('h_fold_lr', [9, 1, 3, 1, 2, 2], 'dcg', shards=4),
    job('h_fold_lr', [9, 1, 5, 1, 1, 0], 'dcg'),
    job('h_fold_lr', [9, 1, 0, 1, 1, 3], 'dcg'),
], [
    job('h_fold_lr', [9, 0, 5, 1, 0, 3], '', shards=16),
    job('h_fold_lr', [9, 1, 4, 1, 1, 3], 'dcg', shards=16),
    job('h_fold_lr', [9, 1, 7, 1, 1, 0], 'dcg', shards=16),
], 'as for C08, with accumulators that record every call',
    'as for C08')

check('C10', [
    job('h_map', [10, 0, 4, 1, 2, 0, 1], 'edited after'),
    job('h_map', [10, 0, 3, 1, 0, 2, 0], '', shards=2),
    job('h_map', [10, 1, 3, 1, 2, 1, 1], 'dcg, edited after', shards=4),
    job('h_map', [10, 1, 5, 1, 1, 0, 0], 'dcg'),
    job('h_map', [10, 1, 3, 2, 1, 1, 0], 'dcg'),
    job('h_map', [10, 0, 0, 1, 0, 2, 2], 'from the empty sequence'),
], [
    job('h_map', [10, 0, 5, 1, 0, 1, 1], 'edited after', shards=16),
    job('h_map', [10, 1, 4, 1, 1, 2, 1], 'dcg, edited after', shards=32),
    job('h_map', [10, 1, 3, 1, 1, 1, 2], 'dcg, edited after', shards=16),
], 'trees of up to 5 segments after up to 2 edits, mapped with an injective function to a tree with count metadata and to one with names metadata; the result focused by index and by every name and edited by up to 2 operations; ' + VALUES,
    'more segments; element functions with effects')

COMPS = ['fold_up', 'fold_up_nl', 'fold_up_gauged', 'fold_lr', 'fold_lr_meta', 'fold_lr_archive', 'map', 'fold_up with maximum', 'fold_up with parity',
         'to archive stack and back (tail)', 'to archive stack and back (head)', 'filtered to archive stack and back', 'reversal by joins']
check('C11', [job('h_inc', [11, c, 3, 1, 1, 1, 1, 0], COMPS[c] + ', one edit anywhere') for c in range(13)]
    + [job('h_inc', [11, c, 4, 1, 1, 0, 1, 1], COMPS[c] + ', one value replaced') for c in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12)]
    + [job('h_inc', [11, c, 2, 1, 1, 1, 2, 0], COMPS[c] + ', two rounds') for c in (1, 4, 6, 9)]
    + [job('h_inc', [11, 6, 2, 1, 1, 2, 1, 0], COMPS[6] + ', two edits'), job('h_inc', [11, 1, 3, 1, 2, 1, 1, 0], 'names on any subset'),
       job('h_inc', [11, 4, 3, 1, 2, 1, 1, 0], 'names on any subset'),
       job('h_inc_stack', [11, 3, 1, 1, 1, 0], 'stack from its tail, changed'), job('h_inc_stack', [11, 3, 1, 1, 1, 1], 'stack from its head, changed')],
    [job('h_inc', [11, c, 4, 1, 1, 1, 2, 0], COMPS[c] + ', two rounds', shards=8) for c in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12)]
    + [job('h_inc', [11, c, 4, 1, 1, 2, 1, 0], COMPS[c] + ', two edits', shards=8) for c in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12)]
    + [job('h_inc', [11, c, 3, 1, 2, 1, 2, 0], COMPS[c] + ', names on any subset', shards=8) for c in (1, 4, 5, 6, 9)]
    + [job('h_inc_stack', [11, 4, 1, 2, 2, d], 'stack changed', shards=8) for d in (0, 1)],
    'trees of up to 4 segments, 13 computations, one or two rounds of one or two edits (any operation anywhere, or the replacement of any element by an arbitrary value, equal ones included), rerun and compared with the result on the edited contents; ' + VALUES,
    'more rounds; programs other than these; name collisions')

check('C12', [
    job('h_reuse', [12, 3, 1, 1, 0], 'one edit anywhere, twice', shards=4, reach=[0]),
    job('h_reuse', [12, 3, 2, 1, 1], 'one value replaced, twice', shards=2, reach=[0, 2, 3]),
    job('h_reuse', [12, 2, 2, 1, 0], 'one edit anywhere, twice', shards=2, reach=[0]),
], [
    job('h_reuse', [12, 4, 1, 1, 0], 'one edit anywhere, twice', shards=16, reach=[0]),
    job('h_reuse', [12, 5, 1, 1, 1], 'one value replaced, twice', shards=16, reach=[0, 2, 3]),
    job('h_reuse', [12, 3, 1, 2, 0], 'two edits anywhere, twice', shards=32, reach=[0]),
], 'trees of up to 3 (thorough 5) segments with all archive points named, run unedited and after each of two rounds of edits, counting the calls of the element function; ' + VALUES,
    'more segments; work of the library itself (only element function calls are counted)')

check('C13', [
    job('h_astack', [13, 0, 4, 0, 8], 'every sequence of operations', shards=3, reach=[0, 1]),
    job('h_astack', [13, 1, 3, 1, 8], 'dcg, named'),
    job('h_astack', [13, 0, 3, 2, 8], 'names on any subset'),
    job('h_astack_open', [13, 0, 3, 2, 0], 'from a stack with archived parts'),
    job('h_astack_open', [13, 1, 3, 2, 1], 'dcg, named'),
    job('h_astack_vec', [13, 5], 'from a vector'),
    job('h_inc_stack', [13, 3, 1, 1, 2, 0], 'pops of archived elements', reach=[0]),
], [
    job('h_astack', [13, 0, 6, 0, 8], 'every sequence of operations', shards=16, reach=[0, 1]),
    job('h_astack', [13, 1, 5, 1, 8], 'dcg, named', shards=16),
    job('h_astack_open', [13, 1, 4, 3, 1], 'dcg, named', shards=16),
], 'every sequence of up to 4 (thorough 6) operations on an empty stack, and the reading operations on stacks of 3 (thorough 4) archived parts of up to 2 (3) elements; ' + VALUES,
    'longer histories')

check('C14', [
    job('h_stack', [14, 0, 5, 0], 'unnamed'),
    job('h_stack', [14, 0, 5, 1], 'named'),
    job('h_stack', [14, 1, 5, 1], 'dcg, named'),
    job('h_stack', [14, 0, 4, 2], 'names on any subset'),
    job('h_stack', [14, 1, 4, 2], 'names on any subset, dcg'),
    job('h_stack', [14, 0, 4, 0, 1], 'equality', reach=[0, 1]),
    job('h_stack', [14, 1, 4, 0, 1], 'equality, dcg', reach=[0, 1]),
    job('h_stack', [14, 0, 3, 2, 1], 'equality, names on any subset', reach=[0, 1]),
    job('h_stack', [14, 0, 4, 1, 2], 'equality, one name again and again', reach=[0, 1]),
], [
    job('h_stack', [14, 0, 7, 0], 'unnamed', shards=8),
    job('h_stack', [14, 1, 7, 1], 'dcg, named', shards=8),
    job('h_stack', [14, 0, 5, 2], 'names on any subset', shards=4),
    job('h_stack', [14, 0, 5, 0, 1], 'equality', shards=8, reach=[0, 1]),
    job('h_stack', [14, 1, 4, 2, 1], 'equality, names on any subset, dcg', shards=8, reach=[0, 1]),
], 'every sequence of up to 5 (thorough 7) operations on any earlier version; element values symbolic',
    'longer histories')

check('C15', [
    job('h_cursor', [15, 0, 3, 0, 3, 1], 'unnamed, with discards', reach=[0, 1]),
    job('h_cursor', [15, 0, 4, 1, 3, 0], 'named, movement'),
    job('h_cursor', [15, 1, 4, 1, 3, 0], 'named, movement, dcg'),
    job('h_cursor', [15, 0, 4, 0, 3, 1], 'unnamed, with discards', reach=[0, 1], shards=2),
    job('h_cursor', [15, 1, 3, 0, 3, 1], 'unnamed, with discards, dcg', reach=[0, 1]),
    job('h_cursor', [15, 0, 0, 0, 2, 1], 'no tree', reach=[0]),
    job('h_cursor', [15, 1, 3, 2, 3, 0], 'names on any subset, movement, dcg'),
], [
    job('h_cursor', [15, 0, 4, 0, 5, 1], 'unnamed, with discards', reach=[0, 1], shards=16),
    job('h_cursor', [15, 1, 6, 1, 4, 0], 'named, movement, dcg', shards=16),
], 'trees of up to 4 (thorough 6) nodes of every shape and every level and data value, every sequence of 3 (thorough 5) moves',
    'larger trees, longer walks; discards of named nodes under the dependency graph (a changed node reuses the name of the old one)')

check('C16', [
    job('h_split', [16, 0, 3, 0, 1, 0], 'unnamed, with discards'),
    job('h_split', [16, 0, 4, 0, 0, 0], 'unnamed'),
    job('h_split', [16, 1, 4, 1, 0, 0], 'named, dcg', reach=[0]),
    job('h_split', [16, 0, 2, 0, 1, 1], 'moves before joining'),
    job('h_split', [16, 1, 3, 2, 0, 0], 'names on any subset, dcg'),
    job('h_tjoin', [16, 0, 2, 2, 0], 'joined'),
    job('h_tjoin', [16, 0, 2, 2, 1], 'joined'),
    job('h_tjoin', [16, 1, 3, 2, 1], 'joined, dcg'),
    job('h_tjoin', [16, 0, 1, 4, 0], 'joined'),
    job('h_tjoin', [16, 0, 4, 1, 0], 'joined'),
    job('h_tjoin', [16, 0, 2, 3, 0], 'joined'),
    job('h_tjoin2', [16, 0, 2, 1, 1, 0, 0], 'joined twice'),
    job('h_tjoin2', [16, 0, 1, 2, 1, 1, 0], 'joined twice'),
    job('h_tjoin2', [16, 1, 2, 1, 1, 1, 0], 'joined twice, dcg'),
    job('h_tjoin2', [16, 0, 1, 1, 1, 0, 1], 'walked, joined twice'),
], [
    job('h_split', [16, 0, 3, 0, 1, 1], 'moves before joining', shards=8),
    job('h_split', [16, 0, 5, 0, 0, 0], 'unnamed', shards=8),
    job('h_tjoin', [16, 0, 3, 3, 0], 'joined', shards=8),
    job('h_tjoin', [16, 1, 4, 3, 1], 'joined, dcg', shards=16),
    job('h_tjoin', [16, 0, 1, 5, 0], 'joined', shards=8),
    job('h_tjoin', [16, 0, 5, 1, 0], 'joined', shards=8),
    job('h_tjoin2', [16, 0, 2, 2, 2, 0, 0], 'joined twice', shards=8),
    job('h_tjoin2', [16, 0, 3, 1, 1, 0, 0], 'joined twice', shards=8),
    job('h_tjoin2', [16, 0, 2, 1, 1, 1, 2], 'walked, joined twice', shards=8),
], 'trees of up to 4 (thorough 5) nodes of every shape split at every node, and joins of trees of 3 and 2, 2 and 3, 4 and 1, 1 and 4 (thorough 3 and 3, 4 and 3, 1 and 5, 5 and 1) nodes from any position in both, every level and data value',
    'larger trees')

check('C17', [
    job('h_iter', [17, 0, 4, 1, 0], 'named'),
    job('h_iter', [17, 0, 5, 0, 0], 'unnamed'),
    job('h_iter', [17, 0, 4, 0, 1], 'after discards'),
    job('h_iter', [17, 1, 5, 1, 0], 'dcg'),
    job('h_iter', [17, 0, 4, 2, 0], 'names on any subset'),
    job('h_iter', [17, 1, 4, 2, 0], 'names on any subset, dcg'),
], [
    job('h_iter', [17, 0, 7, 0, 0], 'unnamed', shards=8),
    job('h_iter', [17, 0, 6, 0, 1], 'after discards', shards=8),
    job('h_iter', [17, 1, 7, 1, 0], 'dcg', shards=8),
    job('h_iter', [17, 1, 5, 2, 0], 'names on any subset, dcg', shards=8),
], 'trees of up to 5 (thorough 7) nodes of every shape, iterated from every node; every level and data value',
    'larger trees')

check('C18', [
    job('h_ltree', [18, 0, 4, 0], ''),
    job('h_ltree', [18, 0, 4, 1], 'named'),
    job('h_ltree', [18, 1, 4, 1], 'dcg, named'),
    job('h_ltree', [18, 0, 4, 2], 'names on any subset'),
    job('h_ltree', [18, 1, 4, 2], 'names on any subset, dcg'),
    job('h_ltree', [18, 0, 0, 0], 'no tree'),
    job('h_good_levels', [18, 0, 4], 'level check', reach=[0, 1, 2]),
    job('h_good_levels', [18, 0, 3], 'level check', reach=[0, 1, 2]),
    job('h_good_levels', [18, 0, 1], 'level check', reach=[0, 1]),
], [
    job('h_ltree', [18, 0, 6, 0], '', shards=4),
    job('h_ltree', [18, 1, 6, 1], 'dcg, named', shards=4),
    job('h_good_levels', [18, 0, 6], 'level check', reach=[0, 1, 2], shards=4),
], 'trees of up to 4 (thorough 6) nodes of every shape; every level and data value',
    'larger trees')

check('C19', [
    job('h_level', [19], 'generation'),
    job('h_level_order', [19], 'level arithmetic'),
    job('h_inc_level', [19, 1], 'the crate\'s generator'),
    job('h_inc_level', [19, 4], 'the crate\'s generator, four levels'),
], [], 'none: every 64-bit and 32-bit generator output, every level value',
    'the distribution of the generator itself')

check('C20', [
    job('h_skip', [20, 0, 2, 2, 2, 3, 1, 0], 'two keys', shards=6, reach=[0, 1]),
    job('h_skip', [20, 0, 64, 1, 2, 3, 0, 0], 'paths of 64'),
    job('h_skip', [20, 1, 2, 1, 2, 3, 0, 0], 'dcg'),
    job('h_skip', [20, 0, 1, 1, 3, 4, 0, 1], 'three keys put', shards=2),
    job('h_skip', [20, 1, 2, 2, 3, 3, 0, 1], 'three keys put, dcg'),
    job('h_skip', [20, 0, 1, 0, 4, 4, 0, 1], 'four keys put'),
    job('h_skip', [20, 0, 3, 3, 2, 2, 0, 1], 'paths of 3'),
    job('h_skip', [20, 1, 2, 1, 2, 4, 0, 2], 'puts, removals, renamings, dcg', shards=3),
    job('h_skip', [20, 1, 1, 1, 1, 6, 0, 2], 'puts, removals, renamings, dcg, one key'),
], [
    job('h_skip', [20, 0, 2, 2, 2, 4, 1, 0], 'two keys', shards=32, reach=[0, 1]),
    job('h_skip', [20, 1, 2, 2, 2, 3, 0, 0], 'dcg', shards=16),
    job('h_skip', [20, 0, 2, 2, 3, 4, 0, 1], 'three keys put', shards=16),
    job('h_skip', [20, 1, 2, 1, 2, 5, 0, 2], 'puts, removals, renamings, dcg', shards=16),
    job('h_skip', [20, 0, 1, 0, 5, 5, 0, 1], 'five keys put', shards=8),
], 'key hashes in every class that the low bits distinguish for paths of length 1 to 3, and two classes for paths of length 64; up to 4 (thorough 5) keys put, up to 2 keys under every sequence of 3 (thorough 4) operations (put, extend, remove, get, new name), every sequence of 4 (5) puts, removals and renamings under the dependency graph; the current version and an older one read back; every key and value symbolic',
    'more keys; longer histories; path length 0, which an assertion refuses')

check('C21', [
    job('h_persist', [21, 0, 2, 1, 2], '', shards=2),
    job('h_persist', [21, 0, 3, 1, 1], ''),
    job('h_persist', [21, 1, 2, 1, 2], 'dcg', shards=2),
    job('h_persist', [21, 1, 2, 2, 1], 'dcg'),
    job('h_persist', [21, 0, 0, 1, 2], 'from the empty sequence'),
    job('h_cursor', [21, 0, 3, 0, 3, 1], 'tree cursors', reach=[0, 1]),
    job('h_ccopy', [21, 0, 3, 1, 2], 'tree cursors moved and changed apart'),
    job('h_ccopy', [21, 0, 4, 2, 1], 'tree cursors moved and changed apart'),
    job('h_ccopy', [21, 1, 3, 2, 1], 'tree cursors moved and changed apart, dcg'),
    job('h_split', [21, 0, 3, 0, 1, 0], 'tree cursors, split and joined', reach=[0, 1]),
    job('h_astack', [21, 0, 4, 0, 8], 'archive stacks', reach=[0, 1], shards=2),
    job('h_acopy', [21, 0, 1, 2], 'archive stacks changed apart'),
    job('h_acopy', [21, 1, 1, 2], 'archive stacks changed apart, dcg'),
], [
    job('h_persist', [21, 0, 3, 1, 3], '', shards=32),
    job('h_persist', [21, 1, 3, 1, 2], 'dcg', shards=16),
    job('h_ccopy', [21, 0, 4, 2, 2], 'tree cursors moved and changed apart', shards=8),
    job('h_acopy', [21, 0, 1, 3], 'archive stacks changed apart', shards=4),
], 'a cursor on a tree of up to 3 segments, cloned after one edit, and up to 2 (thorough 3) edits on either copy in any order; both, the original tree and the trees made are read back afterwards, mapped and joined, and read back again; tree cursors and archive stacks cloned and changed apart; ' + VALUES,
    'longer histories; named archives (a name identifies one cell, and editing under it again changes that cell under the dependency graph)')

check('C22', [
    job('h_memo_from', [22, 0, 4, 1, 2], '', reach=[0, 1]),
    job('h_memo_from', [22, 0, 3, 2, 0], 'unnamed', reach=[0, 1]),
    job('h_memo_from', [22, 1, 4, 1, 1], 'dcg', reach=[0, 1]),
    job('h_memo_from', [22, 0, 5, 1, 1], '', reach=[0, 1]),
    job('h_memo_from', [22, 0, 0, 1, 1], 'empty', reach=[0]),
    job('h_memo_from', [22, 1, 1, 3, 1], 'one segment', reach=[0, 1]),
], [
    job('h_memo_from', [22, 0, 7, 1, 1], '', reach=[0, 1], shards=8),
    job('h_memo_from', [22, 1, 6, 2, 1], 'dcg', reach=[0, 1], shards=8),
], 'archive stacks of up to 5 (thorough 7) segments of 1 to 3 elements, active part empty or not, both directions; ' + VALUES,
    'more segments')

check('C23', [
    job('h_join', [23, 0, 2, 2, 1, 0, 1, 0], 'unnamed, edited after', shards=2),
    job('h_join', [23, 0, 3, 3, 1, 1, 0, 0], 'named'),
    job('h_join', [23, 1, 2, 2, 1, 2, 1, 0], 'dcg, edited after'),
    job('h_join', [23, 0, 0, 2, 1, 1, 0, 0], 'left empty', reach=[1]),
    job('h_join', [23, 0, 2, 0, 1, 1, 0, 0], 'right empty', reach=[1]),
    job('h_join', [23, 0, 1, 1, 2, 1, 2, 0], 'single leaves'),
    job('h_join', [23, 0, 2, 2, 1, 0, 1, 1], 'any level, edited after'),
    job('h_join', [23, 0, 3, 3, 1, 0, 0, 1], 'any level'),
    job('h_join', [23, 1, 3, 3, 1, 2, 0, 1], 'any level, dcg'),
    job('h_from_vec', [23, 5], 'from a vector'),
], [
    job('h_join', [23, 0, 3, 3, 1, 0, 2, 0], 'unnamed, edited after', shards=16),
    job('h_join', [23, 1, 3, 3, 1, 1, 1, 0], 'dcg, edited after', shards=16),
    job('h_join', [23, 0, 3, 3, 1, 0, 1, 1], 'any level, edited after', shards=16),
    job('h_join', [23, 1, 3, 2, 1, 1, 1, 1], 'any level, dcg, edited after', shards=16),
], 'trees of up to 3 segments joined at a level above those on the left and not below those on the right (the documented use), and at every other level for contents, counts, folds and edits, then edited by up to 2 operations; vectors of up to 5 elements; ' + VALUES,
    'canonical shape and focusing by name after joins at undocumented levels; more segments')

ACCS = ['cursor', 'archive stack', 'archive stack without metadata', 'vector', 'list', 'shared list', 'list of vectors', 'shared list of vectors']
check('C24', [job('h_acc', [24, e, t, 4, 2, 1], ACCS[t] + ', names on any subset', reach=[0, 1]) for e in (0, 1) for t in range(8)]
    + [job('h_acc', [24, 0, t, 6, 1, 0], ACCS[t] + ', named') for t in range(8)]
    + [job('h_acc', [24, 1, t, 5, 1, 1], ACCS[t] + ', named, dcg', reach=[0, 1]) for t in range(8)],
    [job('h_acc', [24, e, t, 8, 1, 0], ACCS[t] + ', named', shards=4) for e in (0, 1) for t in range(8)]
    + [job('h_acc', [24, e, t, 6, 2, 1], ACCS[t] + ', names on any subset', reach=[0, 1], shards=4) for e in (0, 1) for t in range(8)],
    'every sequence of up to 6 (thorough 8) pushes, pops and archive calls on each of the 8 types from the empty one, then emptied and used again; of 4 or 5 (thorough 6), a copy taken before any operation being emptied as well; ' + VALUES + 'names all, none or any subset, both engines',
    'longer histories')


def ev(e, kind, origin, n, dg, ng, edits, batch, which, kinds, lev=0, bits=64, **k):
    what = '%s, %s, %d elements or parts, gauges %d and %d, %d edits of %d' % (['cursor driver', 'name index driver', 'vector driver'][kind],
        ['empty', 'generated', 'from a cursor', 'from a tree', 'from a stack'][origin], n, dg, ng, edits, batch)
    return job('h_eval', [25, e, kind, origin, n, dg, ng, edits, batch, which, kinds, lev, bits], what, **k)


# computations: 1 maximum, 2-4 folders, 5 mapper, 6 fold with metadata, 7 fold with archives, 8 tree fold, 9 map, 10 and 11 tree folds with levels; vectors: 7 reversal, 8 native
check('C25', [
    # what is built
    ev(0, 0, 1, 5, 2, 2, 2, 2, 2, 4), ev(0, 0, 1, 3, 1, 2, 2, 2, 3, 4), ev(1, 0, 1, 4, 1, 2, 2, 1, 6, 0), ev(0, 0, 1, 7, 2, 1, 1, 3, 4, 4), ev(1, 0, 1, 7, 3, 2, 1, 4, 7, 4),
    ev(0, 0, 0, 0, 2, 3, 3, 2, 7, 4), ev(1, 0, 0, 0, 1, 2, 3, 2, 6, 4),
    ev(1, 0, 2, 3, 1, 2, 1, 2, 6, 4, 2), ev(1, 0, 3, 3, 1, 2, 1, 2, 10, 4, 2), ev(1, 0, 4, 3, 2, 1, 1, 2, 8, 4, 2), ev(0, 0, 4, 3, 2, 1, 1, 2, 9, 4),
    ev(0, 0, 1, 3, 1, 2, 1, 2, 11, 4, 4), ev(0, 0, 1, 2, 1, 1, 2, 2, 5, 4, 3), ev(0, 0, 1, 2, 1, 1, 1, 1, 1, 0), ev(1, 0, 1, 5, 1, 3, 1, 2, 8, 4), ev(1, 0, 1, 3, 1, 1, 1, 2, 9, 4, 2),
    ev(0, 1, 1, 5, 1, 2, 2, 2, 6, 4), ev(1, 1, 1, 5, 1, 2, 1, 2, 7, 4, 3), ev(1, 1, 2, 3, 2, 1, 2, 2, 6, 4), ev(0, 1, 3, 3, 2, 3, 2, 2, 7, 4), ev(1, 1, 4, 3, 2, 1, 1, 2, 9, 4, 2), ev(1, 1, 4, 3, 2, 1, 2, 2, 6, 4),
    ev(0, 1, 0, 0, 1, 1, 3, 2, 2, 4), ev(0, 1, 1, 3, 1, 1, 2, 1, 8, 4), ev(1, 1, 1, 4, 1, 2, 1, 1, 5, 4), ev(0, 1, 1, 2, 1, 1, 1, 1, 1, 0), ev(0, 1, 1, 6, 2, 1, 1, 3, 3, 4), ev(0, 1, 1, 4, 1, 2, 1, 2, 4, 4),
    ev(0, 2, 1, 2, 1, 2, 1, 1, 1, 0)] + [ev(0, 2, 1, 3, 1, 2, 2, 2, w, 4) for w in range(2, 10)] + [ev(0, 2, 0, 0, 1, 1, 3, 2, 2, 4, reach=[0, 1]), ev(0, 2, 2, 3, 1, 2, 1, 3, 6, 4),
    job('h_eval_seq', [25, 0, 0, 0, 3, 1, 2, 3, 2], 'edit and compute, cursor driver'), job('h_eval_seq', [25, 1, 0, 1, 4, 2, 1, 3, 1], 'edit and compute, cursor driver, dcg'),
    job('h_eval_seq', [25, 1, 1, 0, 3, 1, 2, 2, 2], 'edit and compute, name index driver, dcg'), job('h_eval_seq', [25, 0, 2, 1, 3, 1, 2, 3, 3], 'edit and compute, vector driver'),
    job('h_eval_build', [25, 5], 'builds of growing size'), job('h_eval_types', [25], 'ranges of generated values'),
], [ev(e, 0, 1, n, dg, ng, 2, 3, w, 4, shards=4) for e in (0, 1) for (n, dg, ng, w) in ((6, 2, 2, 6), (5, 1, 3, 7), (4, 1, 1, 8), (4, 2, 1, 9), (5, 2, 2, 10), (5, 1, 2, 11))]
    + [ev(0, 0, 1, 3, 1, 2, 1, 2, 6, 4, 5, shards=8)]
    + [ev(e, 1, 1, n, dg, ng, 2, 3, w, 4, shards=4) for e in (0, 1) for (n, dg, ng, w) in ((6, 2, 1, 6), (5, 1, 2, 7), (4, 1, 1, 8), (5, 1, 2, 9))]
    + [ev(0, 2, 1, 4, 1, 1, 3, 2, w, 4, shards=2) for w in (2, 6, 7, 9)],
    'drivers made empty, generated with up to 7 elements, or from given cursors, trees and archive stacks of 3 parts, gauges 1 to 3; up to 3 edits (appends or insertions of up to 4 elements) each with any place, the contents compared and one of the computations run after each; the levels of the next 2 to 5 archive points arbitrary, or those of one seed; every generated element value symbolic; both engines',
    'the number that chooses the place is below 64; more elements; times; insertion into an empty sequence or by name where there are no names, which the drivers refuse (remainder by zero)')

check('C26', [
    job('h_trie', [26, 0, 0, 0], 'empty map'),
    job('h_trie', [26, 0, 2, 1], 'two bindings'),
    job('h_trie', [26, 1, 2, 1], 'two bindings, dcg'),
    job('h_trie', [26, 0, 3, 0], 'three bindings, one class'),
    job('h_trie', [26, 0, 3, 1], 'three bindings'),
    job('h_trie_union', [26, 0, 1, 1, 1, 1], 'union of two tries'),
], [
    job('h_trie', [26, 0, 3, 2], 'three bindings', shards=8),
    job('h_trie', [26, 1, 4, 0], 'four bindings, one class, dcg', shards=4),
    job('h_trie_union', [26, 1, 2, 1, 1, 2], 'unions, dcg'),
], 'tries of up to 3 (thorough 4) bindings, alone or in a union with the empty one, all keys (with up to 2, thorough 4 different hashes), values and hash values passed to find symbolic; both engines; the union of two tries, which panics for all: known finding',
    'more bindings; whatever follows the union of two tries while it panics; whether equal maps give equal tries (the hash that decides depends on the iteration order of the map)')

MS = ['edited', 'joined', 'mapped', 'converted', 'from a vector']


def mt(e, seg, size, named, ops, source, after, **k):
    k.setdefault('reach', [0, 1] if (ops or after) and source != 4 and seg not in (0, 1) else [0])
    return job('h_meta', [27, e, seg, size, named, ops, source, after], '%s, %s, names %s, %d operations of %d' % (MS[source], ['naive', 'dcg'][e], ['none', 'all', 'any', 'two of three'][named], ops % 100, max(1, ops // 100)) + (', twice' if after else ''), **k)


check('C27', [
    mt(0, 4, 1, 1, 2, 0, 0), mt(0, 5, 1, 0, 1, 0, 0), mt(1, 4, 1, 2, 1, 0, 0), mt(0, 3, 1, 1, 1, 0, 1), mt(0, 2, 1, 1, 2, 0, 1, shards=2), mt(1, 2, 1, 1, 1, 0, 1), mt(0, 0, 1, 1, 3, 0, 0),
    mt(0, 3, 1, 1, 1, 1, 0), mt(1, 2, 2, 2, 1, 1, 0), mt(0, 4, 1, 1, 1, 2, 0), mt(1, 3, 2, 1, 1, 2, 0), mt(0, 4, 1, 1, 1, 3, 0), mt(1, 5, 1, 2, 0, 3, 0), mt(1, 3, 2, 1, 1, 3, 0), mt(0, 0, 3, 1, 1, 4, 0), mt(0, 0, 0, 1, 1, 4, 0),
], [
    mt(0, 5, 1, 1, 2, 0, 0, shards=8), mt(0, 3, 1, 1, 2, 0, 1, shards=16), mt(1, 3, 1, 1, 1, 0, 1, shards=8), mt(0, 6, 1, 1, 1, 0, 0, shards=4), mt(1, 2, 2, 1, 1, 1, 1, shards=8), mt(0, 3, 1, 1, 2, 2, 0, shards=4), mt(1, 6, 1, 1, 1, 3, 0, shards=8),
], 'metadata recorded as the term it is made of; trees of up to 5 (thorough 6) segments made by editing, joining, mapping, conversion, or from a vector; focused along every way down that the metadata\'s own navigation can choose, edited by up to 2 (from the empty sequence 3) operations, once or twice; ' + VALUES + 'names all, none or any subset; both engines',
    'metadata whose functions keep state; more segments')

# ---- large structures: concrete shapes (see pat_level, large), symbolic elements; part of the quick and the thorough checks
PATS = ['', 'balanced', 'levels equal', 'levels rising', 'levels falling', 'levels in zigzag', 'levels mixed', 'balanced but for one level']


SEQ_LARGE = 'sequences of 10 to 35 (thorough 60) segments of 1 to 4 elements with fixed levels (balanced, equal, rising, falling, zigzag, mixed), edited anywhere by one operation or by bursts of up to 25 equal ones (or as many archived parts)'
LARGE = {'C12': 'sequences of 8 to 20 segments of fixed levels, one value or one operation at one of seven places, twice', 'C13': 'bursts of up to 20 equal operations; stacks of 40 parts', 'C14': 'bursts of up to 40 equal operations',
         'C15': 'trees of 30 to 40 nodes of fixed shape and levels (balanced, spines, zigzag, mixed), up to 6 bursts of up to 40 equal moves', 'C16': 'trees of 8 to 40 nodes of fixed shapes split anywhere and joined at any level',
         'C17': 'trees of 40 nodes of fixed shapes, from every node', 'C18': 'trees of 40 nodes of fixed shapes; for the level check, any one level arbitrary', 'C20': 'up to 12 (thorough 30) keys, each hashed apart, a fixed history of 30 (60) operations of which any one is replaced by any other',
         'C21': 'trees of 20 to 30 nodes, sequences of 6 (20) segments of fixed levels', 'C22': 'stacks of 30 parts of fixed levels', 'C24': 'bursts of up to 30 equal operations', 'C25': 'up to 40 elements, 20 given parts, batches of up to 30, levels those of one seed'}


def big(pid, quick, thorough=()):
    CHECKS[pid]['bounds'] += '; and, large: ' + LARGE.get(pid, SEQ_LARGE) + ', every element symbolic'
    for j in list(quick) + list(thorough):
        j['what'] = 'large: ' + j['what']
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + list(quick)
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + list(quick) + list(thorough)


def ledit(n, e, pat, segs, size, ops, peek=0, rounds=1, **k):
    return job('h_edit', [n, e, 100 * pat + segs, size, 1, ops, peek, rounds],
               'engine %s, %d segments (%s), %d operations of %d, %d round(s)' % (['naive', 'dcg'][e], segs, PATS[pat], ops % 100, max(1, ops // 100), rounds), **k)


big('C01', [ledit(1, 0, 1, 30, 1004, 1001, 1), ledit(1, 0, 4, 30, 1004, 2501, 1), ledit(1, 0, 3, 12, 1003, 502, 1), ledit(1, 1, 6, 20, 1004, 601),
    job('h_edit', [1, 0, 0, 1, 0, 1003, 1, 1], 'from the empty sequence, 3 bursts of 10'), job('h_drain', [1, 0, 130, 1004, 1, 501], 'cursor emptied'),
    job('h_drain', [1, 1, 620, 1004, 1, 301], 'cursor emptied, dcg')],
    [ledit(1, e, p, 40, 1005, 701, 1) for e in (0, 1) for p in range(1, 7)] + [job('h_edit', [1, 0, 0, 1, 0, 1504, 1, 1], 'from the empty sequence, 4 bursts of 15')])
big('C02', [ledit(2, 0, p, 30, 1004, 1) for p in (1, 2, 3, 4, 5)] + [ledit(2, 0, 6, 30, 1004, 1001, rounds=2, shards=8), ledit(2, 1, 1, 30, 1004, 1), ledit(2, 1, 4, 16, 1003, 501),
    ledit(2, 0, 3, 20, 1003, 301, rounds=2, shards=8), ledit(2, 1, 5, 12, 1003, 1, rounds=2), job('h_edit', [2, 0, 0, 1, 0, 1003, 0, 1], 'from the empty sequence, 3 bursts of 10')],
    [ledit(2, 1, p, 30, 1004, 1001) for p in range(1, 7)] + [ledit(2, 0, p, 60, 1004, 1) for p in range(1, 8)])
big('C03', [job('h_focus', [3, 0, 130, 1004, 0], 'arbitrary 64-bit index, balanced', reach=[0, 1, 2, 3]), job('h_focus', [3, 0, 420, 1004, 0], 'arbitrary 64-bit index, levels falling', reach=[0, 1, 2, 3]),
    job('h_focus', [3, 1, 330, 1004, 1], 'arbitrary 64-bit index, levels rising, dcg', reach=[0, 1, 2, 3]), job('h_focus', [3, 0, 220, 1003, 0], 'arbitrary 64-bit index, levels equal', reach=[0, 1, 2, 3])],
    [job('h_focus', [3, e, 100 * p + 40, 1005, e], 'arbitrary 64-bit index, ' + PATS[p], reach=[0, 1, 2, 3]) for e in (0, 1) for p in range(1, 7)])
big('C04', [ledit(4, 0, p, 30, 1003, 1) for p in (1, 3, 4, 5)] + [ledit(4, 0, 6, 25, 1003, 801, rounds=2, shards=4), ledit(4, 1, 1, 20, 1003, 1), ledit(4, 1, 3, 12, 1003, 301), ledit(4, 0, 2, 20, 1002, 401)],
    [ledit(4, 1, p, 30, 1004, 701) for p in range(1, 7)] + [ledit(4, 0, p, 60, 1003, 1) for p in range(1, 8)])
big('C05', [ledit(5, 0, p, 30, 1003, 1) for p in (1, 2, 3, 4, 5, 6)] + [ledit(5, 0, 7, 20, 1002, 1), ledit(5, 0, 6, 25, 1003, 801, rounds=2, shards=4), ledit(5, 1, 4, 14, 1003, 1)],
    [ledit(5, 1, p, 30, 1004, 701) for p in range(1, 7)] + [ledit(5, 0, p, 60, 1003, 1) for p in range(1, 8)])
big('C06', [ledit(6, 0, p, 30, 1004, 1) for p in (1, 3, 4)] + [ledit(6, 0, 6, 25, 1003, 801, rounds=2, shards=4), ledit(6, 1, 1, 20, 1003, 1), ledit(6, 1, 3, 12, 1003, 301),
    job('h_map', [6, 1, 130, 1004, 1, 0, 0], 'mapped, dcg'), job('h_memo_from', [6, 1, 420, 1003, 1], 'converted', reach=[0, 1]), job('h_join', [6, 1, 612, 612, 1003, 1, 0, 1], 'joined, dcg')],
    [ledit(6, 1, p, 30, 1004, 701) for p in range(1, 7)])
big('C07', [job('h_names', [7, 0, 130, 1003, 1, 0], 'balanced', reach=[0, 1]), job('h_names', [7, 0, 325, 1003, 1, 0], 'levels rising', reach=[0, 1]), job('h_names', [7, 0, 425, 1002, 1, 0], 'levels falling', reach=[0, 1]),
    job('h_names', [7, 1, 216, 1002, 1, 0], 'levels equal, dcg', reach=[0, 1]), job('h_names', [7, 0, 612, 1003, 1, 501], 'levels mixed, 5 steps', shards=3, reach=[0, 1]), job('h_names', [7, 1, 110, 1003, 1, 301], 'balanced, 3 steps, dcg', reach=[0, 1]),
    job('h_made_names', [7, 1, 0, 120, 1003, 1, 0], 'joined, dcg', reach=[0, 1]), job('h_made_names', [7, 0, 1, 415, 1003, 1, 0], 'from a stack', reach=[0, 1]), job('h_made_names', [7, 1, 3, 120, 1003, 1, 0], 'mapped, dcg', reach=[0, 1]),
    job('h_ends', [7, 0, 130, 1004, 1, 1001], 'ends', shards=4), job('h_ends', [7, 1, 420, 1004, 1, 301], 'ends, dcg', shards=6)],
    [job('h_names', [7, 1, 100 * p + 25, 1003, 1, 501], PATS[p] + ', dcg', reach=[0, 1], shards=4) for p in range(1, 7)])
for c, h in (('C08', 'h_fold_up'), ('C09', 'h_fold_lr')):
    n = prop(c)
    big(c, [job(h, [n, e, 100 * p + 35, 1004, 1, 0], PATS[p] + [', naive', ', dcg'][e]) for e in (0, 1) for p in range(1, 7)] + [job(h, [n, 1, 112, 1003, 1, 1], 'balanced, edited, dcg'), job(h, [n, 1, 310, 1003, 1, 301], 'levels rising, edited, dcg'), job(h, [n, 0, 412, 1003, 1, 301], 'levels falling, edited')],
        [job(h, [n, 1, 100 * p + 20, 1003, 1, 401], PATS[p] + ', edited, dcg', shards=4) for p in range(1, 7)])
big('C10', [job('h_map', [10, e, 100 * p + 25, 1004, 1, 0, 0], PATS[p] + [', naive', ', dcg'][e]) for e in (0, 1) for p in range(1, 7)]
    + [job('h_map', [10, 0, 130, 1004, 1, 0, 1], 'balanced, edited after'), job('h_map', [10, 1, 120, 1004, 1, 0, 1], 'balanced, edited after, dcg'), job('h_map', [10, 0, 410, 1003, 1, 301, 0], 'levels falling, edited before')],
    [job('h_map', [10, 1, 100 * p + 25, 1004, 1, 0, 401], PATS[p] + ', edited after, dcg', shards=4) for p in range(1, 7)])
LC = (0, 1, 2, 3, 4, 5, 6, 8, 9, 10, 12)
big('C11', [job('h_inc', [11, c, 100 * (1 + c % 6) + (10 if c == 8 else 20), 1003, 1, 0, 1, 1], COMPS[c] + ', ' + PATS[1 + c % 6] + ', one value replaced') for c in LC]
    + [job('h_inc', [11, c, 100 * (1 + (c + 2) % 6) + 12, 1003, 1, 1, 1, 0], COMPS[c] + ', ' + PATS[1 + (c + 2) % 6] + ', one edit anywhere') for c in LC]
    + [job('h_inc', [11, 4, 112, 1003, 1, 401, 1, 0], COMPS[4] + ', a burst of 4'), job('h_inc', [11, 6, 614, 1003, 1, 601, 1, 0], COMPS[6] + ', a burst of 6'), job('h_inc_stack', [11, 112, 1003, 1, 1, 0], 'stack changed'), job('h_inc_stack', [11, 408, 1003, 1, 1, 1], 'stack changed')],
    [job('h_inc', [11, c, 100 * p + 20, 1003, 1, 301, 1, 0], COMPS[c] + ', ' + PATS[p] + ', bursts of 3', shards=2) for c in LC for p in (1, 3, 6)]
    + [job('h_inc', [11, c, 115, 1003, 1, 1, 2, 0], COMPS[c] + ', two rounds', shards=8) for c in (1, 4, 6, 9)])
big('C12', [job('h_reuse', [12, 316, 1003, 1, 1], 'levels rising, one value replaced, twice', reach=[0, 2, 3]), job('h_reuse', [12, 620, 1003, 1, 1], 'levels mixed, one value replaced, twice', reach=[0, 2, 3]),
    job('h_reuse', [12, 108, 1002, 1, 0], 'balanced, one edit, twice', shards=4, reach=[0, 2, 3]), job('h_reuse', [12, 410, 1003, 1, 1], 'levels falling, one value replaced, twice', reach=[0, 2, 3])],
    [job('h_reuse', [12, 100 * p + 12, 1003, 1, 0], PATS[p] + ', one edit, twice', shards=8, reach=[0, 2, 3]) for p in range(1, 7)] + [job('h_reuse', [12, 412, 1003, 501, 0], 'levels falling, bursts of 5, twice', shards=8, reach=[0, 2, 3])])
big('C13', [job('h_astack', [13, 0, 2004, 0, 8], 'bursts of 20'), job('h_astack', [13, 1, 1504, 1, 4], 'bursts of 15, dcg, named'), job('h_astack', [13, 0, 906, 0, 4], 'bursts of 9'),
    job('h_astack_open', [13, 0, 40, 5, 1, 1], '40 parts'), job('h_astack_open', [13, 1, 40, 5, 1, 1], '40 parts, dcg')])
big('C14', [job('h_stack', [14, 0, 1004, 1], 'bursts of 10'), job('h_stack', [14, 1, 1003, 1], 'bursts of 10, dcg'), job('h_stack', [14, 0, 4002, 0], 'bursts of 40'), job('h_stack', [14, 0, 1503, 1, 1], 'bursts of 15, equality', reach=[0, 1])])
SH = ['', 'balanced', 'left spine', 'right spine', 'right spine of one level', 'zigzag', 'mixed']
big('C15', [job('h_cursor', [15, 0, 240, 0, 1203, 1], 'left spine, bursts of 12', reach=[0, 1]), job('h_cursor', [15, 0, 240, 1, 1204, 0], 'left spine, bursts of 12'), job('h_cursor', [15, 0, 340, 1, 1203, 1], 'right spine, bursts of 12'), job('h_cursor', [15, 1, 540, 1, 1104, 0], 'zigzag, dcg'),
    job('h_cursor', [15, 0, 130, 0, 203, 1], 'balanced', reach=[0, 1]), job('h_cursor', [15, 0, 0, 0, 3503, 1], 'no tree, bursts of 35', reach=[0, 1]), job('h_cursor', [15, 0, 131, 1, 5, 0], 'balanced, 5 moves'), job('h_cursor', [15, 1, 0, 1, 4002, 1], 'no tree, bursts of 40, dcg')],
    [job('h_cursor', [15, 0, 240, 0, 1205, 1], 'left spine, bursts of 12', reach=[0, 1], shards=8), job('h_cursor', [15, 0, 440, 0, 1205, 1], 'right spine, bursts of 12', reach=[0, 1], shards=8), job('h_cursor', [15, 1, 160, 1, 8, 0], 'balanced, 8 moves, dcg', shards=8)])
big('C16', [job('h_split', [16, 0, 120, 0, 0, 0], 'balanced', reach=[0, 1]), job('h_split', [16, 0, 220, 0, 0, 0], 'left spine', reach=[0, 1]), job('h_split', [16, 0, 325, 1, 0, 0], 'right spine', reach=[0]), job('h_split', [16, 1, 416, 1, 0, 1], 'right spine of one level, moved, dcg', reach=[0]),
    job('h_split', [16, 0, 540, 0, 0, 0], 'zigzag', reach=[0, 1]), job('h_tjoin', [16, 0, 108, 208, 0], 'balanced and left spine'), job('h_tjoin', [16, 1, 612, 512, 1], 'mixed and zigzag, dcg'), job('h_tjoin', [16, 0, 420, 2, 0], 'right spine and two nodes'), job('h_tjoin2', [16, 0, 120, 420, 310, 0, 0], 'joined twice'), job('h_tjoin2', [16, 1, 610, 208, 1, 1, 0], 'joined twice, dcg')],
    [job('h_split', [16, 0, 240, 0, 1, 0], 'left spine, after discards', reach=[0, 1], shards=4), job('h_split', [16, 1, 440, 1, 0, 1], 'right spine of one level, moved, dcg', reach=[0], shards=4), job('h_tjoin', [16, 0, 112, 212, 0], 'balanced and left spine', shards=4), job('h_tjoin', [16, 0, 320, 120, 1], 'right spine and balanced', shards=4)])
big('C17', [job('h_iter', [17, e, 100 * p + 40, n, d], SH[p] + [', naive', ', dcg'][e] + ['', ', after discards'][d]) for (e, p, n, d) in ((0, 1, 0, 0), (0, 2, 1, 1), (1, 2, 1, 0), (0, 3, 0, 1), (1, 3, 1, 0), (0, 4, 1, 0), (0, 5, 1, 1), (1, 5, 1, 0), (1, 6, 1, 0), (0, 6, 0, 1))])
big('C18', [job('h_ltree', [18, e, 100 * p + 40, 1], SH[p] + [', naive', ', dcg'][e]) for e in (0, 1) for p in range(1, 7)] + [job('h_good_levels', [18, 0, 100 * p + 40], 'level check, ' + SH[p] + ', one level arbitrary', reach=[0, 1, 2]) for p in range(1, 7)])
big('C20', [job('h_skip_many', [20, 0, 8, 12, 30], '12 keys, 30 operations'), job('h_skip_many', [20, 0, 3, 12, 30], '12 keys, paths of 3, 30 operations'), job('h_skip_many', [20, 1, 8, 12, 30], '12 keys, 30 operations, dcg'), job('h_skip_many', [20, 0, 64, 8, 24], '8 keys, paths of 64'), job('h_skip_many', [20, 0, 1, 6, 24], '6 keys, paths of 1')],
    [job('h_skip_many', [20, e, 20, 30, 60], '30 keys, 60 operations', shards=8) for e in (0, 1)] + [job('h_skip_many', [20, 1, 33, 20, 60], '20 keys, paths of 33, dcg', shards=8)])
big('C21', [job('h_ccopy', [21, 0, 230, 1, 2], 'tree cursors on a left spine'), job('h_ccopy', [21, 0, 120, 2, 1], 'tree cursors on a balanced tree'), job('h_persist', [21, 0, 106, 1003, 1], 'balanced', shards=3)],
    [job('h_persist', [21, e, 320, 1003, 1], 'levels rising', shards=8) for e in (0, 1)])
big('C22', [job('h_memo_from', [22, e, 100 * p + 30, 1003, 1], PATS[p] + [', naive', ', dcg'][e], reach=[0, 1]) for e in (0, 1) for p in range(1, 7)])
big('C23', [job('h_join', [23, 0, 320, 420, 1003, 1, 1, 1], 'rising and falling, edited after'), job('h_join', [23, 1, 620, 620, 1003, 1, 0, 1], 'mixed, dcg'), job('h_join', [23, 0, 115, 110, 1003, 1, 0, 0], 'balanced'), job('h_join', [23, 1, 212, 512, 1003, 1, 0, 0], 'equal and zigzag, dcg'), job('h_join', [23, 0, 110, 1, 1003, 1, 301, 0], 'balanced and one segment, edited after')],
    [job('h_join', [23, e, 100 * p + 20, 100 * q + 20, 1003, 1, 1, 1], PATS[p] + ' and ' + PATS[q], shards=4) for e in (0, 1) for (p, q) in ((1, 3), (3, 3), (4, 4), (2, 6))])
big('C24', [job('h_acc', [24, e, t, o, 1, c], ACCS[t] + ', bursts of %d' % (o // 100), **({'reach': [0, 1]} if c else {})) for t in range(8) for (e, o, c) in ((0, 1504, 0), (1, 705, 0), (0, 3003, 1))])
big('C25', [ev(0, 0, 1, 20, 4, 3, 1, 8, 2, 4), ev(0, 0, 1, 20, 4, 3, 2, 8, 2, 2), ev(1, 0, 1, 30, 3, 3, 1, 9, 6, 2), ev(0, 1, 1, 30, 4, 2, 2, 9, 6, 2), ev(1, 1, 1, 30, 4, 2, 1, 9, 7, 3), ev(0, 2, 1, 20, 1, 1, 2, 9, 6, 2), ev(0, 0, 0, 0, 5, 4, 2, 20, 8, 0), ev(0, 0, 1, 40, 4, 3, 1, 12, 9, 0), ev(1, 1, 1, 40, 2, 5, 1, 12, 9, 3), ev(1, 0, 2, 112, 3, 2, 1, 5, 6, 2), ev(0, 0, 4, 320, 2, 2, 1, 6, 7, 2), ev(0, 0, 4, 120, 2, 2, 1, 6, 7, 1), ev(1, 1, 4, 612, 2, 2, 1, 6, 6, 2), ev(0, 1, 3, 410, 2, 2, 1, 6, 6, 0)],
    [ev(0, 0, 1, 40, 4, 3, 2, 12, 2, 2), ev(0, 2, 1, 40, 1, 1, 2, 20, 6, 2), ev(0, 0, 0, 0, 5, 4, 3, 30, 8, 0)])
big('C27', [mt(0, 120, 1003, 1, 1, 0, 0), mt(1, 310, 1003, 1, 1, 0, 0), mt(0, 412, 1003, 1, 501, 0, 0), mt(0, 612, 1003, 1, 1, 1, 0), mt(0, 715, 1002, 1, 1, 3, 0), mt(0, 620, 1002, 1, 401, 3, 0), mt(0, 520, 1002, 0, 1, 2, 0), mt(1, 220, 1003, 1, 0, 2, 0)],
    [mt(1, 100 * p + 20, 1003, 1, 401, w, 0, shards=2) for p in range(1, 7) for w in (0, 2, 3)])


# ---- long runs: 600 elements in a run, bursts of 600 (or 150) operations
def long(pid, quick):
    for j in quick:
        j['what'] = 'long: ' + j['what']
    CHECKS[pid]['bounds'] += '; and runs of hundreds of elements (600; stacks 150), one operation or one burst of that many at one of seven places'
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + quick
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + quick


def lj(h, p, **k):
    return job(h, p, 'runs of hundreds', **k)


long('C01', [lj('h_edit', [1, 0, 0, 1, 0, 60002, 1, 1]), lj('h_drain', [1, 0, 102, 600, 1, 60001]), lj('h_drain', [1, 1, 102, 600, 1, 60001])])
long('C02', [lj('h_edit', [2, 0, 0, 1, 0, 60002, 0, 1]), lj('h_edit', [2, 1, 102, 600, 1, 60001, 0, 1]), lj('h_big', [2, 2, 1000, 1])])
long('C03', [lj('h_big', [3, 2, 1000, 1])])
long('C04', [lj('h_edit', [4, e, 102, 600, 1, 60001, 0, 1]) for e in (0, 1)])
long('C05', [lj('h_edit', [5, 0, 102, 600, 1, 60001, 0, 1]), lj('h_edit', [5, 0, 0, 1, 1, 60002, 0, 1])])
long('C06', [lj('h_edit', [6, e, 102, 600, 1, 60001, 0, 1]) for e in (0, 1)] + [lj('h_from_vec', [6, 600])])
long('C08', [lj('h_fold_up', [8, e, 102, 600, 1, 1]) for e in (0, 1)])
long('C09', [lj('h_fold_lr', [9, e, 102, 600, 1, 1]) for e in (0, 1)])
long('C10', [lj('h_map', [10, e, 102, 600, 1, 0, 1]) for e in (0, 1)])
long('C11', [lj('h_inc', [11, c, 102, 250, 1, 0, 1, 1]) for c in (1, 4, 6)])
long('C12', [lj('h_reuse', [12, 103, 600, 1, 1], reach=[0, 2, 3])])
long('C13', [lj('h_astack', [13, 0, 60002, 0, 8]), lj('h_astack', [13, 1, 60001, 1, 8])])
long('C14', [lj('h_stack', [14, 0, 15001, 0]), lj('h_stack', [14, 1, 10001, 1])])
long('C15', [lj('h_cursor', [15, 0, 0, 0, 30002, 1], reach=[0, 1])])
long('C22', [lj('h_memo_from', [22, e, 102, 600, 1], reach=[0, 1]) for e in (0, 1)])
long('C23', [lj('h_join', [23, e, 101, 102, 600, 1, 0, 0]) for e in (0, 1)] + [lj('h_from_vec', [23, 600])])
long('C24', [lj('h_acc', [24, 0, t, 30001, 1, 0]) for t in range(8)])
long('C27', [lj('h_meta', [27, 0, 102, 600, 1, 1, 0, 0], reach=[0, 1]), lj('h_meta', [27, 1, 102, 600, 1, 1, 2, 0], reach=[0, 1]), lj('h_meta', [27, 0, 0, 600, 1, 60001, 4, 0])])

# ---- names on two archive points (or nodes) of three, large
def mixed(pid, jobs):
    for j in jobs:
        j['what'] = 'large, names on two of three: ' + j['what']
    CHECKS[pid]['bounds'] += '; and these with names on two of three'
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + jobs
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + jobs


def ledit3(n, e, pat, segs, ops, rounds=1, **k):
    return job('h_edit', [n, e, 100 * pat + segs, 1003, 3, ops, 0, rounds], '%d segments (%s)' % (segs, PATS[pat]), **k)


mixed('C01', [ledit3(1, 1, 1, 20, 601)])
mixed('C02', [ledit3(2, 1, 4, 20, 1), ledit3(2, 1, 6, 16, 501)])
mixed('C04', [ledit3(4, 1, 1, 20, 1), ledit3(4, 0, 6, 20, 701), ledit3(4, 1, 3, 12, 1)])
mixed('C05', [ledit3(5, 1, 1, 20, 1)])
mixed('C07', [job('h_names', [7, 1, 216, 1002, 3, 0], 'levels equal, dcg', reach=[0, 1]), job('h_names', [7, 0, 620, 1003, 3, 0], 'levels mixed', reach=[0, 1])])
mixed('C08', [job('h_fold_up', [8, 1, 100 * p + 35, 1004, 3, 0], PATS[p] + ', dcg') for p in (1, 3, 4, 6)] + [job('h_fold_up', [8, 1, 112, 1003, 3, 1], 'balanced, edited, dcg')])
mixed('C09', [job('h_fold_lr', [9, 1, 100 * p + 35, 1004, 3, 0], PATS[p] + ', dcg') for p in (1, 3, 4, 6)] + [job('h_fold_lr', [9, 1, 112, 1003, 3, 1], 'balanced, edited, dcg')])
mixed('C10', [job('h_map', [10, 1, 100 * p + 25, 1004, 3, 0, 0], PATS[p] + ', dcg') for p in (1, 3, 4, 6)])
mixed('C11', [job('h_inc', [11, c, 100 * (1 + (c + 4) % 6) + (10 if c == 8 else 20), 1003, 3, 0, 1, 1], COMPS[c] + ', one value replaced') for c in LC]
    + [job('h_inc', [11, c, 100 * (1 + (c + 1) % 6) + 12, 1003, 3, 1, 1, 0], COMPS[c] + ', one edit anywhere') for c in (1, 4, 5, 6, 9, 12)])
mixed('C13', [job('h_astack', [13, 1, 1504, 3, 4], 'bursts of 15, dcg')])
mixed('C14', [job('h_stack', [14, 1, 1003, 3], 'bursts of 10, dcg')])
mixed('C15', [job('h_cursor', [15, 1, 540, 3, 1104, 0], 'zigzag, dcg')])
mixed('C16', [job('h_split', [16, 1, 416, 3, 0, 1], 'right spine of one level, moved, dcg', reach=[0])])
mixed('C17', [job('h_iter', [17, 1, 100 * p + 40, 3, 0], SH[p] + ', dcg') for p in (1, 3, 4, 6)])
mixed('C18', [job('h_ltree', [18, 1, 100 * p + 40, 3], SH[p] + ', dcg') for p in (1, 4, 6)])
mixed('C22', [job('h_memo_from', [22, 1, 100 * p + 30, 1003, 3], PATS[p] + ', dcg', reach=[0, 1]) for p in (1, 3, 4, 6)])
mixed('C23', [job('h_join', [23, 1, 320, 620, 1003, 3, 0, 1], 'rising and mixed, dcg')])
mixed('C27', [mt(1, 620, 1003, 3, 1, 0, 0)])

# ---- gauges: every pair of unequal gauges from 1 to 5, batches of three names
GAUGES = [(1, 3), (1, 4), (1, 5), (2, 3), (2, 5), (3, 1), (3, 2), (3, 4), (4, 1), (4, 3), (5, 2), (5, 1)]
CHECKS['C25']['bounds'] += '; and unequal gauges from 1 to 5 with batches long enough for three names, appended and inserted anywhere'
_g = []
for _i, (_d, _n) in enumerate(GAUGES):
    _b = 3 * _d * _n + 1
    for _k in (0, 1):
        _g += [ev((_i + _k) % 2, _k, 1, 2 * _d + 1, _d, _n, 2, _b, 6, 1), ev((_i + _k + 1) % 2, _k, 2 + (_i + _k) % 3, 3, _d, _n, 1, _b, 7, 1)]
        if _d * _n < 12:
            _g += [ev((_i + _k) % 2, _k, 1, 2 * _d * _n + 1, _d, _n, 1, _b, 6, 2)]
for _j in _g:
    _j['what'] = 'gauges: ' + _j['what']
CHECKS['C25']['quick'] = CHECKS['C25']['quick'] + _g
CHECKS['C25']['thorough'] = CHECKS['C25']['thorough'] + _g


# ---- huge: 100 to 300 archive points or nodes, bursts of 150 archived parts
def huge(pid, what, jobs):
    for j in jobs:
        j['what'] = 'huge: ' + j['what']
        j['steps'] = 400000000
        j['cost'] = 2
    CHECKS[pid]['bounds'] += '; and, with fixed levels and at seven places only: ' + what
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + jobs
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + jobs


def hedit(n, e, pat, segs, size, ops, peek=0, **k):
    return job('h_edit', [n, e, 10000 * pat + segs, size, 1, ops, peek, 1], '%s, %d segments (%s), operations %d' % (['naive', 'dcg'][e], segs, PATS[pat], ops), **k)


huge('C01', 'sequences of 150 and 300 segments, bursts of 150 archived parts', [hedit(1, 0, 1, 300, 1003, 15001, 1), hedit(1, 0, 4, 150, 1003, 1, 1), job('h_drain', [1, 0, 10300, 1003, 1, 100001], 'cursor emptied')])
huge('C02', 'sequences of 300 segments, bursts of 150 archived parts', [hedit(2, 0, 1, 300, 1003, 30001), hedit(2, 0, 4, 300, 1002, 1), job('h_edit', [2, 0, 0, 1, 1, 150001, 0, 1], 'from the empty sequence')])
huge('C04', 'sequences of 40 to 300 segments', [hedit(4, 0, 6, 300, 1002, 1), hedit(4, 0, 3, 200, 1002, 15001), hedit(4, 1, 1, 40, 1003, 1)])
huge('C05', 'sequences of 200 segments', [hedit(5, 0, 4, 200, 1002, 1), hedit(5, 0, 3, 200, 1002, 1)])
huge('C06', 'sequences of 120 and 200 segments', [hedit(6, 1, 1, 120, 1003, 5001), hedit(6, 0, 3, 200, 1002, 1)])
huge('C08', 'sequences of 200 and 300 segments', [job('h_fold_up', [8, e, 10000 * p + 200, 1003, 1, 0], PATS[p]) for e in (0, 1) for p in (1, 3, 4)] + [job('h_fold_up', [8, 1, 10300, 1003, 1, 0], 'balanced')])
huge('C09', 'sequences of 150 segments', [job('h_fold_lr', [9, e, 10000 * p + 150, 1003, 1, 0], PATS[p]) for e in (0, 1) for p in (1, 3, 4)])
huge('C10', 'sequences of 150 segments', [job('h_map', [10, e, 10000 * p + 150, 1003, 1, 0, 0], PATS[p]) for e in (0, 1) for p in (1, 3, 4)])
huge('C11', 'sequences of 80 segments, one value replaced', [job('h_inc', [11, c, 10080, 1002, 1, 0, 1, 1], COMPS[c] + ', balanced, one value replaced') for c in (1, 4, 6)])
huge('C12', 'sequences of 100 segments, one value replaced', [job('h_reuse', [12, 10100, 1002, 1, 1], 'balanced, one value replaced, twice', reach=[0, 2, 3])])
huge('C16', 'trees of 60 nodes split anywhere', [job('h_split', [16, 0, 40060, 1, 0, 0], SH[4], reach=[0])])
huge('C17', 'trees of 100 nodes', [job('h_iter', [17, 0, 10100, 1, 0], SH[1]), job('h_iter', [17, 1, 20100, 1, 0], SH[2]), job('h_iter', [17, 1, 30100, 1, 0], SH[3])])
huge('C18', 'trees of 200 and 300 nodes', [job('h_ltree', [18, e, 10000 * p + 200, 1], SH[p]) for e in (0, 1) for p in (1, 2, 3, 5)] + [job('h_ltree', [18, 1, 30300, 1], SH[3])])
huge('C22', 'stacks of 150 and 300 parts', [job('h_memo_from', [22, 1, 40300, 1002, 1], 'levels falling', reach=[0, 1])] + [job('h_memo_from', [22, e, 10000 * p + 150, 1002, 1], PATS[p], reach=[0, 1]) for e in (0, 1) for p in (1, 3, 4)])
huge('C23', 'sequences of 150 segments', [job('h_join', [23, 1, 10150, 40150, 1002, 1, 0, 1], 'balanced and falling'), job('h_join', [23, 0, 30150, 30150, 1002, 1, 0, 1], 'rising')])

# ---- deep: every history of five or six operations
def deep(pid, jobs):
    for j in jobs:
        j['what'] = 'deep: ' + j['what']
        j['cost'] = 2
    CHECKS[pid]['bounds'] += '; and every history of six operations from the empty sequence, five on two segments'
    CHECKS[pid]['quick'] = CHECKS[pid]['quick'] + jobs
    CHECKS[pid]['thorough'] = CHECKS[pid]['thorough'] + jobs


for _c, _k in (('C01', 1), ('C02', 0), ('C04', 0), ('C05', 0), ('C06', 0)):
    _n = prop(_c)
    deep(_c, [edit(_n, 0, 0, 1, 0, 6, _k, 1, shards=2), edit(_n, 0, 2, 1, 0, 5, _k, 1, shards=2), edit(_n, 1, 0, 1, 1, 5, _k, 1)])

NOT_APPLICABLE = {}
