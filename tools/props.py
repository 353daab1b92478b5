"""units (what is extracted and verified together) and, per property, which
functions' obligations decide it"""
LIBS = ['vx_deps', 'lem_pos']
UNITS = {
    'common': {'modules': ['common', 'storage'], 'specs': ['common.spec', 'storage.spec'], 'libs': LIBS},
    'sum': {'modules': ['common', 'storage', 'sum'], 'specs': ['common.spec', 'storage.spec', 'sum.spec'], 'libs': LIBS + ['lem_mmr']},
    'sparse': {'modules': ['common', 'storage', 'sparse'], 'specs': ['common.spec', 'storage.spec', 'sparse.spec'], 'libs': LIBS},
    'binary': {'modules': ['common', 'storage', 'binary'], 'specs': ['common.spec', 'storage.spec', 'binary.spec'], 'libs': LIBS + ['lem_mmr']},
}

A_SHA = 'SHA-256 is an uninterpreted function of the byte sequence fed to it (sha2 crate trusted)'
A_STD = 'core/alloc/std functions behave as the assumed contracts listed in trusted_base say'
A_EXT = 'the extraction (vx) keeps the program text except for the logged desugarings'
A_VER = 'Verus, its SMT encoding and Z3 are sound; usize is 64 bits wide'
A_TERM = 'termination is proved for loops and recursion that carry a decreases clause, and not claimed otherwise'
BASE = [A_SHA, A_STD, A_EXT, A_VER, A_TERM]

RULE = ('native cases of the search harness: exhaustive small scopes plus random cases drawn from VERIF_SEED, each '
        'compared with an independent oracle of the property; a case is non-trivial if it exercises the property on at '
        'least one operation, and distinct by the hash of its description')

PROPS = {}


def p(id, level, units, fns, cone=('.',), not_proved=(), assumptions=(), technique=None, note='', clauses=None):
    PROPS[id] = {'level': level, 'units': units, 'fns': list(fns), 'cone': list(cone), 'not_proved': list(not_proved),
                 'assumptions': BASE + list(assumptions), 'rule': RULE,
                 'technique': technique or 'contract-based deductive verification (Verus) of the extracted source, with native search for failing inputs',
                 'note': note, 'clauses': clauses}


CPOS = [r'^common::position', r'^common::path', r'^common::msb', r'^common::(node|subtree|prefix)']
NMAX = 'leaf counts up to 2^62 - 2 (beyond that in-order indices leave the 63-bit range)'
INF = 'storage is any implementation that satisfies the contracts of the storage traits (StorageMap is proved to)'
BT = r'^binary::merkle_tree::'
ST = r'^sparse::merkle_tree::MerkleTree::'
COLL = 'no SHA-256 collision among the nodes of the tree before and after the operation, and none of their digests is zero (explicit hypothesis no_coll); a leaf is not made of a zero key and a zero digest'
CLONE = 'cloning the storage error type gives an equal value (explicit hypothesis clone_eq)'
p('C01', 'proof', ['binary'], [r'^binary::(hash|node|primitive)::', BT + r'(MerkleTree::(new|push|join_all_subtrees|root|root_node)|join_subtrees|build_root_node)$', r'^common::subtree'],
  assumptions=[NMAX, INF],
  note='root, push and all they call proved for all leaf counts and contents; theorem_pushes lifts it to histories')
p('C02', 'proof', ['binary'], [BT + r'MerkleTree::(prove|root_position|root_node)$', BT + 'build_root_node$', r'^common::position_path', r'^common::path'],
  assumptions=[NMAX, INF],
  note='prove returns the root and leaf hash + RFC 6962 audit path, for every index and count; lemma audit_verifies folds it back')
p('C03', 'proof', ['binary'], [BT + r'MerkleTree::prove$', r'^binary::in_memory::MerkleTree::prove$'], clauses=r'InvalidProofIndex|is None|Err\(|overflow',
  assumptions=[INF], note='out-of-range indices in any state; in range: only storage errors')
p('C04', 'proof', ['binary'], [BT + r'MerkleTree::(load|build|peak_positions|root_position)$', r'^common::position_path', r'^common::path'],
  assumptions=[NMAX, INF],
  note='load succeeds exactly on the stored peaks and gives the tree of that prefix; theorem_load')
p('C05', 'proof', ['binary'], [r'^binary::(node|primitive)::', BT + r'(MerkleTree::(push|join_all_subtrees)|join_subtrees)$'],
  assumptions=[NMAX, INF],
  note='storage invariant (every complete subtree stored) and frame (only newly completed subtrees written); theorem_pushes')
p('C06', 'proof', ['sum'], [r'^sum::', r'^common::subtree'],
  assumptions=[NMAX, INF, 'the total of all fees fits in 64 bits'],
  note='push and root proved as list transformations; theorem_history lifts them to any history of pushes and root queries')
p('C07', 'proof', ['sparse'], [r'^common::msb', r'^sparse::(hash|node)::', ST + r'(new|update|update_with_path_set|delete|delete_with_path_set|path_set|root|root_node|set_root_node)$'],
  assumptions=[INF, COLL, CLONE],
  note='update and delete proved as functions on trees for every tree, key and value; thash_smt: the digest of such a tree is the sparse Merkle root of its map; theorem_history lifts both to any history')
p('C08', 'proof', ['sparse'], [r'^common::msb', ST + r'(update|delete|delete_with_path_set|path_set)$'], clauses={ST + 'update$': r'len\(\) == 0|delete'},
  assumptions=[INF, COLL, CLONE],
  note='delete proved for every tree and key: the map loses exactly the key (del_canon), an absent key changes neither root nor storage; theorem_step')
p('C09', 'proof', ['sparse'], [ST + r'(load|new|root|root_node)$', r'^sparse::primitive::'],
  assumptions=[INF, COLL],
  note='theorem_load: loading from the current root gives a value equal to the original one, for every tree that the operations keep in storage (C13), including the empty one')
p('C10', 'proof', ['sparse'], [ST + r'(load|path_set|update|delete)$', r'^sparse::node::StorageNode', r'^sparse::primitive::', r'^common::(prefix|error|path_iterator)'],
  assumptions=[INF, COLL, CLONE],
  clauses={ST + r'(update|delete)$': r'Err|storage_err|need_bad|panic|unwrap|overflow'},
  note='contracts hold for any subset of the nodes of a tree in storage and for entries with an invalid tag: an operation that needs such a node returns an error (need_bad) and the tree still holds the same map')
p('C11', 'proof', ['common'], [r'^common::position::'],
  note='all obligations of common::position discharged for all 64-bit inputs in the stated ranges')
p('C12', 'proof', ['common'], [r'^common::position', r'^common::path', r'^common::msb'],
  note='path iterators proved for every leaf count below 2^62 and every leaf')
p('C13', 'proof', ['sparse'], [r'^sparse::(hash|node|primitive)::', ST + r'(update|update_with_path_set|delete|delete_with_path_set)$', r'^common::prefix'],
  assumptions=[INF, COLL, CLONE],
  note='wrote_fmt: every entry an operation writes is content-addressed and well-formed; repr with full: every node of the tree is stored under its digest with height 256 - depth; theorem_history')
p('C14', 'proof', ['sum'], [r'^sum::node::', r'^sum::merkle_tree::(MerkleTree::(push|join_all_subtrees|join_subtrees|root|root_node)|theorem_history)$'],
  assumptions=[NMAX, INF, 'the total of all fees fits in 64 bits', 'no SHA-256 collision among the byte strings hashed for the nodes of the tree (explicit hypothesis no_collision)'],
  note='every written entry is the node of a subtree under its digest; theorem_history gives storage after any history')
p('C15', 'proof', ['common'], [r'^common::storage_map', r'^storage'],
  note='StorageMap proved against the map contracts of the storage traits; std HashMap is trusted')
p('C16', 'proof', ['binary', 'sum', 'sparse'], [BT, r'^sum::merkle_tree::', r'^sparse::merkle_tree::'], clauses=r'sfail|serr|Err\(|storage_err|r is Err', assumptions=[INF, COLL, CLONE],
  note='every operation of the three trees that returns Ok left the count of failed mutations unchanged; a failed mutation is returned as that error, and a sparse update or delete that returns an error leaves the root node unchanged; a failed read is returned as a storage error')
p('C17', 'proof', ['binary', 'sparse'], [r'^binary::in_memory::', r'^sparse::in_memory::'], assumptions=[NMAX, COLL],
  note='the in-memory trees meet the same contracts as the generic ones, over StorageMap')
