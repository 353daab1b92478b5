import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
B="src/binary/merkle_tree.rs"; C="src/common/"; S="src/sparse/"; SM="src/sum/merkle_tree.rs"
p("C01","Binary tree root is the RFC 6962 hash of the pushed leaves",
  "For every finite sequence of byte strings pushed to a binary Merkle tree, the root is the RFC 6962 Merkle Tree Hash of that sequence: SHA-256 of the empty string for no leaves, SHA-256(0x00 || data) for one leaf, and otherwise SHA-256(0x01 || left || right) where the left part holds the largest power of two strictly smaller than the number of leaves. Asking for the root never changes the tree.",
  ["inputs","histories"],"all leaf counts below 2^62, all leaf contents (any length, including empty and duplicates), asking for the root after any number of pushes",
  "The tests compare the root for a handful of leaf counts (0..10 and a few data files) with fixed hashes; a wrong join at a count, carry pattern or tree height they do not use goes unseen.",
  [B,"src/binary/hash.rs","src/binary/node.rs","src/binary/primitive.rs",C+"subtree.rs",C+"position.rs"],
  [("push / join_all_subtrees: binary-counter merge of equal-height peaks",B),("build_root_node: right-to-left bagging of the peaks",B),("leaf_sum/node_sum: 0x00 / 0x01 prefixes","src/binary/hash.rs")],
  [("head","linked list of the peaks, smallest first",B),("leaves_count","number of leaves pushed",B)],["MerkleTree::root","MerkleTree::push"])
p("C02","Binary inclusion proofs are the exact audit path and verify",
  "For every binary tree and every valid leaf index, the proof operation returns the current root together with a list made of the leaf's hash followed by the RFC 6962 audit path from leaf to root, so that folding the list upwards according to the index and the number of leaves reproduces the root.",
  ["inputs","histories"],"all trees of up to 2^62 leaves, all leaf contents, every index below the leaf count",
  "The tests prove a few indices of small or fixed-size trees; the shape of the audit path depends on every bit of both the leaf count and the index, and imbalanced shapes are mostly unsampled.",
  [B,C+"position_path.rs",C+"path_iterator.rs",C+"position.rs",C+"msb.rs"],
  [("prove: side positions from the position path, looked up in scratch and main storage",B),("PositionPathIter: in-tree filtering of path and side positions",C+"position_path.rs")],
  [("scratch_storage","nodes of imbalanced subtrees rebuilt while computing the root",B)],["MerkleTree::prove"])
p("C03","Every out-of-range proof index is rejected",
  "Asking a binary tree for a proof of any index not smaller than its number of leaves returns the invalid-proof-index error carrying that index (the in-memory tree returns nothing); it never panics, wraps around, or reports another error. An index in range of a completely stored tree never yields that error.",
  ["inputs","histories"],"every 64-bit index, every tree (including the empty one)",
  "The tests try one index just past the end and one on an empty tree; the extreme of the integer range, where the comparison itself can overflow, is not tried.",
  [B,"src/binary/in_memory.rs"],[("prove: range check on the index",B)],[("leaves_count","number of leaves",B)],["MerkleTree::prove"])
p("C04","A binary tree reloaded from storage is the same tree",
  "Reloading a binary tree from its storage with its leaf count succeeds and gives a tree with the same root and the same proofs, which also behaves identically under all later pushes; reloading with a smaller leaf count gives the tree as it was after that many pushes. If the node of a needed complete subtree is missing from storage, reloading fails with a load error instead of building a tree.",
  ["inputs","histories"],"all leaf counts below 2^62, all contents, all later pushes, all sets of missing nodes",
  "The tests reload a tree at a few fixed counts; which peaks must be read is a function of all the bits of the count.",
  [B,C+"position_path.rs",C+"path_iterator.rs"],[("load / build / peak_positions",B),("root_position",B)],
  [("storage","in-order index -> (index, hash) of every complete subtree","src/binary/primitive.rs")],["MerkleTree::load"])
p("C05","Binary storage holds exactly the complete subtrees, append-only",
  "After any number of pushes the storage of a binary tree holds, for every complete aligned subtree of 2^h leaves, one entry keyed by the subtree's in-order index and containing that index and the subtree's Merkle hash, and nothing else beyond what it held before. A push never alters or removes an entry written for earlier leaves.",
  ["inputs","histories"],"all push histories of fewer than 2^62 leaves, all contents, every key",
  "The tests look at the stored entries of one seven-leaf tree.",
  [B,"src/binary/node.rs","src/binary/primitive.rs"],[("push / join_all_subtrees: storage inserts at node.key()",B),("create_leaf / create_node: position of the new node","src/binary/node.rs")],
  [("storage","in-order index -> (index, hash)",B)],["StorageInspect::get on the tree's storage"])
p("C06","Sum tree root is total fee and sum-tree hash of the leaves",
  "For every sequence of (fee, data) pairs pushed to a sum tree whose total fee fits in 64 bits, the root is the pair of the exact sum of the fees and the Merkle sum hash: (0, SHA-256 of the empty string) for no leaves, SHA-256(0x00 || fee || data) for one leaf, and otherwise SHA-256(0x01 || left fee || left hash || right fee || right hash) with big-endian 8-byte fees and the left part holding the largest power of two strictly smaller than the number of leaves.",
  ["inputs","histories"],"all sequences of fees (with total below 2^64) and data, any number of leaves",
  "The tests check a few leaf counts up to seven with equal fees, so swapped or misplaced fees and other tree shapes are not distinguished.",
  [SM,"src/sum/node.rs","src/sum/hash.rs",C+"subtree.rs"],[("push / join_all_subtrees / root_node",SM),("create_node: fee addition and hash","src/sum/node.rs")],
  [("head","linked list of the peaks, smallest first",SM)],["sum::MerkleTree::root"])
p("C07","Sparse root depends only on the current key-value map",
  "After any history of updates and deletes on a sparse Merkle tree, the root is the sparse Merkle root of the map of current non-empty values: the zero hash for an empty set of keys, SHA-256(0x00 || key || SHA-256(value)) for a single key, and otherwise SHA-256(0x01 || left || right) where keys are split by their most significant undecided bit. In particular two histories that lead to the same map give the same root.",
  ["inputs","histories"],"all histories of update and delete (including repeated, overwriting and no-op operations), all 256-bit keys (also keys equal to the hash of a node), all values, absent SHA-256 collisions",
  "The tests run a few dozen fixed or random short histories with hashed keys, so long shared key prefixes, re-deleted keys and most interleavings of inserts and deletes are never built.",
  [S+"merkle_tree.rs",S+"node.rs",S+"hash.rs",C+"msb.rs",C+"path.rs",C+"path_iterator.rs"],
  [("update / update_with_path_set",S+"merkle_tree.rs"),("delete / delete_with_path_set",S+"merkle_tree.rs"),("create_node_on_path",S+"node.rs"),("path_set and path iteration by key bits",C+"path_iterator.rs")],
  [("root_node","current root node",S+"merkle_tree.rs"),("storage","node hash -> node",S+"merkle_tree.rs")],["sparse::MerkleTree::root"])
p("C08","Sparse delete removes exactly the given key",
  "Deleting a key from a sparse tree (directly, or by updating it with empty data) removes that key and leaves every other key's value in place; when the key is currently absent - never inserted, or already deleted - the delete succeeds and changes nothing. Deleting the last key gives the zero root.",
  ["inputs","histories"],"every history of updates and deletes before and after, every key (present, absent, previously deleted), keys sharing any prefix",
  "The tests delete a few present keys and never-inserted keys; deleting a key that was deleted before, next to arbitrary other keys, is not exercised.",
  [S+"merkle_tree.rs",S+"node.rs"],[("delete / delete_with_path_set",S+"merkle_tree.rs")],[("storage","node hash -> node; leaf entries of deleted keys may survive",S+"merkle_tree.rs")],["sparse::MerkleTree::delete","sparse::MerkleTree::update"])
p("C09","A sparse tree reloaded from its root is the same tree",
  "Reloading a sparse tree from its storage and its current root - including the root of an empty tree - succeeds and gives a tree with that root, which behaves identically to the original under all later updates and deletes.",
  ["inputs","histories"],"all histories before the reload and all operations after it",
  "The tests reload after one fixed history; that every node reachable from the root is still in storage after arbitrary deletes and overwrites is never checked.",
  [S+"merkle_tree.rs",S+"primitive.rs",S+"node.rs"],[("load",S+"merkle_tree.rs"),("delete_with_path_set: removal of stale nodes",S+"merkle_tree.rs"),("Node <-> Primitive",S+"primitive.rs")],
  [("storage","node hash -> node",S+"merkle_tree.rs")],["sparse::MerkleTree::load"])
p("C10","Missing or corrupt sparse storage is reported, never used",
  "Loading a sparse tree whose non-empty root is not in storage returns a load error, and one whose stored root entry has an invalid node-type tag returns a deserialization error. When a node needed on the path of an update or delete is missing or has an invalid tag, the operation returns an error instead of panicking or producing a new root.",
  ["inputs","histories","fault_sequences"],"every missing or mistyped entry on the path of the operation, every tree and key",
  "The tests remove one node and corrupt one entry; the position of the damage on the path, and the operation hit by it, is otherwise unsampled.",
  [S+"merkle_tree.rs",S+"node.rs",S+"primitive.rs",C+"prefix.rs",C+"path_iterator.rs"],[("load",S+"merkle_tree.rs"),("left_child / right_child",S+"node.rs"),("Prefix::try_from",C+"prefix.rs"),("path_set: error propagation",S+"merkle_tree.rs")],
  (),["sparse::MerkleTree::load","sparse::MerkleTree::update","sparse::MerkleTree::delete"])
p("C11","Position arithmetic is the in-order binary tree",
  "For every node (height h, offset k) of the in-order indexed binary tree, position arithmetic agrees with the tree: its index is (2k+1)*2^h - 1, its height is h, its parent is (h+1, k/2), its sibling is (h, k xor 1), its uncle is the parent's sibling and its children are (h-1, 2k) and (h-1, 2k+1). Leaf index and in-order index of a leaf convert into each other exactly, and leaf and internal node are exact complements.",
  ["inputs"],"every 64-bit index for height and node kind; every position of index below 2^63 and height up to 60 for the relatives (the trees the library can build have height at most 60 to 62)",
  "The tests check a few indices below 64; carries, sign casts and shifts matter only at indices they do not use.",
  [C+"position.rs"],[("height / orientation / direction / child / parent / sibling",C+"position.rs")],[("index","in-order index",C+"position.rs")],["Position methods"])
p("C12","Position paths visit exactly the path and its side nodes",
  "For every leaf count, and every leaf of that tree, the path from the root position yields - from root to leaf, each once - exactly the positions of the tree's branching nodes above that leaf followed by the leaf itself, each paired with the top position of the sibling subtree that exists in a tree of that many leaves (the root is paired with itself). The unrestricted path iterator yields all positions from root to leaf paired with their siblings.",
  ["inputs"],"all leaf counts below 2^62 and all leaves, from the root position of any sufficient height up to 62",
  "The tests list the path for about ten (leaf, leaf count) pairs of trees with at most eight leaves.",
  [C+"position_path.rs",C+"path_iterator.rs",C+"msb.rs",C+"path.rs",C+"position.rs"],[("PositionPathIter::next",C+"position_path.rs"),("PathIter::new / next: initial offset and per-bit descent",C+"path_iterator.rs"),("get_bit_at_index_from_msb",C+"msb.rs")],
  [("current_side_node","side position kept while the path is outside the tree",C+"position_path.rs")],["Position::path(..).iter()","AsPathIterator::as_path_iter"])
p("C13","Sparse storage is content-addressed in a fixed format",
  "Every entry a sparse tree writes is keyed by the SHA-256 of its content (the tag byte followed by its two 32-byte fields) and holds (height, tag, left child hash, right child hash) with tag 1 for an internal node or (0, 0, key, SHA-256(value)) for a leaf. No entry is looked up or stored under a user's key, so keys that equal the hash of a node are keys like any other. After any history, every node reachable from the current root is present under its hash with height 256 minus its depth (0 for leaves).",
  ["inputs","histories"],"all histories of updates and deletes, all keys and values, every stored entry",
  "The tests check the encoding of hand-made nodes, not what the tree operations leave in storage over a history.",
  [S+"merkle_tree.rs",S+"node.rs",S+"primitive.rs"],[("From<&Node> for Primitive / TryFrom<Primitive> for Node",S+"primitive.rs"),("storage.insert / remove calls in update and delete",S+"merkle_tree.rs"),("Node::hash",S+"node.rs")],
  [("storage","key -> (height, prefix, lo, hi)",S+"merkle_tree.rs")],["StorageInspect::get on the tree's storage"])
p("C14","Sum tree persists every subtree node under its digest",
  "After any sequence of successful pushes to a sum tree, every complete aligned subtree of 2^h leaves is stored under its own digest with its height h, its exact fee total, its digest and the digests of its two children (none for a leaf).",
  ["inputs","histories"],"all push sequences with total fee below 2^64, absent SHA-256 collisions",
  "The tests never read the sum tree's storage.",
  [SM,"src/sum/node.rs"],[("push / join_subtrees: storage inserts",SM),("create_leaf / create_node","src/sum/node.rs")],[("storage","digest -> node",SM)],["StorageInspect::get on the tree's storage"])
p("C15","StorageMap behaves as a map",
  "The provided in-memory storage is a finite map: reading returns the most recently inserted value of that key unless it was removed since, and nothing for keys never inserted; the presence test agrees with reading; insert and remove return the previous value and touch no other key; and no operation fails. The infallible wrappers return exactly what the underlying storage returns.",
  ["inputs","histories"],"all histories of insert, remove, get and contains on all keys",
  "The tests perform one operation of each kind on a couple of keys.",
  [C+"storage_map.rs","src/storage.rs"],[("StorageMap::{get,contains_key,insert,remove}",C+"storage_map.rs"),("Storage*Infallible wrappers","src/storage.rs")],[("map","the backing hash map",C+"storage_map.rs")],["StorageInspect / StorageMutate on StorageMap"])
p("C16","Storage failures are surfaced, and never move a sparse root",
  "An operation of the binary, sum or sparse tree succeeds only if every storage call it made succeeded; if one failed, the operation returns that storage error. A sparse update or delete that returns an error leaves the tree's root unchanged.",
  ["inputs","histories","fault_sequences"],"every failing storage call at every point of every operation, for every tree state",
  "The tests only use a storage that cannot fail.",
  [B,SM,S+"merkle_tree.rs",S+"node.rs"],[("`?` on each storage call",B),("`?` on each storage call",SM),("set_root_node only after the last storage call",S+"merkle_tree.rs")],(),["Result of push/load/prove/update/delete/root"])
p("C17","In-memory trees equal the generic trees",
  "The in-memory binary and sparse trees return, for every history of operations, exactly the roots and proofs that the specification of the generic trees prescribes for that history: the same root after the same pushes, updates and deletes, a proof for exactly the valid indices and nothing for the others.",
  ["inputs","histories"],"all histories of push/update/delete on the in-memory trees, every index",
  "The tests repeat a few small fixed histories on the wrappers.",
  ["src/binary/in_memory.rs",S+"in_memory.rs",C+"storage_map.rs"],[("binary::in_memory::MerkleTree","src/binary/in_memory.rs"),("sparse::in_memory::MerkleTree",S+"in_memory.rs")],(),["in_memory::MerkleTree methods"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
