"""Source of properties.jsonl (tools/gen.py writes it)."""
K = "keyhive_core/src/"
B = "beekem/src/"
C = "keyhive_crypto/src/"

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "mechanism": [{"name": a, "where": b} for a, b in mech],
            "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


p("P01", "Only authentically signed operations take effect",
  "Whenever a replica receives a delegation, revocation, prekey operation, contact card or key-agreement operation whose signature does not verify under its stated issuer for exactly its stated content, it refuses it with an error and nothing observable changes: members and access, advertised prekeys, known agents, key trees and the set of operations offered to others stay as they were. Nothing else about the sender or the moment of arrival (known or unknown issuer, issuer known as a person, group or document, operation new or replayed) makes an unverifiable operation acceptable.",
  ["inputs", "histories"],
  "every operation kind, every way of corrupting content, issuer or signature, every state of the receiving replica (issuer unknown, known individual, group, document)",
  "The tests receive honestly signed operations; forged or altered ones are tried for at most one operation kind and one receiver state, so a path that skips verification is invisible to them.",
  [K + "keyhive.rs", K + "principal/individual.rs", K + "principal/individual/state.rs", C + "signed.rs", K + "contact_card.rs"],
  [("signature verification on receipt", K + "keyhive.rs receive_delegation, receive_revocation, receive_cgka_op, receive_prekey_op, receive_contact_card"),
   ("verification of prekey operations", K + "principal/individual.rs receive_prekey_op"),
   ("signature check over the encoded payload", C + "signed.rs try_verify")],
  observe=["result of the receive call", "archive of the replica before and after"])

p("P02", "Delegated authority never exceeds the authority it was derived from",
  "A delegation becomes part of a group or document only if its proof chain starts with a delegation issued by the key of that group or document, every delegation in the chain grants no more access than the one it rests on, and each one is issued by the holder of the delegation it rests on (or by someone who has at least the claimed access through that holder). Any other delegation is refused and leaves the membership and the operation heads of the group unchanged; a member adding someone through the API can never grant more than it has.",
  ["inputs", "histories"],
  "all delegation graphs, chain lengths, access levels, issuers and subjects, including chains through groups",
  "Tests try one or two fixed chains; escalation at a deeper link, through a nested group, via a foreign group's proof or on the first operation of a group is outside what they sample.",
  [K + "principal/group/state.rs", K + "principal/group.rs", K + "principal/group/delegation.rs", K + "keyhive.rs"],
  [("proof-chain validation", K + "principal/group/state.rs add_delegation"),
   ("local escalation checks", K + "principal/group.rs add_member_with_manual_content"),
   ("routing of a received delegation to its subject", K + "keyhive.rs receive_delegation")],
  observe=["result of receiving the delegation", "members of the group"])

p("P03", "Only those with authority over a delegation can revoke it",
  "A revocation takes effect only if it is issued by the key of the group or document itself, or by the issuer or holder of a delegation of that same group that is the revoked delegation or one it descends from, or by someone who has at least the revoked access through the holder of its proof. Any other revocation is refused and every member keeps the access it had.",
  ["inputs", "histories"],
  "all revocations over all membership histories: any issuer, any proof (own, unrelated, of another group, absent), any revoked delegation",
  "The tests only issue revocations through the honest API; adversarial proofs (replaying somebody else's delegation as proof, proofs from another group) never occur.",
  [K + "principal/group/state.rs", K + "principal/group/delegation.rs", K + "principal/group.rs"],
  [("revocation validation", K + "principal/group/state.rs add_revocation"),
   ("lineage search", K + "principal/group/delegation.rs is_descendant_of, proof_lineage")],
  observe=["result of receiving the revocation", "members of the group"])

p("P04", "Effective access is the best chain's weakest link",
  "The access reported for an agent in a group or document, directly or through nested groups, is exactly the maximum over all current membership chains from that group to the agent of the minimum access along the chain; agents without such a chain are not reported, and the answer does not depend on iteration order, on cycles between groups, or on how often it is asked. The set of documents reachable by an agent is exactly those where it has some such access.",
  ["inputs", "configurations"],
  "all membership graphs: depth, diamonds, cycles, parallel delegations with different access",
  "Tests use a handful of small acyclic graphs with mostly uniform access; a diamond with different weakest links needs a particular shape and traversal order.",
  [K + "principal/group.rs", K + "principal/membered.rs", K + "principal/document.rs", K + "access.rs", K + "keyhive.rs"],
  [("transitive member search", K + "principal/group.rs transitive_members"),
   ("best direct capability", K + "principal/group.rs get_capability"),
   ("access order", K + "access.rs"),
   ("reachability", K + "keyhive.rs docs_reachable_by_agent, membered_reachable_by_agent")],
  observe=["reachable members, reachable documents, capability lookups"])

p("P05", "Revocation removes access and everything that rested only on it",
  "Once a replica has processed a valid revocation, the revoked delegation and every delegation derived from it that has no other valid basis confer no access: an agent left without any standing delegation is no longer a member. Delegations that do not descend from the revoked one keep conferring exactly the access they did, unless the caller asked for dependants to be re-delegated, in which case they keep their access under the remover's authority. Adding somebody again after a removal takes effect.",
  ["histories"],
  "all delegation trees and revocation points, chains of any depth, members with several delegations, re-adding after removal",
  "Tests revoke leaf delegations or one level of dependants; deeper cascades and members with several independent delegations are not covered.",
  [K + "principal/group.rs", K + "principal/group/membership_operation.rs", K + "keyhive.rs", K + "principal/document.rs"],
  [("materialisation of members", K + "principal/group.rs rebuild"),
   ("removal API", K + "principal/group.rs revoke_member; " + K + "principal/document.rs revoke_member; " + K + "keyhive.rs revoke_member")],
  state=[("members", "current delegations by delegate", K + "principal/group.rs Group.members")],
  observe=["members and capabilities after revocation"])

p("P06", "Replicas that hold the same operations agree",
  "Two replicas that have received the same set of operations report the same members with the same access for every group and document, the same revoked members, the same prekeys for every individual and the same key-agreement operations, whatever the order, batching and duplication in which the operations arrived.",
  ["histories", "schedules"],
  "all operation sets (including concurrent delegations and revocations) and all delivery orders, partitions into batches and repeats",
  "Tests replay one or two orders of short scripts; convergence failures need concurrent operations and particular permutations.",
  [K + "keyhive.rs", K + "principal/group.rs", K + "principal/group/membership_operation.rs", K + "util/topsort.rs", K + "principal/individual/state.rs", B + "cgka.rs"],
  [("deterministic materialisation", K + "principal/group.rs rebuild; " + K + "principal/group/membership_operation.rs reverse_topsort"),
   ("ingestion", K + "keyhive.rs ingest_unsorted_static_events")],
  observe=["members, revoked members, prekeys, key operations on both replicas"])

p("P07", "Operations that arrive early are kept until they can be applied",
  "When a batch of operations is ingested, each operation is applied as soon as everything it depends on has been applied, in whatever order they arrived; those still missing something are kept and reported as pending and are applied by a later ingestion that supplies what was missing. No operation is lost while its dependencies are outstanding, none stays pending once applied, and ingestion always terminates; operations that can never be valid may be dropped or stay pending but never take effect. Batches ingested at the same time by several tasks of one replica come to what one batch of all of them would.",
  ["histories", "schedules"],
  "all dependency graphs, all splits of the operation set into batches, all arrival orders, duplicates, ingestions running concurrently",
  "Tests ingest complete or nearly complete sets; partial batches with dependencies split in adversarial ways are not enumerated.",
  [K + "keyhive.rs"],
  [("fixed-point ingestion loop", K + "keyhive.rs ingest_unsorted_static_events"),
   ("missing dependency detection", K + "keyhive.rs static_delegation_to_delegation, static_revocation_to_revocation, receive_cgka_op")],
  state=[("pending events", "operations awaiting dependencies", K + "keyhive.rs pending_events")],
  observe=["returned pending set, pending hashes, resulting membership"])

p("P08", "Saving and restoring preserves the whole state",
  "Serialising a replica to an archive and restoring it (including through bytes) yields a replica that reports the same identity, individuals, prekeys and prekey secrets, groups, documents, members, access, revoked members, operation heads, key-agreement state and pending operations, decrypts the same content, and offers the same operations to peers. Merging an archive into a replica loses nothing either side had.",
  ["histories", "crash_points"],
  "every reachable replica state at every point it may be saved",
  "Tests archive one or two simple states; components that are recomputed or skipped on restore matter only in richer histories.",
  [K + "keyhive.rs", K + "archive.rs", K + "principal/group.rs", K + "principal/document.rs", K + "principal/active.rs", B + "cgka.rs"],
  [("archive", K + "keyhive.rs into_archive"), ("restore", K + "keyhive.rs try_from_archive"), ("merge", K + "keyhive.rs ingest_archive")],
  observe=["all query results before and after, archive equality"])

p("P09", "Advertised prekeys are usable and chosen deterministically",
  "An individual's advertised prekeys are exactly the keys introduced by its add and rotate operations minus those rotated away, in whatever order the operations arrived, and never become empty; choosing a prekey for a document returns one of them, never fails whatever their number, and depends only on the document and the set of keys, so all replicas choose the same one. The owner holds the secret for every prekey it advertises, and rotating or expanding keeps that true.",
  ["inputs", "histories"],
  "all sets of add/rotate operations (including concurrent and cyclic rotations), all prekey counts, all document ids",
  "Tests use a handful of keys; selection fails only for particular key counts and digests, and determinism across replicas is not tested.",
  [K + "principal/individual.rs", K + "principal/individual/state.rs", K + "principal/active.rs", K + "principal/individual/op.rs"],
  [("prekey set materialisation", K + "principal/individual/state.rs rebuild, build"),
   ("choice", K + "principal/individual.rs pick_prekey, pseudorandom_in_range, clamp"),
   ("secrets", K + "principal/active.rs rotate_prekey, expand_prekeys, generate_private_prekey")],
  observe=["prekeys, pick_prekey, key lookup by the owner"])

p("P10", "Prekey history is exported completely and in dependency order",
  "The prekey operations exported for an agent contain every prekey operation known for it exactly once, and each operation that introduces a key comes before every operation that rotates that key away (rotations that replace each other in a circle, and what builds on them, excepted); the export terminates for every set of operations. A peer that replays the export obtains the same prekeys.",
  ["inputs"],
  "all finite sets of add/rotate operations: chains, forks, duplicates, orphans, cycles",
  "Tests and generators produce well-formed rotation chains only.",
  [K + "principal/individual/op.rs", K + "keyhive.rs", K + "principal/individual/state.rs"],
  [("ordering", K + "principal/individual/op.rs topsort"),
   ("export", K + "keyhive.rs reachable_prekey_ops_for_agent, reachable_prekey_ops_for_all_agents")],
  observe=["the exported lists"])

p("P11", "Every reader of a document derives the same document key",
  "After the same key-agreement operations have been delivered, every current member of a document's key agreement with read access derives the same document secret, and what one member encrypts every other such member can decrypt to exactly the original bytes. This holds after any sequence of additions, removals and key updates, including when the first encryption after a membership change makes its own update.",
  ["histories"],
  "all histories of adds, removes, updates and encryptions by any members, all member counts",
  "Tests run short scripts with a few members; blank, conflicting and regrown subtrees need longer histories.",
  [B + "cgka.rs", B + "tree.rs", B + "secret_store.rs", B + "keys.rs", B + "encrypted.rs", K + "cgka.rs", K + "principal/document.rs"],
  [("tree encryption and decryption of path secrets", B + "tree.rs encrypt_path, decrypt_tree_secret"),
   ("document secret", B + "cgka.rs pcs_key_from_tree_root, new_app_secret_for, decryption_key_for"),
   ("path secret encryption", B + "encrypted.rs")],
  observe=["derived key hash, decrypted plaintext on every member"])

p("P12", "Concurrent key-tree changes converge",
  "Members that have received the same key-agreement operations end with the same key tree (same members, same leaf positions, same public keys), whatever order concurrent operations arrived in, and a member that joins from an invitation or replays the whole history obtains that same tree. Conflicting concurrent updates are resolved so that a later update lets all members derive a common key again.",
  ["schedules", "histories"],
  "all interleavings of concurrent adds, removes and updates",
  "Tests interleave a few fixed concurrent pairs.",
  [B + "cgka.rs", B + "tree.rs", B + "operation.rs", B + "keys.rs", K + "cgka.rs"],
  [("ordered replay of epochs", B + "cgka.rs apply_epochs, replay_ops_graph, rebuild"),
   ("deterministic leaf assignment", B + "tree.rs sort_leaves_and_blank_paths_for_concurrent_membership_changes"),
   ("conflict keys", B + "keys.rs merge")],
  observe=["serialised tree of each member"])

p("P13", "Removed members are cut out of the key tree",
  "After a member is removed from a document's key agreement and some remaining member updates or encrypts, the removed member cannot derive the document secret from the tree with anything it held, no copy of the new secrets is encrypted to any of its keys, and no key on its former path survives. The last member cannot be removed, and removing someone who is not there changes nothing.",
  ["histories"],
  "all trees, all positions of the removed member, removals concurrent with other changes",
  "Tests check a few positions in small trees and only that the honest API refuses.",
  [B + "tree.rs", B + "cgka.rs", B + "secret_store.rs", K + "principal/document.rs"],
  [("removal", B + "tree.rs remove_id, blank_path, blank_leaf_and_path"),
   ("operation", B + "cgka.rs remove"),
   ("path encryption", B + "tree.rs encrypt_path")],
  observe=["tree after removal; decryption attempts of the removed member"])

p("P14", "Key-agreement operations are ordered causally and applied once",
  "The history of key-agreement operations handed to others contains every operation exactly once, with every operation after all of its declared predecessors; the declared predecessors of a new operation are exactly the operations nobody has built on yet, plus the one being undone where applicable. Receiving an operation again changes nothing, and an operation whose predecessors are unknown is refused without effect so it can be retried later.",
  ["histories", "schedules"],
  "all operation graphs and arrival orders",
  "Tests check a few linear or two-way concurrent histories.",
  [B + "operation.rs", B + "cgka.rs", B + "topsort.rs"],
  [("operation graph", B + "operation.rs add_op_and_update_heads, topsort_graph"),
   ("receipt", B + "cgka.rs merge_concurrent_operation")],
  observe=["exported epochs, heads, error results"])

p("P15", "Ciphertexts are bound to their content, document and predecessors",
  "Decrypting what was encrypted returns exactly the original bytes under the same document key, content reference and predecessors, and any change to the ciphertext, nonce, content reference, predecessor binding, document or key makes decryption fail instead of returning other data. Encrypting the same plaintext with the same key in the same document is deterministic, and different plaintexts or documents get different nonces.",
  ["inputs"],
  "all plaintexts (including empty), keys, documents, content references, predecessor lists and all single-point corruptions",
  "Tests do single round trips with fixed inputs.",
  [C + "symmetric_key.rs", C + "siv.rs", B + "encrypted.rs", B + "pcs_key.rs", B + "cgka.rs", C + "share_key.rs"],
  [("deterministic nonce", C + "siv.rs"), ("authenticated encryption", C + "symmetric_key.rs try_seal, try_open"),
   ("application secret derivation", B + "pcs_key.rs; " + B + "cgka.rs new_app_secret_for, decryption_key_for")],
  observe=["decryption results"])

p("P16", "Causal decryption reaches exactly the readable history",
  "Starting from a decryptable entry, causal decryption returns the plaintext of every ancestor whose ciphertext is in the store and whose key is carried by some already decrypted descendant, each exactly once and with its own key, and reports the ancestors it could not decrypt; it never returns data for entries that are not ancestors. It terminates for every stored history, including shared ancestors and missing entries.",
  ["inputs", "histories"],
  "all ancestor graphs, all subsets of missing or undecryptable entries",
  "Tests use a few small fixed graphs.",
  [K + "store/ciphertext.rs", K + "store/ciphertext/memory.rs", K + "principal/document.rs", K + "crypto/envelope.rs"],
  [("ancestor walk", K + "store/ciphertext.rs try_causal_decrypt"),
   ("entry point", K + "principal/document.rs try_causal_decrypt_content")],
  observe=["complete, cannot and next sets"])

p("P17", "Stores return exactly what was put in",
  "Each content-addressed or indexed store behaves as a map: after any sequence of insertions and removals a lookup by hash, content reference, update operation or agent returns exactly the present entries that match, keys always equal the hash of their value, removing returns what was there, and no index refers to something absent or omits something present. Stores of delegations and revocations additionally list, per agent, exactly the revocations of delegations to that agent.",
  ["histories", "inputs"],
  "all sequences of store operations, including duplicates and entries sharing a reference",
  "Tests insert one or two entries; index drift needs sequences with shared references.",
  [K + "util/content_addressed_map.rs", B + "content_addressed_map.rs", K + "store/delegation.rs", K + "store/revocation.rs", K + "store/ciphertext/memory.rs"],
  [("content-addressed maps", K + "util/content_addressed_map.rs; " + B + "content_addressed_map.rs"),
   ("revocation index", K + "store/revocation.rs"), ("ciphertext indices", K + "store/ciphertext/memory.rs")],
  observe=["lookups"])

p("P18", "Only readers receive document keys",
  "The individuals in a document's key agreement after a local membership change are exactly those with at least read access to the document, directly or through groups: relay-only members are never added, new readers (including those added to a group that already has access) are added, and individuals who lose their last read path are removed.",
  ["histories"],
  "all sequences of adding, re-adding with other access and revoking individuals and groups",
  "Tests check one relay and one group scenario.",
  [K + "principal/document.rs", K + "keyhive.rs", K + "access.rs", K + "principal/group.rs"],
  [("adding", K + "principal/document.rs add_member; " + K + "keyhive.rs add_member"),
   ("removing", K + "principal/document.rs revoke_member; " + K + "keyhive.rs revoke_member"),
   ("access predicate", K + "access.rs is_reader")],
  observe=["membership of the key agreement versus reachable members"])

p("P19", "What is offered to a peer is complete for that peer",
  "The operations offered to an agent include everything needed to apply them: every proof, every revocation they depend on, every revoked delegation, the prekeys of every agent involved, the membership of nested groups and the key-agreement history of every document it can reach; a fresh peer ingesting them ends with nothing pending and the same view of what it can reach. The bulk computation for all agents offers each agent the same operations as the computation for that agent alone, and nothing about groups it cannot reach beyond revocations of itself and of the groups it belongs to, and what those rest on.",
  ["histories", "configurations"],
  "all membership graphs and all agents",
  "Tests compare the two computations on one small graph and check closure only by example.",
  [K + "keyhive.rs", K + "principal/group/membership_operation.rs"],
  [("per agent", K + "keyhive.rs events_for_agent, membership_ops_for_agent, reachable_prekey_ops_for_agent, cgka_ops_reachable_by_agent"),
   ("for all", K + "keyhive.rs membership_ops_for_all_agents, reachable_prekey_ops_for_all_agents, cgka_ops_for_all_agents")],
  observe=["offered operation sets; pending set of a fresh peer"])

p("P20", "Key-tree navigation is that of a complete binary tree",
  "For every tree size and node: parent, children and sibling are mutually inverse, a node's children lie one level below it, the path from a leaf climbs one level per step and ends at the root, and the tree is complete with room for the requested leaves and doubles when grown. Any two leaves have exactly one node that separates them.",
  ["inputs"],
  "all node indices and tree sizes that fit 32-bit indices (up to 2^29 leaves)",
  "Tests check a handful of constants for three functions.",
  [B + "treemath.rs"],
  [("index arithmetic", B + "treemath.rs level, root, left, right, parent, sibling, direct_path, TreeSize")],
  observe=["function results"])

p("P21", "Dependency ordering respects every dependency",
  "Whenever operations are put in dependency order (membership operations for materialisation and archiving, key-agreement operations for replay, and the generic sorters underneath), every operation appears exactly once and after everything it depends on, whether the dependency was declared directly or through a chain. Cyclic input is reported or left out rather than looping. The order of membership operations depends on the operations alone, not on how or in which order they are held.",
  ["inputs"],
  "all finite dependency graphs",
  "Unit tests sort a few graphs by hand.",
  [K + "util/topsort.rs", B + "topsort.rs", K + "principal/group/membership_operation.rs", B + "operation.rs"],
  [("generic sorters", K + "util/topsort.rs; " + B + "topsort.rs"),
   ("membership operations", K + "principal/group/membership_operation.rs reverse_topsort")],
  observe=["order of the returned lists"])

p("P22", "Forked state merges back without loss or leakage",
  "A transaction works on a fork: nothing it does is visible in the original until it succeeds, a failed transaction leaves the original as it was, and after merging the original contains everything either side had. Merging is idempotent and keeps changes made to the original while the fork was open.",
  ["histories", "fault_sequences"],
  "all sequences of operations on fork and original, success or failure of the transaction",
  "Tests run one transaction with one change on each side.",
  [K + "transact.rs", K + "transact/fork.rs", K + "transact/merge.rs", K + "keyhive.rs", K + "principal/active.rs", K + "listener/log.rs"],
  [("transactions", K + "transact.rs"), ("fork and merge", K + "keyhive.rs fork_async, merge_async; " + K + "principal/active.rs")],
  observe=["archives of original and fork"])
