"""Which contracts decide which property."""
from . import authority, access, revocation, stores, causal, order, cgka, crypto, prekeys, tree, receive, ingest, archive, transact, revtop, offer, readers, grant
PROPS = {}
HOOKS = {"guard": "none needed", "enable": "no hooks: checks build /repo as it is, or include its files by path", "source_commits": []}
NA = {}


def prop(pid, **kw):
    kw.setdefault("level", "proof")
    PROPS[pid] = kw


KANI_TREE = ["proofs::k_level", "proofs::k_size", "proofs::k_root", "proofs::k_children", "proofs::k_parent",
             "proofs::k_index", "proofs::k_direct_path", "proofs::k_meet"]

prop("P20", technique="Verus on the extracted functions, and Kani/CBMC complete proofs (contracts as assertions over full symbolic domains, unwinding assertions on) of the real file",
     note="Every listed contract is proved for all inputs in the stated domain by CBMC on the real source file, and again by Verus on the extracted functions (which also gives the lemmas about paths that the tree proofs rest on); trusts Kani, CBMC, Verus and rustc. A failure is replayed natively on concrete inputs.",
     verus=[tree.math], kani=[("treemath", KANI_TREE)], native=["treemath"], harness=False,
     assumptions=["Kani/CBMC's translation of Rust MIR", "trees of at most 2^29 leaves (u32 node indices overflow beyond that)"],
     bounded=[])

VERUS = "Verus (deductive, Z3) on functions extracted from /repo on every run; what the proofs assume is monitored as run-time contracts on random histories of the real code (bounded, not counted)"
COMMON = ["sequential reading of the async code: each awaited call runs to completion before the next (no interleaving inside one extracted function)",
          "types are monomorphised and reduced to the fields the contracts mention; keys, signatures and digests are opaque values with equality",
          "Verus, Z3 and rustc are sound"]

prop("P02", technique=VERUS, verus=[authority.authority, grant.grant], harness=True, budget={"quick": 25, "thorough": 240},
     note="Proved for all inputs: GroupState::add_delegation accepts exactly the delegations whose whole proof chain is authorised (root key, no more access than the proof at any link, issuer holds or acts through the proof), refuses the others without changing heads or stores, and updates the heads exactly; with proof_lineage, is_descendant_of, subject_id and the membership lookup. Group::receive_delegation takes in exactly the delegation it is given and then shows what rebuild makes of it, or leaves the group as it was; Group::add_member_with_manual_content signs nothing the signer is not entitled to grant (the group key, its own delegation with at least that access, or one through whose holder it acts with at least that access), rests it on every revocation known and on those of whom it adds, and refuses as unentitled only who is not entitled. Access through intermediaries is P04's contract. The layers above (documents, Keyhive::add_member) and the routing of received operations are monitored on random histories (bounded).",
     assumptions=COMMON,
     trusted=["Store insert/remove/iterate behave as a set keyed by digest (proved in P17)", "transitive_members_outside reports access per P04", "a signature cannot occur in its own proof chain", "no digest collisions", "std iterator adapters once/chain/map/zip (replaced by a verified eager equivalent)"],
     bounded=["Keyhive::receive_delegation", "Keyhive::add_member", "Membered::add_member"])
prop("P03", technique=VERUS, verus=[authority.revoke_authority, grant.remove], harness=True, budget={"quick": 25, "thorough": 240},
     note="Proved for all inputs: GroupState::add_revocation accepts exactly the revocations issued by the group key, by the issuer or holder of a delegation the revoked one is or rests on, or by someone with at least the revoked access through the proof's holder, always with a fully authorised proof of the same group; otherwise nothing changes. Group::receive_revocation takes in exactly the revocation it is given; every revocation Group::revoke_member issues is of a delegation the member held, signed by the caller, with a proof of one of those kinds in a state the group went through, and NoProof is only answered to someone without a claim of their own. Routing of received revocations and the effect on members are monitored on random histories (bounded).",
     assumptions=COMMON,
     trusted=["Store insert behaves as a set keyed by digest (proved in P17)", "transitive_members_outside reports access per P04", "no digest collisions", "std iterator adapters once/chain/map/zip (replaced by a verified eager equivalent)"],
     bounded=["Keyhive::receive_revocation", "Keyhive::revoke_member"])

prop("P04", technique=VERUS, verus=[access.effective_access, access.queries, offer.u_reach], harness=True, budget={"quick": 25, "thorough": 240},
     note="Proved for all inputs: Group::transitive_members_outside reports exactly the agents with a chain of current memberships and, for each, exactly the greatest minimum access over all chains (soundness and completeness of the widest-path search). Every query on top of it is proved to ask exactly that: transitive_members of groups, documents and either, Keyhive::reachable_members, the restricted search through intermediaries; get_capability returns one of the agent's own delegations, with the greatest access of them; Keyhive::docs_reachable_by_agent and membered_reachable_by_agent (and reachable_docs, for the own agent) list exactly the registered documents (and groups) in which the agent is found, with the access found there. Termination of the search is not proved; the whole is monitored on random membership graphs (bounded).",
     assumptions=COMMON + ["termination of the work list loop is not proved (partial correctness); the monitor has a time limit"],
     trusted=["members() of a nested group or document is the current member map (read under its lock)", "std collections as specified by vstd; NonEmpty::iter().max_by", "documents are registered under their own ids (invariant of the registry)"],
     bounded=["termination of the search"])
prop("P05", technique=VERUS, verus=[revocation.standing_unit, grant.remove], harness=True, budget={"quick": 45, "thorough": 300},
     note="Proved for all inputs: Group::rebuild takes the operations in the order reverse_topsort gives, admits exactly the revocations that are in force at their place in that order, and lists exactly the delegations that are not revoked and stand (least fixed point: issued by the group key, or resting on a standing delegation, or issued by someone who holds a standing delegation with enough access); consequences proved as lemmas: an unrevoked delegation with an unrevoked known chain stands, and nothing stands without a basis that itself stands. Termination of the fixed-point loop is not proved. Group::revoke_member on success has revoked every delegation the member held, has taken in exactly the revocations and re-delegations it reports, and re-delegates, if asked to keep the others, exactly the memberships that rested on a delegation held by the removed member, to the same agent with the same access, and none otherwise. The layers above are monitored on random histories (bounded).",
     assumptions=COMMON + ["termination of the fixed-point loop in standing_delegations is not proved (partial correctness)"],
     trusted=["reverse_topsort returns the operations below the heads (order and completeness: proved in P21)", "Signature::to_bytes is injective on the delegations at hand (requires clause of rebuild)", "std collections as specified by vstd", "HashMap::get_mut (modelled, not in vstd)"],
     bounded=["Keyhive::revoke_member", "Document::revoke_member"])

prop("P16", technique=VERUS, verus=[causal.entry], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: CiphertextStore::try_causal_decrypt returns each entry point and each ancestor at most once, decrypted with the key an already decrypted descendant carries for it, follows every ancestor of every entry it decrypts, reports those whose ciphertext is missing or does not open, and never returns anything that is not an entry point or an ancestor of a returned entry; the walk ends (decreasing measure: references not yet decrypted, then pairs waiting). Document::try_causal_decrypt_content opens the entry with the document's own key, follows exactly the ancestors it names that are stored, each with the key it carries for it, and reports those not stored with that key, also when some other ancestor fails.",
     assumptions=COMMON + ["the store holds ciphertexts under finitely many references"],
     trusted=["lookups of the ciphertext store are those of a map (proved in P17 for the memory store)", "decryption and decoding of an envelope are functions of ciphertext and key", "std collections as specified by vstd"],
     bounded=["MemoryCiphertextStore as a CiphertextStore"])
prop("P17", technique=VERUS, verus=[stores.camap_core, stores.camap_beekem, stores.membership, stores.ciphertexts], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: both content-addressed maps are maps keyed by the digest of the value under every operation they offer, the delegation and revocation stores list per agent exactly the revocations of delegations to it, and the two indices of the ciphertext store hold exactly the entries of its main map (invariant of every operation). Iteration orders and serialisation are monitored (bounded).",
     assumptions=COMMON,
     trusted=["std collections as specified by vstd", "no digest collisions", "a lock gives access to the value it guards"],
     bounded=["serialisation of the stores", "Merge/Fork of the stores"])

prop("P21", technique=VERUS, verus=[order.core_sort, order.beekem_sort, order.epochs, prekeys.export, revtop.u_top], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: both topological sorters return, whenever asked, exactly the nodes nothing left has to precede, each once, and keep what is left; hence (lemmas) draining one returns every node of a graph without circles exactly once and after everything it waits for, and never a node of a circle. The ordered history of key-agreement operations for any set of heads is exactly the operations below them, each once and after all of its predecessors; termination included. The order of prekey operations likewise (operations on or behind a circle of rotations excepted). MembershipOperation::reverse_topsort gives exactly the operations at or below the given heads, each once and before everything it names (proof, revocations, revoked delegation), ties among concurrent revocations and revocations put before what rests on what they revoke notwithstanding; what follows its collecting loop provably terminates. That the order of membership operations depends on the operations alone is monitored (bounded).",
     assumptions=COMMON + ["termination of the collecting loop of reverse_topsort and of compute_distance (which only settles ties) is not proved", "an operation contains what it names, so there are no circles of operations; no digest collisions"],
     trusted=["std collections as specified by vstd; sorting permutes; entry().or_default()", "which revocation is put before what rests on a revoked proof (Revoked::pick) does not matter to the contract", "the key-agreement graph is well formed (its operations are kept with known predecessors, no circles): maintained by P14"],
     bounded=["the same membership operations come in the same order whatever map they are held in"])

prop("P14", technique=VERUS, verus=[cgka.graph, cgka.cgka, order.epochs], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs, as an invariant of every function that adds to the graph of key-agreement operations (local add, remove, update, new application secret; receipt; merge of two graphs; replay): operations are kept under their digests with exactly their declared predecessors, all of them known, without circles, and the heads are exactly the operations nobody has built on. A new local operation declares exactly the heads and becomes the only one. Receiving an operation: known ones change nothing at all, ones with unknown predecessors are refused with nothing changed, others add exactly that operation, and any other refusal leaves the graph as it was. The exported history is the whole graph, each operation once and after its predecessors.",
     assumptions=COMMON,
     trusted=["the tree (BeeKem) and key maps are opaque: nothing in them can touch the graph", "no digest collisions", "std collections as specified by vstd", "CaMap behaves as a map keyed by digest (proved in P17)", "the replay at the end of Cgka::merge succeeds (otherwise it panics)"],
     bounded=["Document/Keyhive routing of received operations"])

prop("P15", technique=VERUS, verus=[crypto.crypto, cgka.cgka], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs, down to four ideal functions (the stream cipher with tag, the key derivation, the nonce function, Diffie-Hellman): every content ciphertext is sealed with exactly the key derived from one document key, the content reference and the predecessors, under the nonce of key, document and plaintext; whatever opens was sealed with exactly the key re-derived from the labels that came with it, so what opens is the original plaintext, and a ciphertext whose reference, predecessors, nonce or bytes were changed does not open (or shows two colliding inputs of the key derivation); with the document key at hand the original always opens; the standalone seal/open pair and the encryption of tree secrets for a key pair likewise. That the key state answers with such keys is proved in cgka.cgka.",
     assumptions=COMMON + ["sealing is injective and opening fails on anything else (ideal authenticated encryption)", "digests print with a fixed length and do not collide"],
     trusted=["chacha20poly1305, blake3 and x25519 as the ideal functions above", "the bytes a serialised document key or digest stands for"],
     bounded=["Keyhive::try_encrypt_content / try_decrypt_content routing", "serialisation of ciphertexts"])

prop("P09", technique=VERUS, verus=[prekeys.prekeys], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: a prekey operation changes an individual only if its signature verifies and its signer is that individual; operations are kept as a set, and the usable prekeys are exactly those the set introduces and does not rotate away (hence independent of order and repetition, and picking one depends on nothing but the set and the document); as long as some introduced key is not replaced the set is never empty and the picked key is one of it, with no panic. The holder's own replica keeps a secret for every key it introduces by rotation or expansion, also across fork and merge.",
     assumptions=COMMON,
     trusted=["signature verification is a function of the signed bytes", "freshly generated keys are new (stated where used)", "std collections as specified by vstd", "termination of the resampling loop in pseudorandom_in_range (depends on the hash stream)"],
     bounded=["Keyhive::receive_prekey_op routing", "prekey consumption when added to a document"])
prop("P10", technique=VERUS, verus=[prekeys.export, prekeys.prekeys, offer.u_prekeys, offer.u_preall], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: KeyOp::topsort terminates for every set of operations, returns each operation exactly once, and puts every operation that neither lies on nor builds on a circle of rotations after all operations that introduce the key it rotates. What a replay of the operations yields depends only on the set (P09's contracts). Keyhive::reachable_prekey_ops_for_agent and reachable_prekey_ops_for_all_agents export, for exactly the agents of P19, all of each one's operations in that order.",
     assumptions=COMMON,
     trusted=["std collections as specified by vstd", "no digest collisions"],
     bounded=["that a fresh peer obtains the same prekeys (given the order, by P09)"])

TREE_TRUST = ["std: BTreeMap, Vec::sort, Vec::resize, iter adapters as specified in the unit", "`leaves[i] = x` / `get_mut` shown as a set of that position", "generated keys are new (a set of secrets the generator never returns is carried as ghost state)", "Diffie-Hellman and the sealing of tree secrets as the ideal functions of P15", "a public key belongs to one secret"]
TREE_ASSUME = ["trees of at most 2^27 leaves", "received path changes are well formed as their makers write them (node positions on the member's path, at least one version per node)"]
prop("P11", technique=VERUS, verus=[tree.tree, tree.keys, tree.math, crypto.crypto, cgka.cgka], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all trees and inputs: node resolution is exactly the highest usable nodes below; a new path secret is sealed for every node of the sibling's resolution (and for nobody else); if every node's secret can be opened by whoever holds the keys of the nodes it was sealed for (`openable`), this still holds after encrypt_path, push_leaf and remove_id (which only blank); from such a tree any member holding its leaf's secret derives the secret of the root key, never fails and never derives another, so two members derive the same document secret; a maker's change applied to the tree it was made for gives the maker's tree, so the receiver is in the same situation. What the key state does with the root secret is proved in cgka.cgka and crypto.crypto. Openability of trees merged from concurrent changes, and the Document routing, are monitored on random histories (bounded).",
     assumptions=COMMON + TREE_ASSUME, trusted=TREE_TRUST,
     bounded=["openability after merging concurrent changes", "Cgka::apply_epochs", "Document::try_encrypt_content / try_decrypt_content"])
prop("P12", technique=VERUS, verus=[tree.tree, tree.sort, tree.keys, tree.math, order.epochs], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all trees and inputs: every tree operation (adding, removing, taking over a path change or, when it no longer fits, only its leaf key, settling concurrent membership changes) has exactly one outcome given the tree and the operation (contracts that fix every field); merging of keys and of conflicting versions gives the same result whichever came first; concurrently added members end at the same leaves on every replica because they are re-seated in id order, whatever order they came in (lemma one_outcome). The order in which a replica replays its graph is proved in order.epochs to respect the declared predecessors and to put everything in one epoch per antichain. The orchestration (Cgka::apply_epochs, replay_ops_graph) is monitored on random histories (bounded).",
     assumptions=COMMON + TREE_ASSUME, trusted=TREE_TRUST + ["the order of member ids is antisymmetric"],
     bounded=["Cgka::apply_epochs", "Cgka::replay_ops_graph / rebuild_cgka", "Document routing of invitations"])
prop("P13", technique=VERUS, verus=[tree.tree, tree.sort, tree.keys, tree.math], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all trees and inputs: removing a member blanks its leaf and every node on its path (and the trailing empty leaves' paths), reports exactly the keys that were on the path, refuses to remove the last member and changes nothing for someone who is not there; lemma cut_out: if a member's keys were confined to its own leaf and path, no key of it is left anywhere in the tree; encrypt_path on a tree without those keys seals no new secret for any of them and puts none of them into the tree or the change (spotless), for any number of later updates. Removal concurrent with other changes (blanking after replay) is proved for the tree operation (tree.sort under P12) and monitored for the whole replay (bounded).",
     assumptions=COMMON + TREE_ASSUME, trusted=TREE_TRUST,
     bounded=["removals concurrent with updates through Cgka::apply_epochs", "Document::remove_cgka_member routing"])


prop("P01", technique=VERUS, verus=[receive.receive, prekeys.prekeys], harness=True, budget={"quick": 20, "thorough": 240},
     note="Proved for all inputs: every entry point for received operations (prekey operations, contact cards, delegations, revocations, key-agreement operations, static events) checks the signature over exactly the stated content under the stated issuer before anything is changed or passed on: every callee that changes state, and every listener, has a verified signature as its precondition, and for an operation whose signature does not verify the replica is left as it was and the call is refused. The full form built from a received static operation is shown to say what the signed static form says. Individual::receive_prekey_op checks again, and its signer (P09). Archives are trusted input of the owner. Monitored with forged operations of every kind on random histories (bounded).",
     assumptions=COMMON + ["one lock per access: what is behind a handle (a group, a document, an individual) changes only through the methods called here"],
     trusted=["ed25519 verification and bincode serialisation as functions of their inputs", "no digest collisions; a delegation's or revocation's digest is that of its static form", "the operations already in the stores are genuine (every insertion path is one of those under contract, or signs the operation itself)", "std collections as specified by vstd"],
     bounded=["promote_individual_to_group", "what ingestion and archive loading hand on (under contract in P07 and P08)"])


prop("P07", technique=VERUS, verus=[ingest.ingest, receive.receive], harness=True, budget={"quick": 25, "thorough": 240},
     note="Proved for all inputs: Keyhive::ingest_unsorted_static_events terminates and leaves exactly the closure: everything that was pending or is offered, and can be accepted given what has taken effect, has taken effect, nothing more than that; what is left is returned, equals what is stored as pending, is not done and not acceptable; nothing is dropped but prekey operations that can never be accepted. Lemmas: an event offered or pending is afterwards done or pending (nothing_lost); two batches in any split and order come to the same events in effect and the same pending ones as one batch (batches_do_not_matter). Ingestions running at the same time are serialised: an event is received, and what is pending taken over, only while the ingestion lock is held (a precondition of both), so the sequential contract applies; random interleavings of concurrent ingestions, and of an ingestion with other calls (which must not deadlock), are run as well (bounded). Importing prekey secrets retries what is pending, and the reported hashes are those of the pending events. Routing of each kind of event to its receiver is proved in receive.receive. That acceptance grows with what is known (with the known exceptions) is monitored on random histories (bounded).",
     assumptions=COMMON + ["accepting an event depends on the set of events in effect and the secrets held; what has taken effect is accepted again; a refused event leaves no trace that matters to later ones; a prekey operation refused once is refused always (P09)", "while an ingestion holds its lock nothing else of the replica writes what it reads: local changes made and single operations received directly during an ingestion are not considered; the lock guard lives until the function returns", "knowing more never makes an event unacceptable (known exception: acting-through-a-changed-group)"],
     trusted=["no digest collisions", "std: HashMap::entry/into_values, Vec::retain, mem::replace as specified in the unit"],
     bounded=["the receivers' acceptance rules as functions of what is known (P02, P03, P09, P14 prove them one by one)"])


prop("P08", technique=VERUS, verus=[archive.archive, archive.restore, archive.merge], harness=True, budget={"quick": 30, "thorough": 240},
     note="Proved for all inputs: Keyhive::into_archive writes down everything the replica is made of (every individual, group, document with heads, content heads and key state, every membership operation after what it depends on, all pending events, the own keys and prekey secrets); Keyhive::try_from_archive on such an archive never fails and gives back a replica with the same parts, every membership operation with all it rests on, and every group rebuilt (lemma round_trip: what comes out is indistinguishable from what went in, up to the fields compared); Keyhive::ingest_archive of another archive only adds: what was there stays, what the archive has is there afterwards or was pending. That the groups' members follow from heads and operations is P05; the content of keys and of the key state is P09 and P14. Serialisation to bytes, and behaviour after reloading, are monitored on random histories (bounded).",
     assumptions=COMMON + ["handles (Arc<Mutex<..>>) as the values behind them; the own individual's handle is the one registered under its id"],
     trusted=["the contract of MembershipOperation::reverse_topsort (proved in P21)", "Group::rebuild is determined by heads and operations (P05)", "serde", "std map listings", "no digest collisions"],
     bounded=["bytes of an archive", "behaviour of a reloaded replica under further operations"])


prop("P22", technique=VERUS, verus=[transact.core_unit, transact.fork, transact.merge, archive.archive, archive.restore, archive.merge, prekeys.prekeys, stores.camap_core], harness=True, budget={"quick": 30, "thorough": 240},
     note="Proved for all inputs, for every type that can be forked: transact_blocking and transact_async hand the transaction a fork of the trunk and nothing else; if it fails its error is returned and the trunk is exactly what it is without the transaction (including what others did to it while the asynchronous form waited); if it succeeds the trunk of that moment is merged with what the transaction left. Forks of sets, maps and shared cells are copies; merging adds and never drops or overwrites what the trunk has (also the content-addressed store, individuals and prekey state). A replica's fork is indistinguishable from it (through its archive, P08), and merging one back keeps everything the trunk had and brings everything the fork has: every operation in effect or pending, every secret, every content head. Behaviour of forks and merged replicas is monitored on random histories (bounded).",
     assumptions=COMMON + ["a transaction reaches the trunk only through the fork it is given (its own captures are its business)", "handles (Arc<Mutex<..>>) as the values behind them"],
     trusted=["std collections as specified by vstd and in the unit", "Keyhive::ingest_unsorted_static_events (P07)", "what P08 trusts"],
     bounded=["the ciphertext store, which fork and trunk share", "listener/log.rs"])


prop("P19", technique=VERUS, verus=[offer.u_events, offer.u_preall, offer.u_cgka], harness=True, budget={"quick": 30, "thorough": 240},
     note="Proved for all inputs, over the real functions: the membership operations offered to an agent are exactly the least set that holds the newest operations of every group and document it reaches (and of itself, if it is one) and the revocations of it and of those, and that is closed under what an operation needs (proof, revocations, revoked delegation, and the membership of a group or document it is about): nothing needed is missing, nothing unreachable is included. The prekeys offered are those of exactly the agent, the asking keyhive, everyone it shares a group or document with and everyone the offered operations are about, all of each. The key agreement operations offered are exactly those of the documents it reaches. events_for_agent is exactly the union. The computations for all agents at once refer every known agent to exactly the same operations, prekeys and key agreement operations.",
     assumptions=COMMON + ["one kind of agent and one set of prekey operations per identifier: whoever refers to an agent refers to the same one (a stale handle of a promoted individual is not)", "handles (Arc<Mutex<..>>) as the values behind them at the time of the query", "no two operations or events have the same digest", "termination of the walk is not proved"],
     trusted=["std collections and iterator chains as specified in the unit", "Group/Document::transitive_members (P04)", "RevocationStore::get_revocations_for_agent, all_agent_revocations (P17)", "KeyOp::topsort keeps every operation (P10)", "Document::cgka_ops (P11)"],
     bounded=["that a fresh peer applies all of it (given what is offered, by P07)", "the ops_for_agent accessors of the three indexes", "static_events_for_agent (conversion: P08)"])


prop("P18", technique=VERUS, verus=[readers.u_doc, readers.u_hive, readers.u_birth, access.effective_access], harness=True, budget={"quick": 25, "thorough": 240},
     note="Proved for all inputs, over the real functions: a document's readers are exactly the individuals among its transitive members (P04) with at least read access; if the individuals seated in its key agreement (besides the document's own leaf) were exactly its readers before Document::add_member or Document::revoke_member, they are exactly its readers afterwards, whatever the change did to the membership: relay-only members are never added, those who became readers are, those who lost their last read path are removed. Keyhive::add_member and Keyhive::revoke_member keep this for every registered document at once, also those that only contain the changed group (for revocations: unless a document's key agreement refuses to remove its last member). A new document (Document::generate) starts with exactly its readers, besides its own leaf, in its key agreement. Adding to and removing from the key agreement take everything received into account first. Monitored on random histories (bounded).",
     assumptions=COMMON + ["handles (Arc<Mutex<..>>) as the values behind them: the contracts of a document's methods hold for the document behind a handle", "documents are registered under their own ids, and what is changed is the registered document", "replaying the key agreement is determined by what is known of it (P12)", "a key agreement has at least its first operation"],
     trusted=["the tree seats and unseats exactly the member asked for (proved in P11: contains_id, push_leaf, remove_id)", "an operation built on all heads becomes the only head (proved in P14)", "std iterator chains and map listings as specified in the unit", "an agent handle carries the id of the individual behind it", "a new key agreement seats its owner; an update of a path changes no seats; a new group has an id of its own (P05, P11, P14)"],
     bounded=["changes received from others"])


prop("P06", technique=VERUS, verus=[authority.converge, revocation.agree, cgka.graph, prekeys.prekeys, ingest.ingest], harness=True, budget={"quick": 30, "thorough": 240},
     note="Proved for all inputs, over the real functions: whatever accepted delegations and revocations a group takes in, in whatever order and however often (GroupState::add_delegation, add_revocation), what is at or below its heads is exactly what it has taken in (tracks), so two replicas that received the same operations have the same operations below their heads (same_history). Group::rebuild is a function of those in the order reverse_topsort gives; which delegations stand, and hence every member and access, depends only on the set of known delegations and the set of those revoked, not on any order (same_set_same_members). Prekeys depend only on the set of prekey operations (prekeys.order_independent). Two replicas that hold the same key-agreement operations record the same order among them and have the same heads (same_ops_same_graph). How a set of events is split into batches, and their order, does not matter to what has taken effect and what is pending (ingest.batches_do_not_matter). Monitored on permuted, split and repeated deliveries of random histories (bounded).",
     assumptions=COMMON + ["a signature belongs to one operation", "a group starts from a delegation of its own key that names nothing (its heads are never empty)", "whether an event is accepted does not depend on when it arrives, given what it rests on (known exception: acting-through-a-changed-group)"],
     trusted=["Store insert/remove/iterate behave as a set keyed by digest (proved in P17)", "reverse_topsort returns exactly the operations below the heads, each before what it names (proved in P21)", "std collections as specified by vstd", "no digest collisions"],
     bounded=["reverse_topsort puts the same set in the same order, hence the same revocations are in force", "the key-agreement trees built from the same graph (P12)", "the revoked members reported"])

