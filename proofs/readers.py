"""P18: who is in a document's key agreement after a local membership change."""
from vp.verus import Fn, Unit
from . import core

DP, GP, AP, ACC, KC, CG, KH, MP = ("keyhive_core/src/" + x for x in ("principal/document.rs", "principal/group.rs", "principal/agent.rs", "access.rs", "cgka.rs", "../../beekem/src/cgka.rs", "keyhive.rs", "principal/membered.rs"))
CG = "beekem/src/cgka.rs"

IDS = core.opaque("Key") + core.opaque("ShareKey") + core.opaque("TreeId") + core.hashkey("N") + core.opaque("Sig") + core.ACCESS + r"""
#[derive(Clone, Copy)] pub struct Identifier(pub Key);
#[derive(Clone, Copy)] pub struct IndividualId(pub Identifier);
#[derive(Clone, Copy)] pub struct GroupId(pub Identifier);
#[derive(Clone, Copy)] pub struct DocumentId(pub Identifier);
#[derive(Clone, Copy)] pub struct MemberId(pub Key);
""" + "".join(core.eq_struct(x) for x in ("Identifier", "IndividualId", "GroupId", "DocumentId", "MemberId")) + "".join(r"""
impl std::hash::Hash for %s { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_%s { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<%s>(); }
""" % (x, x.lower(), x) for x in ("Identifier", "IndividualId")) + r"""
impl IndividualId { pub fn verifying_key(&self) -> (r: Key) ensures r == self.0.0 { self.0.0 } }
pub open spec fn mid(i: IndividualId) -> MemberId { MemberId(i.0.0) }
pub proof fn mid_inj(a: IndividualId, b: IndividualId) ensures mid(a) == mid(b) ==> a == b {}
pub enum CgkaError { NotInitialized, RemoveLastMember, IdentifierNotFound, Other }
#[verifier::external_body] pub struct Signer { x: u64 }
pub enum CgkaOperation {
    Add { added_id: MemberId, pk: ShareKey, leaf_index: u32, predecessors: Vec<N>, add_predecessors: Vec<N>, doc_id: TreeId },
    Remove { id: MemberId, leaf_idx: u32, removed_keys: Vec<ShareKey>, predecessors: Vec<N>, doc_id: TreeId },
    Other,
}
pub struct Op { pub payload: CgkaOperation, pub signature: Sig }
"""

# ---------------------------------------------------------------- the key agreement
STATE = r"""
#[verifier::external_body] pub fn vec_of(s: &HashSet<N>) -> (r: Vec<N>) ensures forall|x: N| #[trigger] s@.contains(x) <==> r@.contains(x) { unimplemented!() }
#[verifier::external_body] pub fn set_is_empty(s: &HashSet<N>) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
pub open spec fn preds(p: CgkaOperation) -> Seq<N> { match p { CgkaOperation::Add { predecessors, .. } => predecessors@, CgkaOperation::Remove { predecessors, .. } => predecessors@, CgkaOperation::Other => seq![] } }
#[verifier::external_body] pub fn sign(s: &Signer, p: CgkaOperation) -> (r: Result<Op, CgkaError>) ensures r is Ok ==> r->Ok_0.payload == p { unimplemented!() }
pub struct CgkaOperationGraph { pub cgka_op_heads: HashSet<N>, pub add_heads: HashSet<N> }
impl CgkaOperationGraph {
    #[verifier::external_body] pub fn has_single_head(&self) -> (r: bool) ensures r == (self.cgka_op_heads@.len() == 1) { unimplemented!() }
    /// proved for P14 (cgka_graph, `local`): an operation built on all the heads is the only head
    #[verifier::external_body] pub fn add_local_op(&mut self, o: &Op) ensures (forall|x: N| #[trigger] old(self).cgka_op_heads@.contains(x) <==> preds(o.payload).contains(x)) ==> final(self).cgka_op_heads@.len() == 1 { unimplemented!() }
}
#[verifier::external_body] pub struct BeeKem { x: u64 }
impl ShareKey { #[verifier::external_body] pub fn into(self) -> ShareKey { unimplemented!() } }
impl BeeKem {
    /// the members seated in the tree
    pub uninterp spec fn ids(&self) -> Set<MemberId>;
    // proved for P11 (tree)
    #[verifier::external_body] pub fn contains_id(&self, id: &MemberId) -> (r: bool) ensures r == self.ids().contains(*id) { unimplemented!() }
    #[verifier::external_body] pub fn push_leaf(&mut self, id: MemberId, k: ShareKey) -> (r: u32) ensures final(self).ids() == old(self).ids().insert(id) { unimplemented!() }
    #[verifier::external_body] pub fn remove_id(&mut self, id: MemberId) -> (r: Result<(u32, Vec<ShareKey>), CgkaError>) ensures r is Ok ==> final(self).ids() == old(self).ids().remove(id), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body] pub fn member_count(&self) -> (r: u32) { unimplemented!() }
}
pub struct Inner { pub doc_id: TreeId, pub tree: BeeKem, pub ops_graph: CgkaOperationGraph, pub pending_ops_for_structural_change: bool, pub owner_id: MemberId }
/// whom replaying everything known seats
pub uninterp spec fn replayed(c: Inner) -> Set<MemberId>;
pub open spec fn replays(c: Inner) -> bool { c.ops_graph.cgka_op_heads@.len() > 0 && (c.pending_ops_for_structural_change || c.ops_graph.cgka_op_heads@.len() != 1) }
/// the members of the key agreement, once everything received is taken into account
pub open spec fn seated(c: Inner) -> Set<MemberId> { if replays(c) { replayed(c) } else { c.tree.ids() } }
/// it starts with an operation
pub open spec fn live(c: Inner) -> bool { c.ops_graph.cgka_op_heads@.len() > 0 }
impl Inner {
    /// what a replay gives is determined by what is known
    #[verifier::external_body] pub fn replay_ops_graph(&mut self) -> (r: Result<(), CgkaError>) ensures final(self).ops_graph == old(self).ops_graph, replayed(*final(self)) == replayed(*old(self)), r is Ok ==> final(self).tree.ids() == replayed(*old(self)) && !final(self).pending_ops_for_structural_change { unimplemented!() }
}
#[verifier::external_body] pub struct CgkaOpsRest { x: u64 }
pub struct Cgka(pub Inner);
"""
CT = [("Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned())", "vec_of(&self.ops_graph.cgka_op_heads)"), ("Vec::from_iter(self.ops_graph.add_heads.iter().cloned())", "vec_of(&self.ops_graph.add_heads)"),
      ("async_signer::try_sign_async::<F, _, _>($s, $o)", "sign($s, $o)"), ("self.ops_graph.cgka_op_heads.is_empty()", "set_is_empty(&self.ops_graph.cgka_op_heads)")]
I = lambda name, sig, params, rw=(), **k: Fn(CG, "Cgka", name, sig, params, rewrites=list(rw) + CT, wrap="impl Inner", **k)
K = lambda name, sig, params, rw=(), **k: Fn(KC, "Cgka", name, sig, params, rewrites=list(rw), wrap="impl Cgka", **k)
SAME = "r is Ok && r->Ok_0 is None ==> seated({n}) == seated({o})"
cgka_fns = [
    I("should_replay", "pub fn should_replay(&self) -> (r: bool) ensures r == replays(*self)", ["self"]),
    I("group_size", "pub fn group_size(&self) -> (r: u32)", ["self"], vac=False),
    I("add", "pub fn add(&mut self, id: MemberId, pk: ShareKey, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) ensures live(*old(self)) ==> live(*final(self)), r is Ok && live(*old(self)) ==> seated(*final(self)) =~= seated(*old(self)).insert(id)", ["self", "id", "pk", "signer"]),
    I("remove", "pub fn remove(&mut self, id: MemberId, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) ensures live(*old(self)) ==> live(*final(self)), r is Ok && live(*old(self)) ==> seated(*final(self)) =~= seated(*old(self)).remove(id)", ["self", "id", "signer"]),
    K("add", "pub fn add(&mut self, id: IndividualId, pk: ShareKey, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) ensures live(old(self).0) ==> live(final(self).0), r is Ok && live(old(self).0) ==> seated(final(self).0) =~= seated(old(self).0).insert(mid(id))", ["self", "id", "pk", "signer"]),
    K("remove", "pub fn remove(&mut self, id: IndividualId, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) ensures live(old(self).0) ==> live(final(self).0), r is Ok && live(old(self).0) ==> seated(final(self).0) =~= seated(old(self).0).remove(mid(id))", ["self", "id", "signer"]),
]

# ---------------------------------------------------------------- agents, groups, documents
DOCS = r"""
#[verifier::external_body] pub struct Handle { x: u64 }
impl Clone for Handle { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum Agent { Active(IndividualId, Handle), Individual(IndividualId, Handle), Group(GroupId, Handle), Document(DocumentId, Handle) }
impl Clone for Agent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// an individual's id; none for groups and documents
pub open spec fn person(a: Agent) -> Option<IndividualId> { match a { Agent::Active(i, _) | Agent::Individual(i, _) => Some(i), _ => None } }
pub type Caps = Map<Identifier, (Agent, Access)>;
#[verifier::external_body] pub struct Group { x: u64 }
/// the transitive members with the access each has (P04 proves what they are)
pub uninterp spec fn reach(g: Group) -> Caps;
pub open spec fn entry_reads(g: Group, k: Identifier, i: IndividualId) -> bool { reach(g).dom().contains(k) && lvl(reach(g)[k].1) >= 1 && person(reach(g)[k].0) == Some(i) }
/// a document's key agreement begins with a leaf of its own
pub uninterp spec fn own(g: Group) -> IndividualId;
/// the individuals with at least read access, directly or through groups
pub open spec fn reads(g: Group, i: IndividualId) -> bool { exists|k: Identifier| #[trigger] entry_reads(g, k, i) }
impl Group { #[verifier::external_body] pub fn transitive_members(&self) -> (r: HashMap<Identifier, (Agent, Access)>) ensures r@ == reach(*self) { unimplemented!() } }
#[verifier::external_body] pub fn vals(m: HashMap<Identifier, (Agent, Access)>) -> (r: Vec<(Agent, Access)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> exists|k: Identifier| #[trigger] m@.dom().contains(k) && m@[k] == (#[trigger] r@[i]), forall|k: Identifier| #[trigger] m@.dom().contains(k) ==> r@.contains(m@[k]) { unimplemented!() }
/// std: v.into_iter().filter(f).filter_map(h).collect()
#[verifier::external_body] pub fn collect<F: Fn(&(Agent, Access)) -> bool, H: Fn((Agent, Access)) -> Option<(IndividualId, Agent)>>(v: Vec<(Agent, Access)>, f: F, h: H) -> (r: HashMap<IndividualId, Agent>)
    requires forall|i: int| 0 <= i < v@.len() ==> #[trigger] call_requires(f, (&v@[i],)) && call_requires(h, (v@[i],))
    ensures forall|k: IndividualId| #[trigger] r@.dom().contains(k) ==> exists|i: int| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), true) && call_ensures(h, (v@[i],), Some((k, r@[k]))),
        forall|i: int| 0 <= i < v@.len() ==> #[trigger] call_ensures(f, (&v@[i],), false) || call_ensures(h, (v@[i],), None) || exists|k: IndividualId, a: Agent| #[trigger] r@.dom().contains(k) && #[trigger] call_ensures(h, (v@[i],), Some((k, a))) { unimplemented!() }
/// std: Option::map
pub fn keyed(o: Option<IndividualId>, a: Agent) -> (r: Option<(IndividualId, Agent)>) ensures r == (match o { Some(i) => Some((i, a)), None => None }) { match o { Some(i) => Some((i, a)), None => None } }
#[verifier::external_body] pub fn keys_set(m: HashMap<IndividualId, Agent>) -> (r: HashSet<IndividualId>) ensures r@ == m@.dom() { unimplemented!() }
#[verifier::external_body] pub fn agents(m: &HashMap<IndividualId, Agent>) -> (r: Vec<(IndividualId, Agent)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1, forall|k: IndividualId| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
pub type Picked = HashMap<IndividualId, ShareKey>;
#[verifier::external_body] pub fn picks(m: &Picked) -> (r: Vec<(IndividualId, ShareKey)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0), forall|k: IndividualId| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
#[verifier::external_body] pub fn extend(m: &mut Picked, o: Picked) ensures final(m)@ == old(m)@.union_prefer_right(o@) { unimplemented!() }
#[verifier::external_body] pub fn retain<F: Fn(&IndividualId, &ShareKey) -> bool>(m: &mut Picked, f: F)
    requires forall|k: IndividualId, p: ShareKey| #[trigger] call_requires(f, (&k, &p))
    ensures forall|k: IndividualId| #[trigger] final(m)@.dom().contains(k) ==> old(m)@.dom().contains(k) && call_ensures(f, (&k, &old(m)@[k]), true), forall|k: IndividualId| old(m)@.dom().contains(k) && !(#[trigger] final(m)@.dom().contains(k)) ==> call_ensures(f, (&k, &old(m)@[k]), false) { unimplemented!() }
#[verifier::external_body] pub fn difference(a: &HashSet<IndividualId>, b: &HashSet<IndividualId>) -> (r: Vec<IndividualId>) ensures forall|x: IndividualId| #[trigger] r@.contains(x) <==> a@.contains(x) && !b@.contains(x) { unimplemented!() }
#[verifier::external_body] pub fn set_eq(a: &HashSet<IndividualId>, b: &HashSet<IndividualId>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
/// the well-known identity
pub uninterp spec fn public() -> IndividualId;
#[verifier::external_body] pub fn public_id() -> (r: IndividualId) ensures r == public() { unimplemented!() }
#[verifier::external_body] pub fn public_key() -> ShareKey { unimplemented!() }
/// the prekey of whoever is behind a handle, and the id it goes by (the id of the handle)
pub struct ActiveCell { pub the_id: IndividualId } pub struct IndividualCell { pub the_id: IndividualId, pub a_key: ShareKey }
impl ActiveCell { pub fn id(&self) -> (r: IndividualId) ensures r == self.the_id { self.the_id } #[verifier::external_body] pub fn pick_prekey(&self, d: DocumentId) -> ShareKey { unimplemented!() } }
impl IndividualCell { pub fn id(&self) -> (r: IndividualId) ensures r == self.the_id { self.the_id } #[verifier::external_body] pub fn pick_prekey(&self, d: DocumentId) -> &ShareKey { unimplemented!() } }
#[verifier::external_body] pub fn behind(id: IndividualId, h: &Handle) -> (r: ActiveCell) ensures r.the_id == id { unimplemented!() }
#[verifier::external_body] pub fn behind_individual(id: IndividualId, h: &Handle) -> (r: IndividualCell) ensures r.the_id == id { unimplemented!() }
/// the delegates of the members of a group or document
#[verifier::external_body] pub fn delegates(h: &Handle) -> Vec<Agent> { unimplemented!() }
#[verifier::external_body] pub struct Heads { x: u64 }
pub struct Document { pub group: Group, pub cgka: Option<Cgka>, pub content_state: Heads, pub content_heads: Heads }
impl Document {
    #[verifier::external_body] pub fn doc_id(&self) -> DocumentId { unimplemented!() }
}
#[verifier::external_body] pub struct Content { x: u64 }
#[verifier::external_body] pub struct Deleg { x: u64 }
#[verifier::external_body] pub struct DocHandle { x: u64 }
pub struct AddMemberUpdate { pub delegation: Deleg, pub cgka_ops: Vec<Op> }
pub struct RevokeMemberUpdate { pub revocations: Vec<Deleg>, pub redelegations: Vec<Deleg>, pub cgka_ops: Vec<Op> }
pub enum AddMemberError { Group(u64), Cgka(CgkaError) }
pub enum RevokeMemberError { Group(u64), Cgka(CgkaError) }
impl From<CgkaError> for AddMemberError { #[verifier::external_body] fn from(e: CgkaError) -> Self { unimplemented!() } }
impl From<CgkaError> for RevokeMemberError { #[verifier::external_body] fn from(e: CgkaError) -> Self { unimplemented!() } }
#[verifier::external_body] pub fn content_of(d: &[DocHandle], s: &Document) -> Content { unimplemented!() }
impl Group {
    // what membership becomes is P02, P03, P05: here it may become anything
    #[verifier::external_body] pub fn add_member_with_manual_content(&mut self, a: Agent, can: Access, s: &Signer, c: Content) -> (r: Result<AddMemberUpdate, AddMemberError>) ensures own(*final(self)) == own(*old(self)) { unimplemented!() }
    #[verifier::external_body] pub fn revoke_member(&mut self, m: Identifier, retain: bool, s: &Signer, c: &mut Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) ensures own(*final(self)) == own(*old(self)) { unimplemented!() }
}
#[verifier::external_body] pub fn cat(a: &mut Vec<Op>, b: Vec<Op>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
pub open spec fn holds(c: Option<Cgka>, i: IndividualId) -> bool { c is Some && seated((c->0).0).contains(mid(i)) }
pub open spec fn alive(c: Option<Cgka>) -> bool { c is Some ==> live((c->0).0) }
/// exactly the readers are in the key agreement, besides the document itself
pub open spec fn in_line(d: Document) -> bool { alive(d.cgka) && forall|i: IndividualId| #![trigger holds(d.cgka, i)] #![trigger reads(d.group, i)] i != own(d.group) ==> (holds(d.cgka, i) <==> reads(d.group, i)) }
pub open spec fn is_readers(s: Set<IndividualId>, g: Group) -> bool { forall|i: IndividualId| #![trigger s.contains(i)] #![trigger reads(g, i)] s.contains(i) <==> reads(g, i) }
/// the key agreement is in line with what was the set of readers
pub open spec fn holders(c: Option<Cgka>, s: Set<IndividualId>, o: IndividualId) -> bool { alive(c) && forall|i: IndividualId| #![trigger holds(c, i)] #![trigger s.contains(i)] i != o ==> (holds(c, i) <==> s.contains(i)) }
pub open spec fn listed(v: Seq<(IndividualId, ShareKey)>, n: int, i: IndividualId) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j]).0 == i }
pub open spec fn before(v: Seq<IndividualId>, n: int, i: IndividualId) -> bool { exists|j: int| 0 <= j < n && #[trigger] v[j] == i }
"""
D = lambda name, sig, params, rw=(), **k: Fn(DP, "Document", name, sig, params, rewrites=list(rw), wrap="impl Document", **k)
agent_fns = [
    Fn(ACC, "Access", "is_reader", "pub fn is_reader(self) -> (r: bool) ensures r == (lvl(self) >= 1)", ["self"], wrap="impl Access"),
    Fn(ACC, "Access", "is_editor", "pub fn is_editor(self) -> (r: bool) ensures r == (lvl(self) >= 2)", ["self"], wrap="impl Access"),
    Fn(AP, "Agent", "individual_id", "pub fn individual_id(&self) -> (r: Option<IndividualId>) ensures r == person(*self)", ["self"], wrap="impl Agent"),
    Fn(AP, "Agent", "id", "pub fn id(&self) -> (r: Identifier)", ["self"], [("(*id).into()", "id.0")], wrap="impl Agent", vac=False),
    Fn(AP, "Agent", "pick_individual_prekeys", "pub fn pick_individual_prekeys(&self, doc_id: DocumentId) -> (result: HashMap<IndividualId, ShareKey>) ensures person(*self) is Some ==> result@.dom() =~= Set::<IndividualId>::empty().insert(person(*self)->0)", ["self", "doc_id"],
       [(".dupe()", ".clone()"), ("let mut seen = HashSet::new();", "let mut seen: HashSet<Identifier> = HashSet::new();"), ("let mut result = HashMap::new();", "let mut result: HashMap<IndividualId, ShareKey> = HashMap::new();"),
        ("Agent::Active(_, a) => {", "Agent::Active(who, a) => {"), ("Agent::Individual(_, i) => {", "Agent::Individual(who, i) => {"),
        ("a.lock()", "behind(who, &a)"), ("i.lock()", "behind_individual(who, &i)"),
        ("let locked_group = g.lock(); for ms in locked_group.members().values() { for m in ms { stack.push(m.payload.delegate.clone()); } }", "push_all(&mut stack, delegates(&g));"),
        ("let locked_doc = d.lock(); for ms in locked_doc.members().values() { for m in ms { stack.push(m.payload.delegate.clone()); } }", "push_all(&mut stack, delegates(&d));"),
        ("let mut stack: Vec<Self> = vec![self.clone()];", "let mut stack: Vec<Agent> = vec![self.clone()];")],
       attrs="#[verifier::exec_allows_no_decreases_clause]", wrap="impl Agent",
       loops=[("while", None, "invariant_except_break person(*self) is Some ==> (stack@ == seq![*self] && seen@ == Set::<Identifier>::empty() && result@ == Map::<IndividualId, ShareKey>::empty()) || (stack@.len() == 0 && result@.dom() =~= Set::<IndividualId>::empty().insert(person(*self)->0)) ensures person(*self) is Some ==> result@.dom() =~= Set::<IndividualId>::empty().insert(person(*self)->0)", "", "")]),
    Fn(GP, "Group", "readers", "pub fn readers(&self) -> (r: HashMap<IndividualId, Agent>) ensures forall|i: IndividualId| #[trigger] r@.dom().contains(i) <==> reads(*self, i), forall|i: IndividualId| #[trigger] r@.dom().contains(i) ==> person(r@[i]) == Some(i)", ["self"],
       [("self.transitive_members().into_values().filter(|$f| $x).filter_map(|($$a, $$b)| $$c.individual_id().map(|id| (id, $$d))).collect()",
         """({ let all = vals(self.transitive_members()); let f = |e: &(Agent, Access)| -> (b: bool) ensures b == (lvl(e.1) >= 1) { let $f = e; $x }; let h = |e: (Agent, Access)| -> (o: Option<(IndividualId, Agent)>) ensures o == (match person(e.0) { Some(i) => Some((i, e.0)), None => None }) { let ($$a, $$b) = e; let id = $$c.individual_id(); keyed(id, $$d) };
            let r = collect(all, f, h);
            proof {
                assert forall|i: IndividualId| #[trigger] r@.dom().contains(i) <==> reads(*self, i) by {
                    if r@.dom().contains(i) { let j = choose|j: int| 0 <= j < all@.len() && #[trigger] call_ensures(f, (&all@[j],), true) && call_ensures(h, (all@[j],), Some((i, r@[i]))); let k = choose|k: Identifier| #[trigger] reach(*self).dom().contains(k) && reach(*self)[k] == all@[j]; assert(entry_reads(*self, k, i)); }
                    if reads(*self, i) { let k = choose|k: Identifier| #[trigger] entry_reads(*self, k, i); let j = all@.index_of(reach(*self)[k]); assert(all@.contains(reach(*self)[k])); assert(all@[j] == reach(*self)[k]);
                        assert(!call_ensures(f, (&all@[j],), false)); assert(!call_ensures(h, (all@[j],), None)); }
                }
                assert forall|i: IndividualId| #[trigger] r@.dom().contains(i) implies person(r@[i]) == Some(i) by { let j = choose|j: int| 0 <= j < all@.len() && #[trigger] call_ensures(f, (&all@[j],), true) && call_ensures(h, (all@[j],), Some((i, r@[i]))); }
            } r })""")], wrap="impl Group"),
    Fn(GP, "Group", "pick_individual_prekeys", "pub fn pick_individual_prekeys(&self, doc_id: DocumentId) -> (prekeys: HashMap<IndividualId, ShareKey>) ensures forall|i: IndividualId| #[trigger] prekeys@.dom().contains(i) <==> reads(*self, i)", ["self", "doc_id"],
       [("let mut prekeys = HashMap::new();", "let mut prekeys: HashMap<IndividualId, ShareKey> = HashMap::new();"), ("IndividualId(crate::principal::public::Public.id())", "public_id()"), ("crate::principal::public::Public.share_key()", "public_key()"),
        ("for (id, agent) in self.readers().iter() {", "let rs = self.readers(); let va = agents(&rs); let ghost vs = va@; for e in va { let id = &e.0; let agent = &e.1;"), ("prekeys.extend(agent.pick_individual_prekeys(doc_id).iter());", "extend(&mut prekeys, agent.pick_individual_prekeys(doc_id));")],
       loops=[("for", "it", "invariant public_id == public(), it.seq() == vs, is_agents(rs@, *self), forall|i: int| 0 <= i < vs.len() ==> rs@.dom().contains((#[trigger] vs[i]).0) && rs@[vs[i].0] == vs[i].1, (forall|i: IndividualId| #[trigger] rs@.dom().contains(i) ==> a_listed(vs, vs.len() as int, i)), forall|i: IndividualId| #[trigger] prekeys@.dom().contains(i) <==> a_listed(vs, it.index@ as int, i)",
               "let ghost p0 = prekeys@; let ghost n = it.index@ as int; proof { assert(e == vs[n]); assert(rs@.dom().contains(vs[n].0)); }",
               "proof { assert forall|i: IndividualId| #[trigger] prekeys@.dom().contains(i) <==> a_listed(vs, n + 1, i) by { assert(prekeys@.dom().contains(i) <==> p0.dom().contains(i) || i == vs[n].0); assert(p0.dom().contains(i) <==> a_listed(vs, n, i)); if a_listed(vs, n + 1, i) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] vs[j]).0 == i; if j < n { assert(a_listed(vs, n, i)); } } if a_listed(vs, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] vs[j]).0 == i; assert(vs[j].0 == i); } if i == vs[n].0 { assert(a_listed(vs, n + 1, i)); } } }")],
       post="", wrap="impl Group"),
]
HELP = r"""
#[verifier::external_body] pub fn push_all(v: &mut Vec<Agent>, w: Vec<Agent>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }
pub open spec fn is_agents(m: Map<IndividualId, Agent>, g: Group) -> bool { (forall|i: IndividualId| #![trigger m.dom().contains(i)] #![trigger reads(g, i)] m.dom().contains(i) <==> reads(g, i)) && forall|i: IndividualId| #[trigger] m.dom().contains(i) ==> person(m[i]) == Some(i) }
pub open spec fn a_listed(v: Seq<(IndividualId, Agent)>, n: int, i: IndividualId) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j]).0 == i }
"""
KEEPG = "final(self).group == old(self).group, alive(old(self).cgka) ==> alive(final(self).cgka)"
ADDED = "forall|i: IndividualId| #[trigger] holds(%s, i) <==> holds(%s, i) || %s"
doc_fns = [
    D("cgka_mut", "pub fn cgka_mut(&mut self) -> (r: Result<&mut Cgka, CgkaError>) ensures r is Ok == old(self).cgka is Some, r is Ok ==> *(r->Ok_0) == old(self).cgka->0 && *final(self) == (Document { cgka: Some(*final(r->Ok_0)), ..*old(self) }), r is Err ==> *final(self) == *old(self)", ["self"]),
    D("reader_ids", "pub fn reader_ids(&self) -> (r: HashSet<IndividualId>) ensures is_readers(r@, self.group)", ["self"], [("self.group.readers().into_keys().collect()", "keys_set(self.group.readers())")]),
    D("remove_cgka_member", f"pub fn remove_cgka_member(&mut self, id: IndividualId, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) ensures {KEEPG}, r is Ok && alive(old(self).cgka) ==> forall|i: IndividualId| #[trigger] holds(final(self).cgka, i) <==> holds(old(self).cgka, i) && i != id", ["self", "id", "signer"],
      pre="proof { assert forall|a: IndividualId, b: IndividualId| #[trigger] mid(a) == #[trigger] mid(b) implies a == b by { mid_inj(a, b); } }"),
    D("add_cgka_members_from_prekeys", f"pub fn add_cgka_members_from_prekeys(&mut self, prekeys: &HashMap<IndividualId, ShareKey>, signer: &Signer) -> (r: Result<Vec<Op>, CgkaError>) ensures {KEEPG}, r is Ok && alive(old(self).cgka) ==> forall|i: IndividualId| #[trigger] holds(final(self).cgka, i) <==> holds(old(self).cgka, i) || prekeys@.dom().contains(i)", ["self", "prekeys", "signer"],
      [("let mut acc = Vec::new();", "let mut acc: Vec<Op> = Vec::new();"), ("for (id, prekey) in prekeys.iter() {", "let vp = picks(prekeys); let ghost vs = vp@; for e in vp { let id = &e.0; let prekey = &e.1;")],
      pre="let ghost d0 = *self;",
      loops=[("for", "it", "invariant it.seq() == vs, self.group == d0.group, d0 == *old(self), alive(d0.cgka) ==> alive(self.cgka), alive(d0.cgka) ==> forall|i: IndividualId| #[trigger] holds(self.cgka, i) <==> holds(d0.cgka, i) || listed(vs, it.index@ as int, i)",
              "let ghost d1 = *self; let ghost n = it.index@ as int; proof { assert(e == vs[n]); }",
              "proof { if alive(d0.cgka) { assert forall|i: IndividualId| #[trigger] holds(self.cgka, i) <==> holds(d0.cgka, i) || listed(vs, n + 1, i) by { mid_inj(i, vs[n].0); assert(holds(self.cgka, i) <==> holds(d1.cgka, i) || i == vs[n].0); if listed(vs, n + 1, i) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] vs[j]).0 == i; if j < n { assert(listed(vs, n, i)); } } if listed(vs, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] vs[j]).0 == i; assert(vs[j].0 == i); } if i == vs[n].0 { assert(listed(vs, n + 1, i)); } } } }")]),
    D("update_cgka_readers", f"pub fn update_cgka_readers(&mut self, readers_before: &HashSet<IndividualId>, signer: &Signer) -> (r: Result<Vec<Op>, CgkaError>) ensures {KEEPG}, r is Ok && holders(old(self).cgka, readers_before@, own(old(self).group)) ==> in_line(*final(self))", ["self", "readers_before", "signer"],
      [("readers_after == *readers_before", "set_eq(&readers_after, readers_before)"), ("prekeys.retain(|$$i, $$p| $x);", "retain(&mut prekeys, |$$i: &IndividualId, $$p: &ShareKey| -> (b: bool) ensures b == !readers_before@.contains(*$$i) { $x });"),
       ("for id in $a.difference($b) {", """let ghost d2 = *self; let gone = difference($a, $b); let ghost vs = gone@; let ghost pk = prekeys@.dom();
            proof { assert forall|i: IndividualId| #[trigger] before(vs, vs.len() as int, i) <==> readers_before@.contains(i) && !readers_after@.contains(i) by { if before(vs, vs.len() as int, i) { let j = choose|j: int| 0 <= j < vs.len() && #[trigger] vs[j] == i; assert(vs.contains(i)); } if readers_before@.contains(i) && !readers_after@.contains(i) { assert(vs.contains(i)); let j = vs.index_of(i); assert(vs[j] == i); } }
              if holders(d0.cgka, readers_before@, own(d0.group)) { assert forall|i: IndividualId| #![trigger holds(d2.cgka, i)] #![trigger reads(d0.group, i)] i != own(d0.group) implies (holds(d2.cgka, i) && !before(vs, vs.len() as int, i) <==> reads(d0.group, i)) by { assert(readers_after@.contains(i) <==> reads(d0.group, i)); assert(holds(d0.cgka, i) <==> readers_before@.contains(i)); if readers_after@.contains(i) && !readers_before@.contains(i) { assert(prekeys@.dom().contains(i)); } if prekeys@.dom().contains(i) { assert(reads(d0.group, i)); } } } }
            for gid in gone { let id = &gid;""")],
      pre="let ghost d0 = *self;",
      loops=[("for", "it", "invariant it.seq() == vs, self.group == d0.group, d0 == *old(self), alive(d0.cgka) ==> alive(self.cgka) && alive(d2.cgka), (holders(d0.cgka, readers_before@, own(d0.group)) ==> forall|i: IndividualId| #![trigger holds(d2.cgka, i)] #![trigger reads(d0.group, i)] i != own(d0.group) ==> (holds(d2.cgka, i) && !before(vs, vs.len() as int, i) <==> reads(d0.group, i))), alive(d0.cgka) ==> forall|i: IndividualId| #![trigger holds(self.cgka, i)] #![trigger holds(d2.cgka, i)] holds(self.cgka, i) <==> holds(d2.cgka, i) && !before(vs, it.index@ as int, i)",
              "let ghost d1 = *self; let ghost n = it.index@ as int; proof { assert(gid == vs[n]); }",
              "proof { if alive(d0.cgka) { assert forall|i: IndividualId| #![trigger holds(self.cgka, i)] #![trigger holds(d2.cgka, i)] holds(self.cgka, i) <==> holds(d2.cgka, i) && !before(vs, n + 1, i) by { assert(holds(self.cgka, i) <==> holds(d1.cgka, i) && i != vs[n]); if before(vs, n + 1, i) { let j = choose|j: int| 0 <= j < n + 1 && #[trigger] vs[j] == i; if j < n { assert(before(vs, n, i)); } } if before(vs, n, i) { let j = choose|j: int| 0 <= j < n && #[trigger] vs[j] == i; assert(vs[j] == i); } if i == vs[n] { assert(before(vs, n + 1, i)); } } } }")]),
    D("add_member", "pub fn add_member(&mut self, member_to_add: Agent, can: Access, signer: &Signer, other_relevant_docs: &[DocHandle]) -> (r: Result<AddMemberUpdate, AddMemberError>) ensures r is Ok && in_line(*old(self)) ==> in_line(*final(self))", ["self", "member_to_add", "can", "signer", "other_relevant_docs"],
      [("let mut after_content: BTreeMap<_, _> = $x;", "let after_content = content_of(other_relevant_docs, self);"), ("after_content.insert($x);", ""), (".dupe()", ".clone()"), ("update.cgka_ops.extend($x);", "cat(&mut update.cgka_ops, $x);")]),
    D("revoke_member", "pub fn revoke_member(&mut self, member_id: Identifier, retain_all_other_members: bool, signer: &Signer, after_other_doc_content: &mut Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) ensures r is Ok && in_line(*old(self)) ==> in_line(*final(self))", ["self", "member_id", "retain_all_other_members", "signer", "after_other_doc_content"],
      [("ops.extend($x);", "cat(&mut ops, $x);")]),
]
HEAD = core.std("ax_n::key_model", "ax_identifier::key_model", "ax_individualid::key_model")
u_doc = Unit("readers_doc", HEAD + IDS + STATE + DOCS + HELP, cgka_fns + agent_fns + doc_fns)

# ---------------------------------------------------------------- all documents of a replica
WORLD = r"""
#[derive(Clone, Copy)] pub struct DocRef(pub u64);
#[derive(Clone, Copy)] pub struct GroupRef(pub u64);
#[derive(Clone, Copy)] pub enum AgentId { Group(GroupId), Document(DocumentId) }
""" + core.eq_struct("AgentId") + r"""
/// a group or document by handle
pub enum Membered { Group(GroupId, GroupRef), Document(DocumentId, DocRef) }
impl Membered { pub fn agent_id(&self) -> (r: AgentId) ensures r == mem_id(*self) { match self { Membered::Group(i, _) => AgentId::Group(*i), Membered::Document(i, _) => AgentId::Document(*i) } } }
pub open spec fn mem_id(m: Membered) -> AgentId { match m { Membered::Group(i, _) => AgentId::Group(i), Membered::Document(i, _) => AgentId::Document(i) } }
/// all that is behind handles: who is a member of what, and the key agreements
#[verifier::external_body] pub struct Graph { x: u64 }
#[verifier::external_body] pub struct World { x: u64 }
impl World {
    pub uninterp spec fn graph(&self) -> Graph;
    /// the individuals seated in a document's key agreement (besides the document itself); none if it has none
    pub uninterp spec fn keys(&self) -> Map<DocRef, Set<IndividualId>>;
    /// documents whose key agreement refused a change (removing its last member)
    pub uninterp spec fn refused(&self) -> Set<DocRef>;
}
pub uninterp spec fn doc_id_of(d: DocRef) -> DocumentId;
/// the individuals with at least read access (as `reads` of the other unit, besides the document itself)
pub uninterp spec fn readers_of(g: Graph, d: DocRef) -> Set<IndividualId>;
pub open spec fn fits(w: World, d: DocRef) -> bool { w.keys().dom().contains(d) && w.keys()[d] == readers_of(w.graph(), d) }
pub open spec fn kept(a: World, b: World) -> bool { b.keys() == a.keys() && b.refused() == a.refused() }
pub open spec fn only(a: World, b: World, d: DocRef) -> bool { a.keys().dom() == b.keys().dom() && forall|x: DocRef| x != d && a.keys().dom().contains(x) ==> b.keys()[x] == #[trigger] a.keys()[x] }
#[verifier::external_body] pub fn doc_agent_id(w: &World, d: &DocRef) -> (r: AgentId) ensures r == AgentId::Document(doc_id_of(*d)) { unimplemented!() }
#[verifier::external_body] pub fn has_keys(w: &World, d: &DocRef) -> (r: bool) ensures r == w.keys().dom().contains(*d) { unimplemented!() }
#[verifier::external_body] pub fn reader_ids_of(w: &World, d: &DocRef) -> (r: HashSet<IndividualId>) ensures r@ == readers_of(w.graph(), *d) { unimplemented!() }
// the contracts of the other unit, for what is behind a handle
#[verifier::external_body] pub fn update_readers(w: &mut World, d: &DocRef, before: &HashSet<IndividualId>, s: &Signer) -> (r: Result<Vec<Op>, CgkaError>)
    requires old(w).keys().dom().contains(*d)
    ensures final(w).graph() == old(w).graph(), only(*old(w), *final(w), *d), r is Ok ==> final(w).refused() == old(w).refused(), r is Err ==> final(w).refused() == old(w).refused().insert(*d),
        r is Ok && old(w).keys()[*d] == before@ ==> fits(*final(w), *d) { unimplemented!() }
#[verifier::external_body] pub fn group_add(w: &mut World, g: &GroupRef, a: Agent, can: Access, s: &Signer, o: &[DocRef]) -> (r: Result<AddMemberUpdate, AddMemberError>) ensures kept(*old(w), *final(w)) { unimplemented!() }
#[verifier::external_body] pub fn group_revoke(w: &mut World, g: &GroupRef, m: Identifier, retain: bool, s: &Signer, c: &mut Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) ensures kept(*old(w), *final(w)) { unimplemented!() }
#[verifier::external_body] pub fn doc_add(w: &mut World, d: &DocRef, a: Agent, can: Access, s: &Signer, o: &[DocRef]) -> (r: Result<AddMemberUpdate, AddMemberError>) ensures final(w).refused() == old(w).refused(), only(*old(w), *final(w), *d), r is Ok && fits(*old(w), *d) ==> fits(*final(w), *d) { unimplemented!() }
#[verifier::external_body] pub fn doc_revoke(w: &mut World, d: &DocRef, m: Identifier, retain: bool, s: &Signer, c: &mut Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) ensures final(w).refused() == old(w).refused(), only(*old(w), *final(w), *d), r is Ok && fits(*old(w), *d) ==> fits(*final(w), *d) { unimplemented!() }
#[verifier::external_body] pub struct DocMap { x: u64 }
impl DocMap { pub uninterp spec fn view(&self) -> Map<DocumentId, DocRef>; }
pub open spec fn two_keys(m: Map<DocumentId, DocRef>, x: DocRef, y: DocRef) -> bool { exists|k: DocumentId, l: DocumentId| k != l && #[trigger] m.dom().contains(k) && #[trigger] m.dom().contains(l) && m[k] == x && m[l] == y }
#[verifier::external_body] pub fn all_docs(m: &DocMap) -> (r: Vec<DocRef>)
    ensures r@.len() == m@.dom().len(), forall|i: int| 0 <= i < r@.len() ==> exists|k: DocumentId| #[trigger] m@.dom().contains(k) && m@[k] == #[trigger] r@[i], forall|k: DocumentId| #[trigger] m@.dom().contains(k) ==> r@.contains(m@[k]),
        // one entry for each key
        forall|i: int, j: int| 0 <= i < j < r@.len() ==> two_keys(m@, #[trigger] r@[i], #[trigger] r@[j]) { unimplemented!() }
#[verifier::external_body] pub struct Listener { x: u64 }
impl Listener { #[verifier::external_body] pub fn on_cgka_op(&self, o: &Arc<Op>) { unimplemented!() } }
impl Clone for Op { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Keyhive { pub docs: DocMap, pub event_listener: Listener, pub the_signer: u64 }
impl Keyhive {
    #[verifier::external_body] pub fn signer(&self) -> Signer { unimplemented!() }
    #[verifier::external_body] pub fn heads_of_reachable(&self, w: &World) -> Content { unimplemented!() }
}
/// documents are registered under their ids, and what is changed is registered if it is a document
pub open spec fn registered(k: Keyhive) -> bool { forall|i: DocumentId| #[trigger] k.docs@.dom().contains(i) ==> doc_id_of(k.docs@[i]) == i }
pub open spec fn known(k: Keyhive, d: DocRef) -> bool { exists|i: DocumentId| #[trigger] k.docs@.dom().contains(i) && k.docs@[i] == d }
pub open spec fn handle(k: Keyhive, m: Membered) -> bool { match m { Membered::Group(_, _) => true, Membered::Document(i, d) => k.docs@.dom().contains(i) && k.docs@[i] == d } }
pub type Others = Seq<(DocRef, HashSet<IndividualId>)>;
pub open spec fn is_res(m: Membered, d: DocRef) -> bool { mem_id(m) == AgentId::Document(doc_id_of(d)) }
pub open spec fn among(o: Others, n: int, d: DocRef) -> bool { exists|j: int| 0 <= j < n && (#[trigger] o[j]).0 == d }
pub open spec fn once(o: Others) -> bool { forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0 != (#[trigger] o[j]).0 }
pub open spec fn good(w: World, m: Membered, o: Others) -> bool { forall|j: int| 0 <= j < o.len() ==> w.keys().dom().contains((#[trigger] o[j]).0) && o[j].1@ == readers_of(w.graph(), o[j].0) && !is_res(m, o[j].0) }
/// whatever fitted before fits now, or is still to come, or refused
pub open spec fn caught_up(a: World, w: World, o: Others, n: int) -> bool {
    &&& w.keys().dom() == a.keys().dom()
    &&& forall|d: DocRef| #[trigger] fits(a, d) ==> fits(w, d) || w.refused().contains(d) || (exists|j: int| n <= j < o.len() && (#[trigger] o[j]).0 == d && w.keys()[d] == a.keys()[d])
}
pub open spec fn all_fit(k: Keyhive, a: World, b: World) -> bool { forall|d: DocRef| known(k, d) && #[trigger] fits(a, d) ==> fits(b, d) }
#[verifier::external_body] pub fn cat(a: &mut Vec<Op>, b: Vec<Op>) ensures final(a)@ == old(a)@ + b@ { unimplemented!() }
"""
H = lambda name, sig, params, rw=(), **k: Fn(KH, "Keyhive", name, sig, params, rewrites=list(rw) + KRW, wrap="impl Keyhive", **k)
KRW = [("let signer = { self.active.lock().signer.clone() };", "let signer = self.signer();"), ("update.cgka_ops.extend($x);", "cat(&mut update.cgka_ops, $x);"),
       ("&Arc::new(cgka_op.clone())", "&Arc::new(cgka_op.clone())")]
WORLD2 = r"""
#[verifier::external_body] pub fn pull<X>(v: &mut Vec<X>) -> (r: Option<X>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r == Some(old(v)@[0]) && final(v)@ == old(v)@.subrange(1, old(v)@.len() as int) { unimplemented!() }
/// a change of one group or document by its own means
pub open spec fn stepped(a: World, b: World, m: Membered, ok: bool) -> bool { b.refused() == a.refused() && match m { Membered::Group(_, _) => b.keys() == a.keys(), Membered::Document(_, d) => only(a, b, d) && (ok && fits(a, d) ==> fits(b, d)) } }
pub open spec fn untouched(a: World, b: World, o: Others, n: int) -> bool {
    &&& b.graph() == a.graph() && b.keys().dom() == a.keys().dom()
    &&& forall|j: int| n <= j < o.len() ==> b.keys()[(#[trigger] o[j]).0] == a.keys()[o[j].0]
    &&& forall|d: DocRef| a.keys().dom().contains(d) && !(#[trigger] among(o, o.len() as int, d)) ==> b.keys()[d] == a.keys()[d]
}
pub open spec fn passed(a: World, b: World, o: Others, n: int) -> bool { forall|j: int| 0 <= j < n && a.keys()[(#[trigger] o[j]).0] == o[j].1@ ==> fits(b, o[j].0) || b.refused().contains(o[j].0) }
pub open spec fn covers(k: Keyhive, w: World, m: Membered, o: Others) -> bool { forall|d: DocRef| #[trigger] known(k, d) && w.keys().dom().contains(d) && !is_res(m, d) ==> among(o, o.len() as int, d) }
pub proof fn distinct(k: Keyhive, v: Seq<DocRef>)
    requires registered(k), forall|i: int, j: int| 0 <= i < j < v.len() ==> two_keys(k.docs@, #[trigger] v[i], #[trigger] v[j])
    ensures forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]) != (#[trigger] v[j])
{ assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]) != (#[trigger] v[j]) by { assert(two_keys(k.docs@, v[i], v[j])); let (a, b) = choose|a: DocumentId, b: DocumentId| a != b && #[trigger] k.docs@.dom().contains(a) && #[trigger] k.docs@.dom().contains(b) && k.docs@[a] == v[i] && k.docs@[b] == v[j]; assert(doc_id_of(v[i]) == a && doc_id_of(v[j]) == b); } }
pub proof fn one_update(w1: World, a: World, b: World, o: Others, n: int, ok: bool)
    requires 0 <= n < o.len(), once(o), untouched(w1, a, o, n), passed(w1, a, o, n), b.graph() == a.graph(), only(a, b, o[n].0), a.refused().subset_of(b.refused()), !ok ==> b.refused().contains(o[n].0), ok && a.keys()[o[n].0] == o[n].1@ ==> fits(b, o[n].0), forall|j: int| 0 <= j < o.len() ==> w1.keys().dom().contains((#[trigger] o[j]).0)
    ensures untouched(w1, b, o, n + 1), passed(w1, b, o, n + 1)
{
    assert forall|j: int| n + 1 <= j < o.len() implies b.keys()[(#[trigger] o[j]).0] == w1.keys()[o[j].0] by { assert(o[n].0 != o[j].0); assert(a.keys()[o[j].0] == w1.keys()[o[j].0]); }
    assert forall|d: DocRef| w1.keys().dom().contains(d) && !(#[trigger] among(o, o.len() as int, d)) implies b.keys()[d] == w1.keys()[d] by { assert(d != o[n].0); assert(a.keys()[d] == w1.keys()[d]); }
    assert forall|j: int| 0 <= j < n + 1 && w1.keys()[(#[trigger] o[j]).0] == o[j].1@ implies fits(b, o[j].0) || b.refused().contains(o[j].0) by { if j < n { assert(o[j].0 != o[n].0); assert(fits(a, o[j].0) || a.refused().contains(o[j].0)); if fits(a, o[j].0) { assert(b.keys()[o[j].0] == a.keys()[o[j].0]); } } else { assert(a.keys()[o[n].0] == w1.keys()[o[n].0]); } }
}
pub proof fn all_done(k: Keyhive, m: Membered, w0: World, w1: World, w: World, o: Others)
    requires registered(k), handle(k, m), stepped(w0, w1, m, true), once(o), good(w0, m, o), covers(k, w0, m, o), untouched(w1, w, o, o.len() as int), passed(w1, w, o, o.len() as int)
    ensures forall|d: DocRef| #[trigger] known(k, d) && fits(w0, d) ==> fits(w, d) || w.refused().contains(d)
{
    assert forall|d: DocRef| #[trigger] known(k, d) && fits(w0, d) implies fits(w, d) || w.refused().contains(d) by {
        if is_res(m, d) {
            assert(!among(o, o.len() as int, d)) by { if among(o, o.len() as int, d) { let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).0 == d; assert(!is_res(m, o[j].0)); } }
            match m { Membered::Document(i, x) => { assert(d == x) by { let q = choose|q: DocumentId| #[trigger] k.docs@.dom().contains(q) && k.docs@[q] == d; assert(doc_id_of(d) == q); assert(doc_id_of(x) == i); } }, _ => {} }
            assert(w.keys()[d] == w1.keys()[d]);
        } else {
            assert(among(o, o.len() as int, d)); let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).0 == d;
            assert(o[j].1@ == readers_of(w0.graph(), d));
            match m { Membered::Document(i, x) => { assert(d != x) by { assert(doc_id_of(x) == i); } assert(w1.keys()[d] == w0.keys()[d]); }, _ => {} }
            assert(w1.keys()[o[j].0] == o[j].1@);
        }
    }
}
"""
DOM = "(forall|j: int| 0 <= j < os.len() ==> w1.keys().dom().contains((#[trigger] os[j]).0))"
LOOPINV = "invariant it.seq() == os, once(os), %s, untouched(w1, *w, os, it.index@ as int), passed(w1, *w, os, it.index@ as int), w1.refused().subset_of(w.refused())%s" 
BEG = "let ghost wa = *w; let ghost n = it.index@ as int; proof { assert(e == os[n]); }"
OTHERS_RW = ("for (doc, readers_before) in other_docs {", "let ghost os = other_docs@; let ghost w1 = *w; proof { assert(w1.keys().dom() == w0.keys().dom()); assert forall|j: int| 0 <= j < os.len() implies w1.keys().dom().contains((#[trigger] os[j]).0) by { assert(w0.keys().dom().contains(os[j].0)); } } for e in other_docs { let doc = &e.0; let readers_before = &e.1;")
DONE_RW = ("for cgka_op in &update.cgka_ops {", "proof { all_done(*self, *resource, w0, w1, *w, os); } for cgka_op in update.cgka_ops.iter() {")
UPD = ("locked_doc.update_cgka_readers(&readers_before, &signer)", "update_readers(w, doc, readers_before, &signer)")
NEED = "requires registered(*self), handle(*self, *resource), old(w).refused() == Set::<DocRef>::empty()"
hive_fns = [
    H("docs_other_than", "pub fn docs_other_than(&self, w: &World, resource: &Membered) -> (others: Vec<(DocRef, HashSet<IndividualId>)>) requires registered(*self) ensures once(others@), good(*w, *resource, others@), covers(*self, *w, *resource, others@)", ["self", "resource"],
      [("let docs = { self.docs.lock().values().cloned().collect::<Vec<_>>() };", "let mut docs = all_docs(&self.docs); let ghost v0 = docs@; proof { distinct(*self, v0); assert(docs@ =~= v0.subrange(0, v0.len() as int)); }"), ("let docs = { self.docs.lock().values().cloned().collect() };", "let mut docs = all_docs(&self.docs); let ghost v0 = docs@; proof { distinct(*self, v0); assert(docs@ =~= v0.subrange(0, v0.len() as int)); }"),
       ("let mut others = Vec::new();", "let mut others: Vec<(DocRef, HashSet<IndividualId>)> = Vec::new();"), ("for doc in docs {", "let ghost mut n: int = 0; while let Some(doc) = pull(&mut docs) {"), ("let locked = doc.lock();", ""), ("locked.agent_id()", "doc_agent_id(w, &doc)"), ("locked.cgka().is_err()", "!has_keys(w, &doc)"), ("locked.cgka().is_ok()", "has_keys(w, &doc)"), ("locked.reader_ids()", "reader_ids_of(w, &doc)"),
       ("others.push((doc, readers));", "let ghost o0 = others@; others.push((doc, readers)); proof { assert(o0.len() + 1 == others@.len()); assert(others@[o0.len() as int].0 == v0[n - 1]); assert forall|i: int| 0 <= i < n && w.keys().dom().contains(#[trigger] v0[i]) && !is_res(*resource, v0[i]) implies among(others@, others@.len() as int, v0[i]) by { if i < n - 1 { assert(among(o0, o0.len() as int, v0[i])); let j = choose|j: int| 0 <= j < o0.len() && (#[trigger] o0[j]).0 == v0[i]; assert(others@[j].0 == v0[i]); } } }")],
      loops=[("while", None, """invariant registered(*self), 0 <= n <= v0.len(), docs@ == v0.subrange(n, v0.len() as int), (forall|i: int, j: int| 0 <= i < j < v0.len() ==> (#[trigger] v0[i]) != (#[trigger] v0[j])), once(others@), good(*w, *resource, others@),
                (forall|j: int| 0 <= j < others@.len() ==> exists|i: int| 0 <= i < n && v0[i] == (#[trigger] others@[j]).0), (forall|i: int| 0 <= i < n && w.keys().dom().contains(#[trigger] v0[i]) && !is_res(*resource, v0[i]) ==> among(others@, others@.len() as int, v0[i])), (forall|k: DocumentId| #[trigger] self.docs@.dom().contains(k) ==> v0.contains(self.docs@[k]))
              ensures once(others@), good(*w, *resource, others@), covers(*self, *w, *resource, others@) decreases v0.len() - n""",
              "proof { assert(doc == v0[n]); assert(v0.subrange(n, v0.len() as int).subrange(1, v0.len() - n) =~= v0.subrange(n + 1, v0.len() as int)); n = n + 1; }", "")]),
    Fn(MP, "Membered", "revoke_member", "pub fn revoke_member(&self, w: &mut World, member_id: Identifier, retain_all_other_members: bool, signer: &Signer, relevant_docs: &mut Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) ensures stepped(*old(w), *final(w), *self, r is Ok)", ["self", "member_id", "retain_all_other_members", "signer", "relevant_docs"],
       [("group.lock().revoke_member($x)", "group_revoke(w, group, $x)"), ("document.lock().revoke_member($x)", "doc_revoke(w, document, $x)")], wrap="impl Membered"),
    H("add_member", f"pub fn add_member(&self, w: &mut World, to_add: Agent, resource: &Membered, can: Access, other_relevant_docs: &[DocRef]) -> (r: Result<AddMemberUpdate, AddMemberError>) {NEED} ensures r is Ok ==> forall|d: DocRef| #[trigger] known(*self, d) && fits(*old(w), d) ==> fits(*final(w), d)", ["self", "to_add", "resource", "can", "other_relevant_docs"],
      [("self.docs_other_than(resource)", "self.docs_other_than(w, resource)"), ("group.lock().add_member($x)", "group_add(w, group, $x)"), ("let mut locked = doc.lock(); locked.add_member($x)?", "doc_add(w, doc, $x)?"), ("let mut locked_doc = doc.lock();", ""), OTHERS_RW, DONE_RW,
       ("let ops = locked_doc.update_cgka_readers(&readers_before, &signer)?;", "let ops = update_readers(w, doc, readers_before, &signer)?; proof { one_update(w1, wa, *w, os, n, true); }", "must")],
      pre="let ghost w0 = *w;", loops=[("for", "it", LOOPINV % (DOM, ", w.refused() == Set::<DocRef>::empty()"), BEG, ""), ("for", "it", "invariant true", "", "")]),
    H("revoke_member", f"pub fn revoke_member(&self, w: &mut World, to_revoke: Identifier, retain_all_other_members: bool, resource: &Membered) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>) {NEED} ensures r is Ok ==> forall|d: DocRef| #[trigger] known(*self, d) && fits(*old(w), d) ==> fits(*final(w), d) || final(w).refused().contains(d)", ["self", "to_revoke", "retain_all_other_members", "resource"],
      [("let mut relevant_docs = BTreeMap::new(); for (doc_id, Ability { doc, .. }) in self.reachable_docs() { let locked = doc.lock(); relevant_docs.insert($x); }", "let mut relevant_docs = self.heads_of_reachable(w);"), ("self.docs_other_than(resource)", "self.docs_other_than(w, resource)"), ("resource.revoke_member($x)", "resource.revoke_member(w, $x)"), ("let mut locked_doc = doc.lock();", ""), OTHERS_RW, DONE_RW, UPD],
      pre="let ghost w0 = *w;", loops=[("for", "it", LOOPINV % (DOM, ""), BEG, "proof { one_update(w1, wa, *w, os, n, fits(*w, os[n].0) || wa.keys()[os[n].0] != os[n].1@); }"), ("for", "it", "invariant true", "", "")]),
]
ATYPES = DOCS.split("pub struct AddMemberUpdate", 1)[1].split("#[verifier::external_body] pub fn content_of", 1)[0]
HT = r"""
#[verifier::external_body] pub struct Handle { x: u64 }
pub enum Agent { Active(IndividualId, Handle), Individual(IndividualId, Handle), Group(GroupId, Handle), Document(DocumentId, Handle) }
#[verifier::external_body] pub struct Content { x: u64 }
#[verifier::external_body] pub struct Deleg { x: u64 }
pub struct AddMemberUpdate"""
u_hive = Unit("readers_hive", HEAD + IDS + HT + ATYPES + WORLD + WORLD2, hive_fns)

# ---------------------------------------------------------------- a new document
BIRTH = r"""
impl Signer { pub uninterp spec fn vk(&self) -> Key; }
pub enum GenerateDocError { Other(u64) }
impl From<CgkaError> for GenerateDocError { #[verifier::external_body] fn from(e: CgkaError) -> Self { unimplemented!() } }
/// Group::generate_after_content under a fresh key: the group is whatever rebuild makes of the delegations to the parents (P05)
#[verifier::external_body] pub fn fresh_group() -> (r: (Result<Group, GenerateDocError>, Key)) ensures r.0 is Ok ==> own(r.0->Ok_0) == IndividualId(Identifier(r.1)) && gid(r.0->Ok_0) == Identifier(r.1) { unimplemented!() }
pub uninterp spec fn gid(g: Group) -> Identifier;
impl Group { #[verifier::external_body] pub fn id(&self) -> (r: Identifier) ensures r == gid(*self) { unimplemented!() } #[verifier::external_body] pub fn tell(&self, o: Op) { unimplemented!() } }
#[verifier::external_body] pub struct Secret { x: u64 }
impl Clone for Secret { #[verifier::external_body] fn clone(&self) -> (r: Self) { unimplemented!() } } impl Copy for Secret {}
impl Secret { #[verifier::external_body] pub fn generate() -> Secret { unimplemented!() } #[verifier::external_body] pub fn share_key(&self) -> ShareKey { unimplemented!() } }
#[verifier::external_body] pub struct ShareKeyMap { x: u64 }
impl ShareKeyMap { #[verifier::external_body] pub fn new() -> ShareKeyMap { unimplemented!() } #[verifier::external_body] pub fn insert(&mut self, k: ShareKey, s: Secret) { unimplemented!() } }
impl Cgka {
    /// beekem: a tree with one leaf and the operation that put it there
    #[verifier::external_body] pub fn new(d: DocumentId, o: IndividualId, k: ShareKey, s: &Signer) -> (r: Result<Cgka, CgkaError>) ensures r is Ok ==> live((r->Ok_0).0) && seated((r->Ok_0).0) == Set::<MemberId>::empty().insert(mid(o)) { unimplemented!() }
    #[verifier::external_body] pub fn with_new_owner(&self, o: IndividualId, s: ShareKeyMap) -> (r: Result<Cgka, CgkaError>) ensures r is Ok ==> live((r->Ok_0).0) == live(self.0) && seated((r->Ok_0).0) == seated(self.0) { unimplemented!() }
    #[verifier::external_body] pub fn init_add_op(&self) -> Op { unimplemented!() }
    /// P11, P14: an update changes keys, not who is in
    #[verifier::external_body] pub fn update(&mut self, k: ShareKey, sk: Secret, s: &Signer) -> (r: Result<(u64, Op), CgkaError>) ensures r is Ok ==> live(final(self).0) == live(old(self).0) && seated(final(self).0) == seated(old(self).0) { unimplemented!() }
}
/// std
#[verifier::external_body] pub fn pairs<F: Fn(&(IndividualId, ShareKey)) -> bool>(m: &Picked, f: F) -> (r: Vec<(IndividualId, ShareKey)>)
    requires forall|e: (IndividualId, ShareKey)| #[trigger] call_requires(f, (&e,))
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && call_ensures(f, (&r@[i],), true),
        forall|k: IndividualId| #[trigger] m@.dom().contains(k) ==> listed(r@, r@.len() as int, k) || call_ensures(f, (&(k, m@[k]),), false) { unimplemented!() }
pub type Pairs = Vec<(IndividualId, ShareKey)>;
#[verifier::external_body] pub fn no_heads() -> Heads { unimplemented!() }
pub fn non_empty(v: Pairs) -> (r: Option<Pairs>) ensures r is Some ==> r->0@ == v@, r is None ==> v@.len() == 0 { if v.len() == 0 { None } else { Some(v) } }
#[verifier::external_body] pub fn flat(v: Vec<Option<Op>>) -> Vec<Op> { unimplemented!() }
pub open spec fn some_of(v: Seq<(IndividualId, ShareKey)>, n: int, m: MemberId) -> bool { exists|j: int| 0 <= j < n && mid((#[trigger] v[j]).0) == m }
pub open spec fn some_mid(v: Seq<(MemberId, ShareKey)>, n: int, m: MemberId) -> bool { exists|j: int| 0 <= j < n && (#[trigger] v[j]).0 == m }
#[verifier::external_body] pub fn to_members<F: Fn((IndividualId, ShareKey)) -> (MemberId, ShareKey)>(v: Pairs, f: F) -> (r: Vec<(MemberId, ShareKey)>)
    requires forall|e: (IndividualId, ShareKey)| #[trigger] call_requires(f, (e,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), #[trigger] r@[i]) { unimplemented!() }
"""
ADD_N = "live(*old(self)) ==> live(*final(self)), r is Ok && live(*old(self)) ==> forall|m: MemberId| #[trigger] seated(*final(self)).contains(m) <==> seated(*old(self)).contains(m) || some_mid(members@, members@.len() as int, m)"
birth_fns = [
    I("add_multiple", f"pub fn add_multiple(&mut self, members: Vec<(MemberId, ShareKey)>, signer: &Signer) -> (r: Result<Vec<Op>, CgkaError>) ensures {ADD_N}", ["self", "members", "signer"],
      [("let mut ops = Vec::new();", "let mut ops: Vec<Option<Op>> = Vec::new(); let ghost vs = members@; let ghost c0 = *self;"), ("self.add::<F, S>(", "self.add("), ("$x.into_iter().flatten().collect()", "flat($x)")],
      loops=[("for", "it", "invariant it.seq() == vs, c0 == *old(self), live(c0) ==> live(*self), live(c0) ==> forall|x: MemberId| #[trigger] seated(*self).contains(x) <==> seated(c0).contains(x) || some_mid(vs, it.index@ as int, x)",
              "let ghost c1 = *self; let ghost n = it.index@ as int; proof { assert(m == vs[n]); }",
              "proof { if live(c0) { assert forall|x: MemberId| #[trigger] seated(*self).contains(x) <==> seated(c0).contains(x) || some_mid(vs, n + 1, x) by { assert(seated(*self).contains(x) <==> seated(c1).contains(x) || x == vs[n].0); assert(seated(c1).contains(x) <==> seated(c0).contains(x) || some_mid(vs, n, x)); if some_mid(vs, n + 1, x) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] vs[j]).0 == x; if j < n { assert(some_mid(vs, n, x)); } } if some_mid(vs, n, x) { let j = choose|j: int| 0 <= j < n && (#[trigger] vs[j]).0 == x; assert(vs[j].0 == x); } if x == vs[n].0 { assert(some_mid(vs, n + 1, x)); } } } }")]),
    K("add_multiple", "pub fn add_multiple(&mut self, members: Pairs, signer: &Signer) -> (r: Result<Vec<Op>, CgkaError>) ensures live(old(self).0) ==> live(final(self).0), r is Ok && live(old(self).0) ==> forall|m: MemberId| #[trigger] seated(final(self).0).contains(m) <==> seated(old(self).0).contains(m) || some_of(members@, members@.len() as int, m)", ["self", "members", "signer"],
      [("let $c = $$m.map(|($a)| ($x));", "let ghost vs = $$m@; let $c = to_members($$m, |e: (IndividualId, ShareKey)| -> (o: (MemberId, ShareKey)) ensures o.0 == mid(e.0) { let ($a) = e; ($x) }); let ghost ws = $c@; proof { assert forall|m: MemberId| #[trigger] some_mid(ws, ws.len() as int, m) <==> some_of(vs, vs.len() as int, m) by { if some_mid(ws, ws.len() as int, m) { let j = choose|j: int| 0 <= j < ws.len() && (#[trigger] ws[j]).0 == m; assert(mid(vs[j].0) == m); } if some_of(vs, vs.len() as int, m) { let j = choose|j: int| 0 <= j < vs.len() && mid((#[trigger] vs[j]).0) == m; assert(ws[j].0 == m); } } }")]),
    D("generate", "pub fn generate(initial_content_heads: Heads, signer: &Signer) -> (r: Result<Document, GenerateDocError>) ensures r is Ok ==> in_line(r->Ok_0) && alive(r->Ok_0.cgka) && holds(r->Ok_0.cgka, own(r->Ok_0.group)) && r->Ok_0.cgka is Some", ["parents", "initial_content_heads", "delegations", "revocations", "listener", "signer", "csprng"],
      [("let mut locked_csprng = csprng.lock();", ""), ("drop(locked_csprng);", ""), (", &mut *csprng.lock()", ""), ("EphemeralSigner::with_signer($x);", "fresh_group();", "must"), ("ShareSecretKey::generate(&mut *locked_csprng)", "Secret::generate()"), ("IndividualId(group_vk.into())", "IndividualId(Identifier(group_vk))"),
       ("let $o: Vec<(IndividualId, ShareKey)> = group_members.iter().filter(|($i, $k)| $x).map(|($$a, $$b)| (*$$a, *$$b)).collect();",
        "let $o: Vec<(IndividualId, ShareKey)> = pairs(&group_members, |e: &(IndividualId, ShareKey)| -> (b: bool) ensures b == (e.0 != owner_id) { let p = &e.0; let $i = &p; let $k = &e.1; $x }); let ghost vs = $o@; let ghost gm = group_members@;"),
       ("NonEmpty::from_vec($x)", "non_empty($x)"), ("ops.extend(cgka.add_multiple($x)?.iter().cloned());", "cat(&mut ops, cgka.add_multiple($x)?);"), (", &mut *locked_csprng", ""),
       ("group.listener.on_cgka_op(&Arc::new(op));", "group.tell(op);"), ("content_state: HashSet::new(),", "content_state: no_heads(),"), ("initial_content_heads.iter().cloned().collect()", "initial_content_heads"), ("known_decryption_keys: HashMap::new(),", ""),
       ("let mut ops: Vec<Signed<CgkaOperation>> = Vec::new();", "let mut ops: Vec<Op> = Vec::new();"),
       ("let (_pcs_key, update_op) = ", """proof { assert forall|i: IndividualId| #![trigger reads(group, i)] #![trigger seated(cgka.0).contains(mid(i))] i != own(group) implies (seated(cgka.0).contains(mid(i)) <==> reads(group, i)) by {
            assert(mid(i) == mid(owner_id) ==> i == owner_id); assert(gm.dom().contains(i) <==> reads(group, i));
            if some_of(vs, vs.len() as int, mid(i)) { let j = choose|j: int| 0 <= j < vs.len() && mid((#[trigger] vs[j]).0) == mid(i); mid_inj(vs[j].0, i); assert(gm.dom().contains(vs[j].0)); }
            if reads(group, i) { assert(gm.dom().contains(i)); if listed(vs, vs.len() as int, i) { let j = choose|j: int| 0 <= j < vs.len() && (#[trigger] vs[j]).0 == i; assert(mid(vs[j].0) == mid(i)); assert(some_of(vs, vs.len() as int, mid(i))); } } } }
         let (_pcs_key, update_op) = """)],
      loops=[("for", None, "", "", "")]),
]
u_birth = Unit("readers_birth", HEAD + IDS + STATE + DOCS + HELP + BIRTH, cgka_fns + agent_fns + birth_fns)
