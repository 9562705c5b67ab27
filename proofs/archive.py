"""P08: an archive holds the whole state, and restoring it gives that state back."""
from vp.verus import Fn, Unit
from . import core, receive, revtop

KH = "keyhive_core/src/keyhive.rs"
GP = "keyhive_core/src/principal/group.rs"
GS = "keyhive_core/src/principal/group/state.rs"
DC = "keyhive_core/src/principal/document.rs"
AC = "keyhive_core/src/principal/active.rs"
DL = "keyhive_core/src/principal/group/delegation.rs"
RV = "keyhive_core/src/principal/group/revocation.rs"
MO = "keyhive_core/src/principal/group/membership_operation.rs"
SG = "keyhive_crypto/src/signed.rs"

AX = tuple(f"ax_{n}::key_model" for n in ("identifier", "groupid", "documentid", "individualid", "dg"))

TYPES = r"""
impl std::hash::Hash for Dg { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_dg { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Dg>(); }
/// the shared handle an agent carries (which cell it points to is not followed)
#[verifier::external_body] pub struct Hd { x: u64 }
#[verifier::external_body] pub fn hd<T>(x: &T) -> (r: Hd) { unimplemented!() }
pub enum Agent { Active(IndividualId, Hd), Individual(IndividualId, Hd), Group(GroupId, Hd), Document(DocumentId, Hd) }
pub open spec fn agent_id(a: Agent) -> Identifier { match a { Agent::Active(i, _) => i.0, Agent::Individual(i, _) => i.0, Agent::Group(i, _) => i.0, Agent::Document(i, _) => i.0 } }
impl Agent { #[verifier::external_body] pub fn id(&self) -> (r: Identifier) ensures r == agent_id(*self) { unimplemented!() } }
impl Signed<Delegation> { #[verifier::external_body] pub fn digest(&self) -> (r: Dg) ensures r == dg_d(*self) { unimplemented!() } }
impl Signed<Revocation> { #[verifier::external_body] pub fn digest(&self) -> (r: Dg) ensures r == dg_r(*self) { unimplemented!() } }
#[verifier::external_body] pub fn hash_arc(v: &Arc<Signed<Delegation>>) -> (r: Dg) ensures r == dg_d(**v) { unimplemented!() }
/// the digest of an operation is that of its static form, which determines it
pub axiom fn static_digest() ensures
    forall|d: Signed<Delegation>, s: Signed<StaticDelegation>| stat_d(d, s) ==> #[trigger] dg_d(d) == #[trigger] dg_sd(s),
    forall|d: Signed<Revocation>, s: Signed<StaticRevocation>| stat_r(d, s) ==> #[trigger] dg_r(d) == #[trigger] dg_sr(s);
pub open spec fn stat_d(d: Signed<Delegation>, s: Signed<StaticDelegation>) -> bool { s.issuer == d.issuer && s.signature == d.signature && says_d(d.payload, s.payload) }
pub open spec fn stat_r(d: Signed<Revocation>, s: Signed<StaticRevocation>) -> bool { s.issuer == d.issuer && s.signature == d.signature && says_r(d.payload, s.payload) }
pub enum MembershipOperation { Delegation(Arc<Signed<Delegation>>), Revocation(Arc<Signed<Revocation>>) }
pub enum StaticMembershipOperation { Delegation(Signed<StaticDelegation>), Revocation(Signed<StaticRevocation>) }
pub open spec fn stat(m: MembershipOperation, s: StaticMembershipOperation) -> bool { match m {
    MembershipOperation::Delegation(d) => s is Delegation && stat_d(*d, s->Delegation_0), MembershipOperation::Revocation(r) => s is Revocation && stat_r(*r, s->Revocation_0) } }
pub open spec fn op_dg(m: MembershipOperation) -> Dg { match m { MembershipOperation::Delegation(d) => dg_d(*d), MembershipOperation::Revocation(r) => dg_r(*r) } }
pub open spec fn sop_dg(m: StaticMembershipOperation) -> Dg { match m { StaticMembershipOperation::Delegation(d) => dg_sd(d), StaticMembershipOperation::Revocation(r) => dg_sr(r) } }
#[verifier::external_body] pub fn unwrap_arc<T>(a: Arc<T>) -> (r: T) ensures r == *a { unimplemented!() }
/// std: Vec::iter().map(f).collect()
#[verifier::external_body] pub fn map_vec<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: &A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn opt_map<A, B, F: Fn(A) -> B>(v: Option<A>, f: F) -> (r: Option<B>)
    requires forall|a: A| f.requires((a,)) ensures r is Some == v is Some, r is Some ==> f.ensures((v->0,), r->0) { unimplemented!() }
pub fn or_else<A, F: FnOnce() -> Option<A>>(v: Option<A>, f: F) -> (r: Option<A>) requires f.requires(()) ensures v is Some ==> r == v, v is None ==> f.ensures((), r) { match v { Some(x) => Some(x), None => f() } }
/// a list that is never empty
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct NonEmpty<T> { x: std::marker::PhantomData<T> }
impl<T> NonEmpty<T> { pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body] pub proof fn some(n: NonEmpty<T>) ensures n@.len() > 0 { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: &Vec<T>) ensures r@ == self@, self@.len() > 0 { unimplemented!() }
    #[verifier::external_body] pub fn try_from(v: Vec<T>) -> (r: Result<NonEmpty<T>, ()>) ensures r is Ok == (v@.len() > 0), r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn from_vec(v: Vec<T>) -> (r: Option<NonEmpty<T>>) ensures r is Some == (v@.len() > 0), r is Some ==> r->0@ == v@ { unimplemented!() }
    #[verifier::external_body] pub fn map<B, F: Fn(T) -> B>(self, f: F) -> (r: NonEmpty<B>) requires forall|a: T| f.requires((a,))
        ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]) { unimplemented!() } }
impl<T> Clone for NonEmpty<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }

macro_rules! value { ($t:ident) => { verus!{ #[verifier::external_body] pub struct $t { x: u64 } impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } } } }
value!(Individual); value!(Pairs); value!(Cgka); value!(ContentSet); value!(StaticEvent); value!(Forced); value!(DlgStoreH); value!(RevStoreH); value!(Signer);
pub uninterp spec fn indie_id(i: Individual) -> IndividualId;
impl Individual {
    #[verifier::external_body] pub fn id(&self) -> (r: IndividualId) ensures r == indie_id(*self) { unimplemented!() }
    #[verifier::external_body] pub fn verifying_key(&self) -> (r: Key) ensures r == indie_id(*self).0.0 { unimplemented!() }
    #[verifier::external_body] pub fn dupe(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub uninterp spec fn signer_key(s: Signer) -> Key;
impl Signer { #[verifier::external_body] pub fn verifying_key(&self) -> (r: Key) ensures r == signer_key(*self) { unimplemented!() } }
conv!(Key, IndividualId, k, IndividualId(Identifier(k)));
pub enum IdOrIndividual { GroupId(GroupId), Individual(Individual) }
impl Clone for IdOrIndividual { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Forced { #[verifier::external_body] pub fn new() -> Forced { unimplemented!() } }

/// the stores (P17): keyed by digest
#[verifier::external_body] pub struct DelegationStore { x: u64 } #[verifier::external_body] pub struct RevocationStore { x: u64 }
macro_rules! store { ($s:ident, $t:ty, $dg:ident, $h:ident) => { verus!{ impl $s { pub uninterp spec fn view(&self) -> Map<Dg, Arc<Signed<$t>>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.view() == Map::<Dg, Arc<Signed<$t>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn handle(&self) -> (r: $h) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: Arc<Signed<$t>>) -> (r: Dg) ensures r == $dg(*v), final(self).view() == old(self).view().insert($dg(*v), v) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Dg) -> (r: Option<Arc<Signed<$t>>>) ensures r is Some == self.view().dom().contains(*k), r is Some ==> r->0 == self.view()[*k] { unimplemented!() }
    #[verifier::external_body] pub fn key_set<F: Fn(&Dg) -> Dg>(&self, f: F) -> (r: HashSet<Dg>) requires forall|a: &Dg| f.requires((a,)), forall|a: &Dg, b: Dg| f.ensures((a,), b) ==> b == *a ensures r@ == self.view().dom() { unimplemented!() } } } } }
store!(DelegationStore, Delegation, dg_d, DlgStoreH); store!(RevocationStore, Revocation, dg_r, RevStoreH);
pub open spec fn addressed(d: DelegationStore, r: RevocationStore) -> bool {
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) ==> dg_d(*d.view()[h]) == h
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) ==> dg_r(*r.view()[h]) == h }

/// std: the entries of a map, the elements of a set, in some order
#[verifier::external_body] pub fn entries<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i]).0) && m@[*r@[i].0] == *r@[i].1,
        forall|k: K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k, r@.len() == 0 ==> m@ == Map::<K, V>::empty() { unimplemented!() }
#[verifier::external_body] pub fn keys<K: Copy, V>(m: &HashMap<K, V>) -> (r: Vec<K>)
    ensures r@.no_duplicates(), forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(#[trigger] r@[i]), forall|k: K| #[trigger] m@.dom().contains(k) ==> r@.contains(k) { unimplemented!() }
#[verifier::external_body] pub fn elems0<'a, K>(m: &'a HashSet<K>) -> (r: Vec<&'a K>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.contains(*#[trigger] r@[i]), forall|k: K| #[trigger] m@.contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k { unimplemented!() }
/// what is behind the cell a map holds
#[verifier::external_body] pub fn at<'a, K: std::hash::Hash + Eq, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: &'a mut V)
    requires old(m)@.dom().contains(*k) ensures *r == old(m)@[*k], final(m)@ == old(m)@.insert(*k, *final(r)) { unimplemented!() }
pub open spec fn seen(l: Seq<&Dg>, n: int) -> Set<Dg> decreases n { if n <= 0 { Set::empty() } else { seen(l, n - 1).insert(*l[n - 1]) } }
pub proof fn seen_in(l: Seq<&Dg>, n: int) requires 0 <= n <= l.len() ensures forall|i: int| 0 <= i < n ==> seen(l, n).contains(*#[trigger] l[i]), forall|d: Dg| #[trigger] seen(l, n).contains(d) ==> exists|i: int| 0 <= i < n && *(#[trigger] l[i]) == d decreases n { if n > 0 { seen_in(l, n - 1); assert forall|d: Dg| #[trigger] seen(l, n).contains(d) implies exists|i: int| 0 <= i < n && *(#[trigger] l[i]) == d by { if d == *l[n - 1] { assert(*l[n - 1] == d); } else { assert(seen(l, n - 1).contains(d)); } } } }
pub proof fn seen_all(l: Seq<&Dg>, s: Set<Dg>) requires forall|i: int| 0 <= i < l.len() ==> s.contains(*#[trigger] l[i]), forall|k: Dg| #[trigger] s.contains(k) ==> exists|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == k ensures seen(l, l.len() as int) == s { seen_in(l, l.len() as int); assert(seen(l, l.len() as int) =~= s); }

pub fn elems<'a>(m: &'a HashSet<Dg>) -> (r: Vec<&'a Dg>) ensures seen(r@, r@.len() as int) == m@, forall|i: int| 0 <= i < r@.len() ==> m@.contains(*#[trigger] r@[i]) { let r = elems0(m); proof { seen_all(r@, m@); } r }
#[verifier::external_body] pub fn refs<'a>(v: &'a Vec<Dg>) -> (r: Vec<&'a Dg>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }

pub struct GroupState { pub id: GroupId, pub delegations: DlgStoreH, pub delegation_heads: DelegationStore, pub revocations: RevStoreH, pub revocation_heads: RevocationStore }
pub struct GroupStateArchive { pub id: GroupId, pub delegation_heads: HashSet<Dg>, pub revocation_heads: HashSet<Dg> }
pub type Dlgs = NonEmpty<Arc<Signed<Delegation>>>;
pub struct Group { pub members: HashMap<Identifier, Dlgs>, pub id_or_indie: IdOrIndividual, pub state: GroupState, pub active_revocations: Forced }
pub struct GroupArchive { pub id_or_indie: IdOrIndividual, pub members: HashMap<Identifier, NonEmpty<Dg>>, pub state: GroupStateArchive }
pub struct Document { pub group: Group, pub content_heads: ContentSet, pub content_state: ContentSet, pub known_decryption_keys: HashMap<u64, u64>, pub cgka: Option<Cgka> }
pub struct DocumentArchive { pub group: GroupArchive, pub content_heads: ContentSet, pub content_state: ContentSet, pub cgka: Option<Cgka> }
#[verifier::external_body] pub fn clone_cgka(c: &Option<Cgka>) -> (r: Option<Cgka>) ensures r == *c { unimplemented!() }
#[verifier::external_body] pub fn no_keys() -> (r: HashMap<u64, u64>) { unimplemented!() }
impl Clone for GroupArchive { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Clone for DocumentArchive { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct Active { pub id: IndividualId, pub prekey_pairs: Pairs, pub individual: Individual, pub signer: Signer }
pub struct ActiveArchive { pub prekey_pairs: Pairs, pub individual: Individual }
pub struct Archive { pub active: ActiveArchive, pub topsorted_ops: Vec<(Dg, StaticMembershipOperation)>, pub individuals: HashMap<IndividualId, Individual>, pub groups: HashMap<GroupId, GroupArchive>, pub docs: HashMap<DocumentId, DocumentArchive>, pub pending_events: Vec<StaticEvent> }
pub struct Keyhive { pub verifying_key: Key, pub active: Active, pub individuals: HashMap<IndividualId, Individual>, pub groups: HashMap<GroupId, Group>, pub docs: HashMap<DocumentId, Document>, pub delegations: DelegationStore, pub revocations: RevocationStore, pub pending_events: Vec<Arc<StaticEvent>> }
pub struct MissingIndividualError(pub Box<Identifier>);
pub enum TryFromArchiveError { MissingIndividual(MissingIndividualError), MissingDelegation(Dg), MissingRevocation(Dg), MissingAgent(Box<Identifier>), MissingGroup(Box<GroupId>), MissingDocument(Box<DocumentId>) }
impl From<MissingIndividualError> for TryFromArchiveError { #[verifier::external_body] fn from(e: MissingIndividualError) -> Self { unimplemented!() } }

// ---- what an archive says of a replica ----
pub open spec fn listed(m: Map<Identifier, Dlgs>, id: Identifier) -> Seq<Dg> { m[id]@.map_values(|d: Arc<Signed<Delegation>>| dg_d(*d)) }
/// who is a member through which delegations, and which revocations are in force, follow from the heads (P05)
pub uninterp spec fn computed(id: GroupId, d: Set<Dg>, r: Set<Dg>) -> Map<Identifier, Seq<Dg>>;
pub uninterp spec fn forced(id: GroupId, d: Set<Dg>, r: Set<Dg>) -> Forced;
pub open spec fn settled(g: Group) -> bool { let c = computed(g.state.id, g.state.delegation_heads.view().dom(), g.state.revocation_heads.view().dom());
    g.members@.dom() == c.dom() && (forall|id: Identifier| #[trigger] g.members@.dom().contains(id) ==> listed(g.members@, id) == c[id]) && g.active_revocations == forced(g.state.id, g.state.delegation_heads.view().dom(), g.state.revocation_heads.view().dom()) }
pub open spec fn state_as(g: GroupState, a: GroupStateArchive) -> bool { a.id == g.id && a.delegation_heads@ == g.delegation_heads.view().dom() && a.revocation_heads@ == g.revocation_heads.view().dom() }
pub open spec fn head_as(g: Group, a: GroupArchive) -> bool { g.id_or_indie == a.id_or_indie && state_as(g.state, a.state) }
pub open spec fn members_as(g: Map<Identifier, Dlgs>, a: Map<Identifier, NonEmpty<Dg>>) -> bool { a.dom() == g.dom() && forall|id: Identifier| #[trigger] a.dom().contains(id) ==> a[id]@ == listed(g, id) }
pub open spec fn group_as(g: Group, a: GroupArchive) -> bool { head_as(g, a) && members_as(g.members@, a.members@) }
pub open spec fn doc_head_as(d: Document, a: DocumentArchive) -> bool { head_as(d.group, a.group) && d.content_heads == a.content_heads && d.content_state == a.content_state && d.cgka == a.cgka }
pub open spec fn doc_as(d: Document, a: DocumentArchive) -> bool { doc_head_as(d, a) && members_as(d.group.members@, a.group.members@) }
pub open spec fn has_d(ops: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) -> bool { exists|j: int| 0 <= j < n && (#[trigger] ops[j]).1 is Delegation && dg_sd(ops[j].1->Delegation_0) == h }
pub open spec fn has_r(ops: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) -> bool { exists|j: int| 0 <= j < n && (#[trigger] ops[j]).1 is Revocation && dg_sr(ops[j].1->Revocation_0) == h }
/// the stores hold the operations listed first, and no others
pub open spec fn stored(ops: Seq<(Dg, StaticMembershipOperation)>, n: int, d: DelegationStore, r: RevocationStore) -> bool {
    &&& addressed(d, r)
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) <==> has_d(ops, n, h)
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) <==> has_r(ops, n, h)
}
/// what everything but the groups' and documents' member lists is
pub open spec fn kept(k: Keyhive, a: Archive) -> bool {
    &&& k.active.prekey_pairs == a.active.prekey_pairs && k.active.individual == a.active.individual
    &&& k.individuals@ == a.individuals@.insert(indie_id(a.active.individual), a.active.individual)
    &&& k.pending_events@.map_values(|e: Arc<StaticEvent>| *e) == a.pending_events@
    &&& stored(a.topsorted_ops@, a.topsorted_ops@.len() as int, k.delegations, k.revocations)
    &&& k.groups@.dom() == a.groups@.dom() && forall|g: GroupId| #[trigger] k.groups@.dom().contains(g) ==> head_as(k.groups@[g], a.groups@[g])
    &&& k.docs@.dom() == a.docs@.dom() && forall|g: DocumentId| #[trigger] k.docs@.dom().contains(g) ==> doc_head_as(k.docs@[g], a.docs@[g])
}
/// every group's and document's members and revocations are those its heads stand for
pub open spec fn all_settled(k: Keyhive) -> bool { (forall|g: GroupId| #[trigger] k.groups@.dom().contains(g) ==> settled(k.groups@[g])) && (forall|g: DocumentId| #[trigger] k.docs@.dom().contains(g) ==> settled(k.docs@[g].group)) }

// ---- what makes an archive restorable ----
pub open spec fn knows_agent(a: Archive, id: Identifier) -> bool { id == indie_id(a.active.individual).0 || a.individuals@.dom().contains(IndividualId(id)) || a.groups@.dom().contains(GroupId(id)) || a.docs@.dom().contains(DocumentId(id)) }
pub open spec fn op_known(a: Archive, n: int) -> bool { let ops = a.topsorted_ops@; match ops[n].1 {
    StaticMembershipOperation::Delegation(s) => (s.payload.proof is Some ==> has_d(ops, n, s.payload.proof->0)) && (forall|i: int| 0 <= i < s.payload.after_revocations@.len() ==> has_r(ops, n, #[trigger] s.payload.after_revocations@[i])) && knows_agent(a, s.payload.delegate),
    StaticMembershipOperation::Revocation(s) => has_d(ops, n, s.payload.revoke) && (s.payload.proof is Some ==> has_d(ops, n, s.payload.proof->0)) } }
/// a delegation head without proof is from the group's own key
pub open spec fn own_root(ops: Seq<(Dg, StaticMembershipOperation)>, id: GroupId, h: Dg) -> bool { forall|j: int| 0 <= j < ops.len() && (#[trigger] ops[j]).1 is Delegation && dg_sd(ops[j].1->Delegation_0) == h && ops[j].1->Delegation_0.payload.proof is None ==> ops[j].1->Delegation_0.issuer == id.0.0 }
pub open spec fn group_known(ops: Seq<(Dg, StaticMembershipOperation)>, g: GroupArchive) -> bool {
    &&& forall|h: Dg| #[trigger] g.state.delegation_heads@.contains(h) ==> has_d(ops, ops.len() as int, h) && own_root(ops, g.state.id, h)
    &&& forall|h: Dg| #[trigger] g.state.revocation_heads@.contains(h) ==> has_r(ops, ops.len() as int, h)
    &&& forall|id: Identifier, i: int| g.members@.dom().contains(id) && 0 <= i < g.members@[id]@.len() ==> has_d(ops, ops.len() as int, #[trigger] g.members@[id]@[i])
}
pub open spec fn restorable(a: Archive) -> bool {
    &&& forall|n: int| 0 <= n < a.topsorted_ops@.len() ==> #[trigger] op_known(a, n)
    &&& forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) ==> group_known(a.topsorted_ops@, a.groups@[g])
    &&& forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) ==> group_known(a.topsorted_ops@, a.docs@[g].group)
}

// ---- what a replica is like ----
pub open spec fn agent_here(k: Keyhive, id: Identifier) -> bool { k.individuals@.dom().contains(IndividualId(id)) || k.groups@.dom().contains(GroupId(id)) || k.docs@.dom().contains(DocumentId(id)) }
pub open spec fn closed(d: DelegationStore, r: RevocationStore) -> bool {
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) ==> (d.view()[h].payload.proof is Some ==> d.view().dom().contains(dg_d(*d.view()[h].payload.proof->0))) && forall|i: int| 0 <= i < d.view()[h].payload.after_revocations@.len() ==> r.view().dom().contains(dg_r(*#[trigger] d.view()[h].payload.after_revocations@[i]))
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) ==> d.view().dom().contains(dg_d(*r.view()[h].payload.revoke)) && (r.view()[h].payload.proof is Some ==> d.view().dom().contains(dg_d(*r.view()[h].payload.proof->0)))
}
pub open spec fn group_whole(k: Keyhive, g: Group) -> bool {
    &&& forall|h: Dg| #[trigger] g.state.delegation_heads.view().dom().contains(h) ==> k.delegations.view().dom().contains(h) && (k.delegations.view()[h].payload.proof is None ==> k.delegations.view()[h].issuer == g.state.id.0.0)
    &&& forall|h: Dg| #[trigger] g.state.revocation_heads.view().dom().contains(h) ==> k.revocations.view().dom().contains(h)
    &&& forall|id: Identifier, i: int| g.members@.dom().contains(id) && 0 <= i < g.members@[id]@.len() ==> k.delegations.view().dom().contains(dg_d(*#[trigger] g.members@[id]@[i]))
}
/// every operation's dependencies and agents are here, and its own individual is registered
pub open spec fn whole(k: Keyhive) -> bool {
    &&& addressed(k.delegations, k.revocations) && closed(k.delegations, k.revocations)
    &&& forall|h: Dg| #[trigger] k.delegations.view().dom().contains(h) ==> agent_here(k, agent_id(k.delegations.view()[h].payload.delegate))
    &&& k.individuals@.dom().contains(indie_id(k.active.individual)) && k.individuals@[indie_id(k.active.individual)] == k.active.individual
    &&& forall|g: GroupId| #[trigger] k.groups@.dom().contains(g) ==> group_whole(k, k.groups@[g])
    &&& forall|g: DocumentId| #[trigger] k.docs@.dom().contains(g) ==> group_whole(k, k.docs@[g].group)
}
""" + revtop.REV + r"""
/// P21: every operation of the stores, dependencies last
pub open spec fn all_reversed(v: Seq<(Dg, MembershipOperation)>, d: DelegationStore, r: RevocationStore) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == op_dg(v[i].1) && (match v[i].1 { MembershipOperation::Delegation(x) => d.view().dom().contains(dg_d(*x)) && d.view()[dg_d(*x)] == x, MembershipOperation::Revocation(x) => r.view().dom().contains(dg_r(*x)) && r.view()[dg_r(*x)] == x })
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) ==> in_d(v, 0, h)
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) ==> in_r(v, 0, h)
    &&& forall|i: int| 0 <= i < v.len() ==> #[trigger] after_below(v, i)
}
pub open spec fn in_d(v: Seq<(Dg, MembershipOperation)>, n: int, h: Dg) -> bool { exists|j: int| n <= j < v.len() && (#[trigger] v[j]).1 is Delegation && dg_d(*v[j].1->Delegation_0) == h }
pub open spec fn in_r(v: Seq<(Dg, MembershipOperation)>, n: int, h: Dg) -> bool { exists|j: int| n <= j < v.len() && (#[trigger] v[j]).1 is Revocation && dg_r(*v[j].1->Revocation_0) == h }
pub open spec fn after_below(v: Seq<(Dg, MembershipOperation)>, i: int) -> bool { match v[i].1 {
    MembershipOperation::Delegation(x) => (x.payload.proof is Some ==> in_d(v, i + 1, dg_d(*x.payload.proof->0))) && forall|j: int| 0 <= j < x.payload.after_revocations@.len() ==> in_r(v, i + 1, dg_r(*#[trigger] x.payload.after_revocations@[j])),
    MembershipOperation::Revocation(x) => in_d(v, i + 1, dg_d(*x.payload.revoke)) && (x.payload.proof is Some ==> in_d(v, i + 1, dg_d(*x.payload.proof->0))) } }
/// no two operations have the same digest
pub axiom fn no_collision() ensures forall|a: MembershipOperation, b: MembershipOperation| #[trigger] op_dg(a) == #[trigger] op_dg(b) ==> a == b;
/// P21 (proved there)
impl MembershipOperation { #[verifier::external_body] pub fn reverse_topsort(d: &DelegationStore, r: &RevocationStore) -> (v: Vec<(Dg, MembershipOperation)>) requires addressed(*d, *r) ensures sorted_below(*d, *r, v@) { unimplemented!() } }
pub proof fn reversed_of(d: DelegationStore, r: RevocationStore, v: Seq<(Dg, MembershipOperation)>) requires addressed(d, r), closed(d, r), sorted_below(d, r, v) ensures all_reversed(v, d, r)
{
    no_collision();
    let fd = |h: Dg| MembershipOperation::Delegation(d.view()[h]); let fr = |h: Dg| MembershipOperation::Revocation(r.view()[h]);
    let c = d.view().dom().map(fd).union(r.view().dom().map(fr));
    assert forall|o: MembershipOperation| #[trigger] c.contains(o) <==> is_head(d, r, o) by {
        match o { MembershipOperation::Delegation(x) => { if is_head(d, r, o) { assert(fd(dg_d(*x)) == o); } }
            MembershipOperation::Revocation(x) => { if is_head(d, r, o) { assert(fr(dg_r(*x)) == o); } } } }
    assert forall|o: MembershipOperation, k: int| c.contains(o) && 0 <= k < parents(o).len() implies c.contains(#[trigger] parents(o)[k]) by {
        assert(is_head(d, r, o)); let p = parents(o)[k];
        match o {
            MembershipOperation::Delegation(x) => { let n = op_list(x.payload.proof).len(); if k >= n { assert(p == MembershipOperation::Revocation(x.payload.after_revocations@[k - n])); } }
            MembershipOperation::Revocation(x) => { } }
        match p { MembershipOperation::Delegation(y) => { assert(d.view().dom().contains(dg_d(*y))); assert(op_dg(MembershipOperation::Delegation(d.view()[dg_d(*y)])) == op_dg(p)); }
            MembershipOperation::Revocation(y) => { assert(r.view().dom().contains(dg_r(*y))); assert(op_dg(MembershipOperation::Revocation(r.view()[dg_r(*y)])) == op_dg(p)); } }
        assert(is_head(d, r, p)); }
    assert(downward(d, r, c));
    assert forall|i: int| 0 <= i < v.len() implies is_head(d, r, (#[trigger] v[i]).1) by { assert(c.contains(v[i].1)); }
    assert forall|h: Dg| #[trigger] d.view().dom().contains(h) implies in_d(v, 0, h) by { let o = MembershipOperation::Delegation(d.view()[h]); assert(is_head(d, r, o)); assert(lists(v, o)); }
    assert forall|h: Dg| #[trigger] r.view().dom().contains(h) implies in_r(v, 0, h) by { let o = MembershipOperation::Revocation(r.view()[h]); assert(is_head(d, r, o)); assert(lists(v, o)); }
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] after_below(v, i) by {
        let o = v[i].1;
        match o {
            MembershipOperation::Delegation(x) => { let n = op_list(x.payload.proof).len();
                if x.payload.proof is Some { assert(later(v, i + 1, parents(v[i].1)[0])); }
                assert forall|j: int| 0 <= j < x.payload.after_revocations@.len() implies in_r(v, i + 1, dg_r(*#[trigger] x.payload.after_revocations@[j])) by { assert(parents(v[i].1)[n + j] == MembershipOperation::Revocation(x.payload.after_revocations@[j])); assert(later(v, i + 1, parents(v[i].1)[n + j])); } }
            MembershipOperation::Revocation(x) => { assert(later(v, i + 1, parents(v[i].1)[0])); assert(parents(v[i].1)[0] == MembershipOperation::Delegation(x.payload.revoke)); if x.payload.proof is Some { assert(parents(v[i].1)[1] == MembershipOperation::Delegation(x.payload.proof->0)); assert(later(v, i + 1, parents(v[i].1)[1])); } } } }
}
/// std: into_iter().rev().map(f).collect()
#[verifier::external_body] pub fn rev_map<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[v@.len() - 1 - i],), #[trigger] r@[i]) { unimplemented!() }
pub open spec fn turned(v: Seq<(Dg, MembershipOperation)>, o: Seq<(Dg, StaticMembershipOperation)>) -> bool { o.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] o[i]).0 == v[v.len() - 1 - i].0 && stat(v[v.len() - 1 - i].1, o[i].1) }
"""
PRE = core.std(*AX) + receive.BASE + receive.KEYOP + receive.IDS + receive.OPS + TYPES

conv_fns = [
    Fn(SG, "Signed", "new", "pub fn new(payload: T, issuer: Key, signature: Signature) -> (r: Self) ensures r.payload == payload, r.issuer == issuer, r.signature == signature", ["payload", "issuer", "signature"],
       [("digest_hash: OnceLock::new(),", ""), ("let _ = signed.digest();", "")], wrap="impl<T> Signed<T>"),
    Fn(SG, "Signed", "payload", "pub fn payload(&self) -> (r: &T) ensures *r == self.payload", ["self"], wrap="impl<T> Signed<T>"),
    Fn(SG, "Signed", "map", "pub fn map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Signed<U>) requires f.requires((self.payload,)) ensures f.ensures((self.payload,), r.payload), r.issuer == self.issuer, r.signature == self.signature", ["self", "f"], wrap="impl<T> Signed<T>"),
    Fn(DL, "From for StaticDelegation ~Delegation", "from", "pub fn from(delegation: Delegation) -> (r: StaticDelegation) ensures says_d(delegation, r)", ["delegation"],
       [("delegation.proof.map(|p| $x),", "opt_map(delegation.proof, |p: Arc<Signed<Delegation>>| -> (r: Dg) ensures r == dg_d(*p) { $x }),", "must"),
        ("delegation.after_revocations.iter().map(|revocation| $x).collect(),", "({ let l = map_vec(&delegation.after_revocations, |revocation: &Arc<Signed<Revocation>>| -> (r: Dg) ensures r == dg_r(**revocation) { $x }); assert(l@ =~= digs(delegation.after_revocations@)); l }),", "must")],
       wrap="impl StaticDelegation", vname="from"),
    Fn(RV, "From for StaticRevocation ~Revocation", "from", "pub fn from(revocation: Revocation) -> (r: StaticRevocation) ensures says_r(revocation, r)", ["revocation"],
       [("revocation.proof.map(|p| $x),", "opt_map(revocation.proof, |p: Arc<Signed<Delegation>>| -> (r: Dg) ensures r == dg_d(*p) { $x }),", "must")], wrap="impl StaticRevocation", vname="from"),
    Fn(MO, "From for StaticMembershipOperation ~MembershipOperation", "from", "pub fn from(op: MembershipOperation) -> (r: StaticMembershipOperation) ensures stat(op, r)", ["op"],
       [("Arc::unwrap_or_clone", "unwrap_arc"),
        ("StaticMembershipOperation::Delegation(unwrap_arc(d).map(Into::into))", "StaticMembershipOperation::Delegation(unwrap_arc(d).map(|x: Delegation| -> (r: StaticDelegation) ensures says_d(x, r) { StaticDelegation::from(x) }))", "must"),
        ("StaticMembershipOperation::Revocation(unwrap_arc(r).map(Into::into))", "StaticMembershipOperation::Revocation(unwrap_arc(r).map(|x: Revocation| -> (r: StaticRevocation) ensures says_r(x, r) { StaticRevocation::from(x) }))", "must")],
       wrap="impl StaticMembershipOperation", vname="from"),
]
group_fns = [
    Fn(GS, "GroupState", "into_archive", "pub fn into_archive(&self) -> (r: GroupStateArchive) ensures state_as(*self, r)", ["self"],
       [(".keys().map(|d| $x).collect()", ".key_set(|d: &Dg| -> (r: Dg) ensures r == *d { $x })", "must")], wrap="impl GroupState"),
    Fn(GS, "GroupState", "dummy_from_archive", "pub fn dummy_from_archive(archive: GroupStateArchive, delegations: DlgStoreH, revocations: RevStoreH) -> (r: Self) ensures r.id == archive.id, r.delegation_heads.view() == Map::<Dg, Arc<Signed<Delegation>>>::empty(), r.revocation_heads.view() == Map::<Dg, Arc<Signed<Revocation>>>::empty()", ["archive", "delegations", "revocations"], wrap="impl GroupState"),
    Fn(GP, "Group", "into_archive", "pub fn into_archive(&self) -> (r: GroupArchive) ensures group_as(*self, r)", ["self"],
       [("self.members.iter().fold(HashMap::new(), |mut acc, (k, vs)| {", "({ let mut acc: HashMap<Identifier, NonEmpty<Dg>> = HashMap::new(); for (k, vs) in entries(&self.members) {", "must"),
        ("acc }),", "} acc }),", "must"),
        ("vs.iter().map(|v| $x).collect();", "map_vec(vs.iter(), |v: &Arc<Signed<Delegation>>| -> (r: Dg) ensures r == dg_d(**v) { $x }); assert(hashes@ =~= listed(self.members@, *k));", "must"),
        ("Digest::hash(v.as_ref())", "hash_arc(v)"), ("Vec<_>", "Vec<Dg>")],
       loops=[("for", "it", """invariant forall|i: int| 0 <= i < it.seq().len() ==> self.members@.dom().contains(*(#[trigger] it.seq()[i]).0) && self.members@[*it.seq()[i].0] == *it.seq()[i].1,
            forall|k: Identifier| #[trigger] self.members@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
            forall|id: Identifier| #[trigger] acc@.dom().contains(id) ==> self.members@.dom().contains(id) && acc@[id]@ == listed(self.members@, id),
            forall|i: int| 0 <= i < it.index@ ==> acc@.dom().contains(*(#[trigger] it.seq()[i]).0),
            it.index@ == it.seq().len() ==> members_as(self.members@, acc@)""", "", "assert(it.index@ + 1 == it.seq().len() ==> acc@.dom() =~= self.members@.dom());")],
       wrap="impl Group"),
]

ENT = lambda m: f"""forall|i: int| 0 <= i < it.seq().len() ==> {m}.dom().contains(*(#[trigger] it.seq()[i]).0) && {m}[*it.seq()[i].0] == *it.seq()[i].1,
            forall|k| #[trigger] {m}.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k"""
def copy_loop(src, dst, rel, extra=""):
    return ("for", "it", f"""invariant {ENT(src)}, {extra}
            forall|k| #[trigger] {dst}.dom().contains(k) ==> {src}.dom().contains(k) && {rel},
            forall|i: int| 0 <= i < it.index@ ==> {dst}.dom().contains(*(#[trigger] it.seq()[i]).0),
            it.index@ == it.seq().len() ==> {dst}.dom() == {src}.dom()""", "", f"assert(it.index@ + 1 == it.seq().len() ==> {dst}.dom() =~= {src}.dom());")
doc_fns = [
    Fn(DC, "Document", "into_archive", "pub fn into_archive(&self) -> (r: DocumentArchive) ensures doc_as(*self, r)", ["self"], [("self.cgka.clone()", "clone_cgka(&self.cgka)")], wrap="impl Document"),
    Fn(GP, "Group", "dummy_from_archive", "pub fn dummy_from_archive(archive: GroupArchive, delegations: DlgStoreH, revocations: RevStoreH) -> (r: Self) ensures r.id_or_indie == archive.id_or_indie, blank(r, archive)", ["archive", "delegations", "revocations", "listener"],
       [("active_revocations: HashMap::new(),", "active_revocations: Forced::new(),"), ("listener,", "")], wrap="impl Group"),
    Fn(DC, "Document", "dummy_from_archive", "pub fn dummy_from_archive(archive: DocumentArchive, delegations: DlgStoreH, revocations: RevStoreH) -> (r: Result<Self, MissingIndividualError>) ensures r is Ok, doc_blank(r->Ok_0, archive)", ["archive", "delegations", "revocations", "listener"],
       [("Group::<F, S, T, L>::", "Group::"), ("revocations, listener,", "revocations,"), ("known_decryption_keys: HashMap::new(),", "known_decryption_keys: no_keys(),")], wrap="impl Document"),
    Fn(AC, "Active", "into_archive", "pub fn into_archive(&self) -> (r: ActiveArchive) ensures r.prekey_pairs == self.prekey_pairs, r.individual == self.individual", ["self"], [(".lock()", "")], wrap="impl Active"),
    Fn(AC, "Active", "from_archive", "pub fn from_archive(archive: &ActiveArchive, signer: Signer) -> (r: Self) ensures r.prekey_pairs == archive.prekey_pairs, r.individual == archive.individual, r.id.0.0 == signer_key(signer), r.signer == signer", ["archive", "signer", "listener"],
       [("tracing::trace!($x);", ""), ("Arc::new(Mutex::new($x))", "$x"), ("listener,", ""), ("_phantom: PhantomData,", "")], wrap="impl Active"),
]
TYPES2 = r"""
pub open spec fn blank(g: Group, a: GroupArchive) -> bool { g.id_or_indie == a.id_or_indie && g.state.id == a.state.id && g.members@ == Map::<Identifier, Dlgs>::empty()
    && g.state.delegation_heads.view() == Map::<Dg, Arc<Signed<Delegation>>>::empty() && g.state.revocation_heads.view() == Map::<Dg, Arc<Signed<Revocation>>>::empty() }
pub open spec fn doc_blank(d: Document, a: DocumentArchive) -> bool { blank(d.group, a.group) && d.content_heads == a.content_heads && d.content_state == a.content_state && d.cgka == a.cgka }
impl Group {
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.state.id.0.0 { self.state.id.0.0 }
    /// P05: members and forced revocations from the heads alone
    #[verifier::external_body] pub fn rebuild(&mut self) ensures final(self).state == old(self).state, final(self).id_or_indie == old(self).id_or_indie, settled(*final(self)) { unimplemented!() } }
pub open spec fn ops_match(v: Seq<(Dg, MembershipOperation)>, o: Seq<(Dg, StaticMembershipOperation)>, k: Keyhive) -> bool { turned(v, o) && all_reversed(v, k.delegations, k.revocations) }
pub proof fn from_in_d(v: Seq<(Dg, MembershipOperation)>, o: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) requires turned(v, o), in_d(v, n, h), 0 <= n ensures has_d(o, v.len() - n, h)
{ static_digest(); let j = choose|j: int| n <= j < v.len() && (#[trigger] v[j]).1 is Delegation && dg_d(*v[j].1->Delegation_0) == h; let i = v.len() - 1 - j; assert(v[v.len() - 1 - i] == v[j]); assert(o[i].1 is Delegation && dg_sd(o[i].1->Delegation_0) == h); }
pub proof fn from_in_r(v: Seq<(Dg, MembershipOperation)>, o: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) requires turned(v, o), in_r(v, n, h), 0 <= n ensures has_r(o, v.len() - n, h)
{ static_digest(); let j = choose|j: int| n <= j < v.len() && (#[trigger] v[j]).1 is Revocation && dg_r(*v[j].1->Revocation_0) == h; let i = v.len() - 1 - j; assert(v[v.len() - 1 - i] == v[j]); assert(o[i].1 is Revocation && dg_sr(o[i].1->Revocation_0) == h); }
/// the archived operations are those of the stores, and each comes after what it rests on
pub proof fn archived_ops(k: Keyhive, v: Seq<(Dg, MembershipOperation)>, o: Seq<(Dg, StaticMembershipOperation)>)
    requires whole(k), turned(v, o), all_reversed(v, k.delegations, k.revocations)
    ensures stored(o, o.len() as int, k.delegations, k.revocations)
{
    static_digest();
    let n = o.len() as int;
    assert forall|h: Dg| #[trigger] k.delegations.view().dom().contains(h) <==> has_d(o, n, h) by {
        if k.delegations.view().dom().contains(h) { from_in_d(v, o, 0, h); }
        if has_d(o, n, h) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h; assert(stat(v[n - 1 - j].1, o[j].1)); assert(v[n - 1 - j].1 is Delegation); assert(dg_d(*v[n - 1 - j].1->Delegation_0) == h); } }
    assert forall|h: Dg| #[trigger] k.revocations.view().dom().contains(h) <==> has_r(o, n, h) by {
        if k.revocations.view().dom().contains(h) { from_in_r(v, o, 0, h); }
        if has_r(o, n, h) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Revocation && dg_sr(o[j].1->Revocation_0) == h; assert(stat(v[n - 1 - j].1, o[j].1)); assert(v[n - 1 - j].1 is Revocation); assert(dg_r(*v[n - 1 - j].1->Revocation_0) == h); } }
}
pub proof fn archived_known(k: Keyhive, a: Archive, v: Seq<(Dg, MembershipOperation)>)
    requires whole(k), ops_match(v, a.topsorted_ops@, k), kept(k, a), members_all(k, a)
    ensures restorable(a)
{
    static_digest();
    let o = a.topsorted_ops@; let n = o.len() as int;
    assert forall|i: int| 0 <= i < n implies #[trigger] op_known(a, i) by {
        let j = n - 1 - i; assert(after_below(v, j)); assert(stat(v[j].1, o[i].1)); assert(v[j].0 == op_dg(v[j].1));
        match o[i].1 {
            StaticMembershipOperation::Delegation(s) => { let x = v[j].1->Delegation_0;
                if s.payload.proof is Some { from_in_d(v, o, j + 1, s.payload.proof->0); }
                assert forall|m: int| 0 <= m < s.payload.after_revocations@.len() implies has_r(o, i, #[trigger] s.payload.after_revocations@[m]) by { assert(digs(x.payload.after_revocations@)[m] == dg_r(*x.payload.after_revocations@[m])); from_in_r(v, o, j + 1, s.payload.after_revocations@[m]); }
                assert(k.delegations.view().dom().contains(dg_d(*x))); assert(agent_here(k, agent_id(k.delegations.view()[dg_d(*x)].payload.delegate))); assert(agent_here(k, s.payload.delegate)); },
            StaticMembershipOperation::Revocation(s) => { from_in_d(v, o, j + 1, s.payload.revoke); if s.payload.proof is Some { from_in_d(v, o, j + 1, s.payload.proof->0); } },
        } }
    assert forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) implies group_known(o, a.groups@[g]) by { assert(k.groups@.dom().contains(g)); one_known(k, a, v, k.groups@[g], a.groups@[g]); }
    assert forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) implies group_known(o, a.docs@[g].group) by { assert(k.docs@.dom().contains(g)); one_known(k, a, v, k.docs@[g].group, a.docs@[g].group); }
}
pub open spec fn members_all(k: Keyhive, a: Archive) -> bool { (forall|g: GroupId| #[trigger] k.groups@.dom().contains(g) ==> members_as(k.groups@[g].members@, a.groups@[g].members@)) && (forall|g: DocumentId| #[trigger] k.docs@.dom().contains(g) ==> members_as(k.docs@[g].group.members@, a.docs@[g].group.members@)) }
pub proof fn one_known(k: Keyhive, a: Archive, v: Seq<(Dg, MembershipOperation)>, g: Group, ga: GroupArchive)
    requires whole(k), ops_match(v, a.topsorted_ops@, k), kept(k, a), group_whole(k, g), group_as(g, ga)
    ensures group_known(a.topsorted_ops@, ga)
{
    static_digest();
    let o = a.topsorted_ops@; let n = o.len() as int;
    assert forall|h: Dg| #[trigger] ga.state.delegation_heads@.contains(h) implies has_d(o, n, h) && own_root(o, ga.state.id, h) by {
        assert(g.state.delegation_heads.view().dom().contains(h)); assert(k.delegations.view().dom().contains(h));
        assert forall|j: int| 0 <= j < o.len() && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h && o[j].1->Delegation_0.payload.proof is None implies o[j].1->Delegation_0.issuer == ga.state.id.0.0 by {
            let i = n - 1 - j; assert(stat(v[i].1, o[j].1)); assert(v[i].0 == op_dg(v[i].1)); } }
    assert forall|h: Dg| #[trigger] ga.state.revocation_heads@.contains(h) implies has_r(o, n, h) by { assert(g.state.revocation_heads.view().dom().contains(h)); assert(k.revocations.view().dom().contains(h)); }
    assert forall|id: Identifier, i: int| ga.members@.dom().contains(id) && 0 <= i < ga.members@[id]@.len() implies has_d(o, n, #[trigger] ga.members@[id]@[i]) by {
        assert(ga.members@[id]@ == listed(g.members@, id)); assert(ga.members@[id]@[i] == dg_d(*g.members@[id]@[i])); assert(k.delegations.view().dom().contains(ga.members@[id]@[i])); }
}
"""
RE = lambda n: f"""seen(it.seq(), it.index@ as int)"""
kh_fns = [
    Fn(KH, "Keyhive", "into_archive", "pub fn into_archive(&self) -> (r: Archive) requires whole(*self) ensures kept(*self, r), members_all(*self, r), restorable(r)", ["self"],
       [("arc.lock()", "arc"), ("self.$$f.lock()", "(&self.$$f)"),
        ("MembershipOperation::reverse_topsort($x).into_iter().rev().map(|(k, v)| ($y, v.into())).collect()",
         "({ let vs = MembershipOperation::reverse_topsort($x); let ghost v0 = vs@; let os = rev_map(vs, |kv: (Dg, MembershipOperation)| -> (r: (Dg, StaticMembershipOperation)) ensures r.0 == kv.0, stat(kv.1, r.1) { let (k, v) = kv; ($y, StaticMembershipOperation::from(v)) }); proof { reversed_of(self.delegations, self.revocations, v0); vg = v0; archived_ops(*self, v0, os@); } os })", "must"),
        ("for (k, arc) in $x.iter()", "for (k, arc) in entries($x)"),
        ("let mut individuals = HashMap::new();", "let mut individuals: HashMap<IndividualId, Individual> = HashMap::new();"), ("let mut groups = HashMap::new();", "let mut groups: HashMap<GroupId, GroupArchive> = HashMap::new();"), ("let mut docs = HashMap::new();", "let mut docs: HashMap<DocumentId, DocumentArchive> = HashMap::new();"),
        ("Vec<_>", "Vec<StaticEvent>"),
        ("(&self.pending_events).iter().map(|event| $x).collect();", "map_vec(&self.pending_events, |event: &Arc<StaticEvent>| -> (r: StaticEvent) ensures r == **event { $x });", "must"),
        ("Archive { $x }", "({ let a = Archive { $x }; proof { assert(self.pending_events@.map_values(|e: Arc<StaticEvent>| *e) =~= a.pending_events@); assert(individuals@ =~= self.individuals@); assert(self.individuals@ =~= a.individuals@.insert(indie_id(self.active.individual), self.active.individual)); archived_known(*self, a, vg); } a })", "must")],
       loops=[copy_loop("self.individuals@", "individuals@", "individuals@[k] == self.individuals@[k]"), copy_loop("self.groups@", "groups@", "group_as(self.groups@[k], groups@[k])"), copy_loop("self.docs@", "docs@", "doc_as(self.docs@[k], docs@[k])")],
       pre="let ghost mut vg: Seq<(Dg, MembershipOperation)> = Seq::empty();", wrap="impl Keyhive"),
]

TYPES3 = r"""
pub open spec fn reified(g: Group, g0: Group, d: Set<Dg>, r: Set<Dg>) -> bool { g.state.id == g0.state.id && g.id_or_indie == g0.id_or_indie && g.state.delegation_heads.view().dom() == d && g.state.revocation_heads.view().dom() == r && settled(g) }
pub open spec fn can_reify(g: Group, ds: DelegationStore, rs: RevocationStore, d: Set<Dg>, r: Set<Dg>, m: Map<Identifier, NonEmpty<Dg>>) -> bool {
    &&& forall|h: Dg| #[trigger] d.contains(h) ==> ds.view().dom().contains(h) && (ds.view()[h].payload.proof is None ==> ds.view()[h].issuer == g.state.id.0.0)
    &&& forall|h: Dg| #[trigger] r.contains(h) ==> rs.view().dom().contains(h)
    &&& forall|id: Identifier, i: int| m.dom().contains(id) && 0 <= i < m[id]@.len() ==> ds.view().dom().contains(#[trigger] m[id]@[i])
}
pub open spec fn same_members(m: Map<Identifier, NonEmpty<Dg>>, a: Map<Identifier, NonEmpty<Dg>>) -> bool { m.dom() == a.dom() && forall|id: Identifier| #[trigger] m.dom().contains(id) ==> m[id]@ == a[id]@ }
/// std: iter().map(|(k, v)| (*k, f(v))).collect()
#[verifier::external_body] pub fn map_values<F: Fn(&NonEmpty<Dg>) -> NonEmpty<Dg>>(m: &HashMap<Identifier, NonEmpty<Dg>>, f: F) -> (r: HashMap<Identifier, NonEmpty<Dg>>)
    requires forall|v: &NonEmpty<Dg>| f.requires((v,)), forall|v: &NonEmpty<Dg>, w: NonEmpty<Dg>| f.ensures((v,), w) ==> w@ == v@ ensures same_members(r@, m@) { unimplemented!() }
pub proof fn can(a: Archive, ga: GroupArchive, g: Group, ds: DelegationStore, rs: RevocationStore)
    requires group_known(a.topsorted_ops@, ga), stored(a.topsorted_ops@, a.topsorted_ops@.len() as int, ds, rs), tells(a.topsorted_ops@, ds), g.state.id == ga.state.id
    ensures forall|m: Map<Identifier, NonEmpty<Dg>>| #[trigger] same_members(m, ga.members@) ==> can_reify(g, ds, rs, ga.state.delegation_heads@, ga.state.revocation_heads@, m)
{
    let o = a.topsorted_ops@;
    assert forall|m: Map<Identifier, NonEmpty<Dg>>| #[trigger] same_members(m, ga.members@) implies can_reify(g, ds, rs, ga.state.delegation_heads@, ga.state.revocation_heads@, m) by {
        assert forall|h: Dg| #[trigger] ga.state.delegation_heads@.contains(h) implies ds.view().dom().contains(h) && (ds.view()[h].payload.proof is None ==> ds.view()[h].issuer == g.state.id.0.0) by {
            assert(has_d(o, o.len() as int, h)); assert(ds.view().dom().contains(h));
            let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).1 is Delegation && stat_d(*ds.view()[h], o[j].1->Delegation_0) && dg_sd(o[j].1->Delegation_0) == h; assert(o[j].1 is Delegation); }
        assert forall|id: Identifier, i: int| m.dom().contains(id) && 0 <= i < m[id]@.len() implies ds.view().dom().contains(#[trigger] m[id]@[i]) by { assert(has_d(o, o.len() as int, ga.members@[id]@[i])); }
    }
}
/// every stored delegation says what a listed one says
pub open spec fn tells(o: Seq<(Dg, StaticMembershipOperation)>, ds: DelegationStore) -> bool {
    forall|h: Dg| #[trigger] ds.view().dom().contains(h) ==> exists|j: int| 0 <= j < o.len() && (#[trigger] o[j]).1 is Delegation && stat_d(*ds.view()[h], o[j].1->Delegation_0) && dg_sd(o[j].1->Delegation_0) == h }
pub proof fn more_d(o: Seq<(Dg, StaticMembershipOperation)>, n: int, d0: DelegationStore, d1: DelegationStore, r: RevocationStore, x: Arc<Signed<Delegation>>)
    requires stored(o, n, d0, r), tells(o, d0), 0 <= n < o.len(), o[n].1 is Delegation, stat_d(*x, o[n].1->Delegation_0), d1.view() == d0.view().insert(dg_d(*x), x)
    ensures stored(o, n + 1, d1, r), tells(o, d1)
{
    static_digest();
    assert forall|h: Dg| #[trigger] d1.view().dom().contains(h) <==> has_d(o, n + 1, h) by {
        if has_d(o, n + 1, h) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h; if j < n { assert(has_d(o, n, h)); assert(d0.view().dom().contains(h)); } }
        if d1.view().dom().contains(h) { if h == dg_d(*x) { assert(o[n].1 is Delegation && dg_sd(o[n].1->Delegation_0) == h); } else { assert(d0.view().dom().contains(h)); assert(has_d(o, n, h)); let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h; assert(o[j].1 is Delegation); } } }
    assert forall|h: Dg| #[trigger] r.view().dom().contains(h) <==> has_r(o, n + 1, h) by { same_r(o, n, h); }
    assert forall|h: Dg| #[trigger] d1.view().dom().contains(h) implies exists|j: int| 0 <= j < o.len() && (#[trigger] o[j]).1 is Delegation && stat_d(*d1.view()[h], o[j].1->Delegation_0) && dg_sd(o[j].1->Delegation_0) == h by {
        if h == dg_d(*x) { assert(o[n].1 is Delegation); } else { assert(d0.view().dom().contains(h)); } }
}
pub proof fn same_r(o: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) requires 0 <= n < o.len(), o[n].1 is Delegation ensures has_r(o, n, h) == has_r(o, n + 1, h)
{ if has_r(o, n + 1, h) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] o[j]).1 is Revocation && dg_sr(o[j].1->Revocation_0) == h; assert(j < n); } if has_r(o, n, h) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Revocation && dg_sr(o[j].1->Revocation_0) == h; assert(0 <= j < n + 1); } }
pub proof fn same_d(o: Seq<(Dg, StaticMembershipOperation)>, n: int, h: Dg) requires 0 <= n < o.len(), o[n].1 is Revocation ensures has_d(o, n, h) == has_d(o, n + 1, h)
{ if has_d(o, n + 1, h) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h; assert(j < n); } if has_d(o, n, h) { let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Delegation && dg_sd(o[j].1->Delegation_0) == h; assert(0 <= j < n + 1); } }
pub proof fn more_r(o: Seq<(Dg, StaticMembershipOperation)>, n: int, d: DelegationStore, r0: RevocationStore, r1: RevocationStore, x: Arc<Signed<Revocation>>)
    requires stored(o, n, d, r0), 0 <= n < o.len(), o[n].1 is Revocation, stat_r(*x, o[n].1->Revocation_0), r1.view() == r0.view().insert(dg_r(*x), x)
    ensures stored(o, n + 1, d, r1)
{
    static_digest();
    assert forall|h: Dg| #[trigger] r1.view().dom().contains(h) <==> has_r(o, n + 1, h) by {
        if has_r(o, n + 1, h) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] o[j]).1 is Revocation && dg_sr(o[j].1->Revocation_0) == h; if j < n { assert(has_r(o, n, h)); assert(r0.view().dom().contains(h)); } }
        if r1.view().dom().contains(h) { if h == dg_r(*x) { assert(o[n].1 is Revocation && dg_sr(o[n].1->Revocation_0) == h); } else { assert(r0.view().dom().contains(h)); assert(has_r(o, n, h)); let j = choose|j: int| 0 <= j < n && (#[trigger] o[j]).1 is Revocation && dg_sr(o[j].1->Revocation_0) == h; assert(o[j].1 is Revocation); } } }
    assert forall|h: Dg| #[trigger] d.view().dom().contains(h) <==> has_d(o, n + 1, h) by { same_d(o, n, h); }
}
pub open spec fn digests_so_far(l: Seq<Arc<Signed<Revocation>>>, s: Seq<Dg>, n: int) -> bool { l.len() == n && forall|i: int| 0 <= i < n ==> dg_r(*#[trigger] l[i]) == s[i] }
/// two replicas no observer can tell apart
pub open spec fn group_alike(a: Group, b: Group) -> bool { a.id_or_indie == b.id_or_indie && a.state.id == b.state.id && a.state.delegation_heads.view().dom() == b.state.delegation_heads.view().dom() && a.state.revocation_heads.view().dom() == b.state.revocation_heads.view().dom()
    && a.members@.dom() == b.members@.dom() && (forall|id: Identifier| #[trigger] a.members@.dom().contains(id) ==> listed(a.members@, id) == listed(b.members@, id)) && a.active_revocations == b.active_revocations }
pub open spec fn alike(a: Keyhive, b: Keyhive) -> bool {
    &&& a.active.prekey_pairs == b.active.prekey_pairs && a.active.individual == b.active.individual && a.individuals@ == b.individuals@
    &&& a.delegations.view().dom() == b.delegations.view().dom() && a.revocations.view().dom() == b.revocations.view().dom()
    &&& a.pending_events@.map_values(|e: Arc<StaticEvent>| *e) == b.pending_events@.map_values(|e: Arc<StaticEvent>| *e)
    &&& a.groups@.dom() == b.groups@.dom() && forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) ==> group_alike(a.groups@[g], b.groups@[g])
    &&& a.docs@.dom() == b.docs@.dom() && forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) ==> group_alike(a.docs@[g].group, b.docs@[g].group) && a.docs@[g].content_heads == b.docs@[g].content_heads && a.docs@[g].content_state == b.docs@[g].content_state && a.docs@[g].cgka == b.docs@[g].cgka
}
/// P08: what is restored from a replica's archive is like the replica
pub proof fn round_trip(k: Keyhive, a: Archive, r: Keyhive)
    requires whole(k), all_settled(k), kept(k, a), kept(r, a), all_settled(r)
    ensures alike(k, r)
{
    let n = a.topsorted_ops@.len() as int;
    assert(k.delegations.view().dom() =~= r.delegations.view().dom()) by { assert forall|h: Dg| k.delegations.view().dom().contains(h) == r.delegations.view().dom().contains(h) by { assert(k.delegations.view().dom().contains(h) <==> has_d(a.topsorted_ops@, n, h)); assert(r.delegations.view().dom().contains(h) <==> has_d(a.topsorted_ops@, n, h)); } }
    assert(k.revocations.view().dom() =~= r.revocations.view().dom()) by { assert forall|h: Dg| k.revocations.view().dom().contains(h) == r.revocations.view().dom().contains(h) by { assert(k.revocations.view().dom().contains(h) <==> has_r(a.topsorted_ops@, n, h)); assert(r.revocations.view().dom().contains(h) <==> has_r(a.topsorted_ops@, n, h)); } }
    assert forall|g: GroupId| #[trigger] k.groups@.dom().contains(g) implies group_alike(k.groups@[g], r.groups@[g]) by { assert(r.groups@.dom().contains(g)); assert(settled(k.groups@[g])); assert(settled(r.groups@[g])); }
    assert forall|g: DocumentId| #[trigger] k.docs@.dom().contains(g) implies group_alike(k.docs@[g].group, r.docs@[g].group) by { assert(r.docs@.dom().contains(g)); assert(settled(k.docs@[g].group)); assert(settled(r.docs@[g].group)); }
}
"""
SET = lambda s: f"""forall|i: int| 0 <= i < it.seq().len() ==> {s}.contains(*#[trigger] it.seq()[i]), seen(it.seq(), it.seq().len() as int) == {s}"""
FIX = "group.state.id == g0.state.id, group.id_or_indie == g0.id_or_indie, addressed(*read_dlgs, *read_revs), can_reify(g0, *read_dlgs, *read_revs, dlg_head_hashes@, rev_head_hashes@, members@),"
re_fns = [
    Fn(KH, "Keyhive", "try_from_archive/reify_ops", """pub fn reify_ops(group: &mut Group, dlg_store: &DelegationStore, rev_store: &RevocationStore, dlg_head_hashes: &HashSet<Dg>, rev_head_hashes: &HashSet<Dg>, members: HashMap<Identifier, NonEmpty<Dg>>) -> (res: Result<(), TryFromArchiveError>)
        requires addressed(*dlg_store, *rev_store), can_reify(*old(group), *dlg_store, *rev_store, dlg_head_hashes@, rev_head_hashes@, members@), old(group).state.delegation_heads.view() == Map::<Dg, Arc<Signed<Delegation>>>::empty(), old(group).state.revocation_heads.view() == Map::<Dg, Arc<Signed<Revocation>>>::empty()
        ensures res is Ok, reified(*final(group), *old(group), dlg_head_hashes@, rev_head_hashes@)""", ["group", "dlg_store", "rev_store", "dlg_head_hashes", "rev_head_hashes", "members"],
       [("dlg_store.lock()", "dlg_store"), ("rev_store.lock()", "rev_store"), ("drop($x);", ""), ("tracing::warn!($x);", ""),
        ("for dlg_hash in dlg_head_hashes.iter()", "for dlg_hash in elems(dlg_head_hashes)", "must"), ("for rev_hash in rev_head_hashes.iter()", "for rev_hash in elems(rev_head_hashes)", "must"),
        ("for (id, proof_hashes) in members.iter()", "for (id, proof_hashes) in entries(&members)", "must"),
        ("for proof_hash in proof_hashes.iter()", "for proof_hash in refs(proof_hashes.iter())", "must"),
        ("let mut proofs = Vec::new();", "let mut proofs: Vec<Arc<Signed<Delegation>>> = Vec::new();"), (".expect($x)", ".unwrap()"), ("<G, Z, U, M>", "")],
       loops=[("for", "it", f"""invariant {FIX} {SET("dlg_head_hashes@")}, group.state.delegation_heads.view().dom() == seen(it.seq(), it.index@ as int), group.state.revocation_heads.view() == Map::<Dg, Arc<Signed<Revocation>>>::empty(),
                it.index@ == it.seq().len() ==> group.state.delegation_heads.view().dom() == dlg_head_hashes@""", "", "assert(group.state.delegation_heads.view().dom() =~= seen(it.seq(), it.index@ + 1));"),
              ("for", "it", f"""invariant {FIX} {SET("rev_head_hashes@")}, group.state.delegation_heads.view().dom() == dlg_head_hashes@, group.state.revocation_heads.view().dom() == seen(it.seq(), it.index@ as int),
                it.index@ == it.seq().len() ==> group.state.revocation_heads.view().dom() == rev_head_hashes@""", "", "assert(group.state.revocation_heads.view().dom() =~= seen(it.seq(), it.index@ + 1));"),
              ("for", "it", f"""invariant {FIX} {ENT("members@")}, group.state.delegation_heads.view().dom() == dlg_head_hashes@, group.state.revocation_heads.view().dom() == rev_head_hashes@""", "", ""),
              ("for", "jt", f"""invariant {FIX} members@.dom().contains(*id), members@[*id] == *proof_hashes, jt.seq().len() == proof_hashes@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == proof_hashes@[i], proofs@.len() == jt.index@, proof_hashes@.len() > 0""", "", "")],
       hints=[], pre="let ghost g0 = *group;"),
]

OPINV = "restorable(*archive), stored(archive.topsorted_ops@, it.index@ as int, delegations, revocations), tells(archive.topsorted_ops@, delegations)"
AGENTS = "individuals@ == archive.individuals@.insert(indie_id(archive.active.individual), archive.active.individual), groups@.dom() == archive.groups@.dom(), docs@.dom() == archive.docs@.dom()"
RF = lambda m, am, gof, agof, head: ("for", "it", f"""invariant restorable(*archive), stored(archive.topsorted_ops@, archive.topsorted_ops@.len() as int, delegations, revocations), tells(archive.topsorted_ops@, delegations),
            it.seq().no_duplicates(), forall|i: int| 0 <= i < it.seq().len() ==> archive.{m}@.dom().contains(#[trigger] it.seq()[i]), forall|k| #[trigger] archive.{m}@.dom().contains(k) ==> it.seq().contains(k),
            {m}@.dom() == archive.{m}@.dom(),
            forall|i: int| 0 <= i < it.index@ ==> {head}({m}@[#[trigger] it.seq()[i]], archive.{m}@[it.seq()[i]]) && settled({m}@[it.seq()[i]]{gof}),
            forall|i: int| it.index@ <= i < it.seq().len() ==> {"doc_blank" if gof else "blank"}({m}@[#[trigger] it.seq()[i]], archive.{m}@[it.seq()[i]]),
            it.index@ == it.seq().len() ==> forall|k| #[trigger] archive.{m}@.dom().contains(k) ==> {head}({m}@[k], archive.{m}@[k]) && settled({m}@[k]{gof}),""",
        f"let ghost m0 = {m}@; proof {{ assert(archive.{m}@.dom().contains(it.seq()[it.index@ as int])); can(*archive, archive.{m}@[it.seq()[it.index@ as int]]{agof}, {m}@[it.seq()[it.index@ as int]]{gof}, delegations, revocations); }}",
        f"assert({m}@.dom() =~= archive.{m}@.dom()); assert(forall|i: int| 0 <= i < it.seq().len() && i != it.index@ ==> #[trigger] {m}@[it.seq()[i]] == m0[it.seq()[i]]); ")
try_fns = [
    Fn(KH, "Keyhive", "try_from_archive", """pub fn try_from_archive(archive: &Archive, signer: Signer) -> (res: Result<Keyhive, TryFromArchiveError>)
        requires restorable(*archive) ensures res is Ok, kept(res->Ok_0, *archive), all_settled(res->Ok_0)""", ["archive", "signer", "ciphertext_store", "listener", "csprng"],
       [("@drop_fn reify_ops", ""), ("<F, S, T, L>", ""), ("Active::from_archive(&archive.active, signer, listener.clone())", "Active::from_archive(&archive.active, signer)", "must"),
        ("let delegations = Arc::new(Mutex::new(DelegationStore::new()));", "let mut delegations = DelegationStore::new();", "must"), ("let revocations = Arc::new(Mutex::new(RevocationStore::new()));", "let mut revocations = RevocationStore::new();", "must"),
        ("revocations.lock()", "revocations"), ("delegations.lock()", "delegations"),
        ("let mut individuals = HashMap::new();", "let mut individuals: HashMap<IndividualId, Individual> = HashMap::new();"), ("let mut groups = HashMap::new();", "let mut groups: HashMap<GroupId, Group> = HashMap::new();"), ("let mut docs = HashMap::new();", "let mut docs: HashMap<DocumentId, Document> = HashMap::new();"),
        ("let active = Arc::new(Mutex::new(raw_active));", "let active = raw_active;", "must"),
        ("ingestion: Arc::new(Mutex::new(())),", ""), ("Arc::new(Mutex::new($x))", "$x"),
        ("delegations.dupe(), revocations.dupe(), listener.clone(),", "delegations.handle(), revocations.handle(),", "must"),
        ("for (k, v) in archive.individuals.iter()", "for (k, v) in entries(&archive.individuals)", "must"), ("for (group_id, group_archive) in archive.groups.iter()", "for (group_id, group_archive) in entries(&archive.groups)", "must"), ("for (doc_id, doc_archive) in archive.docs.iter()", "for (doc_id, doc_archive) in entries(&archive.docs)", "must"),
        ("for (_digest, static_op) in archive.topsorted_ops.iter() {", "for dop in archive.topsorted_ops.iter() { let (_digest, static_op) = (&dop.0, &dop.1);", "must"),
        ("for rev_digest in sd.payload.after_revocations.iter()", "for rev_digest in refs(&sd.payload.after_revocations)", "must"),
        ("let mut after_revocations = vec![];", "let mut after_revocations: Vec<Arc<Signed<Revocation>>> = vec![];"),
        (".ok_or(TryFromArchiveError::MissingAgent(Box::new(id)))?", ".ok_or(TryFromArchiveError::MissingAgent(Box::new(id)))?"),
        ("individuals.get(&IndividualId(id)).map(|i| $x).or_else(|| { groups.get(&GroupId(id)).map(|g| $y) }).or_else(|| { docs.get(&DocumentId(id)).map(|d| $z) })",
         "or_else(or_else(opt_map(individuals.get(&IndividualId(id)), |i: &Individual| -> (r: Agent) ensures agent_id(r) == id { $x }), || -> (r: Option<Agent>) ensures r is Some == groups@.dom().contains(GroupId(id)), r is Some ==> agent_id(r->0) == id { opt_map(groups.get(&GroupId(id)), |g: &Group| -> (r: Agent) ensures agent_id(r) == id { $y }) }), || -> (r: Option<Agent>) ensures r is Some == docs@.dom().contains(DocumentId(id)), r is Some ==> agent_id(r->0) == id { opt_map(docs.get(&DocumentId(id)), |d: &Document| -> (r: Agent) ensures agent_id(r) == id { $z }) })", "must"),
        ("if id == archive.active.individual.id().into()", "if id == Identifier::from(archive.active.individual.id())"),
        ("active.dupe()", "hd(&active)"), ("i.dupe()", "hd(i)"), ("g.dupe()", "hd(g)"), ("d.dupe()", "hd(d)"),
        ("id.into(), hd", "id.into(), hd"),
        ("delegations.insert(Arc::new(Signed::new($x, $y, $z)));", "({ let ghost d0 = delegations; let x = Arc::new(Signed::new($x, $y, $z)); proof { assert(digs(after_revocations@) =~= sd.payload.after_revocations@) by { } } delegations.insert(x); proof { more_d(archive.topsorted_ops@, n, d0, delegations, revocations, x); } });"),
        ("revocations.insert(Arc::new(Signed::new($x, $y, $z)));", "({ let ghost r0 = revocations; let x = Arc::new(Signed::new($x, $y, $z)); revocations.insert(x); proof { more_r(archive.topsorted_ops@, n, delegations, r0, revocations, x); } });"),
        ("for (group_id, group) in groups.iter() {", "for group_id in keys(&groups) {", "must"), ("for (doc_id, doc) in docs.iter() {", "for doc_id in keys(&docs) {", "must"),
        (".get(group_id)", ".get(&group_id)"), (".get(doc_id)", ".get(&doc_id)"), ("Box::new(*group_id)", "Box::new(group_id)"), ("Box::new(*doc_id)", "Box::new(doc_id)"),
        ("let mut locked_group = group.lock();", ""), ("let mut locked_doc = doc.lock();", ""), ("&mut locked_group,", "at(&mut groups, &group_id),", "must"), ("&mut locked_doc.group,", "&mut at(&mut docs, &doc_id).group,", "must"),
        ("delegations.dupe(), revocations.dupe(),", "&delegations, &revocations,", "must"),
        ("members.iter().map(|(k, v)| (*k, $x)).collect()", "members.iter().map(|(k, v)| (*k, $x)).collect()"),
        ("group_archive.members.iter().map(|(k, v)| (*k, v.clone().map(|x| $x))).collect(),", "map_values(&group_archive.members, |v: &NonEmpty<Dg>| -> (r: NonEmpty<Dg>) ensures r@ == v@ { let m = v.clone().map(|x: Dg| -> (r: Dg) ensures r == x { $x }); assert(m@ =~= v@); m }),", "must"),
        ("doc_archive.group.members.iter().map(|(k, v)| (*k, v.clone().map(|x| $x))).collect(),", "map_values(&doc_archive.group.members, |v: &NonEmpty<Dg>| -> (r: NonEmpty<Dg>) ensures r@ == v@ { let m = v.clone().map(|x: Dg| -> (r: Dg) ensures r == x { $x }); assert(m@ =~= v@); m }),", "must"),
        ("for event in &archive.pending_events {", "for event in archive.pending_events.iter() {", "must"), ("let mut pending_events = Vec::new();", "let mut pending_events: Vec<Arc<StaticEvent>> = Vec::new();"),
        ("csprng, ciphertext_store, event_listener: listener, _plaintext_phantom: PhantomData,", "", "must"), ("Ok(Self { $x })", "({ let k = Keyhive { $x }; proof { assert(k.pending_events@.map_values(|e: Arc<StaticEvent>| *e) =~= archive.pending_events@); } Ok(k) })", "must")],
       loops=[copy_loop("archive.individuals@", "individuals@", "individuals@[k] == archive.individuals@[k]"),
              copy_loop("archive.groups@", "groups@", "blank(groups@[k], archive.groups@[k])"),
              copy_loop("archive.docs@", "docs@", "doc_blank(docs@[k], archive.docs@[k])"),
              ("for", "it", "invariant " + OPINV + ", " + AGENTS + ", it.seq().len() == archive.topsorted_ops@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == archive.topsorted_ops@[i]", "proof { n = it.index@ as int; assert(op_known(*archive, n)); }", ""),
              ("for", "jt", "invariant stored(archive.topsorted_ops@, n, delegations, revocations), jt.seq().len() == sd.payload.after_revocations@.len(), forall|i: int| 0 <= i < jt.seq().len() ==> *(#[trigger] jt.seq()[i]) == sd.payload.after_revocations@[i], forall|i: int| 0 <= i < sd.payload.after_revocations@.len() ==> has_r(archive.topsorted_ops@, n, #[trigger] sd.payload.after_revocations@[i]), digests_so_far(after_revocations@, sd.payload.after_revocations@, jt.index@ as int)", "", ""),
              RF("groups", "groups", "", "", "head_as"), RF("docs", "docs", ".group", ".group", "doc_head_as"),
              ("for", "it", "invariant it.seq().len() == archive.pending_events@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == archive.pending_events@[i], pending_events@.len() == it.index@, forall|i: int| 0 <= i < it.index@ ==> *(#[trigger] pending_events@[i]) == archive.pending_events@[i]", "", "")],
       pre="let ghost mut n: int = 0;"),
]
restore = Unit("restore", PRE + TYPES2 + TYPES3, conv_fns[:2] + doc_fns[1:] + group_fns[1:2] + re_fns + try_fns)
archive = Unit("archive", PRE + TYPES2, conv_fns + group_fns + doc_fns + kh_fns)

# ---- merging an archive into a replica ----
MTYPES = r"""
impl<T> Clone for Signed<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub enum StaticMembershipOperation { Delegation(Signed<StaticDelegation>), Revocation(Signed<StaticRevocation>) }
pub enum StaticEvent { PrekeysExpanded(Box<Signed<AddKeyOp>>), PrekeyRotated(Box<Signed<RotateKeyOp>>), Delegated(Signed<StaticDelegation>), Revoked(Signed<StaticRevocation>), CgkaOperation(Box<Signed<CgkaOperation>>) }
pub enum Agent { Any } pub uninterp spec fn agent_id(a: Agent) -> Identifier;
pub open spec fn event_of(o: StaticMembershipOperation) -> StaticEvent { match o { StaticMembershipOperation::Delegation(d) => StaticEvent::Delegated(d), StaticMembershipOperation::Revocation(r) => StaticEvent::Revoked(r) } }
pub open spec fn key_event(o: KeyOp) -> StaticEvent { match o { KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new(*a)), KeyOp::Rotate(a) => StaticEvent::PrekeyRotated(Box::new(*a)) } }
#[verifier::external_body] pub struct Individual { x: u64 } #[verifier::external_body] pub struct Pairs { x: u64 } #[verifier::external_body] pub struct Cgka { x: u64 } #[verifier::external_body] pub struct ContentSet { x: u64 }
/// prekey operations of an individual; keys of a store; members of a set of content
pub uninterp spec fn iops(i: Individual) -> Set<KeyOp>;
pub uninterp spec fn pkeys(p: Pairs) -> Set<ShareKey>;
pub uninterp spec fn cset(c: ContentSet) -> Set<Content>;
pub uninterp spec fn cops(c: Cgka) -> Set<Signed<CgkaOperation>>;
pub uninterp spec fn orderly(c: Cgka) -> bool;
pub uninterp spec fn sks(c: Cgka) -> Set<ShareKey>;
/// P09, P17: merging individuals keeps the operations of both
impl Individual { #[verifier::external_body] pub fn merge(&mut self, o: Individual) ensures iops(*final(self)) == iops(*old(self)).union(iops(o)) { unimplemented!() }
    pub fn merge_async(&mut self, o: Individual) ensures iops(*final(self)) == iops(*old(self)).union(iops(o)) { self.merge(o) }
    #[verifier::external_body] pub fn prekey_op_list(&self) -> (r: Vec<Arc<KeyOp>>) ensures forall|k: KeyOp| #[trigger] iops(*self).contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == k { unimplemented!() } }
impl Pairs { #[verifier::external_body] pub fn extend(&mut self, o: Pairs) ensures pkeys(*final(self)) == pkeys(*old(self)).union(pkeys(o)) { unimplemented!() } }
impl ContentSet { #[verifier::external_body] pub fn extend(&mut self, o: ContentSet) ensures cset(*final(self)) == cset(*old(self)).union(cset(o)) { unimplemented!() } }
pub struct CgkaError;
#[verifier::external_body] pub struct Sks { x: u64 } pub uninterp spec fn skset(s: Sks) -> Set<ShareKey>;
impl Cgka {
    /// P14, P21: all operations, in epochs
    #[verifier::external_body] pub fn ops(&self) -> (r: Result<Vec<Vec<Arc<Signed<CgkaOperation>>>>, CgkaError>) ensures r == ops_res(*self), orderly(*self) ==> r is Ok, r is Ok ==> lists_ops(r->Ok_0@, cops(*self)) { unimplemented!() }
    #[verifier::external_body] pub fn owner_sks(&self) -> (r: Sks) ensures skset(r) == sks(*self) { unimplemented!() }
    #[verifier::external_body] pub fn extend_owner_sks(&mut self, s: Sks) ensures sks(*final(self)) == sks(*old(self)).union(skset(s)), cops(*final(self)) == cops(*old(self)) { unimplemented!() } }
pub uninterp spec fn ops_res(c: Cgka) -> Result<Vec<Vec<Arc<Signed<CgkaOperation>>>>, CgkaError>;
pub open spec fn lists_ops(v: Seq<Vec<Arc<Signed<CgkaOperation>>>>, s: Set<Signed<CgkaOperation>>) -> bool { forall|o: Signed<CgkaOperation>| #[trigger] s.contains(o) ==> exists|i: int, j: int| 0 <= i < v.len() && 0 <= j < v[i]@.len() && *(#[trigger] v[i]@[j]) == o }
/// std: iter().flat_map(|e| e.iter())
#[verifier::external_body] pub fn flat<T>(v: &Vec<Vec<Arc<T>>>) -> (r: Vec<Arc<T>>) ensures forall|i: int, j: int| 0 <= i < v@.len() && 0 <= j < v@[i]@.len() ==> r@.contains(#[trigger] v@[i]@[j]) { unimplemented!() }
pub enum IdOrIndividual { GroupId(GroupId), Individual(Individual) }
pub struct GroupArchive { pub id_or_indie: IdOrIndividual }
pub struct DocumentArchive { pub group: GroupArchive, pub content_heads: ContentSet, pub content_state: ContentSet, pub cgka: Option<Cgka> }
pub struct Document { pub content_heads: ContentSet, pub content_state: ContentSet, pub cgka: Option<Cgka> }
impl Document { #[verifier::external_body] pub fn cgka_mut(&mut self) -> (r: Result<&mut Cgka, CgkaError>) ensures r is Ok == old(self).cgka is Some, final(self).content_heads == old(self).content_heads, final(self).content_state == old(self).content_state,
    r is Err ==> *final(self) == *old(self), r is Ok ==> *(r->Ok_0) == old(self).cgka->0 && final(self).cgka == Some(*final(r->Ok_0)) { unimplemented!() } }
pub struct ActiveArchive { pub prekey_pairs: Pairs, pub individual: Individual }
pub struct Active { pub prekey_pairs: Pairs, pub individual: Individual }
pub struct Archive { pub active: ActiveArchive, pub topsorted_ops: Vec<(Dg, StaticMembershipOperation)>, pub individuals: HashMap<IndividualId, Individual>, pub groups: HashMap<GroupId, GroupArchive>, pub docs: HashMap<DocumentId, DocumentArchive>, pub pending_events: Vec<StaticEvent> }
pub struct Keyhive { pub active: Active, pub individuals: HashMap<IndividualId, Individual>, pub docs: HashMap<DocumentId, Document>, pub took: Ghost<Set<StaticEvent>> }
pub struct ReceiveStaticEventError;
/// nothing is lost
pub open spec fn doc_kept(a: Document, b: Document) -> bool { cset(a.content_heads).subset_of(cset(b.content_heads)) && cset(a.content_state).subset_of(cset(b.content_state)) && (a.cgka is Some ==> b.cgka is Some && sks(a.cgka->0).subset_of(sks(b.cgka->0)) && cops(a.cgka->0).subset_of(cops(b.cgka->0))) }
pub open spec fn grown(a: Keyhive, b: Keyhive) -> bool {
    &&& pkeys(a.active.prekey_pairs).subset_of(pkeys(b.active.prekey_pairs)) && iops(a.active.individual).subset_of(iops(b.active.individual))
    &&& forall|i: IndividualId| #[trigger] a.individuals@.dom().contains(i) ==> b.individuals@.dom().contains(i) && iops(a.individuals@[i]).subset_of(iops(b.individuals@[i]))
    &&& forall|i: DocumentId| #[trigger] a.docs@.dom().contains(i) ==> b.docs@.dom().contains(i) && doc_kept(a.docs@[i], b.docs@[i])
    &&& a.took@.subset_of(b.took@)
}
pub open spec fn founder_in(g: GroupArchive, s: Set<StaticEvent>) -> bool { g.id_or_indie is Individual ==> forall|o: KeyOp| #[trigger] iops(g.id_or_indie->Individual_0).contains(o) ==> s.contains(key_event(o)) }
pub open spec fn cgka_in(d: DocumentArchive, s: Set<StaticEvent>) -> bool { d.cgka is Some && orderly(d.cgka->0) ==> forall|o: Signed<CgkaOperation>| #[trigger] cops(d.cgka->0).contains(o) ==> s.contains(StaticEvent::CgkaOperation(Box::new(o))) }
pub open spec fn doc_in(d: DocumentArchive, b: Document) -> bool { cset(d.content_heads).subset_of(cset(b.content_heads)) && cset(d.content_state).subset_of(cset(b.content_state)) && (d.cgka is Some && b.cgka is Some ==> sks(d.cgka->0).subset_of(sks(b.cgka->0))) }
/// everything of the archive has been taken in: it has taken effect, or waits for what it needs (P07)
pub open spec fn absorbed(a: Archive, b: Keyhive) -> bool {
    &&& pkeys(a.active.prekey_pairs).subset_of(pkeys(b.active.prekey_pairs)) && iops(a.active.individual).subset_of(iops(b.active.individual))
    &&& indies_in(a.individuals@, b.individuals@)
    &&& forall|i: int| 0 <= i < a.topsorted_ops@.len() ==> b.took@.contains(event_of((#[trigger] a.topsorted_ops@[i]).1))
    &&& forall|i: int| 0 <= i < a.pending_events@.len() ==> b.took@.contains(#[trigger] a.pending_events@[i])
    &&& forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) ==> founder_in(a.groups@[g], b.took@)
    &&& forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) ==> founder_in(a.docs@[g].group, b.took@) && cgka_in(a.docs@[g], b.took@) && (b.docs@.dom().contains(g) ==> doc_in(a.docs@[g], b.docs@[g]))
}
pub open spec fn indies_in(a: Map<IndividualId, Individual>, b: Map<IndividualId, Individual>) -> bool { forall|i: IndividualId| #[trigger] a.dom().contains(i) ==> b.dom().contains(i) && iops(a[i]).subset_of(iops(b[i])) }
impl Keyhive {
    /// P07 (ingest.ingest): what is offered has taken effect afterwards or is pending, and what was there stays
    #[verifier::external_body] pub fn ingest_unsorted_static_events(&mut self, events: Vec<StaticEvent>) -> (r: Vec<Arc<StaticEvent>>) ensures grown(*old(self), *final(self)), events@.to_set().subset_of(final(self).took@) { unimplemented!() } }
#[verifier::external_body] pub fn owned<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>) ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1, forall|k: K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
    forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && (#[trigger] r@[i]).0 == (#[trigger] r@[j]).0 ==> i == j { unimplemented!() }
#[verifier::external_body] pub fn vals<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<&'a V>) ensures forall|k: K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == m@[k] { unimplemented!() }
#[verifier::external_body] pub fn map_get_mut<'a, K: std::hash::Hash + Eq, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    ensures r is Some == old(m)@.dom().contains(*k), r is None ==> final(m)@ == old(m)@, r is Some ==> *(r->0) == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(r->0)) { unimplemented!() }
#[verifier::external_body] pub fn map_into<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>) requires forall|a: A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn opt_map<A, B, F: Fn(A) -> B>(v: Option<A>, f: F) -> (r: Option<B>) requires forall|a: A| f.requires((a,)) ensures r is Some == v is Some, r is Some ==> f.ensures((v->0,), r->0) { unimplemented!() }
/// std: v.extend(l.map(f)): everything there, and f of everything in l
#[verifier::external_body] pub fn extend_map<A, F: Fn(&Arc<A>) -> StaticEvent>(v: &mut Vec<StaticEvent>, l: Vec<Arc<A>>, f: F) requires forall|a: &Arc<A>| f.requires((a,))
    ensures old(v)@.to_set().subset_of(final(v)@.to_set()),
        forall|a: Arc<A>| #[trigger] l@.contains(a) ==> exists|b: StaticEvent| #[trigger] f.ensures((&a,), b) && final(v)@.to_set().contains(b) { unimplemented!() }
#[verifier::external_body] pub fn extend_ev(v: &mut Vec<StaticEvent>, l: Vec<StaticEvent>) ensures final(v)@ == old(v)@ + l@ { unimplemented!() }
#[verifier::external_body] pub fn chain_vals<'a>(m: &'a HashMap<GroupId, GroupArchive>, d: Vec<&'a GroupArchive>) -> (r: Vec<&'a GroupArchive>) ensures forall|g: GroupId| #[trigger] m@.dom().contains(g) ==> r@.contains(&m@[g]), forall|g: &GroupArchive| #[trigger] d@.contains(g) ==> r@.contains(g) { unimplemented!() }
#[verifier::external_body] pub fn map_vals<'a, F: Fn(&'a DocumentArchive) -> &'a GroupArchive>(m: &'a HashMap<DocumentId, DocumentArchive>, f: F) -> (r: Vec<&'a GroupArchive>) requires forall|a: &DocumentArchive| f.requires((a,)), forall|a: &DocumentArchive, g: &GroupArchive| f.ensures((a,), g) ==> *g == a.group
    ensures forall|g: DocumentId| #[trigger] m@.dom().contains(g) ==> r@.contains(&m@[g].group) { unimplemented!() }
"""
M_AX = ("ax_identifier::key_model", "ax_groupid::key_model", "ax_documentid::key_model", "ax_individualid::key_model")
MPRE = core.std(*M_AX) + receive.BASE + receive.KEYOP + receive.IDS + receive.OPS + MTYPES
KHM = "grown(k0, *self)"
merge_fns = [
    Fn(KH, "Keyhive", "ingest_archive", """pub fn ingest_archive(&mut self, archive: Archive) -> (r: Result<Vec<Arc<StaticEvent>>, ReceiveStaticEventError>)
        ensures r is Ok, grown(*old(self), *final(self)), absorbed(archive, *final(self))""", ["self", "archive"],
       [("tracing::debug!($x);", ""), ("let locked_active = self.active.lock();", ""), ("locked_active.prekey_pairs.lock()", "self.active.prekey_pairs"), ("locked_active.individual.lock()", "self.active.individual"),
        ("for (id, indie) in archive.individuals {", "let ghost act = self.active; for (id, indie) in owned(archive.individuals) {", "must"),
        ("let mut locked_indies = self.individuals.lock();", "let ghost m1 = self.individuals@; let locked_indies = &mut self.individuals;", "must"),
        ("locked_indies.get_mut(&id)", "map_get_mut(locked_indies, &id)", "must"), ("Arc::new(Mutex::new(indie))", "indie"),
        ("archive.topsorted_ops.into_iter().map(|(_, op)| $x).collect::<Vec<_>>();", "map_into(archive.topsorted_ops, |x: (Dg, StaticMembershipOperation)| -> (r: StaticEvent) ensures r == event_of(x.1) { let (_, op) = x; $x }); let ghost e1 = events@; proof { first_in(ar.topsorted_ops@, e1); }", "must"),
        ("archive.docs.values().map(|doc| $x);", "map_vals(&archive.docs, |doc: &DocumentArchive| -> (r: &GroupArchive) ensures *r == doc.group { $x });", "must"),
        ("for group in archive.groups.values().chain(archived_docs)", "for group in chain_vals(&archive.groups, archived_docs)"), ("for group in archive.groups.values() {", "for group in vals(&archive.groups) {"), ("for group in archived_docs {", "for group in archived_docs {"),
        ("events.extend(indie.prekey_ops().values().map(|op| $x));", "({ let l = indie.prekey_op_list(); let ghost l0 = l@; extend_map(&mut events, l, |op: &Arc<KeyOp>| -> (r: StaticEvent) ensures r == key_event(**op) { $x }); proof { founder(*indie, l0, events@.to_set()); } });", "must"),
        ("for doc in archive.docs.values() {", "for doc in vals(&archive.docs) {", "must"),
        ("doc.cgka.as_ref().map(Cgka::ops)", "opt_map(doc.cgka.as_ref(), |c: &Cgka| -> (r: Result<Vec<Vec<Arc<Signed<CgkaOperation>>>>, CgkaError>) ensures r == ops_res(*c), orderly(*c) ==> r is Ok, r is Ok ==> lists_ops(r->Ok_0@, cops(*c)) { Cgka::ops(c) })", "must"),
        ("events.extend(epochs.iter().flat_map(|epoch| epoch.iter()).map(|op| $x),);", "({ let l = flat(&epochs); let ghost l0 = l@; extend_map(&mut events, l, |op: &Arc<Signed<CgkaOperation>>| -> (r: StaticEvent) ensures r == StaticEvent::CgkaOperation(Box::new(**op)) { $x }); proof { oplist(epochs@, l0, cops(doc.cgka->0), events@.to_set()); } });", "must"),
        ("events.extend(archive.pending_events);", "let ghost e3 = events@; extend_ev(&mut events, archive.pending_events); proof { last_in(e3, ar.pending_events@); }"),
        ("let pending = $x;", "let ghost e4 = events@; let ghost k3 = *self; let pending = $x; let ghost k4 = *self; proof { grown_trans(k0, k3, k4); indies_more(ar.individuals@, k3.individuals@, k4.individuals@); took_all(ar, e1, e4, k4); }", "must"),
        ("for (doc_id, doc_archive) in archive.docs {", "for (doc_id, doc_archive) in owned(archive.docs) {", "must"),
        ("let Some(doc) = self.get_document(doc_id) else { continue; }; let mut locked_doc = doc.lock();", "let ghost d0 = self.docs@; if let Some(locked_doc) = map_get_mut(&mut self.docs, &doc_id) { let ghost da = doc_archive;", "must"),
        ("if let (Ok(cgka), Some(archived)) = (locked_doc.cgka_mut(), &doc_archive.cgka) { cgka.owner_sks_mut().extend(archived.owner_sks()); }", "if let Ok(cgka) = locked_doc.cgka_mut() { if let Some(archived) = &doc_archive.cgka { cgka.extend_owner_sks(archived.owner_sks()); } } }", "must"),
        ],
       loops=[("for", "it", """invariant """ + KHM + """, self.docs@ == k0.docs@, self.took@ == k0.took@, self.active == act, forall|i: int| 0 <= i < it.seq().len() ==> ar.individuals@.dom().contains((#[trigger] it.seq()[i]).0) && ar.individuals@[it.seq()[i].0] == it.seq()[i].1,
                forall|k: IndividualId| #[trigger] ar.individuals@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
                forall|i: int| 0 <= i < it.index@ ==> self.individuals@.dom().contains((#[trigger] it.seq()[i]).0) && iops(it.seq()[i].1).subset_of(iops(self.individuals@[it.seq()[i].0])),
                it.index@ == it.seq().len() ==> indies_in(ar.individuals@, self.individuals@)""", "", ""),
              ("for", "it", """invariant forall|i: int| 0 <= i < it.index@ ==> founder_in(*#[trigger] it.seq()[i], events@.to_set()), e1.to_set().subset_of(events@.to_set()),
                forall|g: GroupId| #[trigger] archive.groups@.dom().contains(g) ==> it.seq().contains(&archive.groups@[g]), forall|g: DocumentId| #[trigger] archive.docs@.dom().contains(g) ==> it.seq().contains(&archive.docs@[g].group),
                it.index@ == it.seq().len() ==> founders_in(archive.groups@, archive.docs@, events@.to_set())""", "", "proof { founders_all(archive.groups@, archive.docs@, it.seq(), it.index@ + 1, events@.to_set()); }"),
              ("for", "it", """invariant founders_in(archive.groups@, archive.docs@, events@.to_set()), e1.to_set().subset_of(events@.to_set()), forall|i: int| 0 <= i < it.index@ ==> cgka_in(*#[trigger] it.seq()[i], events@.to_set()),
                forall|k: DocumentId| #[trigger] archive.docs@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]) == archive.docs@[k],
                it.index@ == it.seq().len() ==> cgkas_in(archive.docs@, events@.to_set())""", "", ""),
              ("for", "it", """invariant grown(k0, *self), self.took@ == k4.took@, self.active == k4.active, self.individuals@ == k4.individuals@, forall|i: int| 0 <= i < it.seq().len() ==> ar.docs@.dom().contains((#[trigger] it.seq()[i]).0) && ar.docs@[it.seq()[i].0] == it.seq()[i].1,
                forall|k: DocumentId| #[trigger] ar.docs@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
                forall|i: int, j: int| 0 <= i < it.seq().len() && 0 <= j < it.seq().len() && (#[trigger] it.seq()[i]).0 == (#[trigger] it.seq()[j]).0 ==> i == j,
                forall|i: int| 0 <= i < it.index@ ==> (self.docs@.dom().contains((#[trigger] it.seq()[i]).0) ==> doc_in(it.seq()[i].1, self.docs@[it.seq()[i].0])),
                it.index@ == it.seq().len() ==> docs_in(ar.docs@, self.docs@)""", "", "")],
       pre="let ghost ar = archive; let ghost k0 = *self;", wrap="impl Keyhive"),
]
MLEM = r"""
pub open spec fn founders_in(g: Map<GroupId, GroupArchive>, d: Map<DocumentId, DocumentArchive>, s: Set<StaticEvent>) -> bool { (forall|i: GroupId| #[trigger] g.dom().contains(i) ==> founder_in(g[i], s)) && forall|i: DocumentId| #[trigger] d.dom().contains(i) ==> founder_in(d[i].group, s) }
pub open spec fn cgkas_in(d: Map<DocumentId, DocumentArchive>, s: Set<StaticEvent>) -> bool { forall|i: DocumentId| #[trigger] d.dom().contains(i) ==> cgka_in(d[i], s) }
pub open spec fn docs_in(a: Map<DocumentId, DocumentArchive>, b: Map<DocumentId, Document>) -> bool { forall|i: DocumentId| #[trigger] a.dom().contains(i) && b.dom().contains(i) ==> doc_in(a[i], b[i]) }
pub proof fn founders_all(g: Map<GroupId, GroupArchive>, d: Map<DocumentId, DocumentArchive>, l: Seq<&GroupArchive>, n: int, s: Set<StaticEvent>)
    requires forall|i: int| 0 <= i < n ==> founder_in(*#[trigger] l[i], s), forall|k: GroupId| #[trigger] g.dom().contains(k) ==> l.contains(&g[k]), forall|k: DocumentId| #[trigger] d.dom().contains(k) ==> l.contains(&d[k].group)
    ensures n == l.len() ==> founders_in(g, d, s)
{ if n == l.len() { assert forall|k: GroupId| #[trigger] g.dom().contains(k) implies founder_in(g[k], s) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == &g[k]; assert(founder_in(*l[i], s)); }
    assert forall|k: DocumentId| #[trigger] d.dom().contains(k) implies founder_in(d[k].group, s) by { let i = choose|i: int| 0 <= i < l.len() && l[i] == &d[k].group; assert(founder_in(*l[i], s)); } } }
pub proof fn founder(i: Individual, l: Seq<Arc<KeyOp>>, s: Set<StaticEvent>)
    requires forall|k: KeyOp| #[trigger] iops(i).contains(k) ==> exists|j: int| 0 <= j < l.len() && *(#[trigger] l[j]) == k, forall|a: Arc<KeyOp>| #[trigger] l.contains(a) ==> s.contains(key_event(*a))
    ensures forall|o: KeyOp| #[trigger] iops(i).contains(o) ==> s.contains(key_event(o))
{ assert forall|o: KeyOp| #[trigger] iops(i).contains(o) implies s.contains(key_event(o)) by { let j = choose|j: int| 0 <= j < l.len() && *(#[trigger] l[j]) == o; assert(l.contains(l[j])); } }
pub proof fn oplist(e: Seq<Vec<Arc<Signed<CgkaOperation>>>>, l: Seq<Arc<Signed<CgkaOperation>>>, c: Set<Signed<CgkaOperation>>, s: Set<StaticEvent>)
    requires lists_ops(e, c), forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e[i]@.len() ==> l.contains(#[trigger] e[i]@[j]), forall|a: Arc<Signed<CgkaOperation>>| #[trigger] l.contains(a) ==> s.contains(StaticEvent::CgkaOperation(Box::new(*a)))
    ensures forall|o: Signed<CgkaOperation>| #[trigger] c.contains(o) ==> s.contains(StaticEvent::CgkaOperation(Box::new(o)))
{ assert forall|o: Signed<CgkaOperation>| #[trigger] c.contains(o) implies s.contains(StaticEvent::CgkaOperation(Box::new(o))) by { let (i, j) = choose|i: int, j: int| 0 <= i < e.len() && 0 <= j < e[i]@.len() && *(#[trigger] e[i]@[j]) == o; assert(l.contains(e[i]@[j])); } }
pub proof fn first_in(t: Seq<(Dg, StaticMembershipOperation)>, e: Seq<StaticEvent>) requires e.len() == t.len(), forall|i: int| 0 <= i < t.len() ==> (#[trigger] e[i]) == event_of(t[i].1)
    ensures forall|i: int| 0 <= i < t.len() ==> e.to_set().contains(event_of((#[trigger] t[i]).1)) { assert forall|i: int| 0 <= i < t.len() implies e.to_set().contains(event_of((#[trigger] t[i]).1)) by { assert(e[i] == event_of(t[i].1)); assert(e.contains(e[i])); } }
pub proof fn last_in(e: Seq<StaticEvent>, p: Seq<StaticEvent>) ensures e.to_set().subset_of((e + p).to_set()), forall|i: int| 0 <= i < p.len() ==> (e + p).to_set().contains(#[trigger] p[i])
{ assert forall|x: StaticEvent| e.to_set().contains(x) implies (e + p).to_set().contains(x) by { let i = choose|i: int| 0 <= i < e.len() && e[i] == x; assert((e + p)[i] == x); } assert forall|i: int| 0 <= i < p.len() implies (e + p).to_set().contains(#[trigger] p[i]) by { assert((e + p)[e.len() + i] == p[i]); } }
pub proof fn grown_trans(a: Keyhive, b: Keyhive, c: Keyhive) requires grown(a, b), grown(b, c) ensures grown(a, c)
{ assert forall|i: DocumentId| #[trigger] a.docs@.dom().contains(i) implies c.docs@.dom().contains(i) && doc_kept(a.docs@[i], c.docs@[i]) by { assert(b.docs@.dom().contains(i)); } assert forall|i: IndividualId| #[trigger] a.individuals@.dom().contains(i) implies c.individuals@.dom().contains(i) && iops(a.individuals@[i]).subset_of(iops(c.individuals@[i])) by { assert(b.individuals@.dom().contains(i)); } }
pub proof fn indies_more(a: Map<IndividualId, Individual>, b: Map<IndividualId, Individual>, c: Map<IndividualId, Individual>) requires indies_in(a, b), indies_in(b, c) ensures indies_in(a, c) {}
pub proof fn took_all(a: Archive, e1: Seq<StaticEvent>, e: Seq<StaticEvent>, k: Keyhive)
    requires e.to_set().subset_of(k.took@), e1.to_set().subset_of(e.to_set()), forall|i: int| 0 <= i < a.topsorted_ops@.len() ==> e1.to_set().contains(event_of((#[trigger] a.topsorted_ops@[i]).1)), forall|i: int| 0 <= i < a.pending_events@.len() ==> e.to_set().contains(#[trigger] a.pending_events@[i]), founders_in(a.groups@, a.docs@, e.to_set()), cgkas_in(a.docs@, e.to_set())
    ensures forall|i: int| 0 <= i < a.topsorted_ops@.len() ==> k.took@.contains(event_of((#[trigger] a.topsorted_ops@[i]).1)), forall|i: int| 0 <= i < a.pending_events@.len() ==> k.took@.contains(#[trigger] a.pending_events@[i]),
        forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) ==> founder_in(a.groups@[g], k.took@), forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) ==> founder_in(a.docs@[g].group, k.took@) && cgka_in(a.docs@[g], k.took@)
{ assert forall|g: GroupId| #[trigger] a.groups@.dom().contains(g) implies founder_in(a.groups@[g], k.took@) by { assert(founder_in(a.groups@[g], e.to_set())); }
  assert forall|g: DocumentId| #[trigger] a.docs@.dom().contains(g) implies founder_in(a.docs@[g].group, k.took@) && cgka_in(a.docs@[g], k.took@) by { assert(founder_in(a.docs@[g].group, e.to_set())); assert(cgka_in(a.docs@[g], e.to_set())); } }
"""
merge = Unit("merge_archive", MPRE + MLEM, merge_fns)
