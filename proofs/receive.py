"""P01: whatever a replica receives, only operations whose signature verifies reach anything that changes its state."""
from vp.verus import Fn, Unit
from . import core

SG = "keyhive_crypto/src/signed.rs"
KH = "keyhive_core/src/keyhive.rs"
OP = "keyhive_core/src/principal/individual/op.rs"
CC = "keyhive_core/src/contact_card.rs"
DL = "keyhive_core/src/principal/group/delegation.rs"
RV = "keyhive_core/src/principal/group/revocation.rs"

BASE = core.opaque("Key") + core.opaque("Signature") + r"""
pub struct VerificationError; pub struct SerialError; pub struct SigError;
impl From<SerialError> for VerificationError { #[verifier::external_body] fn from(e: SerialError) -> Self { unimplemented!() } }
impl From<SigError> for VerificationError { #[verifier::external_body] fn from(e: SigError) -> Self { unimplemented!() } }
/// ed25519: the signature is one of the key over exactly these bytes
pub uninterp spec fn sig_valid(k: Key, b: Seq<u8>, s: Signature) -> bool;
/// bincode: the bytes a payload stands for
pub uninterp spec fn enc<T>(v: T) -> Seq<u8>;
#[verifier::external_body] pub fn ser<T>(v: &T) -> (r: Result<Vec<u8>, SerialError>) ensures r is Ok ==> r->Ok_0@ == enc(*v) { unimplemented!() }
impl Key {
    #[verifier::external_body] pub fn verify(&self, b: &[u8], s: &Signature) -> (r: Result<(), SigError>) ensures r is Ok == sig_valid(*self, b@, *s) { unimplemented!() }
    #[verifier::external_body] pub fn verify_strict(&self, b: &[u8], s: &Signature) -> (r: Result<(), SigError>) ensures r is Ok ==> sig_valid(*self, b@, *s) { unimplemented!() }
}
pub struct Signed<T> { pub payload: T, pub issuer: Key, pub signature: Signature }
/// P01: the signature verifies under the stated issuer for exactly the stated content
pub open spec fn genuine<T>(d: Signed<T>) -> bool { sig_valid(d.issuer, enc(d.payload), d.signature) }
"""
signed_fns = [
    Fn(SG, "Signed", "issuer", "pub fn issuer(&self) -> (r: &Key) ensures *r == self.issuer", ["self"], wrap="impl<T> Signed<T>"),
    Fn(SG, "Signed", "payload", "pub fn payload(&self) -> (r: &T) ensures *r == self.payload", ["self"], wrap="impl<T> Signed<T>"),
    Fn(SG, "Verifiable for Signed", "verifying_key", "pub fn verifying_key(&self) -> (r: Key) ensures r == self.issuer", ["self"], wrap="impl<T> Signed<T>"),
    Fn(SG, "Signed", "try_verify", "pub fn try_verify(&self) -> (r: Result<(), VerificationError>) ensures r is Ok ==> genuine(*self), genuine(*self) && r is Err ==> true", ["self"],
       [("bincode::serialize(&self.payload)", "ser(&self.payload)"), (".as_slice()", ".as_slice()")], wrap="impl<T> Signed<T>"),
    Fn(SG, "Signed", "new", "pub fn new(payload: T, issuer: Key, signature: Signature) -> (r: Self) ensures r.payload == payload, r.issuer == issuer, r.signature == signature", ["payload", "issuer", "signature"],
       [("digest_hash: OnceLock::new(),", ""), ("let _ = signed.digest();", "")], wrap="impl<T> Signed<T>"),
]

KEYOP = r"""
pub struct AddKeyOp; pub struct RotateKeyOp;
pub enum KeyOp { Add(Arc<Signed<AddKeyOp>>), Rotate(Arc<Signed<RotateKeyOp>>) }
impl Clone for KeyOp { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub open spec fn key_genuine(k: KeyOp) -> bool { match k { KeyOp::Add(a) => genuine(*a), KeyOp::Rotate(a) => genuine(*a) } }
pub open spec fn key_issuer(k: KeyOp) -> Key { match k { KeyOp::Add(a) => a.issuer, KeyOp::Rotate(a) => a.issuer } }
pub struct ContactCard(pub KeyOp);
"""
key_fns = [
    Fn(OP, "KeyOp", "try_verify", "pub fn try_verify(&self) -> (r: Result<(), VerificationError>) ensures r is Ok ==> key_genuine(*self)", ["self"], wrap="impl KeyOp"),
    Fn(OP, "KeyOp", "issuer", "pub fn issuer(&self) -> (r: &Key) ensures *r == key_issuer(*self)", ["self"], wrap="impl KeyOp"),
    Fn(CC, "ContactCard", "op", "pub fn op(&self) -> (r: &KeyOp) ensures *r == self.0", ["self"], wrap="impl ContactCard"),
    Fn(CC, "ContactCard", "id", "pub fn id(&self) -> (r: IndividualId) ensures r.0.0 == key_issuer(self.0)", ["self"], [("self.0.issuer().into()", "IndividualId(Identifier(*self.0.issuer()))")], wrap="impl ContactCard"),
]

IDS = r"""
#[derive(Clone, Copy)] pub struct Identifier(pub Key);
#[derive(Clone, Copy)] pub struct GroupId(pub Identifier);
#[derive(Clone, Copy)] pub struct DocumentId(pub Identifier);
#[derive(Clone, Copy)] pub struct IndividualId(pub Identifier);
""" + "".join(core.eq_struct(n) + f"""
impl std::hash::Hash for {n} {{ #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) {{ unimplemented!() }} }}
pub mod ax_{n.lower()} {{ use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<{n}>(); }}
""" for n in ("Identifier", "GroupId", "DocumentId", "IndividualId")) + r"""
macro_rules! conv { ($a:ty, $b:ty, $x:ident, $e:expr) => { verus!{ impl FromSpecImpl<$a> for $b { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec($x: $a) -> $b { $e } } impl From<$a> for $b { fn from($x: $a) -> (r: $b) ensures r == $e { $e } } } } }
conv!(Arc<Signed<AddKeyOp>>, KeyOp, k, KeyOp::Add(k));
conv!(Arc<Signed<RotateKeyOp>>, KeyOp, k, KeyOp::Rotate(k));
conv!(Key, Identifier, k, Identifier(k));
conv!(Identifier, IndividualId, k, IndividualId(k));
conv!(Identifier, GroupId, k, GroupId(k));
conv!(Identifier, DocumentId, k, DocumentId(k));
conv!(IndividualId, Identifier, k, k.0);
conv!(GroupId, Identifier, k, k.0);
conv!(DocumentId, Identifier, k, k.0);
"""

OPS = core.opaque("Dg") + core.opaque("Content") + core.opaque("ShareKey") + core.opaque("ShareSecretKey") + r"""
#[derive(Clone, Copy)] pub enum Access { Relay, Read, Edit, Admin }
pub trait Dupe: Sized { fn dupe(&self) -> (r: Self) ensures r == *self; }
impl<T> Dupe for Arc<T> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl Dupe for KeyOp { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl Dg { #[verifier::external_body] pub fn coerce(&self) -> (r: Dg) ensures r == *self { unimplemented!() } }
pub struct StaticDelegation { pub can: Access, pub proof: Option<Dg>, pub delegate: Identifier, pub after_revocations: Vec<Dg>, pub after_content: Content }
pub struct StaticRevocation { pub revoke: Dg, pub proof: Option<Dg>, pub after_content: Content }
pub struct Delegation { pub delegate: Agent, pub can: Access, pub proof: Option<Arc<Signed<Delegation>>>, pub after_revocations: Vec<Arc<Signed<Revocation>>>, pub after_content: Content }
pub struct Revocation { pub revoke: Arc<Signed<Delegation>>, pub proof: Option<Arc<Signed<Delegation>>>, pub after_content: Content }
/// the digest of an operation; the full form serialises as its static form
pub uninterp spec fn dg_sd(d: Signed<StaticDelegation>) -> Dg;
pub uninterp spec fn dg_sr(d: Signed<StaticRevocation>) -> Dg;
pub uninterp spec fn dg_d(d: Signed<Delegation>) -> Dg;
pub uninterp spec fn dg_r(d: Signed<Revocation>) -> Dg;
#[verifier::external_body] pub fn hash_sd(d: &Signed<StaticDelegation>) -> (r: Dg) ensures r == dg_sd(*d) { unimplemented!() }
#[verifier::external_body] pub fn hash_sr(d: &Signed<StaticRevocation>) -> (r: Dg) ensures r == dg_sr(*d) { unimplemented!() }
pub open spec fn opt_dg(p: Option<Arc<Signed<Delegation>>>) -> Option<Dg> { match p { Some(x) => Some(dg_d(*x)), None => None } }
pub open spec fn digs(s: Seq<Arc<Signed<Revocation>>>) -> Seq<Dg> { s.map_values(|x: Arc<Signed<Revocation>>| dg_r(*x)) }
/// what the static form of a delegation says is what the full form says
pub open spec fn says_d(d: Delegation, s: StaticDelegation) -> bool { s.can == d.can && s.proof == opt_dg(d.proof) && s.delegate == agent_id(d.delegate) && s.after_revocations@ == digs(d.after_revocations@) && s.after_content == d.after_content }
pub open spec fn says_r(d: Revocation, s: StaticRevocation) -> bool { s.revoke == dg_d(*d.revoke) && s.proof == opt_dg(d.proof) && s.after_content == d.after_content }
/// P01 for resolved operations: they stand for a static form whose signature verifies
pub open spec fn genuine_d(d: Signed<Delegation>) -> bool { exists|s: Signed<StaticDelegation>| #[trigger] genuine(s) && s.issuer == d.issuer && s.signature == d.signature && says_d(d.payload, s.payload) }
pub open spec fn genuine_r(d: Signed<Revocation>) -> bool { exists|s: Signed<StaticRevocation>| #[trigger] genuine(s) && s.issuer == d.issuer && s.signature == d.signature && says_r(d.payload, s.payload) }
pub uninterp spec fn root_id(d: Signed<Delegation>) -> Identifier;
impl Signed<Delegation> { #[verifier::external_body] pub fn subject_id(&self) -> (r: Identifier) ensures r == root_id(*self) { unimplemented!() } }
impl Signed<Revocation> { #[verifier::external_body] pub fn subject_id(&self) -> (r: Identifier) ensures r == root_id(*self.payload.revoke) { unimplemented!() } }
#[derive(Clone, Copy)] pub struct TreeId(pub Identifier);
#[derive(Clone, Copy)] pub struct MemberId(pub Identifier);
conv!(TreeId, DocumentId, k, DocumentId(k.0));
conv!(MemberId, IndividualId, k, IndividualId(k.0));
pub struct Preds; pub struct Change;
pub enum CgkaOperation { Add { added_id: MemberId, pk: ShareKey, leaf_index: u32, predecessors: Preds, add_predecessors: Preds, doc_id: TreeId }, Remove { id: MemberId, leaf_idx: u32, removed_keys: Vec<ShareKey>, predecessors: Preds, doc_id: TreeId }, Update { id: MemberId, new_path: Change, predecessors: Preds, doc_id: TreeId } }
impl CgkaOperation { #[verifier::external_body] pub fn doc_id(&self) -> (r: &TreeId) { unimplemented!() } }
"""

WORLD = r"""
/// handles of shared state. Everything that changes what is behind one asks for a genuine operation.
#[verifier::external_body] pub struct ActiveH { x: u64 } #[verifier::external_body] pub struct IndieH { x: u64 } #[verifier::external_body] pub struct GroupH { x: u64 } #[verifier::external_body] pub struct DocH { x: u64 }
impl Dupe for ActiveH { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } } impl Dupe for IndieH { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl Dupe for GroupH { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } } impl Dupe for DocH { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
pub enum Agent { Active(IndividualId, ActiveH), Individual(IndividualId, IndieH), Group(GroupId, GroupH), Document(DocumentId, DocH) }
pub open spec fn agent_id(a: Agent) -> Identifier { match a { Agent::Active(i, _) => i.0, Agent::Individual(i, _) => i.0, Agent::Group(i, _) => i.0, Agent::Document(i, _) => i.0 } }
pub struct Lk<T>(pub T);
impl<T> Lk<T> { pub fn lock(&mut self) -> (r: &mut T) ensures *r == old(self).0, *final(r) == final(self).0 { &mut self.0 } }
#[verifier::external_body] pub struct DelegationStore { x: u64 } #[verifier::external_body] pub struct RevocationStore { x: u64 }
impl DelegationStore { pub uninterp spec fn view(&self) -> Map<Dg, Arc<Signed<Delegation>>>;
    #[verifier::external_body] pub fn contains_key(&self, k: &Dg) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Dg) -> (r: Option<Arc<Signed<Delegation>>>) ensures r is Some == self.view().dom().contains(*k), r is Some ==> r->0 == self.view()[*k] { unimplemented!() } }
impl RevocationStore { pub uninterp spec fn view(&self) -> Map<Dg, Arc<Signed<Revocation>>>;
    #[verifier::external_body] pub fn contains_key(&self, k: &Dg) -> (r: bool) ensures r == self.view().dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Dg) -> (r: Option<Arc<Signed<Revocation>>>) ensures r is Some == self.view().dom().contains(*k), r is Some ==> r->0 == self.view()[*k] { unimplemented!() } }
/// the stores are keyed by digest (P17) and hold only genuine operations: whatever is put into them came through here, or was made and signed here
pub open spec fn stocked(k: Keyhive) -> bool {
    &&& forall|h: Dg| #[trigger] k.delegations.0.view().dom().contains(h) ==> dg_d(*k.delegations.0.view()[h]) == h && genuine_d(*k.delegations.0.view()[h])
    &&& forall|h: Dg| #[trigger] k.revocations.0.view().dom().contains(h) ==> dg_r(*k.revocations.0.view()[h]) == h && genuine_r(*k.revocations.0.view()[h])
}
/// digests do not collide
pub axiom fn same_digest_d(a: Signed<StaticDelegation>) ensures forall|b: Signed<Delegation>| #[trigger] dg_d(b) == dg_sd(a) && genuine_d(b) ==> genuine(a);
pub axiom fn same_digest_r(a: Signed<StaticRevocation>) ensures forall|b: Signed<Revocation>| #[trigger] dg_r(b) == dg_sr(a) && genuine_r(b) ==> genuine(a);
pub struct ReceivePrekeyOpError; pub struct AddError; pub struct CgkaError;
pub enum StaticEventConversionError { MissingDelegation(Dg), MissingRevocation(Dg), UnknownAgent(Identifier) }
pub struct MissingDependency(pub Dg);
#[verifier::external_body] pub struct ReceiveStaticDelegationError { x: u64 }
pub enum ReceiveCgkaOpError { CgkaError(CgkaError), VerificationError(VerificationError), UnknownDocument(DocumentId), UnknownInvitePrekey(ShareKey) }
#[verifier::external_body] pub struct ReceiveStaticEventError { x: u64 }
macro_rules! err { ($a:ty, $b:ty) => { verus!{ impl From<$a> for $b { #[verifier::external_body] fn from(e: $a) -> Self { unimplemented!() } } } } }
err!(VerificationError, ReceivePrekeyOpError); err!(VerificationError, ReceiveStaticDelegationError); err!(VerificationError, ReceiveCgkaOpError); err!(StaticEventConversionError, ReceiveStaticDelegationError); err!(MissingDependency, ReceiveStaticDelegationError);
err!(AddError, ReceiveStaticDelegationError); err!(CgkaError, ReceiveStaticDelegationError); err!(CgkaError, ReceiveCgkaOpError); err!(ReceivePrekeyOpError, ReceiveStaticEventError); err!(ReceiveStaticDelegationError, ReceiveStaticEventError); err!(ReceiveCgkaOpError, ReceiveStaticEventError);
/// what is behind the handles
#[verifier::external_body] pub struct Individual { x: u64 }
impl Individual {
    #[verifier::external_body] pub fn new(op: KeyOp) -> Individual requires key_genuine(op) { unimplemented!() }
    #[verifier::external_body] pub fn from(c: &ContactCard) -> Individual requires key_genuine(c.0) { unimplemented!() }
    #[verifier::external_body] pub fn receive_prekey_op(&mut self, op: KeyOp) -> Result<(), ReceivePrekeyOpError> requires key_genuine(op) { unimplemented!() }
    #[verifier::external_body] pub fn id(&self) -> IndividualId { unimplemented!() } }
pub enum IdOrIndividual { GroupId(GroupId), Individual(Individual) }
pub struct Active { pub individual: IndieH, pub prekey_pairs: Pairs, pub signer: u64 }
impl Active { #[verifier::external_body] pub fn id(&self) -> IndividualId { unimplemented!() } }
#[verifier::external_body] pub struct Pairs { x: u64 } #[verifier::external_body] pub struct PairsG { x: u64 }
impl Pairs { #[verifier::external_body] pub fn lock(&self) -> PairsG { unimplemented!() } } impl PairsG { #[verifier::external_body] pub fn get(&self, k: &ShareKey) -> Option<&ShareSecretKey> { unimplemented!() } }
pub struct Group { pub id_or_indie: IdOrIndividual }
impl Group {
    #[verifier::external_body] pub fn new(id: GroupId, d: Arc<Signed<Delegation>>, a: DelegationsH, b: RevocationsH, l: Listener) -> Group requires genuine_d(*d) { unimplemented!() }
    #[verifier::external_body] pub fn group_id(&self) -> GroupId { unimplemented!() }
    #[verifier::external_body] pub fn receive_delegation(&mut self, d: Arc<Signed<Delegation>>) -> Result<Dg, AddError> requires genuine_d(*d) { unimplemented!() }
    #[verifier::external_body] pub fn receive_revocation(&mut self, d: Arc<Signed<Revocation>>) -> Result<Dg, AddError> requires genuine_r(*d) { unimplemented!() } }
pub struct Document { pub group: Group }
#[verifier::external_body] pub struct CgkaRef { x: u64 }
#[verifier::external_body] pub struct Heads { x: u64 }
impl Document {
    #[verifier::external_body] pub fn from_group(g: Group, c: Heads) -> Result<Document, CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn doc_id(&self) -> DocumentId { unimplemented!() }
    #[verifier::external_body] pub fn cgka(&self) -> Result<CgkaRef, CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn receive_delegation(&mut self, d: Arc<Signed<Delegation>>) -> Result<Dg, AddError> requires genuine_d(*d) { unimplemented!() }
    #[verifier::external_body] pub fn receive_revocation(&mut self, d: Arc<Signed<Revocation>>) -> Result<Dg, AddError> requires genuine_r(*d) { unimplemented!() }
    #[verifier::external_body] pub fn merge_cgka_op(&mut self, d: Arc<Signed<CgkaOperation>>) -> Result<bool, CgkaError> requires genuine(*d) { unimplemented!() }
    #[verifier::external_body] pub fn merge_cgka_invite_op(&mut self, d: Arc<Signed<CgkaOperation>>, sk: &ShareSecretKey) -> Result<bool, CgkaError> requires genuine(*d) { unimplemented!() }
    /// `why`: the operation on account of which
    #[verifier::external_body] pub fn reset_cgka_owner(&mut self, i: IndividualId, why: &Arc<Signed<CgkaOperation>>) -> Result<(), CgkaError> requires genuine(**why) { unimplemented!() } }
impl ActiveH { #[verifier::external_body] pub fn lock(&self) -> Active { unimplemented!() } } impl IndieH { #[verifier::external_body] pub fn lock(&self) -> Individual { unimplemented!() } #[verifier::external_body] pub fn wrap(i: Individual) -> IndieH { unimplemented!() } }
impl GroupH { #[verifier::external_body] pub fn lock(&self) -> Group { unimplemented!() } #[verifier::external_body] pub fn wrap(i: Group) -> GroupH { unimplemented!() } } impl DocH { #[verifier::external_body] pub fn lock(&self) -> Document { unimplemented!() } #[verifier::external_body] pub fn wrap(i: Document) -> DocH { unimplemented!() } }
#[verifier::external_body] pub struct DelegationsH { x: u64 } #[verifier::external_body] pub struct RevocationsH { x: u64 }
impl Lk<DelegationStore> { #[verifier::external_body] pub fn dupe(&self) -> DelegationsH { unimplemented!() } } impl Lk<RevocationStore> { #[verifier::external_body] pub fn dupe(&self) -> RevocationsH { unimplemented!() } }
/// what is passed on to listeners is genuine, too
#[verifier::external_body] pub struct Listener { x: u64 }
impl Listener {
    #[verifier::external_body] pub fn clone(&self) -> Listener { unimplemented!() }
    #[verifier::external_body] pub fn on_prekeys_expanded(&self, a: &Arc<Signed<AddKeyOp>>) requires genuine(**a) { unimplemented!() }
    #[verifier::external_body] pub fn on_prekey_rotated(&self, a: &Arc<Signed<RotateKeyOp>>) requires genuine(**a) { unimplemented!() }
    #[verifier::external_body] pub fn on_cgka_op(&self, a: &Arc<Signed<CgkaOperation>>) requires genuine(**a) { unimplemented!() } }
pub struct Keyhive { pub active: ActiveH, pub individuals: Lk<HashMap<IndividualId, IndieH>>, pub groups: Lk<HashMap<GroupId, GroupH>>, pub docs: Lk<HashMap<DocumentId, DocH>>, pub delegations: Lk<DelegationStore>, pub revocations: Lk<RevocationStore>, pub event_listener: Listener }
pub trait Duped<T> { fn duped(self) -> (r: Option<T>); }
impl Duped<IndieH> for Option<&IndieH> { #[verifier::external_body] fn duped(self) -> (r: Option<IndieH>) ensures r is Some == self is Some, self is Some ==> r->0 == *(self->0) { unimplemented!() } }
impl Duped<GroupH> for Option<&GroupH> { #[verifier::external_body] fn duped(self) -> (r: Option<GroupH>) ensures r is Some == self is Some, self is Some ==> r->0 == *(self->0) { unimplemented!() } }
impl Duped<DocH> for Option<&DocH> { #[verifier::external_body] fn duped(self) -> (r: Option<DocH>) ensures r is Some == self is Some, self is Some ==> r->0 == *(self->0) { unimplemented!() } }
#[verifier::external_body] pub fn public_id() -> Identifier { unimplemented!() }
#[verifier::external_body] pub fn public_sk() -> ShareSecretKey { unimplemented!() }
#[verifier::external_body] pub fn heads_for(d: &Content, k: &Identifier) -> Option<Heads> { unimplemented!() }
pub enum StaticMembershipOperation { Delegation(Signed<StaticDelegation>), Revocation(Signed<StaticRevocation>) }
pub enum StaticEvent { PrekeysExpanded(Box<Signed<AddKeyOp>>), PrekeyRotated(Box<Signed<RotateKeyOp>>), CgkaOperation(Box<Signed<CgkaOperation>>), Delegated(Signed<StaticDelegation>), Revoked(Signed<StaticRevocation>) }
pub open spec fn event_genuine(e: StaticEvent) -> bool { match e { StaticEvent::PrekeysExpanded(a) => genuine(*a), StaticEvent::PrekeyRotated(a) => genuine(*a), StaticEvent::CgkaOperation(a) => genuine(*a), StaticEvent::Delegated(a) => genuine(a), StaticEvent::Revoked(a) => genuine(a) } }
impl Content { #[verifier::external_body] pub fn dup(&self) -> (r: Content) ensures r == *self { unimplemented!() } }
"""
RW = [("Arc::new(Mutex::new(Individual::$$f($$x)))", "IndieH::wrap(Individual::$$f($$x))"), ("Arc::new(Mutex::new(doc))", "DocH::wrap(doc)"), ("Arc::new(Mutex::new(Group::$x))", "GroupH::wrap(Group::$x)"), ("Arc::new(Mutex::new(group))", "GroupH::wrap(group)"), ("Arc::new(Mutex::new(Individual::new($x)))", "IndieH::wrap(Individual::new($x))"), ("Arc::new(Mutex::new(Individual::from($x)))", "IndieH::wrap(Individual::from($x))"),
      ("Digest::hash(static_dlg)", "hash_sd(static_dlg)"), ("Digest::hash(static_rev)", "hash_sr(static_rev)"), ("Public.id()", "public_id()"), ("Public.individual().id()", "IndividualId(public_id())"), ("Public.share_secret_key()", "public_sk()"),
      ("reset_cgka_owner($$x)", "reset_cgka_owner($$x, &signed_op)"),
      (".after_content.get(&subject_id.into()).and_then($x)", ".after_content.heads(&subject_id)"),
      ("GroupId::new($$x)", "GroupId($$x)"), ("drop($x);", ""),
      (".ok_or(MissingDependency($x))?", ".ok_or(MissingDependency($x))?")]
CONV = "Arc<Signed<Delegation<F, S, T, L>>>"
same = "*final(self) == *old(self)"


def K(name, sig, params, rw=(), **k):
    return Fn(KH, "Keyhive", name, sig, params, list(rw) + RW, wrap="impl Keyhive", **k)


kh_fns = [
    K("get_individual", f"pub fn get_individual(&mut self, id: IndividualId) -> (r: Option<IndieH>) ensures {same}", ["self", "id"]),
    K("register_individual", "pub fn register_individual(&mut self, individual: IndieH) -> (r: bool) ensures final(self).delegations == old(self).delegations, final(self).revocations == old(self).revocations, final(self).groups == old(self).groups, final(self).docs == old(self).docs, final(self).active == old(self).active", ["self", "individual"]),
    K("get_agent", f"pub fn get_agent(&mut self, id: Identifier) -> (r: Option<Agent>) ensures {same}, r is Some ==> agent_id(r->0) == id", ["self", "id"],
      [("let indie_id = id.into();", "let indie_id: IndividualId = id.into();")]),
    K("static_delegation_to_delegation", f"pub fn static_delegation_to_delegation(&mut self, static_dlg: &Signed<StaticDelegation>) -> (r: Result<Delegation, StaticEventConversionError>) requires stocked(*old(self)) ensures {same}, r is Ok ==> says_d(r->Ok_0, static_dlg.payload)", ["self", "static_dlg"],
      [("Option<Arc<Signed<Delegation<F, S, T, L>>>>", "Option<Arc<Signed<Delegation>>>"), ("Agent<F, S, T, L>", "Agent"), (".after_content.clone()", ".after_content.dup()"), ("let mut after_revocations = Vec::new();", "let mut after_revocations: Vec<Arc<Signed<Revocation>>> = Vec::new();")],
      loops=[("for", "it", "invariant *self == *old(self), stocked(*self), it.seq().map_values(|x: &Dg| *x) == static_dlg.payload.after_revocations@, digs(after_revocations@) == static_dlg.payload.after_revocations@.take(it.index@ as int), it.index@ == it.seq().len() ==> digs(after_revocations@) == static_dlg.payload.after_revocations@", "let ghost a0 = after_revocations@;",
              "proof { let s = static_dlg.payload.after_revocations@; assert(it.seq().len() == s.len()); assert(after_revocations@.drop_last() =~= a0); assert(digs(after_revocations@) =~= s.take(it.index@ as int + 1)) by { assert(digs(a0).len() == a0.len()); assert forall|i: int| 0 <= i < after_revocations@.len() implies digs(after_revocations@)[i] == s[i] by { if i < a0.len() { assert(digs(a0)[i] == s.take(it.index@ as int)[i]); } } } if it.index@ as int + 1 == s.len() { assert(s.take(it.index@ as int + 1) =~= s); } }")]),
    K("static_revocation_to_revocation", f"pub fn static_revocation_to_revocation(&mut self, static_rev: &Signed<StaticRevocation>) -> (r: Result<Revocation, StaticEventConversionError>) requires stocked(*old(self)) ensures {same}, r is Ok ==> says_r(r->Ok_0, static_rev.payload) && genuine_d(*r->Ok_0.revoke)", ["self", "static_rev"],
      [("Option<Arc<Signed<Delegation<F, S, T, L>>>>", "Option<Arc<Signed<Delegation>>>"), (CONV, "Arc<Signed<Delegation>>"), (".after_content.clone()", ".after_content.dup()")]),
    K("receive_prekey_op", f"pub fn receive_prekey_op(&mut self, key_op: &KeyOp) -> (r: Result<(), ReceivePrekeyOpError>) requires stocked(*old(self)) ensures !key_genuine(*key_op) ==> r is Err && {same}, stocked(*final(self))", ["self", "key_op"]),
    K("receive_contact_card", f"pub fn receive_contact_card(&mut self, contact_card: &ContactCard) -> (r: Result<IndieH, ReceivePrekeyOpError>) requires stocked(*old(self)) ensures !key_genuine(contact_card.0) ==> r is Err && {same}, stocked(*final(self))", ["self", "contact_card"]),
    K("receive_delegation", f"pub fn receive_delegation(&mut self, static_dlg: &Signed<StaticDelegation>) -> (r: Result<(), ReceiveStaticDelegationError>) requires stocked(*old(self)) ensures !genuine(*static_dlg) ==> r is Err && {same}, stocked(*final(self))", ["self", "static_dlg"], pre="proof { same_digest_d(*static_dlg); }",
      rw=[("let mut after_revocations = Vec::new();", "let mut after_revocations: Vec<Arc<Signed<Revocation>>> = Vec::new();")],
      loops=[("for", "it", "invariant *self == *old(self), stocked(*self), genuine(*static_dlg)", "", "")]),
    K("receive_revocation", f"pub fn receive_revocation(&mut self, static_rev: &Signed<StaticRevocation>) -> (r: Result<(), ReceiveStaticDelegationError>) requires stocked(*old(self)) ensures !genuine(*static_rev) ==> r is Err && {same}, stocked(*final(self))", ["self", "static_rev"], pre="proof { same_digest_r(*static_rev); }"),
    K("receive_membership_op", f"pub fn receive_membership_op(&mut self, static_op: &StaticMembershipOperation) -> (r: Result<(), ReceiveStaticDelegationError>) requires stocked(*old(self)) ensures !(match *static_op {{ StaticMembershipOperation::Delegation(d) => genuine(d), StaticMembershipOperation::Revocation(d) => genuine(d) }}) ==> r is Err && {same}, stocked(*final(self))", ["self", "static_op"]),
    K("receive_cgka_op", f"pub fn receive_cgka_op(&mut self, signed_op: Signed<CgkaOperation>) -> (r: Result<(), ReceiveCgkaOpError>) requires stocked(*old(self)) ensures !genuine(signed_op) ==> r is Err && {same}, stocked(*final(self))", ["self", "signed_op"]),
    K("receive_static_event", f"pub fn receive_static_event(&mut self, static_event: StaticEvent) -> (r: Result<(), ReceiveStaticEventError>) requires stocked(*old(self)) ensures !event_genuine(static_event) ==> r is Err && {same}, stocked(*final(self))", ["self", "static_event"]),
]
PROM = r"""
impl Keyhive { #[verifier::external_body] pub fn promote_individual_to_group(&mut self, i: IndieH, d: Arc<Signed<Delegation>>) -> GroupH requires genuine_d(*d) ensures stocked(*old(self)) ==> stocked(*final(self)) { unimplemented!() } }
impl Content { #[verifier::external_body] pub fn heads(&self, k: &Identifier) -> Option<Heads> { unimplemented!() } }
"""
receive = Unit("receive", core.std(*[f"ax_{n}::key_model" for n in ("identifier", "groupid", "documentid", "individualid")]) + BASE + KEYOP + IDS + OPS + WORLD + PROM, signed_fns + key_fns + kh_fns)
