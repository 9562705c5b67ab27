"""P09, P10: prekeys: what is advertised, what is picked, who holds the secrets, in which order they are exported."""
from vp.verus import Fn, Unit
from . import core, stores

ST, IN, OP, AC = "keyhive_core/src/principal/individual/state.rs", "keyhive_core/src/principal/individual.rs", "keyhive_core/src/principal/individual/op.rs", "keyhive_core/src/principal/active.rs"
KEYOP = core.hashkey("ShareKey") + core.opaque("Key") + core.opaque("Signature") + r"""
pub struct Signed<P> { pub payload: P, pub issuer: Key, pub signature: Signature }
/// the signature checks out for payload and issuer
pub uninterp spec fn genuine<P>(s: Signed<P>) -> bool;
#[derive(Debug)] pub enum VerificationError { Bad }
impl<P> Signed<P> {
    #[verifier::external_body] pub fn try_verify(&self) -> (r: Result<(), VerificationError>) ensures r is Ok == genuine(*self) { unimplemented!() }
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.issuer { self.issuer }
}
#[derive(Clone, Copy)] pub struct AddKeyOp { pub share_key: ShareKey }
#[derive(Clone, Copy)] pub struct RotateKeyOp { pub old: ShareKey, pub new: ShareKey }
pub enum KeyOp { Add(Arc<Signed<AddKeyOp>>), Rotate(Arc<Signed<RotateKeyOp>>) }
impl Dupe for KeyOp { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
pub open spec fn newk(o: KeyOp) -> ShareKey { match o { KeyOp::Add(a) => a.payload.share_key, KeyOp::Rotate(r) => r.payload.new } }
pub open spec fn oldk(o: KeyOp) -> Option<ShareKey> { match o { KeyOp::Add(a) => None, KeyOp::Rotate(r) => Some(r.payload.old) } }
pub open spec fn by(o: KeyOp) -> Key { match o { KeyOp::Add(a) => a.issuer, KeyOp::Rotate(r) => r.issuer } }
pub open spec fn op_genuine(o: KeyOp) -> bool { match o { KeyOp::Add(a) => genuine(*a), KeyOp::Rotate(r) => genuine(*r) } }
/// what arrives over the wire carries both kinds' issuers
impl KeyOp { pub open spec fn signed_by(self, k: Key) -> bool { op_genuine(self) && by(self) == k } }
pub type Ops = Map<Digest<KeyOp>, Arc<KeyOp>>;
pub open spec fn hasop(m: Ops, o: KeyOp) -> bool { m.dom().contains(h(o)) }
/// std: the values of a map: each one, once
pub open spec fn listed(s: Seq<Arc<KeyOp>>, m: Ops) -> bool {
    &&& s.no_duplicates()
    &&& forall|i: int| 0 <= i < s.len() ==> hasop(m, *(#[trigger] s[i]))
    &&& forall|o: KeyOp| #[trigger] hasop(m, o) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == o
}
pub uninterp spec fn listing(c: CaMap<KeyOp>) -> Seq<Arc<KeyOp>>;
impl CaMap<KeyOp> {
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<Arc<KeyOp>>) ensures listed(r@, self@), r@ == listing(*self), r@.len() <= usize::MAX { unimplemented!() }
}
"""
F = lambda path, ty, name, sig, params, rw=(), wrap=None, **k: Fn(path, ty, name, sig, params, rewrites=list(rw), wrap=wrap or (f"impl {ty}" if ty else None), **k)
OPFNS = [
    F(OP, "KeyOp", "new_key", "pub fn new_key(&self) -> (r: &ShareKey) ensures *r == newk(*self)", ["self"]),
    F(OP, "KeyOp", "try_verify", "pub fn try_verify(&self) -> (r: Result<(), VerificationError>) ensures r is Ok == op_genuine(*self)", ["self"]),
    F(OP, "Verifiable for KeyOp", "verifying_key", "pub fn verifying_key(&self) -> (r: Key) ensures r == by(*self)", ["self"], [("ed25519_dalek::VerifyingKey", "Key")], wrap="impl KeyOp"),
    F(OP, "KeyOp", "issuer", "pub fn issuer(&self) -> (r: &Key) ensures *r == by(*self)", ["self"]),
]
STATE = r"""
pub struct PrekeyState { pub ops: CaMap<KeyOp> }
pub open spec fn introduced(m: Ops, k: ShareKey) -> bool { exists|o: KeyOp| #[trigger] hasop(m, o) && newk(o) == k }
pub open spec fn replaced(m: Ops, k: ShareKey) -> bool { exists|o: KeyOp| #[trigger] hasop(m, o) && oldk(o) == Some(k) }
pub open spec fn current(m: Ops, k: ShareKey) -> bool { introduced(m, k) && !replaced(m, k) }
/// the keys introduced and not rotated away; all of them should none be left
pub open spec fn advertised(m: Ops, k: ShareKey) -> bool { introduced(m, k) && ((exists|j: ShareKey| #[trigger] current(m, j)) ==> !replaced(m, k)) }
pub open spec fn builds(m: Ops, s: Set<ShareKey>) -> bool { forall|k: ShareKey| #[trigger] s.contains(k) <==> advertised(m, k) }
/// the first `n` operations introduce, replace
pub open spec fn among_new(s: Seq<Arc<KeyOp>>, n: int, k: ShareKey) -> bool { exists|i: int| 0 <= i < n && newk(*(#[trigger] s[i])) == k }
pub open spec fn among_old(s: Seq<Arc<KeyOp>>, n: int, k: ShareKey) -> bool { exists|i: int| 0 <= i < n && oldk(*(#[trigger] s[i])) == Some(k) }
pub proof fn new_step(s: Seq<Arc<KeyOp>>, n: int) requires 0 <= n < s.len() ensures forall|k: ShareKey| #[trigger] among_new(s, n + 1, k) <==> among_new(s, n, k) || newk(*s[n]) == k, forall|k: ShareKey| #[trigger] among_old(s, n + 1, k) <==> among_old(s, n, k) || oldk(*s[n]) == Some(k)
{
    assert forall|k: ShareKey| #[trigger] among_new(s, n + 1, k) <==> among_new(s, n, k) || newk(*s[n]) == k by { if among_new(s, n, k) { let i = choose|i: int| 0 <= i < n && newk(*(#[trigger] s[i])) == k; assert(0 <= i < n + 1 && newk(*s[i]) == k); } if newk(*s[n]) == k { assert(0 <= n < n + 1 && newk(*s[n]) == k); } }
    assert forall|k: ShareKey| #[trigger] among_old(s, n + 1, k) <==> among_old(s, n, k) || oldk(*s[n]) == Some(k) by { if among_old(s, n, k) { let i = choose|i: int| 0 <= i < n && oldk(*(#[trigger] s[i])) == Some(k); assert(0 <= i < n + 1 && oldk(*s[i]) == Some(k)); } if oldk(*s[n]) == Some(k) { assert(0 <= n < n + 1 && oldk(*s[n]) == Some(k)); } }
}
pub proof fn all_listed(s: Seq<Arc<KeyOp>>, m: Ops) requires listed(s, m) ensures forall|k: ShareKey| #[trigger] among_new(s, s.len() as int, k) <==> introduced(m, k), forall|k: ShareKey| #[trigger] among_old(s, s.len() as int, k) <==> replaced(m, k)
{
    assert forall|k: ShareKey| #[trigger] among_new(s, s.len() as int, k) <==> introduced(m, k) by {
        if among_new(s, s.len() as int, k) { let i = choose|i: int| 0 <= i < s.len() && newk(*(#[trigger] s[i])) == k; assert(hasop(m, *s[i])); }
        if introduced(m, k) { let o = choose|o: KeyOp| #[trigger] hasop(m, o) && newk(o) == k; let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == o; assert(newk(*s[i]) == k); } }
    assert forall|k: ShareKey| #[trigger] among_old(s, s.len() as int, k) <==> replaced(m, k) by {
        if among_old(s, s.len() as int, k) { let i = choose|i: int| 0 <= i < s.len() && oldk(*(#[trigger] s[i])) == Some(k); assert(hasop(m, *s[i])); }
        if replaced(m, k) { let o = choose|o: KeyOp| #[trigger] hasop(m, o) && oldk(o) == Some(k); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == o; assert(oldk(*s[i]) == Some(k)); } }
}
/// in whatever order the operations came: the same operations, the same keys
pub proof fn order_independent(m: Ops, s: Set<ShareKey>, t: Set<ShareKey>) requires builds(m, s), builds(m, t) ensures s == t
{ assert forall|k: ShareKey| s.contains(k) == t.contains(k) by { assert(s.contains(k) <==> advertised(m, k)); assert(t.contains(k) <==> advertised(m, k)); } assert(s =~= t); }
/// never empty
pub proof fn never_empty(m: Ops, s: Set<ShareKey>, o: KeyOp) requires builds(m, s), hasop(m, o) ensures s.len() > 0
{
    let k = newk(o); assert(introduced(m, k));
    if exists|j: ShareKey| #[trigger] current(m, j) { let j = choose|j: ShareKey| #[trigger] current(m, j); assert(s.contains(j) <==> advertised(m, j)); assert(s.contains(j)); assert(s.remove(j).len() < s.len()); }
    else { assert(s.contains(k) <==> advertised(m, k)); assert(s.remove(k).len() < s.len()); }
}
/// std
#[verifier::external_body] pub fn no_keys(s: &HashSet<ShareKey>) -> (r: bool) ensures r == (forall|k: ShareKey| !(#[trigger] s@.contains(k))) { unimplemented!() }
pub open spec fn swf(p: PrekeyState) -> bool { addressed(p.ops@) }
pub open spec fn plus(a: Ops, b: Ops, o: KeyOp) -> bool { forall|x: KeyOp| #[trigger] hasop(b, x) <==> hasop(a, x) || x == o }
pub open spec fn all_by(m: Ops, k: Key) -> bool { forall|o: KeyOp| #[trigger] hasop(m, o) ==> op_genuine(o) && by(o) == k }
pub proof fn added(a: Ops, o: KeyOp, v: Arc<KeyOp>) requires *v == o ensures plus(a, a.insert(h(o), v), o)
{ assert forall|x: KeyOp| #[trigger] hasop(a.insert(h(o), v), x) <==> hasop(a, x) || x == o by { if h(x) == h(o) { assert(x == o); } } }
pub open spec fn both(a: Ops, b: Ops, c: Ops) -> bool { forall|x: KeyOp| #[trigger] hasop(c, x) <==> hasop(a, x) || hasop(b, x) }
"""
ITER = ["keys@.finite()"]
BUILD_INV = """invariant listed(it.seq(), self.ops@), forall|k: ShareKey| #[trigger] keys@.contains(k) <==> among_new(it.seq(), it.index@ as int, k),
   forall|k: ShareKey| #[trigger] to_drop@.contains(k) <==> among_old(it.seq(), it.index@ as int, k), it.index@ == it.seq().len() ==> (forall|k: ShareKey| #[trigger] keys@.contains(k) <==> introduced(self.ops@, k)) && (forall|k: ShareKey| #[trigger] replaced(self.ops@, k) <==> to_drop@.contains(k))"""
SF = lambda *a, **k: F(ST, "PrekeyState", *a, **k)
state_fns = OPFNS + [
    SF("new", "pub fn new(initial_op: KeyOp) -> (r: Self) ensures swf(r), r.ops@.dom().len() == 1, forall|x: KeyOp| #[trigger] hasop(r.ops@, x) <==> x == initial_op", ["initial_op"], [("Self { ops }", "({ proof { added(Map::empty(), initial_op, ops@[h(initial_op)]); } Self { ops } })")]),
    SF("ops", "pub fn ops(&self) -> (r: &CaMap<KeyOp>) ensures *r == self.ops", ["self"]),
    SF("insert_op", "pub fn insert_op(&mut self, op: KeyOp) -> (r: Result<(), VerificationError>) ensures r is Ok == op_genuine(op), r is Err ==> *final(self) == *old(self), r is Ok ==> plus(old(self).ops@, final(self).ops@, op), swf(*old(self)) ==> swf(*final(self))", ["self", "op"],
       pre="let ghost m0 = self.ops@; let ghost o = op;", rw=[("Ok(())", "({ proof { added(m0, o, self.ops@[h(o)]); } Ok(()) })")]),
    SF("all_keys", "pub fn all_keys(&self) -> (r: HashSet<ShareKey>) ensures forall|k: ShareKey| #[trigger] r@.contains(k) <==> introduced(self.ops@, k)", ["self"],
       [("self.ops.values().map(|$$op| $e).collect()", "({ let mut out: HashSet<ShareKey> = HashSet::new(); for $$op in self.ops.values() { out.insert($e); } out })", "must")],
       loops=[("for", "it", "invariant listed(it.seq(), self.ops@), forall|k: ShareKey| #[trigger] out@.contains(k) <==> among_new(it.seq(), it.index@ as int, k), it.index@ == it.seq().len() ==> forall|k: ShareKey| #[trigger] out@.contains(k) <==> introduced(self.ops@, k)",
               "", "proof { new_step(it.seq(), it.index@ as int); all_listed(it.seq(), self.ops@); }")],
       ),
    SF("contains_share_key", "pub fn contains_share_key(&self, key: &ShareKey) -> (r: bool) ensures r == introduced(self.ops@, *key)", ["self", "key"],
       [("self.ops.values().any(|$$op| $a == $b)", "({ let mut hit = false; for $$op in self.ops.values() { if *($a) == *($b) { hit = true; } } hit })", "must")],
       loops=[("for", "it", "invariant listed(it.seq(), self.ops@), hit <==> among_new(it.seq(), it.index@ as int, *key), it.index@ == it.seq().len() ==> hit == introduced(self.ops@, *key)", "", "proof { new_step(it.seq(), it.index@ as int); all_listed(it.seq(), self.ops@); }")]),
    SF("build", "pub fn build(&self) -> (r: HashSet<ShareKey>) ensures builds(self.ops@, r@)", ["self"],
       [("HashSet::with_capacity($x)", "HashSet::new()"), ("Vec::with_capacity($x)", "Vec::new()"), ("keys.is_empty()", "({ proof { built(self.ops@, keys@); } no_keys(&keys) })")],
       loops=[("for", "it", BUILD_INV, "let ghost dr = to_drop@;", "proof { new_step(it.seq(), it.index@ as int); all_listed(it.seq(), self.ops@); pushed(dr, to_drop@); }"),
              ("for", "it2", "invariant (forall|k: ShareKey| #[trigger] replaced(self.ops@, k) <==> it2.seq().contains(k)), forall|k: ShareKey| #[trigger] keys@.contains(k) <==> introduced(self.ops@, k) && !among(it2.seq(), it2.index@ as int, k), it2.index@ == it2.seq().len() ==> forall|k: ShareKey| #[trigger] keys@.contains(k) <==> current(self.ops@, k)",
               "", "proof { among_step(it2.seq(), it2.index@ as int); all_among(it2.seq()); }")]),
    SF("extend", "pub fn extend(&mut self, iterable: Vec<KeyOp>) -> (r: Result<(), VerificationError>) ensures swf(*old(self)) ==> swf(*final(self)), forall|x: KeyOp| #[trigger] hasop(old(self).ops@, x) ==> hasop(final(self).ops@, x), forall|x: KeyOp| #[trigger] hasop(final(self).ops@, x) ==> hasop(old(self).ops@, x) || (iterable@.contains(x) && op_genuine(x)), r is Ok ==> forall|x: KeyOp| #[trigger] iterable@.contains(x) ==> hasop(final(self).ops@, x), r is Err ==> exists|i: int| 0 <= i < iterable@.len() && !op_genuine(#[trigger] iterable@[i])", ["self", "iterable"], 
       pre="let ghost m0 = *self;",
       loops=[("for", "it", "invariant m0 == *old(self), iterable@ == it.seq(), swf(m0) ==> swf(*self), forall|x: KeyOp| #[trigger] hasop(m0.ops@, x) ==> hasop(self.ops@, x), forall|x: KeyOp| #[trigger] hasop(self.ops@, x) ==> hasop(m0.ops@, x) || (it.seq().contains(x) && op_genuine(x)), forall|i: int| 0 <= i < it.index@ ==> hasop(self.ops@, #[trigger] it.seq()[i])", "proof { assert(it.seq().contains(op)); }", "")]),
    Fn(ST, "Merge for PrekeyState", "merge", "pub fn merge(&mut self, fork: Self) ensures both(old(self).ops@, fork.ops@, final(self).ops@), swf(*old(self)) && swf(fork) ==> swf(*final(self))", ["self", "fork"], rewrites=[], wrap="impl PrekeyState"),
]
STATE_LEM = r"""
pub proof fn built(m: Ops, s: Set<ShareKey>) requires forall|k: ShareKey| #[trigger] s.contains(k) <==> current(m, k)
    ensures (exists|k: ShareKey| #[trigger] s.contains(k)) ==> builds(m, s), (forall|k: ShareKey| !(#[trigger] s.contains(k))) ==> forall|t: Set<ShareKey>| (forall|k: ShareKey| #[trigger] t.contains(k) <==> introduced(m, k)) ==> #[trigger] builds(m, t)
{
    if exists|k: ShareKey| #[trigger] s.contains(k) { let k = choose|k: ShareKey| #[trigger] s.contains(k); assert(current(m, k)); assert forall|k: ShareKey| #[trigger] s.contains(k) <==> advertised(m, k) by { assert(s.contains(k) <==> current(m, k)); } }
    else { assert forall|k: ShareKey| !(#[trigger] current(m, k)) by { assert(!s.contains(k)); } }
}
pub proof fn pushed(a: Seq<ShareKey>, b: Seq<ShareKey>) ensures forall|x: ShareKey| b == a.push(x) ==> (forall|k: ShareKey| #[trigger] b.contains(k) <==> a.contains(k) || k == x)
{ assert forall|x: ShareKey| b == a.push(x) implies (forall|k: ShareKey| #[trigger] b.contains(k) <==> a.contains(k) || k == x) by { assert forall|k: ShareKey| #[trigger] b.contains(k) <==> a.contains(k) || k == x by { if a.contains(k) { let i = a.index_of(k); assert(b[i] == k); } assert(b[a.len() as int] == x); if b.contains(k) { let i = b.index_of(k); if i < a.len() { assert(a[i] == k); } } } } }
pub open spec fn among(s: Seq<ShareKey>, n: int, x: ShareKey) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub proof fn among_step(s: Seq<ShareKey>, n: int) requires 0 <= n < s.len() ensures forall|x: ShareKey| #[trigger] among(s, n + 1, x) <==> among(s, n, x) || x == s[n]
{ assert forall|x: ShareKey| #[trigger] among(s, n + 1, x) <==> among(s, n, x) || x == s[n] by { if among(s, n, x) { let i = choose|i: int| 0 <= i < n && #[trigger] s[i] == x; assert(0 <= i < n + 1 && s[i] == x); } assert(0 <= n < n + 1 && s[n] == s[n]); } }
pub proof fn all_among(s: Seq<ShareKey>) ensures forall|x: ShareKey| #[trigger] among(s, s.len() as int, x) <==> s.contains(x)
{ assert forall|x: ShareKey| #[trigger] among(s, s.len() as int, x) <==> s.contains(x) by { if s.contains(x) { let i = s.index_of(x); assert(s[i] == x); } } }
"""

OWN = core.opaque("DocumentId") + core.opaque("Rng") + core.hashkey("ShareSecretKey") + core.opaque("Listener") + r"""
#[derive(Clone, Copy)] pub struct IndividualId(pub Key);
pub uninterp spec fn key_bytes(k: Key) -> Seq<u8>;
pub uninterp spec fn doc_bytes(d: DocumentId) -> Seq<u8>;
pub uninterp spec fn own_doc(k: Key) -> DocumentId;
#[verifier::external_body] pub fn id_doc(i: IndividualId) -> (r: DocumentId) ensures r == own_doc(i.0) { unimplemented!() }
impl IndividualId { pub fn verifying_key(&self) -> (r: Key) ensures r == self.0 { self.0 } #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == key_bytes(self.0) { unimplemented!() } }
impl DocumentId { #[verifier::external_body] pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == doc_bytes(*self) { unimplemented!() } }
impl PartialEqSpecImpl for IndividualId { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for IndividualId { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
#[verifier::external_body] pub fn copy(b: &[u8]) -> (r: Vec<u8>) ensures r@ == b@ { unimplemented!() }
pub struct Individual { pub id: IndividualId, pub prekeys: HashSet<ShareKey>, pub prekey_state: PrekeyState }
pub enum ReceivePrekeyOpError { IncorrectSigner, VerificationError(VerificationError) }
impl FromSpecImpl<VerificationError> for ReceivePrekeyOpError { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(e: VerificationError) -> Self { ReceivePrekeyOpError::VerificationError(e) } }
impl From<VerificationError> for ReceivePrekeyOpError { fn from(e: VerificationError) -> Self { ReceivePrekeyOpError::VerificationError(e) } }
/// what an individual always is: the keys its own, genuine operations advertise
pub open spec fn iwf(i: Individual) -> bool { swf(i.prekey_state) && all_by(i.prekey_state.ops@, i.id.0) && builds(i.prekey_state.ops@, i.prekeys@) && exists|o: KeyOp| #[trigger] hasop(i.prekey_state.ops@, o) }
// ---- picking
/// some total order on keys
pub use ax_le::le;
pub mod ax_le { use super::*; pub uninterp spec fn le(a: ShareKey, b: ShareKey) -> bool; pub broadcast axiom fn antisym(a: ShareKey, b: ShareKey) ensures #[trigger] le(a, b) && #[trigger] le(b, a) ==> a == b; }
pub open spec fn in_order(s: Seq<&ShareKey>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> le(*(#[trigger] s[i]), *(#[trigger] s[j])) }
/// std: sorting a list rearranges it
#[verifier::external_body] pub fn sort_refs(v: &mut Vec<&ShareKey>) ensures in_order(final(v)@), final(v)@.len() == old(v)@.len(), deref(final(v)@).to_multiset() == deref(old(v)@).to_multiset() { unimplemented!() }
pub open spec fn deref(s: Seq<&ShareKey>) -> Seq<ShareKey> { s.map_values(|k: &ShareKey| *k) }
/// std: the elements of a set, each once
#[verifier::external_body] pub fn set_refs<'a>(s: &'a HashSet<ShareKey>) -> (r: Vec<&'a ShareKey>) ensures deref(r@).no_duplicates(), forall|k: ShareKey| #[trigger] s@.contains(k) <==> deref(r@).contains(k), r@.len() == s@.len() { unimplemented!() }
/// a set in order
pub open spec fn ordering(s: Set<ShareKey>, q: Seq<ShareKey>) -> bool { q.len() == s.len() && (forall|i: int, j: int| 0 <= i <= j < q.len() ==> le(#[trigger] q[i], #[trigger] q[j])) && q.no_duplicates() && forall|k: ShareKey| #[trigger] s.contains(k) <==> q.contains(k) }
/// there is one such list
pub proof fn one_ordering(s: Set<ShareKey>, p: Seq<ShareKey>, q: Seq<ShareKey>) requires ordering(s, p), ordering(s, q) ensures p == q
{
    assert forall|k: ShareKey| p.contains(k) == q.contains(k) by { assert(s.contains(k) == p.contains(k)); assert(s.contains(k) == q.contains(k)); }
    one_list(p, q);
}
proof fn one_list(p: Seq<ShareKey>, q: Seq<ShareKey>)
    requires p.len() == q.len(), p.no_duplicates(), q.no_duplicates(), forall|k: ShareKey| #[trigger] p.contains(k) == q.contains(k),
        forall|i: int, j: int| 0 <= i <= j < p.len() ==> le(#[trigger] p[i], #[trigger] p[j]), forall|i: int, j: int| 0 <= i <= j < q.len() ==> le(#[trigger] q[i], #[trigger] q[j])
    ensures p == q decreases p.len()
{
    if p.len() > 0 {
        let n = p.len() - 1; let a = p[n]; let b = q[n];
        assert(p.contains(a)); assert(q.contains(b)); assert(q.contains(a)); assert(p.contains(b));
        let i = q.index_of(a); let j = p.index_of(b); assert(le(q[i], q[n])); assert(le(p[j], p[n])); assert(le(a, b) && le(b, a)); assert(a == b);
        let p2 = p.drop_last(); let q2 = q.drop_last();
        assert forall|k: ShareKey| #[trigger] p2.contains(k) == q2.contains(k) by {
            if p2.contains(k) { let x = p2.index_of(k); assert(p[x] == k); assert(p.contains(k)); assert(q.contains(k)); let y = q.index_of(k); if y == n { assert(p[x] == p[n]); } assert(q2[y] == k); }
            if q2.contains(k) { let x = q2.index_of(k); assert(q[x] == k); assert(q.contains(k)); assert(p.contains(k)); let y = p.index_of(k); if y == n { assert(q[x] == q[n]); } assert(p2[y] == k); } }
        one_list(p2, q2); assert(p =~= p2.push(a)); assert(q =~= q2.push(b));
    }
}
/// the byte stream a seed expands to, in words
pub uninterp spec fn word(seed: Seq<u8>, n: nat) -> [u8; 8];
pub uninterp spec fn word_num(b: [u8; 8]) -> u64;
pub uninterp spec fn shl(x: u64, n: u32) -> Option<u64>;
pub uninterp spec fn native(x: usize) -> usize;
pub open spec fn clamped(b: [u8; 8], off: u8) -> usize { native((match shl(word_num(b), off as u32) { Some(x) => x, None => 0u64 }) as usize) }
#[verifier::external_body] pub fn from_be_bytes(b: [u8; 8]) -> (r: u64) ensures r == word_num(b) { unimplemented!() }
#[verifier::external_body] pub fn from_be(x: usize) -> (r: usize) ensures r == native(x) { unimplemented!() }
#[verifier::external_body] pub fn checked_shl(x: u64, n: u32) -> (r: Option<u64>) ensures r == shl(x, n) { unimplemented!() }
pub uninterp spec fn lg(x: usize) -> int;
/// std: at most 63 for a usize, none for zero
#[verifier::external_body] pub fn checked_ilog2(x: usize) -> (r: Option<u32>) ensures r is Some == (x > 0), r is Some ==> r->0 == lg(x) && 0 <= lg(x) < 64 { unimplemented!() }
#[verifier::external_body] pub fn narrow(x: u32) -> (r: u8) requires x < 256 ensures r == x { unimplemented!() }
pub fn at_least(x: usize, y: usize) -> (r: usize) ensures r == (if x >= y { x } else { y }) { if x >= y { x } else { y } }
#[verifier::external_body] pub struct Xof { x: u64 }
impl Xof { pub uninterp spec fn seed(&self) -> Seq<u8>; pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body] pub fn fill(&mut self, b: &mut [u8; 8]) ensures *final(b) == word(old(self).seed(), old(self).pos()), final(self).seed() == old(self).seed(), final(self).pos() == old(self).pos() + 1 { unimplemented!() } }
#[verifier::external_body] pub fn expand(seed: &[u8]) -> (r: Xof) ensures r.seed() == seed@, r.pos() == 0 { unimplemented!() }
pub open spec fn shift_of(max: usize) -> u8 { (64 - (if max > 0 { lg(max) } else { 0 })) as u8 }
/// the first word of the stream that falls into the range
pub open spec fn first_in_range(seed: Seq<u8>, max: usize, n: nat, r: usize) -> bool {
    r == clamped(word(seed, n), shift_of(max)) && r < (if max >= 1 { max } else { 1usize }) && forall|m: nat| m < n ==> !(#[trigger] clamped(word(seed, m), shift_of(max)) < (if max >= 1 { max } else { 1usize }))
}
pub open spec fn sampled(seed: Seq<u8>, max: usize, r: usize) -> bool { exists|n: nat| #[trigger] first_in_range(seed, max, n, r) }
pub proof fn one_sample(seed: Seq<u8>, max: usize, r: usize, t: usize) requires sampled(seed, max, r), sampled(seed, max, t) ensures r == t
{ let n = choose|n: nat| #[trigger] first_in_range(seed, max, n, r); let m = choose|m: nat| #[trigger] first_in_range(seed, max, m, t); if n < m { assert(!(clamped(word(seed, n), shift_of(max)) < (if max >= 1 { max } else { 1usize }))); } if m < n { assert(!(clamped(word(seed, m), shift_of(max)) < (if max >= 1 { max } else { 1usize }))); } assert(n == m); }
pub open spec fn picks(id: Key, d: DocumentId, s: Set<ShareKey>, k: ShareKey) -> bool { exists|q: Seq<ShareKey>, i: usize| #[trigger] ordering(s, q) && #[trigger] sampled(key_bytes(id) + doc_bytes(d), q.len() as usize, i) && i < q.len() && q[i as int] == k }
/// every replica picks the same key, and it is one of the advertised ones
pub proof fn same_pick(id: Key, d: DocumentId, s: Set<ShareKey>, a: ShareKey, b: ShareKey) requires picks(id, d, s, a), picks(id, d, s, b) ensures a == b, s.contains(a)
{
    let (q, i) = choose|q: Seq<ShareKey>, i: usize| #[trigger] ordering(s, q) && #[trigger] sampled(key_bytes(id) + doc_bytes(d), q.len() as usize, i) && i < q.len() && q[i as int] == a;
    let (p, j) = choose|p: Seq<ShareKey>, j: usize| #[trigger] ordering(s, p) && #[trigger] sampled(key_bytes(id) + doc_bytes(d), p.len() as usize, j) && j < p.len() && p[j as int] == b;
    one_ordering(s, q, p); one_sample(key_bytes(id) + doc_bytes(d), q.len() as usize, i, j); assert(q.contains(a));
}
pub proof fn sorted_is(s: Set<ShareKey>, a: Seq<&ShareKey>, b: Seq<&ShareKey>) requires deref(a).no_duplicates(), forall|k: ShareKey| #[trigger] s.contains(k) <==> deref(a).contains(k), a.len() == s.len(), in_order(b), b.len() == a.len(), deref(b).to_multiset() == deref(a).to_multiset() ensures ordering(s, deref(b))
{
    let p = deref(a); let q = deref(b);
    assert forall|i: int, j: int| 0 <= i <= j < q.len() implies le(#[trigger] q[i], #[trigger] q[j]) by { assert(q[i] == *b[i]); assert(q[j] == *b[j]); }
    p.lemma_multiset_has_no_duplicates(); q.to_multiset_ensures(); p.to_multiset_ensures();
    assert forall|k: ShareKey| #[trigger] q.contains(k) <==> p.contains(k) by { assert(q.contains(k) <==> q.to_multiset().count(k) > 0); assert(p.contains(k) <==> p.to_multiset().count(k) > 0); }
    q.lemma_multiset_has_no_duplicates_conv();
}
"""
IFN = lambda *a, **k: F(IN, "Individual", *a, **k)
own_fns = [
    F(IN, None, "clamp", "pub fn clamp(bytes: [u8; 8], offset_bits: u8) -> (r: usize) ensures r == clamped(bytes, offset_bits)", ["bytes", "offset_bits"], [("u64::from_be_bytes(bytes).checked_shl($x)", "checked_shl(from_be_bytes(bytes), $x)"), ("usize::from_be($x)", "from_be($x)")]),
    F(IN, None, "pseudorandom_in_range", "#[verifier::exec_allows_no_decreases_clause] pub fn pseudorandom_in_range(seed: &[u8], max: usize) -> (r: usize) ensures sampled(seed@, max, r), r < max || max == 0", ["seed", "max"],
      [("max.checked_ilog2().unwrap_or(0).try_into().expect($e)", "narrow(checked_ilog2(max).unwrap_or(0))"), ("blake3::Hasher::new().update(seed).finalize_xof()", "expand(seed)"), ("let mut buf = [0; 8];", "let mut buf: [u8; 8] = [0; 8];"), ("let mut idx = None;", "let mut idx: Option<usize> = None;"),
       ("max.max(1)", "at_least(max, 1)"), ("idx.expect($e)", "idx.unwrap()"), ("hash_stream.fill(&mut buf);", "let ghost n = hash_stream.pos(); hash_stream.fill(&mut buf);"), ("idx = Some(raw_idx)", "({ proof { assert(first_in_range(seed@, max, n, raw_idx)); } idx = Some(raw_idx); })")],
      loops=[("while", None, """invariant shiftsize == shift_of(max), hash_stream.seed() == seed@, idx is Some ==> sampled(seed@, max, idx->0) && (idx->0 < max || max == 0), idx is None ==> forall|m: nat| m < hash_stream.pos() ==> !(#[trigger] clamped(word(seed@, m), shift_of(max)) < (if max >= 1 { max } else { 1usize }))""")]),
    IFN("new", "pub fn new(initial_op: KeyOp) -> (r: Self) requires op_genuine(initial_op) ensures iwf(r), r.id.0 == by(initial_op)", ["initial_op"], [("initial_op.verifying_key().into()", "initial_op.verifying_key()"), ("let prekey_state = PrekeyState::new(initial_op);", "let ghost io = initial_op; let prekey_state = PrekeyState::new(initial_op); proof { assert(hasop(prekey_state.ops@, io)); }")]),
    IFN("id", "pub fn id(&self) -> (r: IndividualId) ensures r == self.id", ["self"]),
    IFN("receive_prekey_op", """pub fn receive_prekey_op(&mut self, op: KeyOp) -> (r: Result<(), ReceivePrekeyOpError>)
        ensures r is Ok == (op_genuine(op) && by(op) == old(self).id.0), r is Err ==> *final(self) == *old(self), r is Ok ==> final(self).id == old(self).id && plus(old(self).prekey_state.ops@, final(self).prekey_state.ops@, op) && builds(final(self).prekey_state.ops@, final(self).prekeys@), iwf(*old(self)) ==> iwf(*final(self))""", ["self", "op"],
        pre="let ghost i0 = *self; let ghost o = op;", rw=[("Ok(())", "({ proof { assert(hasop(self.prekey_state.ops@, o)); } Ok(()) })")]),
    IFN("pick_prekey", "pub fn pick_prekey(&self, doc_id: DocumentId) -> (r: &ShareKey) requires iwf(*self) ensures picks(self.id.0, doc_id, self.prekeys@, *r), advertised(self.prekey_state.ops@, *r)", ["self", "doc_id"],
        [("self.id.to_bytes().to_vec()", "copy(self.id.to_bytes().as_slice())"), ("extend_from_slice(&$x)", "extend_from_slice($x.as_slice())"), ("self.prekeys.iter().collect()", "set_refs(&self.prekeys)"), ("prekeys.sort_unstable();", "let ghost p0 = prekeys@; sort_refs(&mut prekeys); proof { sorted_is(self.prekeys@, p0, prekeys@); some_key(*self); picked(*self, doc_id, deref(prekeys@), idx); assert(*prekeys@[idx as int] == deref(prekeys@)[idx as int]); }"),
         ("prekeys.get(idx).expect($e)", "prekeys[idx]"), ("let idx =", "proof { assert(bytes@ =~= key_bytes(self.id.0) + doc_bytes(doc_id)); } let idx =")]),
    IFN("prekey_ops", "pub fn prekey_ops(&self) -> (r: &CaMap<KeyOp>) ensures *r == self.prekey_state.ops", ["self"]),
    IFN("rebuild", "pub fn rebuild(&mut self) ensures final(self).id == old(self).id, final(self).prekey_state == old(self).prekey_state, builds(final(self).prekey_state.ops@, final(self).prekeys@)", ["self"]),
    Fn(IN, "Merge for Individual", "merge", "pub fn merge(&mut self, fork: Self) ensures final(self).id == old(self).id, both(old(self).prekey_state.ops@, fork.prekey_state.ops@, final(self).prekey_state.ops@), iwf(*old(self)) && iwf(fork) && fork.id == old(self).id ==> iwf(*final(self))", ["self", "fork"], rewrites=[("self.rebuild()", "self.rebuild();")], wrap="impl Individual", pre="let ghost i0 = *self;",
       post="proof { if iwf(i0) { let o = choose|o: KeyOp| #[trigger] hasop(i0.prekey_state.ops@, o); assert(hasop(self.prekey_state.ops@, o)); } }"),
]
OWN_LEM = r"""
pub proof fn some_key(i: Individual) requires iwf(i) ensures i.prekeys@.len() > 0 { let o = choose|o: KeyOp| #[trigger] hasop(i.prekey_state.ops@, o); never_empty(i.prekey_state.ops@, i.prekeys@, o); }
pub proof fn picked(i: Individual, d: DocumentId, q: Seq<ShareKey>, x: usize) requires iwf(i), ordering(i.prekeys@, q), sampled(key_bytes(i.id.0) + doc_bytes(d), q.len() as usize, x), x < q.len(), q.len() <= usize::MAX ensures picks(i.id.0, d, i.prekeys@, q[x as int]), advertised(i.prekey_state.ops@, q[x as int])
{ assert(q.contains(q[x as int])); assert(i.prekeys@.contains(q[x as int])); }
"""

ACT = core.opaque("Signer") + core.opaque("RngRef") + r"""
impl Dupe for RngRef { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl Dupe for ShareKey { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl RngRef { #[verifier::external_body] pub fn lock(&self) -> (r: Rng) { unimplemented!() } }
pub uninterp spec fn pub_of(s: ShareSecretKey) -> ShareKey;
impl ShareSecretKey {
    #[verifier::external_body] pub fn generate(r: &mut Rng) -> ShareSecretKey { unimplemented!() }
    #[verifier::external_body] pub fn share_key(&self) -> (r: ShareKey) ensures r == pub_of(*self) { unimplemented!() }
}
pub uninterp spec fn vk(s: Signer) -> Key;
impl Signer { #[verifier::external_body] pub fn verifying_key(&self) -> (r: Key) ensures r == vk(*self) { unimplemented!() } }
pub enum SigningError { Bad }
/// a signature made with a key checks out against it
#[verifier::external_body] pub fn try_sign<P>(s: &Signer, p: P) -> (r: Result<Signed<P>, SigningError>) ensures r is Ok ==> r->Ok_0.payload == p && r->Ok_0.issuer == vk(*s) && genuine(r->Ok_0) { unimplemented!() }
impl FromSpecImpl<Key> for IndividualId { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: Key) -> Self { IndividualId(k) } }
impl From<Key> for IndividualId { fn from(k: Key) -> Self { IndividualId(k) } }
impl FromSpecImpl<Arc<Signed<AddKeyOp>>> for KeyOp { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: Arc<Signed<AddKeyOp>>) -> Self { KeyOp::Add(k) } }
impl From<Arc<Signed<AddKeyOp>>> for KeyOp { fn from(k: Arc<Signed<AddKeyOp>>) -> Self { KeyOp::Add(k) } }
/// a lock gives access to what it guards
pub struct Mx<T> { pub s: T }
impl<T> Mx<T> { pub fn lock(&mut self) -> (r: &mut T) ensures *r == old(self).s, final(self).s == *final(r) { &mut self.s } }
pub fn mx<T>(t: T) -> (r: Mx<T>) ensures r.s == t { Mx { s: t } }
/// std: BTreeMap of key pairs
#[verifier::external_body] pub struct Pairs { x: u64 }
impl Pairs {
    pub uninterp spec fn view(&self) -> Map<ShareKey, ShareSecretKey>;
    #[verifier::external_body] pub fn single(p: (ShareKey, ShareSecretKey)) -> (r: Self) ensures r@ == Map::<ShareKey, ShareSecretKey>::empty().insert(p.0, p.1) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: ShareKey, v: ShareSecretKey) -> Option<ShareSecretKey> ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn key_list(&self) -> (r: Vec<ShareKey>) ensures forall|k: ShareKey| #[trigger] self@.dom().contains(k) <==> r@.contains(k) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: Pairs) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body] pub fn clone(&self) -> (r: Pairs) ensures r@ == self@ { unimplemented!() }
}
impl Clone for Individual { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Individual { pub fn fork(&self) -> (r: Individual) ensures r == *self { self.clone() } }
impl Listener { #[verifier::external_body] pub fn on_prekey_rotated(&self, o: &Arc<Signed<RotateKeyOp>>) { unimplemented!() } #[verifier::external_body] pub fn on_prekeys_expanded(&self, o: &Arc<Signed<AddKeyOp>>) { unimplemented!() } #[verifier::external_body] pub fn log() -> Listener { unimplemented!() } }
pub struct Active { pub signer: Signer, pub prekey_pairs: Mx<Pairs>, pub id: IndividualId, pub individual: Mx<Individual>, pub listener: Listener }
/// the secret of every key ever introduced
pub open spec fn holds(m: Ops, p: Map<ShareKey, ShareSecretKey>) -> bool { (forall|k: ShareKey| #[trigger] introduced(m, k) ==> p.dom().contains(k)) && forall|k: ShareKey| #[trigger] p.dom().contains(k) ==> pub_of(p[k]) == k }
pub open spec fn mine(a: Active) -> bool { a.id.0 == vk(a.signer) && a.individual.s.id == a.id && swf(a.individual.s.prekey_state) && all_by(a.individual.s.prekey_state.ops@, a.id.0) && holds(a.individual.s.prekey_state.ops@, a.prekey_pairs.s@) }
/// only introduced keys are advertised, so the secret of each advertised key is held
pub open spec fn hwf(a: Active) -> bool { mine(a) && forall|k: ShareKey| #[trigger] a.individual.s.prekeys@.contains(k) ==> introduced(a.individual.s.prekey_state.ops@, k) }
pub open spec fn awf(a: Active) -> bool { hwf(a) && iwf(a.individual.s) }
pub proof fn usable(a: Active, k: ShareKey) requires hwf(a), a.individual.s.prekeys@.contains(k) ensures a.prekey_pairs.s@.dom().contains(k), pub_of(a.prekey_pairs.s@[k]) == k { assert(introduced(a.individual.s.prekey_state.ops@, k)); }
/// some key is left that nothing replaced (always, unless rotations replace each other in a circle)
pub open spec fn settled(m: Ops) -> bool { exists|k: ShareKey| #[trigger] current(m, k) }
/// a key nobody has seen: never introduced, never rotated away
pub open spec fn fresh(m: Ops, k: ShareKey) -> bool { !introduced(m, k) && !replaced(m, k) }
pub proof fn more(m: Ops, n: Ops, o: KeyOp) requires plus(m, n, o) ensures forall|k: ShareKey| #[trigger] introduced(n, k) <==> introduced(m, k) || k == newk(o), forall|k: ShareKey| #[trigger] replaced(n, k) <==> replaced(m, k) || oldk(o) == Some(k)
{
    assert(hasop(n, o));
    assert forall|k: ShareKey| #[trigger] introduced(n, k) <==> introduced(m, k) || k == newk(o) by { if introduced(m, k) { let x = choose|x: KeyOp| #[trigger] hasop(m, x) && newk(x) == k; assert(hasop(n, x)); } if introduced(n, k) { let x = choose|x: KeyOp| #[trigger] hasop(n, x) && newk(x) == k; assert(hasop(m, x) || x == o); } }
    assert forall|k: ShareKey| #[trigger] replaced(n, k) <==> replaced(m, k) || oldk(o) == Some(k) by { if replaced(m, k) { let x = choose|x: KeyOp| #[trigger] hasop(m, x) && oldk(x) == Some(k); assert(hasop(n, x)); } if replaced(n, k) { let x = choose|x: KeyOp| #[trigger] hasop(n, x) && oldk(x) == Some(k); assert(hasop(m, x) || x == o); } }
}
pub open spec fn stepped(a: Active, b: Active, o: KeyOp, old_key: Option<ShareKey>) -> bool {
    let m = a.individual.s.prekey_state.ops@; let n = b.individual.s.prekey_state.ops@; let s = a.individual.s.prekeys@; let t = b.individual.s.prekeys@;
    &&& b.id == a.id && b.signer == a.signer && b.individual.s.id == a.individual.s.id && plus(m, n, o) && (swf(a.individual.s.prekey_state) ==> swf(b.individual.s.prekey_state)) && oldk(o) == old_key && by(o) == vk(a.signer) && op_genuine(o)
    &&& t == (match old_key { Some(k) => s.remove(k), None => s }).insert(newk(o))
    &&& exists|sk: ShareSecretKey| #[trigger] pub_of(sk) == newk(o) && b.prekey_pairs.s@ == a.prekey_pairs.s@.insert(newk(o), sk)
}
pub proof fn step_ok(a: Active, b: Active, o: KeyOp, old_key: Option<ShareKey>) requires stepped(a, b, o, old_key)
    ensures hwf(a) ==> hwf(b), awf(a) && settled(a.individual.s.prekey_state.ops@) && fresh(a.individual.s.prekey_state.ops@, newk(o)) && old_key != Some(newk(o)) ==> awf(b) && settled(b.individual.s.prekey_state.ops@)
{
    let m = a.individual.s.prekey_state.ops@; let n = b.individual.s.prekey_state.ops@; let s = a.individual.s.prekeys@; let t = b.individual.s.prekeys@; more(m, n, o);
    if hwf(a) { assert forall|k: ShareKey| #[trigger] t.contains(k) implies introduced(n, k) by { if k != newk(o) { assert(s.contains(k)); } }
        assert forall|k: ShareKey| #[trigger] introduced(n, k) implies b.prekey_pairs.s@.dom().contains(k) && pub_of(b.prekey_pairs.s@[k]) == k by { if k != newk(o) { assert(introduced(m, k)); } }
        assert forall|x: KeyOp| #[trigger] hasop(n, x) implies op_genuine(x) && by(x) == b.id.0 by { assert(hasop(m, x) || x == o); } }
    if awf(a) && settled(m) && fresh(m, newk(o)) && old_key != Some(newk(o)) {
        assert(current(n, newk(o))); assert(hasop(n, o)); let c = choose|c: ShareKey| #[trigger] current(m, c);
        assert forall|k: ShareKey| #[trigger] t.contains(k) <==> advertised(n, k) by { assert(s.contains(k) <==> advertised(m, k)); assert(introduced(n, k) <==> introduced(m, k) || k == newk(o)); assert(replaced(n, k) <==> replaced(m, k) || old_key == Some(k)); }
    }
}
pub proof fn joined(a: Ops, b: Ops, c: Ops, p: Map<ShareKey, ShareSecretKey>, q: Map<ShareKey, ShareSecretKey>) requires both(a, b, c), holds(a, p), holds(b, q) ensures holds(c, p.union_prefer_right(q))
{ assert forall|k: ShareKey| #[trigger] introduced(c, k) implies p.union_prefer_right(q).dom().contains(k) by { let x = choose|x: KeyOp| #[trigger] hasop(c, x) && newk(x) == k; if hasop(a, x) { assert(introduced(a, k)); } else { assert(hasop(b, x)); assert(introduced(b, k)); } } }
"""
AFN = lambda name, sig, params, rw=(), **k: F(AC, "Active", name, sig, params, list(rw) + SIGN, **k)
SIGN = [("&mut *locked_csprng", "&mut locked_csprng"), ("async_signer::try_sign_async::<F, _, _>($a, $b)", "try_sign($a, $b)"), ("try_sign_async::<F, _, _>($a, $b)", "try_sign($a, $b)"), (".expect($e)", ".unwrap()"), ("Arc::new(Mutex::new($x))", "mx($x)"), (", _phantom: PhantomData", ""), ("BTreeMap::from_iter([$x])", "Pairs::single($x)")]
act_fns = [
    AFN("id", "pub fn id(&self) -> (r: IndividualId) ensures r == self.id", ["self"]),
    AFN("rotate_prekey", """pub fn rotate_prekey(&mut self, old_prekey: ShareKey, csprng: RngRef) -> (r: Result<Arc<Signed<RotateKeyOp>>, SigningError>)
        ensures r is Err ==> *final(self) == *old(self), r is Ok ==> stepped(*old(self), *final(self), KeyOp::Rotate(r->Ok_0), Some(old_prekey)), hwf(*old(self)) ==> hwf(*final(self)),
          r is Ok && awf(*old(self)) && settled(old(self).individual.s.prekey_state.ops@) && fresh(old(self).individual.s.prekey_state.ops@, r->Ok_0.payload.new) && r->Ok_0.payload.new != old_prekey ==> awf(*final(self)) && settled(final(self).individual.s.prekey_state.ops@)""", ["self", "old_prekey", "csprng"],
        [("Ok(rot_op)", "({ proof { assert(pub_of(new_secret) == newk(KeyOp::Rotate(rot_op))); step_ok(a0, *self, KeyOp::Rotate(rot_op), Some(old_prekey)); } Ok(rot_op) })")], pre="let ghost a0 = *self;"),
    AFN("expand_prekeys", """pub fn expand_prekeys(&mut self, csprng: RngRef) -> (r: Result<Arc<Signed<AddKeyOp>>, SigningError>)
        ensures r is Err ==> *final(self) == *old(self), r is Ok ==> stepped(*old(self), *final(self), KeyOp::Add(r->Ok_0), None), hwf(*old(self)) ==> hwf(*final(self)),
          r is Ok && awf(*old(self)) && settled(old(self).individual.s.prekey_state.ops@) && fresh(old(self).individual.s.prekey_state.ops@, r->Ok_0.payload.share_key) ==> awf(*final(self)) && settled(final(self).individual.s.prekey_state.ops@)""", ["self", "csprng"],
        [("Ok(op)", "({ proof { assert(pub_of(new_secret) == newk(KeyOp::Add(op))); step_ok(a0, *self, KeyOp::Add(op), None); } Ok(op) })")], pre="let ghost a0 = *self;"),
    AFN("generate_private_prekey", """pub fn generate_private_prekey(&mut self, csprng: RngRef) -> (r: Result<Arc<Signed<RotateKeyOp>>, SigningError>) requires awf(*old(self)) ensures hwf(*final(self))""", ["self", "csprng"],
        [("DocumentId(self.id().into())", "id_doc(ident)"), ("let locked = self.individual.lock();", "let ident = self.id(); let locked = self.individual.lock();"), ]),
    AFN("pick_prekey", "pub fn pick_prekey(&mut self, doc_id: DocumentId) -> (r: ShareKey) requires awf(*old(self)) ensures *final(self) == *old(self), picks(old(self).id.0, doc_id, old(self).individual.s.prekeys@, r), old(self).prekey_pairs.s@.dom().contains(r), pub_of(old(self).prekey_pairs.s@[r]) == r", ["self", "doc_id"]),
    AFN("generate", "pub fn generate(signer: Signer, listener: Listener, csprng: &mut Rng) -> (r: Result<Self, SigningError>) ensures r is Ok ==> awf(r->Ok_0) && settled(r->Ok_0.individual.s.prekey_state.ops@) && r->Ok_0.signer == signer", ["signer", "listener", "csprng"],
        [("let init_op = Arc::new(async_signer::try_sign_async::<F, _, _>(&signer, $x)?,).into();", "let init_op: KeyOp = Arc::new(try_sign(&signer, $x)?).into();"),
         ("(0..$n).try_fold(BTreeMap::from_iter([$i]), |mut acc, _| { let sk = $a; let pk = $b; acc.insert(pk, sk); Ok::<_, SigningError>(acc) })?", "({ let mut acc = Pairs::single($i); for _i in 0..$n { let sk = $a; let pk = $b; acc.insert(pk, sk); } acc })", "must"),
         ("stream::iter(prekey_pairs.keys().map(Ok::<_, SigningError>)).try_fold(vec![], |mut acc, pk| async move { acc.push(Arc::new($x).into(),); Ok(acc) })?", "({ let mut acc: Vec<KeyOp> = Vec::new(); for pk in prekey_pairs.key_list() { let made = Arc::new($x); let op: KeyOp = made.into(); proof { grow(acc@, op, pk); } acc.push(op); } acc })", "must"), ("*pk", "pk"),
         ("prekey_state.extend(ops).expect($e);", "({ let ghost st0 = prekey_state; let ghost os = ops@; prekey_state.extend(ops).unwrap(); proof { all_adds(st0.ops@, prekey_state.ops@, init_op0, os, prekey_pairs@, vk(signer)); } });"),
         ("let mut prekey_state =", "let ghost init_op0 = init_op; let mut prekey_state ="), ("let id =", "let id: IndividualId =")],
        loops=[("for", None, "invariant forall|k: ShareKey| #[trigger] acc@.dom().contains(k) ==> pub_of(acc@[k]) == k, acc@.dom().contains(init_pk)"),
               ("for", "it", "invariant it.seq().len() >= 0, forall|k: ShareKey| #[trigger] prekey_pairs@.dom().contains(k) <==> it.seq().contains(k), *borrowed_signer == signer, forall|i: int| 0 <= i < acc@.len() ==> adds(#[trigger] acc@[i], vk(signer)) && it.seq().contains(newk(acc@[i]))", "proof { assert(it.seq().contains(pk)); }", "")]),
    Fn(AC, "MergeAsync for Active", "merge_async", "pub fn merge_async(&mut self, mut fork: Active) ensures hwf(*old(self)) && hwf(fork) && awf(*old(self)) && awf(fork) && fork.id == old(self).id ==> awf(*final(self)), both(old(self).individual.s.prekey_state.ops@, fork.individual.s.prekey_state.ops@, final(self).individual.s.prekey_state.ops@), final(self).prekey_pairs.s@ == old(self).prekey_pairs.s@.union_prefer_right(fork.prekey_pairs.s@)", ["self", "fork"],
       rewrites=[("self.individual.lock().merge(forked_individual);", "let ghost fi = forked_individual; self.individual.lock().merge(forked_individual); proof { if awf(a0) && awf(f0) && f0.id == a0.id { joined(a0.individual.s.prekey_state.ops@, f0.individual.s.prekey_state.ops@, self.individual.s.prekey_state.ops@, a0.prekey_pairs.s@, f0.prekey_pairs.s@); } }")], wrap="impl Active", pre="let ghost a0 = *self; let ghost f0 = fork;"),
    Fn(AC, "ForkAsync for Active", "fork_async", "pub fn fork_async(&mut self) -> (r: Active) ensures *final(self) == *old(self), r.id == old(self).id, r.signer == old(self).signer, r.individual.s == old(self).individual.s, r.prekey_pairs.s@ == old(self).prekey_pairs.s@, awf(*old(self)) ==> awf(r)", ["self"],
       rewrites=[("self.signer.clone()", "self.signer"), ("Log::new()", "Listener::log()")] + SIGN, wrap="impl Active"),
]
ACT_LEM = r"""
pub open spec fn adds(o: KeyOp, k: Key) -> bool { o is Add && op_genuine(o) && by(o) == k }
pub proof fn grow(a: Seq<KeyOp>, o: KeyOp, k: ShareKey) ensures forall|i: int| 0 <= i < a.len() ==> #[trigger] a.push(o)[i] == a[i], a.push(o)[a.len() as int] == o {}
/// nothing but additions of own keys whose secrets are held
pub proof fn all_adds(m0: Ops, m: Ops, o0: KeyOp, os: Seq<KeyOp>, p: Map<ShareKey, ShareSecretKey>, k: Key)
    requires forall|x: KeyOp| #[trigger] hasop(m0, x) <==> x == o0, adds(o0, k), p.dom().contains(newk(o0)), forall|j: ShareKey| #[trigger] p.dom().contains(j) ==> pub_of(p[j]) == j,
        forall|i: int| 0 <= i < os.len() ==> adds(#[trigger] os[i], k) && p.dom().contains(newk(os[i])), forall|x: KeyOp| #[trigger] hasop(m0, x) ==> hasop(m, x), forall|x: KeyOp| #[trigger] hasop(m, x) ==> hasop(m0, x) || (os.contains(x) && op_genuine(x))
    ensures all_by(m, k), holds(m, p), settled(m), hasop(m, o0)
{
    assert(hasop(m0, o0)); assert(hasop(m, o0));
    assert forall|x: KeyOp| #[trigger] hasop(m, x) implies adds(x, k) && p.dom().contains(newk(x)) by { if !hasop(m0, x) { let i = os.index_of(x); assert(os[i] == x); } }
    assert forall|j: ShareKey| #[trigger] introduced(m, j) implies p.dom().contains(j) && pub_of(p[j]) == j by { let x = choose|x: KeyOp| #[trigger] hasop(m, x) && newk(x) == j; }
    assert(current(m, newk(o0)));
}
"""
STUBS = lambda: "impl CaMap<KeyOp> { " + "".join("#[verifier::external_body] " + f.sig.replace("<T>", "<KeyOp>").replace("&T", "&KeyOp") + " { unimplemented!() } " for f in stores.camap_fns(stores.P1) if f.name in ("new", "insert", "merge")) + "}\n"
prekeys = Unit("prekeys", core.std(*stores.AX, "ax_sharekey::key_model", "ax_le::antisym") + stores.MAPS + stores.DIGEST + stores.CAMAP + KEYOP + STUBS() + STATE + STATE_LEM + OWN + OWN_LEM + ACT + ACT_LEM, state_fns + own_fns + act_fns)

# ------------------------------------------------------------------ P10: the order of export
EXP = r"""
pub open spec fn nk(a: Arc<KeyOp>) -> ShareKey { newk(*a) }
pub open spec fn in_it(s: Seq<Arc<KeyOp>>, a: Arc<KeyOp>) -> bool { at_in(s, *a) }
pub open spec fn at_in(s: Seq<Arc<KeyOp>>, o: KeyOp) -> bool { exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == o }
pub open spec fn introd(m: Ops, k: ShareKey) -> bool { exists|o: KeyOp| #[trigger] hasop(m, o) && newk(o) == k }
/// outside of, and not built on, rotations that replace each other in a circle: every operation that introduces the key it rotates is (in at most `n` steps)
pub open spec fn free(m: Ops, o: KeyOp, n: nat) -> bool decreases n { n > 0 && (oldk(o) is Some ==> forall|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == oldk(o)->0 ==> free(m, p, (n - 1) as nat)) }
pub open spec fn grounded(m: Ops, o: KeyOp) -> bool { exists|n: nat| #[trigger] free(m, o, n) }
/// everything that introduces the key it rotates is in `s`
pub open spec fn served(m: Ops, s: Seq<Arc<KeyOp>>, o: KeyOp) -> bool { oldk(o) is Some ==> forall|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == oldk(o)->0 ==> at_in(s, p) }
/// the export: every operation once, each one that is not in or behind a circle after all that introduce the key it rotates
pub open spec fn exported(m: Ops, s: Seq<Arc<KeyOp>>) -> bool {
    &&& uniq(s) && forall|o: KeyOp| #[trigger] hasop(m, o) <==> at_in(s, o)
    &&& forall|i: int| 0 <= i < s.len() && grounded(m, *(#[trigger] s[i])) ==> served(m, s.take(i), *s[i])
}
pub open spec fn uniq(s: Seq<Arc<KeyOp>>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && *(#[trigger] s[i]) == *(#[trigger] s[j]) ==> i == j }

/// std: a count per key, m.entry(k).or_default() += 1
pub struct Counts { pub m: HashMap<ShareKey, usize> }
#[verifier::external_body] pub fn bump(m: &mut HashMap<ShareKey, usize>, k: ShareKey) requires cnt(old(m)@, k) < usize::MAX ensures forall|j: ShareKey| #[trigger] cnt(final(m)@, j) == cnt(old(m)@, j) + (if j == k { 1int } else { 0 }), final(m)@.dom() == old(m)@.dom().insert(k) { unimplemented!() }
pub open spec fn cnt(m: Map<ShareKey, usize>, k: ShareKey) -> int { if m.dom().contains(k) { m[k] as int } else { 0 } }
/// std: BTreeMap of lists
#[verifier::external_body] pub struct Groups { x: u64 }
pub type GMap = Map<ShareKey, Seq<Arc<KeyOp>>>;
pub open spec fn grp(g: GMap, k: ShareKey) -> Seq<Arc<KeyOp>> { if g.dom().contains(k) { g[k] } else { Seq::empty() } }
impl Groups {
    pub uninterp spec fn view(&self) -> GMap;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<ShareKey, Seq<Arc<KeyOp>>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn add(&mut self, k: ShareKey, o: Arc<KeyOp>) ensures final(self)@ == old(self)@.insert(k, grp(old(self)@, k).push(o)) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &ShareKey) -> (r: Option<Vec<Arc<KeyOp>>>) ensures final(self)@ == old(self)@.remove(*k), r is None ==> final(self)@ == old(self)@, r is Some == old(self)@.dom().contains(*k), r is Some ==> (r->0)@ == old(self)@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn pop_first(&mut self) -> (r: Option<(ShareKey, Vec<Arc<KeyOp>>)>) ensures r is None == (forall|k: ShareKey| !(#[trigger] old(self)@.dom().contains(k))), r is None ==> final(self)@ == old(self)@,
        r is Some ==> old(self)@.dom().contains((r->0).0) && (r->0).1@ == old(self)@[(r->0).0] && final(self)@ == old(self)@.remove((r->0).0) { unimplemented!() }
}
#[verifier::external_body] pub fn take_last(v: &mut Vec<Arc<KeyOp>>) -> (r: Option<Arc<KeyOp>>) ensures r is Some == (old(v)@.len() > 0), r is None ==> final(v)@ == old(v)@, r is Some ==> old(v)@ == final(v)@.push(r->0) { unimplemented!() }
#[verifier::external_body] pub fn append_all(v: &mut Vec<Arc<KeyOp>>, w: Vec<Arc<KeyOp>>) ensures final(v)@ == old(v)@ + w@ { unimplemented!() }

/// how many of a list introduce `k`
pub open spec fn intros(s: Seq<Arc<KeyOp>>, k: ShareKey) -> int decreases s.len() { if s.len() == 0 { 0 } else { intros(s.drop_last(), k) + (if newk(*s.last()) == k { 1int } else { 0 }) } }
pub open spec fn counted(s: Seq<Arc<KeyOp>>, n: int, m: Map<ShareKey, usize>) -> bool { forall|k: ShareKey| #[trigger] cnt(m, k) == intros(s.take(n), k) && (m.dom().contains(k) <==> intros(s.take(n), k) > 0) }
pub proof fn count_step(s: Seq<Arc<KeyOp>>, n: int) requires 0 <= n < s.len() ensures forall|k: ShareKey| #[trigger] intros(s.take(n + 1), k) == intros(s.take(n), k) + (if newk(*s[n]) == k { 1int } else { 0 }), forall|k: ShareKey| 0 <= #[trigger] intros(s.take(n), k) <= n
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); assert(s.take(n + 1).last() == s[n]); assert forall|k: ShareKey| 0 <= #[trigger] intros(s.take(n), k) <= n by { bounded(s.take(n), k); } }
pub proof fn bounded(s: Seq<Arc<KeyOp>>, k: ShareKey) ensures 0 <= intros(s, k) <= s.len() decreases s.len() { if s.len() > 0 { bounded(s.drop_last(), k); } }
pub proof fn some_intro(s: Seq<Arc<KeyOp>>, k: ShareKey) ensures intros(s, k) > 0 <==> exists|i: int| 0 <= i < s.len() && newk(*(#[trigger] s[i])) == k decreases s.len()
{ if s.len() > 0 { let t = s.drop_last(); some_intro(t, k); bounded(t, k); if nk(s.last()) == k { assert(newk(*s[s.len() - 1]) == k); }
    if intros(t, k) > 0 { let i = choose|i: int| 0 <= i < t.len() && newk(*(#[trigger] t[i])) == k; assert(newk(*s[i]) == k); }
    if exists|i: int| 0 <= i < s.len() && newk(*(#[trigger] s[i])) == k { let i = choose|i: int| 0 <= i < s.len() && newk(*(#[trigger] s[i])) == k; if i < t.len() { assert(newk(*t[i]) == k); } } } }
/// without `o`
pub proof fn intros_without(s: Seq<Arc<KeyOp>>, i: int, k: ShareKey) requires 0 <= i < s.len() ensures intros(s.remove(i), k) == intros(s, k) - (if newk(*s[i]) == k { 1int } else { 0 }) decreases s.len()
{
    if i == s.len() - 1 { assert(s.remove(i) =~= s.drop_last()); }
    else { let t = s.drop_last(); intros_without(t, i, k); assert(s.remove(i).drop_last() =~= t.remove(i)); assert(s.remove(i).last() == s.last()); }
}
/// a list without repetition drawn from another has no more of them; with as many it has them all
pub proof fn within(p: Seq<Arc<KeyOp>>, v: Seq<Arc<KeyOp>>, k: ShareKey)
    requires uniq(p), uniq(v), forall|i: int| 0 <= i < p.len() ==> at_in(v, *(#[trigger] p[i]))
    ensures intros(p, k) <= intros(v, k), intros(p, k) == intros(v, k) <==> (forall|o: KeyOp| #[trigger] at_in(v, o) && newk(o) == k ==> at_in(p, o))
    decreases p.len()
{
    if p.len() == 0 {
        bounded(v, k); some_intro(v, k);
        if intros(v, k) > 0 { let i = choose|i: int| 0 <= i < v.len() && newk(*(#[trigger] v[i])) == k; assert(at_in(v, *v[i])); assert(!at_in(p, *v[i])); }
        else { assert forall|o: KeyOp| #[trigger] at_in(v, o) && newk(o) == k implies at_in(p, o) by { let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == o; } }
    } else {
        let x = *p.last(); let p2 = p.drop_last(); assert(at_in(v, *p[p.len() - 1])); let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == x; let v2 = v.remove(i);
        assert(uniq(p2)) by { assert forall|a: int, b: int| 0 <= a < p2.len() && 0 <= b < p2.len() && *(#[trigger] p2[a]) == *(#[trigger] p2[b]) implies a == b by { assert(p[a] == p2[a]); assert(p[b] == p2[b]); } }
        assert(uniq(v2)) by { assert forall|a: int, b: int| 0 <= a < v2.len() && 0 <= b < v2.len() && *(#[trigger] v2[a]) == *(#[trigger] v2[b]) implies a == b by { let a1 = if a < i { a } else { a + 1 }; let b1 = if b < i { b } else { b + 1 }; assert(v[a1] == v2[a]); assert(v[b1] == v2[b]); } }
        moved(v, i);
        assert forall|a: int| 0 <= a < p2.len() implies at_in(v2, *(#[trigger] p2[a])) by { assert(p[a] == p2[a]); assert(at_in(v, *p[a])); assert(*p[a] != *p[p.len() - 1]); }
        within(p2, v2, k); intros_without(v, i, k);
        assert forall|o: KeyOp| #[trigger] at_in(p, o) <==> at_in(p2, o) || o == x by { if at_in(p2, o) { let a = choose|a: int| 0 <= a < p2.len() && *(#[trigger] p2[a]) == o; assert(*p[a] == o); } if o == x { assert(*p[p.len() - 1] == o); } if at_in(p, o) { let a = choose|a: int| 0 <= a < p.len() && *(#[trigger] p[a]) == o; if a < p2.len() { assert(*p2[a] == o); } } }
        if forall|o: KeyOp| #[trigger] at_in(v2, o) && newk(o) == k ==> at_in(p2, o) { assert forall|o: KeyOp| #[trigger] at_in(v, o) && newk(o) == k implies at_in(p, o) by { assert(at_in(v2, o) || o == x); } }
        if forall|o: KeyOp| #[trigger] at_in(v, o) && newk(o) == k ==> at_in(p, o) { assert forall|o: KeyOp| #[trigger] at_in(v2, o) && newk(o) == k implies at_in(p2, o) by { assert(at_in(v, o)); assert(o != x); assert(at_in(p, o)); } }
    }
}
/// what is left of a list without repetition
pub proof fn moved(v: Seq<Arc<KeyOp>>, i: int) requires uniq(v), 0 <= i < v.len() ensures forall|o: KeyOp| #[trigger] at_in(v.remove(i), o) <==> at_in(v, o) && o != *v[i]
{
    let w = v.remove(i);
    assert forall|o: KeyOp| #[trigger] at_in(w, o) <==> at_in(v, o) && o != *v[i] by {
        if at_in(w, o) { let a = choose|a: int| 0 <= a < w.len() && *(#[trigger] w[a]) == o; let b = if a < i { a } else { a + 1 }; assert(*v[b] == o); }
        if at_in(v, o) && o != *v[i] { let b = choose|b: int| 0 <= b < v.len() && *(#[trigger] v[b]) == o; let a = if b < i { b } else { b - 1 }; assert(*w[a] == o); } }
}
/// the state of the sort
pub open spec fn same_ops(m: Ops, v: Seq<Arc<KeyOp>>) -> bool { uniq(v) && forall|o: KeyOp| #[trigger] hasop(m, o) <==> at_in(v, o) }
pub open spec fn part(v: Seq<Arc<KeyOp>>, heads: Seq<Arc<KeyOp>>, g: GMap, top: Seq<Arc<KeyOp>>) -> bool {
    &&& uniq(heads) && uniq(top)
    &&& forall|o: KeyOp| #[trigger] at_in(v, o) <==> at_in(heads, o) || at_in(top, o) || in_groups(g, o)
    &&& forall|o: KeyOp| #[trigger] at_in(heads, o) ==> !at_in(top, o) && !in_groups(g, o)
    &&& forall|o: KeyOp| #[trigger] at_in(top, o) ==> !in_groups(g, o)
    &&& forall|k: ShareKey| #[trigger] g.dom().contains(k) ==> uniq(g[k]) && forall|i: int| 0 <= i < g[k].len() ==> oldk(*(#[trigger] g[k][i])) == Some(k)
}
pub open spec fn in_groups(g: GMap, o: KeyOp) -> bool { oldk(o) is Some && g.dom().contains(oldk(o)->0) && at_in(g[oldk(o)->0], o) }
/// everything that came out and is not in or behind a circle came out after what it needs
pub open spec fn good(m: Ops, top: Seq<Arc<KeyOp>>) -> bool { forall|i: int| 0 <= i < top.len() && grounded(m, *(#[trigger] top[i])) ==> served(m, top.take(i), *top[i]) }
pub open spec fn ready(m: Ops, heads: Seq<Arc<KeyOp>>, top: Seq<Arc<KeyOp>>) -> bool { forall|i: int| 0 <= i < heads.len() && grounded(m, *(#[trigger] heads[i])) ==> served(m, top, *heads[i]) }
/// what waits, waits for something
pub open spec fn waiting(m: Ops, g: GMap, top: Seq<Arc<KeyOp>>) -> bool { forall|k: ShareKey| #[trigger] g.dom().contains(k) ==> exists|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == k && !at_in(top, p) }
/// counters: how many introductions are left
pub open spec fn left(v: Seq<Arc<KeyOp>>, top: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>) -> bool { forall|k: ShareKey| (#[trigger] cnt(c, k)) == intros(v, k) - intros(top, k) && (intros(v, k) > 0 ==> c.dom().contains(k)) }
"""

EXPL = r"""
pub proof fn all_counted(v: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>) requires counted(v, v.len() as int, c) ensures forall|k: ShareKey| #[trigger] c.dom().contains(k) <==> intros(v, k) > 0
{ assert(v.take(v.len() as int) =~= v); assert forall|k: ShareKey| #[trigger] c.dom().contains(k) <==> intros(v, k) > 0 by { assert(cnt(c, k) == intros(v.take(v.len() as int), k)); } }
pub proof fn listed_ops(m: Ops, v: Seq<Arc<KeyOp>>) requires listed(v, m) ensures same_ops(m, v)
{
    assert forall|o: KeyOp| #[trigger] hasop(m, o) <==> at_in(v, o) by { if at_in(v, o) { let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == o; assert(hasop(m, *v[i])); } }
}
pub proof fn pushed(s: Seq<Arc<KeyOp>>, x: Arc<KeyOp>) ensures forall|o: KeyOp| #[trigger] at_in(s.push(x), o) <==> at_in(s, o) || o == *x, uniq(s) && !at_in(s, *x) ==> uniq(s.push(x))
{
    let t = s.push(x);
    assert forall|o: KeyOp| #[trigger] at_in(t, o) <==> at_in(s, o) || o == *x by { if at_in(s, o) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == o; assert(*t[i] == o); } if o == *x { assert(*t[s.len() as int] == o); } if at_in(t, o) { let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]) == o; if i < s.len() { assert(*s[i] == o); } } }
    if uniq(s) && !in_it(s, x) { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && *(#[trigger] t[i]) == *(#[trigger] t[j]) implies i == j by { if i < s.len() && j < s.len() { assert(*s[i] == *s[j]); } else if i < s.len() { assert(*s[i] == *x); } else if j < s.len() { assert(*s[j] == *x); } } }
}
pub proof fn popped(s: Seq<Arc<KeyOp>>) requires s.len() > 0, uniq(s) ensures uniq(s.drop_last()), forall|o: KeyOp| #[trigger] at_in(s.drop_last(), o) <==> at_in(s, o) && o != *s.last()
{ assert(s.remove(s.len() - 1) =~= s.drop_last()); moved(s, s.len() - 1); let t = s.drop_last(); assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && *(#[trigger] t[i]) == *(#[trigger] t[j]) implies i == j by { assert(s[i] == t[i]); assert(s[j] == t[j]); } }
pub proof fn added_up(a: Seq<Arc<KeyOp>>, b: Seq<Arc<KeyOp>>) ensures forall|o: KeyOp| #[trigger] at_in(a + b, o) <==> at_in(a, o) || at_in(b, o), uniq(a) && uniq(b) && (forall|o: KeyOp| #[trigger] at_in(a, o) ==> !at_in(b, o)) ==> uniq(a + b)
{
    let t = a + b;
    assert forall|o: KeyOp| #[trigger] at_in(t, o) <==> at_in(a, o) || at_in(b, o) by { if at_in(a, o) { let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]) == o; assert(*t[i] == o); } if at_in(b, o) { let i = choose|i: int| 0 <= i < b.len() && *(#[trigger] b[i]) == o; assert(*t[a.len() + i] == o); } if at_in(t, o) { let i = choose|i: int| 0 <= i < t.len() && *(#[trigger] t[i]) == o; if i < a.len() { assert(*a[i] == o); } else { assert(*b[i - a.len()] == o); } } }
    if uniq(a) && uniq(b) && (forall|o: KeyOp| #[trigger] at_in(a, o) ==> !at_in(b, o)) { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && *(#[trigger] t[i]) == *(#[trigger] t[j]) implies i == j by {
        if i < a.len() { assert(at_in(a, *a[i])); if j < a.len() { assert(*a[i] == *a[j]); } else { assert(at_in(b, *b[j - a.len()])); } } else { assert(at_in(b, *b[i - a.len()])); if j < a.len() { assert(at_in(a, *a[j])); } else { assert(*b[i - a.len()] == *b[j - a.len()]); } } } }
}
pub proof fn served_more(m: Ops, s: Seq<Arc<KeyOp>>, t: Seq<Arc<KeyOp>>, o: KeyOp) requires served(m, s, o), forall|x: KeyOp| #[trigger] at_in(s, x) ==> at_in(t, x) ensures served(m, t, o) {}
/// the sorter has read the first `n`
pub open spec fn read(m: Ops, v: Seq<Arc<KeyOp>>, n: int, heads: Seq<Arc<KeyOp>>, g: GMap) -> bool { part(v.take(n), heads, g, Seq::empty()) && ready(m, heads, Seq::empty()) && forall|k: ShareKey| #[trigger] g.dom().contains(k) ==> intros(v, k) > 0 }
pub proof fn read_step(m: Ops, v: Seq<Arc<KeyOp>>, n: int, h0: Seq<Arc<KeyOp>>, g0: GMap, h1: Seq<Arc<KeyOp>>, g1: GMap)
    requires same_ops(m, v), 0 <= n < v.len(), read(m, v, n, h0, g0), ({ let o = *v[n]; if oldk(o) is Some && intros(v, oldk(o)->0) > 0 { h1 == h0 && g1 == g0.insert(oldk(o)->0, grp(g0, oldk(o)->0).push(v[n])) } else { h1 == h0.push(v[n]) && g1 == g0 } })
    ensures read(m, v, n + 1, h1, g1)
{
    let o = *v[n]; let w = v.take(n); let x = v.take(n + 1); assert(x =~= w.push(v[n])); pushed(w, v[n]); let e = Seq::<Arc<KeyOp>>::empty();
    assert(!at_in(w, o)) by { if at_in(w, o) { let i = choose|i: int| 0 <= i < w.len() && *(#[trigger] w[i]) == o; assert(*v[i] == *v[n]); } }
    assert(!at_in(h0, o)); assert(!in_groups(g0, o));
    assert forall|q: KeyOp| !(#[trigger] at_in(e, q)) by {}
    if oldk(o) is Some && intros(v, oldk(o)->0) > 0 {
        let k = oldk(o)->0; let l = grp(g0, k); pushed(l, v[n]);
        if g0.dom().contains(k) { assert(in_groups(g0, o) <==> at_in(l, o)); } 
        assert(!at_in(l, o));
        assert forall|q: KeyOp| #[trigger] in_groups(g1, q) <==> in_groups(g0, q) || q == o by { if oldk(q) == Some(k) { assert(at_in(g1[k], q) <==> at_in(l, q) || q == o); } }
        assert forall|j: ShareKey| #[trigger] g1.dom().contains(j) implies uniq(g1[j]) && forall|i: int| 0 <= i < g1[j].len() ==> oldk(*(#[trigger] g1[j][i])) == Some(j) by { if j == k { assert forall|i: int| 0 <= i < g1[j].len() implies oldk(*(#[trigger] g1[j][i])) == Some(j) by { if i < l.len() { assert(g1[j][i] == l[i]); } } } else { assert(g0.dom().contains(j)); } }
    } else {
        pushed(h0, v[n]);
        assert(served(m, e, o)) by { if oldk(o) is Some { some_intro(v, oldk(o)->0); assert forall|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == oldk(o)->0 implies at_in(e, p) by { let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == p; assert(newk(*v[i]) == oldk(o)->0); } } }
        assert forall|i: int| 0 <= i < h1.len() && grounded(m, *(#[trigger] h1[i])) implies served(m, e, *h1[i]) by { if i < h0.len() { assert(h1[i] == h0[i]); } }
    }
}
pub proof fn all_read(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, c: Map<ShareKey, usize>) requires same_ops(m, v), read(m, v, v.len() as int, h, g), counted(v, v.len() as int, c) ensures state(m, v, h, g, Seq::empty(), c)
{
    assert(v.take(v.len() as int) =~= v); let e = Seq::<Arc<KeyOp>>::empty();
    assert forall|k: ShareKey| #[trigger] g.dom().contains(k) implies exists|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == k && !at_in(e, p) by { some_intro(v, k); let i = choose|i: int| 0 <= i < v.len() && newk(*(#[trigger] v[i])) == k; assert(at_in(v, *v[i])); assert(hasop(m, *v[i])); }
    assert forall|k: ShareKey| (#[trigger] cnt(c, k)) == intros(v, k) - intros(e, k) && (intros(v, k) > 0 ==> c.dom().contains(k)) by {}
}
pub open spec fn state(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, t: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>) -> bool { same_ops(m, v) && part(v, h, g, t) && good(m, t) && ready(m, h, t) && waiting(m, g, t) && left(v, t, c) && t.len() <= v.len() }
pub proof fn can_take(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, t: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>) requires state(m, v, h, g, t, c), h.len() > 0
    ensures uniq(t.push(h.last())), forall|o: KeyOp| #[trigger] at_in(t.push(h.last()), o) ==> at_in(v, o), c.dom().contains(newk(*h.last())), cnt(c, newk(*h.last())) >= 1, t.len() < v.len(), intros(v, newk(*h.last())) - intros(t.push(h.last()), newk(*h.last())) == cnt(c, newk(*h.last())) - 1
{
    let x = h.last(); let t1 = t.push(x); assert(at_in(h, *h[h.len() - 1])); pushed(t, x); assert(!at_in(t, *x));
    assert forall|i: int| 0 <= i < t1.len() implies at_in(v, *(#[trigger] t1[i])) by { assert(at_in(t1, *t1[i])); }
    within(t1, v, nk(x)); assert(t1.drop_last() =~= t); bounded(t, nk(x)); fits(t1, v); assert(cnt(c, nk(x)) == intros(v, newk(*x)) - intros(t, newk(*x)));
}
pub proof fn fits(p: Seq<Arc<KeyOp>>, v: Seq<Arc<KeyOp>>) requires uniq(p), uniq(v), forall|i: int| 0 <= i < p.len() ==> at_in(v, *(#[trigger] p[i])) ensures p.len() <= v.len() decreases p.len()
{
    if p.len() > 0 {
        let x = *p.last(); let p2 = p.drop_last(); assert(at_in(v, *p[p.len() - 1])); let i = choose|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == x; let v2 = v.remove(i);
        assert(uniq(p2)) by { assert forall|a: int, b: int| 0 <= a < p2.len() && 0 <= b < p2.len() && *(#[trigger] p2[a]) == *(#[trigger] p2[b]) implies a == b by { assert(p[a] == p2[a]); assert(p[b] == p2[b]); } }
        assert(uniq(v2)) by { assert forall|a: int, b: int| 0 <= a < v2.len() && 0 <= b < v2.len() && *(#[trigger] v2[a]) == *(#[trigger] v2[b]) implies a == b by { let a1 = if a < i { a } else { a + 1 }; let b1 = if b < i { b } else { b + 1 }; assert(v[a1] == v2[a]); assert(v[b1] == v2[b]); } }
        moved(v, i);
        assert forall|a: int| 0 <= a < p2.len() implies at_in(v2, *(#[trigger] p2[a])) by { assert(p[a] == p2[a]); assert(at_in(v, *p[a])); assert(*p[a] != *p[p.len() - 1]); }
        fits(p2, v2);
    }
}
pub proof fn take_step(m: Ops, v: Seq<Arc<KeyOp>>, h0: Seq<Arc<KeyOp>>, g0: GMap, t0: Seq<Arc<KeyOp>>, c0: Map<ShareKey, usize>, h1: Seq<Arc<KeyOp>>, g1: GMap, t1: Seq<Arc<KeyOp>>, c1: Map<ShareKey, usize>)
    requires state(m, v, h0, g0, t0, c0), h0.len() > 0, t1 == t0.push(h0.last()), ({ let k = newk(*h0.last()); c1 == c0.insert(k, (c0[k] - 1) as usize) && if c0[k] == 1 && g0.dom().contains(k) { g1 == g0.remove(k) && h1 == h0.drop_last() + g0[k] } else { g1 == g0 && h1 == h0.drop_last() } })
    ensures state(m, v, h1, g1, t1, c1)
{
    can_take(m, v, h0, g0, t0, c0);
    let x = h0.last(); let k = nk(x); let hd = h0.drop_last(); assert(at_in(h0, *h0[h0.len() - 1])); pushed(t0, x); popped(h0); 
    assert(t1.drop_last() =~= t0); assert(left(v, t1, c1)) by { assert forall|j: ShareKey| (#[trigger] cnt(c1, j)) == intros(v, j) - intros(t1, j) && (intros(v, j) > 0 ==> c1.dom().contains(j)) by { assert(cnt(c0, j) == intros(v, j) - intros(t0, j)); } }
    assert forall|i: int| 0 <= i < t1.len() implies at_in(v, *(#[trigger] t1[i])) by { assert(at_in(t1, *t1[i])); }
    within(t1, v, k);
    let rel = c0[k] == 1 && g0.dom().contains(k);
    assert forall|i: int| 0 <= i < t1.len() && grounded(m, *(#[trigger] t1[i])) implies served(m, t1.take(i), *t1[i]) by { if i < t0.len() { assert(t1[i] == t0[i]); assert(t1.take(i) =~= t0.take(i)); } else { assert(t1.take(i) =~= t0); assert(*h0[h0.len() - 1] == *t1[i]); } }
    if rel {
        let l = g0[k];
        assert forall|o: KeyOp| #[trigger] at_in(l, o) implies in_groups(g0, o) && oldk(o) == Some(k) by { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == o; assert(oldk(*l[i]) == Some(k)); }
        assert forall|o: KeyOp| #[trigger] at_in(hd, o) implies !at_in(l, o) by { assert(at_in(h0, o)); }
        added_up(hd, l);
        assert forall|o: KeyOp| #[trigger] in_groups(g1, o) <==> in_groups(g0, o) && !at_in(l, o) by { if in_groups(g0, o) && !at_in(l, o) { assert(oldk(o) != Some(k)); } }
        assert forall|o: KeyOp| #[trigger] at_in(v, o) && newk(o) == k implies at_in(t1, o) by {}
        assert forall|i: int| 0 <= i < h1.len() && grounded(m, *(#[trigger] h1[i])) implies served(m, t1, *h1[i]) by {
            if i < hd.len() { assert(h1[i] == h0[i]); served_more(m, t0, t1, *h1[i]); } else { assert(h1[i] == l[i - hd.len()]); assert(at_in(l, *l[i - hd.len()])); } }
    } else {
        assert forall|i: int| 0 <= i < h1.len() && grounded(m, *(#[trigger] h1[i])) implies served(m, t1, *h1[i]) by { assert(h1[i] == h0[i]); served_more(m, t0, t1, *h1[i]); }
    }
    assert(part(v, h1, g1, t1)) by {
        assert forall|o: KeyOp| #[trigger] at_in(v, o) <==> at_in(h1, o) || at_in(t1, o) || in_groups(g1, o) by { assert(at_in(v, o) <==> at_in(h0, o) || at_in(t0, o) || in_groups(g0, o)); assert(at_in(hd, o) <==> at_in(h0, o) && o != *x); if rel && at_in(g0[k], o) { assert(in_groups(g0, o)); } }
        assert forall|o: KeyOp| #[trigger] at_in(h1, o) implies !at_in(t1, o) && !in_groups(g1, o) by { if rel { if at_in(hd, o) { assert(at_in(h0, o)); } else { assert(at_in(g0[k], o)); assert(in_groups(g0, o)); if o == *x { assert(at_in(h0, o)); } if at_in(t0, o) { } } } else { assert(at_in(h0, o)); } }
        assert forall|o: KeyOp| #[trigger] at_in(t1, o) implies !in_groups(g1, o) by { if o == *x { assert(at_in(h0, o)); } }
    }
    assert forall|j: ShareKey| #[trigger] g1.dom().contains(j) implies exists|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == j && !at_in(t1, p) by {
        assert(g0.dom().contains(j)); let p = choose|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == j && !at_in(t0, p);
        if p == *x { assert(j == k); assert(c0[k] != 1); assert(intros(t1, k) != intros(v, k)); let q = choose|q: KeyOp| #[trigger] at_in(v, q) && newk(q) == k && !at_in(t1, q); assert(hasop(m, q)); } else { assert(!at_in(t1, p)); } }
}
/// nothing can come out any more: what is left is in or behind a circle
pub proof fn stuck(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, t: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>, o: KeyOp, n: nat) requires state(m, v, h, g, t, c), h.len() == 0, hasop(m, o), free(m, o, n) ensures at_in(t, o) decreases n
{
    if !at_in(t, o) { assert(at_in(v, o)); assert(!at_in(h, o)); assert(in_groups(g, o)); let k = oldk(o)->0; let p = choose|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == k && !at_in(t, p); assert(free(m, p, (n - 1) as nat)); stuck(m, v, h, g, t, c, p, (n - 1) as nat); }
}
pub proof fn forced(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, t: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>, k: ShareKey) requires state(m, v, h, g, t, c), h.len() == 0, g.dom().contains(k) ensures state(m, v, h + g[k], g.remove(k), t, c), g.remove(k).dom().len() < g.dom().len()
{
    let l = g[k]; let g1 = g.remove(k); assert(h + l =~= l);
    assert forall|o: KeyOp| #[trigger] at_in(l, o) implies in_groups(g, o) && oldk(o) == Some(k) by { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == o; assert(oldk(*l[i]) == Some(k)); }
    assert forall|o: KeyOp| #[trigger] in_groups(g1, o) <==> in_groups(g, o) && !at_in(l, o) by { if in_groups(g, o) && !at_in(l, o) { assert(oldk(o) != Some(k)); } }
    assert forall|o: KeyOp| !(#[trigger] at_in(h, o)) by {}
    assert forall|i: int| 0 <= i < l.len() && grounded(m, *(#[trigger] l[i])) implies served(m, t, *l[i]) by { assert(at_in(l, *l[i])); assert(in_groups(g, *l[i])); assert(at_in(v, *l[i])); assert(hasop(m, *l[i])); let n = choose|n: nat| #[trigger] free(m, *l[i], n); stuck(m, v, h, g, t, c, *l[i], n); }
    assert forall|j: ShareKey| #[trigger] g1.dom().contains(j) implies exists|p: KeyOp| #[trigger] hasop(m, p) && newk(p) == j && !at_in(t, p) by { assert(g.dom().contains(j)); }
    assert(part(v, l, g1, t)) by { assert forall|o: KeyOp| #[trigger] at_in(v, o) <==> at_in(l, o) || at_in(t, o) || in_groups(g1, o) by { assert(at_in(v, o) <==> at_in(h, o) || at_in(t, o) || in_groups(g, o)); if at_in(l, o) { assert(in_groups(g, o)); } } }
}
pub proof fn done(m: Ops, v: Seq<Arc<KeyOp>>, h: Seq<Arc<KeyOp>>, g: GMap, t: Seq<Arc<KeyOp>>, c: Map<ShareKey, usize>) requires state(m, v, h, g, t, c), h.len() == 0, forall|k: ShareKey| !(#[trigger] g.dom().contains(k)) ensures exported(m, t)
{ assert forall|o: KeyOp| #[trigger] hasop(m, o) <==> at_in(t, o) by { assert(hasop(m, o) <==> at_in(v, o)); assert(!at_in(h, o)); assert(!in_groups(g, o)); } }
"""
ST_ = "state(m, v, heads@, rotate_key_ops@, topsorted@, introducing@)"
topsort = F(OP, "KeyOp", "topsort", "pub fn topsort(key_ops: &CaMap<KeyOp>) -> (r: Vec<Arc<KeyOp>>) ensures exported(key_ops@, r@)", ["key_ops"],
    [("*introducing.entry($k).or_default() += 1;", "bump(&mut introducing, $k);", "must"), ("BTreeMap<ShareKey, Vec<Arc<KeyOp>>> = BTreeMap::new()", "Groups = Groups::new()", "must"), ("rotate_key_ops.entry($k).or_default().push($v)", "rotate_key_ops.add($k, $v)", "must"),
     ("heads.pop()", "take_last(&mut heads)"), ("heads.extend(ops)", "append_all(&mut heads, ops)"), ("introducing.get_mut($k)", "map_get_mut(&mut introducing, $k)"),
     ("let mut topsorted = vec![];", "let mut topsorted: Vec<Arc<KeyOp>> = Vec::new(); proof { all_read(m, v, heads@, rotate_key_ops@, introducing@); }"), ("vec![]", "Vec::new()"),
     ("match rotate_key_ops.pop_first() {", "({ let ghost gg = rotate_key_ops@; let ghost hh = heads@; let nxt = rotate_key_ops.pop_first(); proof { if nxt is Some { forced(m, v, hh, gg, topsorted@, introducing@, (nxt->0).0); } else { done(m, v, hh, gg, topsorted@, introducing@); } } match nxt {", "must"), ("None => break, }", "None => break, } })", "must"),
     ("topsorted.push(head);", "topsorted.push(head); proof { take_step(m, v, h0, g0, t0, c0, heads@, rotate_key_ops@, topsorted@, introducing@); }")],
    pre="let ghost m = key_ops@; let ghost v = listing(*key_ops);",
    loops=[("for", "it", "invariant it.seq() == v, v.len() <= usize::MAX, counted(v, it.index@ as int, introducing@)", "proof { count_step(v, it.index@ as int); assert(cnt(introducing@, newk(*key_op)) == intros(v.take(it.index@ as int), newk(*key_op))); }", "proof { count_step(v, it.index@ as int); }"),
           ("for", "it", "invariant it.seq() == v, same_ops(m, v), counted(v, v.len() as int, introducing@), read(m, v, it.index@ as int, heads@, rotate_key_ops@), it.index@ == it.seq().len() ==> read(m, v, v.len() as int, heads@, rotate_key_ops@)",
            "let ghost h0 = heads@; let ghost g0 = rotate_key_ops@; proof { assert(v.take(v.len() as int) =~= v); all_counted(v, introducing@); }", "proof { read_step(m, v, it.index@ as int, h0, g0, heads@, rotate_key_ops@); }"),
           ("loop", None, f"invariant {ST_} ensures exported(m, topsorted@) decreases v.len() - topsorted@.len(), rotate_key_ops@.dom().len()", "let ghost t9 = topsorted@; let ghost g9 = rotate_key_ops@;", ""),
           ("while", None, f"invariant {ST_}, t9.len() <= topsorted@.len(), t9.len() == topsorted@.len() ==> rotate_key_ops@ == g9 ensures heads@.len() == 0 decreases v.len() - topsorted@.len()", "let ghost t0 = topsorted@; let ghost g0 = rotate_key_ops@; let ghost c0 = introducing@; let ghost h0 = heads@.push(head); proof { assert(h0.drop_last() =~= heads@); can_take(m, v, h0, g0, t0, c0); }", "")])
export = Unit("export", core.std(*stores.AX, "ax_sharekey::key_model") + stores.MAPS + stores.DIGEST + stores.CAMAP + KEYOP + EXP + EXPL, OPFNS + [topsort])
