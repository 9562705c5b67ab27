"""P21: the order membership operations are put in."""
from vp.verus import Fn, Unit
from . import core, receive

MO = "keyhive_core/src/principal/group/membership_operation.rs"
DL = "keyhive_core/src/principal/group/delegation.rs"
RV = "keyhive_core/src/principal/group/revocation.rs"

# what it means to be everything below some heads, in order; shared with the users of reverse_topsort
REV = r"""
pub open spec fn op_list(d: Option<Arc<Signed<Delegation>>>) -> Seq<MembershipOperation> { match d { Some(p) => seq![MembershipOperation::Delegation(p)], None => seq![] } }
/// what an operation names directly
pub open spec fn parents(o: MembershipOperation) -> Seq<MembershipOperation> { match o {
    MembershipOperation::Delegation(d) => op_list(d.payload.proof) + d.payload.after_revocations@.map_values(|r: Arc<Signed<Revocation>>| MembershipOperation::Revocation(r)),
    MembershipOperation::Revocation(r) => seq![MembershipOperation::Delegation(r.payload.revoke)] + op_list(r.payload.proof) } }
pub open spec fn is_head(d: DelegationStore, r: RevocationStore, o: MembershipOperation) -> bool { match o {
    MembershipOperation::Delegation(x) => d.view().dom().contains(dg_d(*x)) && d.view()[dg_d(*x)] == x, MembershipOperation::Revocation(x) => r.view().dom().contains(dg_r(*x)) && r.view()[dg_r(*x)] == x } }
pub open spec fn downward(d: DelegationStore, r: RevocationStore, c: Set<MembershipOperation>) -> bool {
    &&& forall|o: MembershipOperation| #[trigger] is_head(d, r, o) ==> c.contains(o)
    &&& forall|o: MembershipOperation, i: int| c.contains(o) && 0 <= i < parents(o).len() ==> c.contains(#[trigger] parents(o)[i])
}
pub open spec fn lists(v: Seq<(Dg, MembershipOperation)>, o: MembershipOperation) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == o }
pub open spec fn later(v: Seq<(Dg, MembershipOperation)>, n: int, o: MembershipOperation) -> bool { exists|i: int| n <= i < v.len() && (#[trigger] v[i]).1 == o }
/// exactly the operations at or below the heads, each once, each before what it names
pub open spec fn sorted_below(d: DelegationStore, r: RevocationStore, v: Seq<(Dg, MembershipOperation)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == op_dg(v[i].1)
    &&& forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0 == (#[trigger] v[j]).0 ==> i == j
    &&& forall|o: MembershipOperation| #[trigger] is_head(d, r, o) ==> lists(v, o)
    &&& forall|i: int, k: int| 0 <= i < v.len() && 0 <= k < parents(v[i].1).len() ==> later(v, i + 1, #[trigger] parents(v[i].1)[k])
    &&& forall|c: Set<MembershipOperation>, i: int| downward(d, r, c) && 0 <= i < v.len() ==> #[trigger] c.contains((#[trigger] v[i]).1)
}
"""
TYPES = r"""
impl std::hash::Hash for Dg { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_dg { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Dg>(); }
pub enum Agent { Any } pub uninterp spec fn agent_id(a: Agent) -> Identifier;
pub trait Dupe: Sized { fn dupe(&self) -> (r: Self) ensures r == *self; }
impl<T> Dupe for Arc<T> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
impl<T> Dupe for Option<Arc<T>> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
pub enum MembershipOperation { Delegation(Arc<Signed<Delegation>>), Revocation(Arc<Signed<Revocation>>) }
impl Clone for MembershipOperation { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
conv!(Arc<Signed<Delegation>>, MembershipOperation, d, MembershipOperation::Delegation(d));
conv!(Arc<Signed<Revocation>>, MembershipOperation, d, MembershipOperation::Revocation(d));
pub open spec fn op_dg(m: MembershipOperation) -> Dg { match m { MembershipOperation::Delegation(d) => dg_d(*d), MembershipOperation::Revocation(r) => dg_r(*r) } }
/// no two operations have the same digest
pub axiom fn no_collision() ensures forall|a: MembershipOperation, b: MembershipOperation| #[trigger] op_dg(a) == #[trigger] op_dg(b) ==> a == b;
/// an operation contains what it names, hence is bigger
pub uninterp spec fn height(m: MembershipOperation) -> nat;
pub axiom fn contains_parents() ensures forall|m: MembershipOperation, i: int| 0 <= i < parents(m).len() ==> height(#[trigger] parents(m)[i]) < height(m);
impl Signed<Delegation> { #[verifier::external_body] pub fn digest(&self) -> (r: Dg) ensures r == dg_d(*self) { unimplemented!() } pub fn payload(&self) -> (r: &Delegation) ensures *r == self.payload { &self.payload } }
impl Signed<Revocation> { #[verifier::external_body] pub fn digest(&self) -> (r: Dg) ensures r == dg_r(*self) { unimplemented!() } pub fn payload(&self) -> (r: &Revocation) ensures *r == self.payload { &self.payload } }
/// the stores (P17): keyed by digest
#[verifier::external_body] pub struct DelegationStore { x: u64 } #[verifier::external_body] pub struct RevocationStore { x: u64 }
pub open spec fn valued<T>(m: Map<Dg, Arc<T>>, v: Seq<&Arc<T>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> exists|k: Dg| m.dom().contains(k) && #[trigger] m[k] == *(#[trigger] v[i])
    &&& forall|k: Dg| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == m[k] }
macro_rules! store { ($s:ident, $t:ty) => { verus!{ impl $s { pub uninterp spec fn view(&self) -> Map<Dg, Arc<Signed<$t>>>;
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&Arc<Signed<$t>>>) ensures valued(self.view(), r@) { unimplemented!() } } } } }
store!(DelegationStore, Delegation); store!(RevocationStore, Revocation);
pub open spec fn addressed(d: DelegationStore, r: RevocationStore) -> bool {
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) ==> dg_d(*d.view()[h]) == h
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) ==> dg_r(*r.view()[h]) == h }
/// std: collections
#[verifier::external_body] pub fn map_vec<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: &A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((&v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn map_into<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn take<A>(v: &mut Vec<A>) -> (r: Option<A>) ensures r is None ==> final(v)@.len() == 0 && old(v)@ == final(v)@, r is Some ==> old(v)@ == final(v)@.push(r->0) { v.pop() }
pub fn chain<A>(a: Vec<A>, b: Vec<A>) -> (r: Vec<A>) ensures r@ == a@ + b@ { let mut a = a; let mut b = b; a.append(&mut b); a }
#[verifier::external_body] pub fn opt_vec<A>(a: Option<A>) -> (r: Vec<A>) ensures a is Some ==> r@ =~= seq![a->0], a is None ==> r@.len() == 0 { unimplemented!() }
#[verifier::external_body] pub fn copy_of<A>(a: &Vec<Arc<A>>) -> (r: Vec<Arc<A>>) ensures r@ == a@ { unimplemented!() }
#[verifier::external_body] pub fn refs<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }

pub struct AfterAuth<'a> { pub optional_delegation: Option<Arc<Signed<Delegation>>>, pub revocations: &'a Vec<Arc<Signed<Revocation>>> }
pub struct Dependencies<'a> { pub delegations: Vec<Arc<Signed<Delegation>>>, pub revocations: Vec<Arc<Signed<Revocation>>>, pub content: &'a Content }
"""
TOP = r"""
// ---- containers of reverse_topsort ----
#[verifier::external_body] pub struct OpMap { x: u64 }
pub type Ent = (MembershipOperation, Vec<Dg>);
impl OpMap { pub uninterp spec fn view(&self) -> Map<Dg, Ent>;
    #[verifier::external_body] pub fn new() -> (r: OpMap) ensures r@ == Map::<Dg, Ent>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &Dg) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Dg) -> (r: Option<&Ent>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Dg, v: Ent) -> (r: Option<Ent>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn key_list(&self) -> (r: Vec<&Dg>) { unimplemented!() }
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(&Dg, &Ent)>) ensures forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains(*(#[trigger] r@[i]).0) && self@[*r@[i].0] == *r@[i].1,
        forall|k: Dg| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k, listing(self@, r@) { unimplemented!() } }
/// which revocations revoke what; distances to the root: they only settle ties
#[verifier::external_body] pub struct Revoked { x: u64 } #[verifier::external_body] pub struct Dist { x: u64 }
impl Revoked { #[verifier::external_body] pub fn new() -> Revoked { unimplemented!() }
    #[verifier::external_body] pub fn note(&mut self, s: Signature, d: Dg) { unimplemented!() }
    #[verifier::external_body] pub fn pick(&self, s: Signature, x: &Dist) -> Option<&Dg> { unimplemented!() } }
impl Dist { #[verifier::external_body] pub fn new() -> Dist { unimplemented!() } }
impl<T> Signed<T> { pub fn signature(&self) -> (r: &Signature) ensures *r == self.signature { &self.signature } }
#[verifier::external_body] pub fn compute_distance(d: &Dg, a: &OpMap, m: &mut Dist) -> usize { unimplemented!() }
#[verifier::external_body] pub struct Succ { x: u64 }
impl Succ { pub uninterp spec fn view(&self) -> Map<Dg, Vec<Dg>>;
    #[verifier::external_body] pub fn new() -> (r: Succ) ensures r@ == Map::<Dg, Vec<Dg>>::empty() { unimplemented!() }
    /// entry(k).or_default().push(v)
    #[verifier::external_body] pub fn push_at(&mut self, k: Dg, v: Dg) ensures final(self)@.dom() == old(self)@.dom().insert(k), forall|x: Dg| x != k && old(self)@.dom().contains(x) ==> final(self)@[x] == #[trigger] old(self)@[x],
        final(self)@[k]@ == (if old(self)@.dom().contains(k) { old(self)@[k]@.push(v) } else { seq![v] }) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &Dg) -> (r: Option<&Vec<Dg>>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() } }
pub type N<'a> = (Dg, &'a MembershipOperation);
pub open spec fn fits(n: N) -> bool { n.0 == op_dg(*n.1) }
/// the sorter (order.core_sort), nodes by their digests
#[verifier::external_body] pub struct Topsort<'a> { x: Vec<&'a u64> }
impl<'a> Topsort<'a> {
    pub uninterp spec fn dom(&self) -> Set<Dg>;
    /// b waits for a
    pub uninterp spec fn w(&self, b: Dg, a: Dg) -> bool;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r.dom() == Set::<Dg>::empty(), forall|b: Dg, a: Dg| !#[trigger] r.w(b, a) { unimplemented!() }
    #[verifier::external_body] pub fn add_node(&mut self, n: N<'a>) requires fits(n) ensures final(self).dom() == old(self).dom().insert(n.0), forall|b: Dg, a: Dg| #[trigger] final(self).w(b, a) == old(self).w(b, a) { unimplemented!() }
    #[verifier::external_body] pub fn add_dependency(&mut self, before: N<'a>, after: N<'a>) requires fits(before), fits(after)
        ensures final(self).dom() == old(self).dom().insert(before.0).insert(after.0), forall|b: Dg, a: Dg| #[trigger] final(self).w(b, a) == (old(self).w(b, a) || (b == after.0 && a == before.0)) { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self.dom() == Set::<Dg>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn pop_frontier(&mut self) -> (r: Vec<N<'a>>) ensures
        forall|i: int| 0 <= i < r@.len() ==> fits(#[trigger] r@[i]) && old(self).dom().contains(r@[i].0) && forall|a: Dg| !(#[trigger] old(self).w(r@[i].0, a) && old(self).dom().contains(a)),
        nodup(r@), forall|d: Dg| #[trigger] old(self).dom().contains(d) && (forall|a: Dg| !#[trigger] old(self).w(d, a)) ==> inn(r@, d),
        forall|d: Dg| #[trigger] final(self).dom().contains(d) <==> old(self).dom().contains(d) && !inn(r@, d),
        forall|b: Dg, a: Dg| #[trigger] final(self).w(b, a) == (old(self).w(b, a) && final(self).dom().contains(b) && !inn(r@, a)) { unimplemented!() } }
pub open spec fn nodup(s: Seq<N>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j }
pub open spec fn inn(s: Seq<N>, d: Dg) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == d }
/// std: partition; sorting only rearranges
#[verifier::external_body] pub fn partition<'a, F: Fn(&N<'a>) -> bool>(v: Vec<N<'a>>, f: F) -> (r: (Vec<N<'a>>, Vec<N<'a>>))
    requires nodup(v@), forall|i: int| 0 <= i < v@.len() ==> fits(#[trigger] v@[i]), forall|a: &N<'a>| f.requires((a,))
    ensures nodup(r.0@), nodup(r.1@), r.0@.len() + r.1@.len() == v@.len(), forall|i: int| 0 <= i < r.0@.len() ==> fits(#[trigger] r.0@[i]) && f.ensures((&r.0@[i],), true), forall|i: int| 0 <= i < r.1@.len() ==> fits(#[trigger] r.1@[i]),
        forall|d: Dg| #[trigger] inn(v@, d) == (inn(r.0@, d) || inn(r.1@, d)), forall|d: Dg| !(#[trigger] inn(r.0@, d) && inn(r.1@, d)) { unimplemented!() }
#[verifier::external_body] pub fn arrange<'a>(v: &mut Vec<N<'a>>) ensures nodup(old(v)@) ==> nodup(final(v)@), final(v)@.len() == old(v)@.len(), forall|d: Dg| #[trigger] inn(final(v)@, d) == inn(old(v)@, d),
    (forall|i: int| 0 <= i < old(v)@.len() ==> fits(#[trigger] old(v)@[i])) ==> (forall|i: int| 0 <= i < final(v)@.len() ==> fits(#[trigger] final(v)@[i])), (forall|i: int| 0 <= i < old(v)@.len() ==> is_rev(*(#[trigger] old(v)@[i]).1)) ==> (forall|i: int| 0 <= i < final(v)@.len() ==> is_rev(*(#[trigger] final(v)@[i]).1)) { unimplemented!() }
pub open spec fn is_rev(o: MembershipOperation) -> bool { o is Revocation }
/// `&v[1..]`, `.windows(2)`
#[verifier::external_body] pub fn tail<'a>(v: &Vec<N<'a>>, k: usize) -> (r: Vec<N<'a>>) requires k <= v@.len() ensures r@ == v@.subrange(k as int, v@.len() as int) { unimplemented!() }
#[verifier::external_body] pub fn windows<'a>(v: &Vec<N<'a>>) -> (r: Vec<Vec<N<'a>>>) ensures r@.len() == (if v@.len() > 0 { v@.len() - 1 } else { 0 }), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@.len() == 2 && r@[i]@[0] == v@[i] && r@[i]@[1] == v@[i + 1] { unimplemented!() }
#[verifier::external_body] pub fn digests(v: &Vec<(Dg, MembershipOperation)>) -> (r: HashSet<Dg>) ensures forall|d: Dg| #[trigger] r@.contains(d) == out_has(v@, d) { unimplemented!() }

// ---- invariants ----
pub open spec fn has_op(l: Seq<MembershipOperation>, d: Dg) -> bool { exists|i: int| 0 <= i < l.len() && op_dg(#[trigger] l[i]) == d }
pub open spec fn pd(a: Map<Dg, Ent>, d: Dg) -> Seq<Dg> { a[d].1@ }
pub open spec fn digs_of(s: Seq<MembershipOperation>) -> Seq<Dg> { s.map_values(|p: MembershipOperation| op_dg(p)) }
pub open spec fn entry_ok(a: Map<Dg, Ent>, d: Dg) -> bool { op_dg(a[d].0) == d && a[d].1@ =~= digs_of(parents(a[d].0)) }
pub open spec fn entries_ok(a: Map<Dg, Ent>) -> bool { forall|d: Dg| #[trigger] a.dom().contains(d) ==> entry_ok(a, d) }
/// collected so far, with what is still to explore
pub open spec fn collected(a: Map<Dg, Ent>, todo: Seq<MembershipOperation>, dh: DelegationStore, rh: RevocationStore) -> bool {
    &&& entries_ok(a)
    &&& forall|o: MembershipOperation| #[trigger] is_head(dh, rh, o) ==> a.dom().contains(op_dg(o)) || has_op(todo, op_dg(o))
    &&& forall|d: Dg, i: int| a.dom().contains(d) && 0 <= i < pd(a, d).len() ==> a.dom().contains(#[trigger] pd(a, d)[i]) || has_op(todo, pd(a, d)[i])
    &&& below(a, todo, dh, rh)
}
pub open spec fn below(a: Map<Dg, Ent>, todo: Seq<MembershipOperation>, dh: DelegationStore, rh: RevocationStore) -> bool {
    forall|c: Set<MembershipOperation>| #[trigger] downward(dh, rh, c) ==> (forall|d: Dg| #[trigger] a.dom().contains(d) ==> c.contains(a[d].0)) && forall|i: int| 0 <= i < todo.len() ==> c.contains(#[trigger] todo[i]) }
/// `op`, last of the list, is explored: it is known already, or it joins with what it names
pub proof fn explored(a: Map<Dg, Ent>, todo: Seq<MembershipOperation>, b: Map<Dg, Ent>, left: Seq<MembershipOperation>, op: MembershipOperation, ps: Seq<MembershipOperation>, pds: Vec<Dg>, dh: DelegationStore, rh: RevocationStore)
    requires collected(a, todo, dh, rh), todo.len() > 0, todo.last() == op,
        (a.dom().contains(op_dg(op)) && b == a && left =~= todo.drop_last()) || (!a.dom().contains(op_dg(op)) && b == a.insert(op_dg(op), (op, pds)) && ps =~= parents(op) && pds@ =~= digs_of(ps) && left =~= todo.drop_last() + ps)
    ensures collected(b, left, dh, rh)
{
    let o = op_dg(op);
    assert forall|d: Dg| has_op(todo, d) implies b.dom().contains(d) || has_op(left, d) by {
        let i = choose|i: int| 0 <= i < todo.len() && op_dg(#[trigger] todo[i]) == d;
        if i < todo.len() - 1 { assert(left[i] == todo[i]); } else { assert(d == o); } }
    assert forall|d: Dg, i: int| b.dom().contains(d) && 0 <= i < pd(b, d).len() implies b.dom().contains(#[trigger] pd(b, d)[i]) || has_op(left, pd(b, d)[i]) by {
        if b != a && d == o { let n = todo.drop_last().len() as int; assert(left[n + i] == ps[i]); assert(op_dg(left[n + i]) == pds@[i]); }
        else { assert(pd(b, d)[i] == pd(a, d)[i]); } }
    assert forall|c: Set<MembershipOperation>| #[trigger] downward(dh, rh, c) implies (forall|d: Dg| #[trigger] b.dom().contains(d) ==> c.contains(b[d].0)) && forall|i: int| 0 <= i < left.len() ==> c.contains(#[trigger] left[i]) by {
        assert(c.contains(todo[todo.len() - 1]));
        assert forall|i: int| 0 <= i < left.len() implies c.contains(#[trigger] left[i]) by {
            if i < todo.len() - 1 { assert(left[i] == todo[i]); } else { let k = i - (todo.len() - 1); assert(left[i] == parents(op)[k]); } } }
}
pub open spec fn closed(a: Map<Dg, Ent>) -> bool { entries_ok(a) && forall|d: Dg, i: int| a.dom().contains(d) && 0 <= i < pd(a, d).len() ==> a.dom().contains(#[trigger] pd(a, d)[i]) }
pub type Out = Seq<(Dg, MembershipOperation)>;
pub open spec fn out_has(o: Out, d: Dg) -> bool { exists|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == d }
pub open spec fn out_before(o: Out, n: int, d: Dg) -> bool { exists|i: int| 0 <= i < n && (#[trigger] o[i]).0 == d }
/// what is out: real operations, none twice, none after one that names it
pub open spec fn sent(a: Map<Dg, Ent>, o: Out) -> bool {
    &&& forall|i: int| 0 <= i < o.len() ==> a.dom().contains((#[trigger] o[i]).0) && o[i].1 == a[o[i].0].0
    &&& forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && (#[trigger] o[i]).0 == (#[trigger] o[j]).0 ==> i == j
    &&& forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < pd(a, o[i].0).len() ==> !out_before(o, i + 1, #[trigger] pd(a, o[i].0)[k])
}
/// everything is out, in the sorter, or in `lim` (taken from the sorter, not out yet); whatever is in the sorter or in `lim` has what it names in the sorter, where it waits for it
pub open spec fn st(a: Map<Dg, Ent>, t: Topsort, o: Out, lim: ISet<Dg>) -> bool {
    &&& closed(a) && sent(a, o) && inside(t)
    &&& forall|d: Dg| #[trigger] a.dom().contains(d) <==> t.dom().contains(d) || out_has(o, d) || lim.contains(d)
    &&& forall|d: Dg| #[trigger] t.dom().contains(d) ==> !out_has(o, d) && !lim.contains(d)
    &&& forall|d: Dg| #[trigger] lim.contains(d) ==> !out_has(o, d)
    &&& holds_back(a, t)
    &&& forall|d: Dg, i: int| lim.contains(d) && 0 <= i < pd(a, d).len() ==> t.dom().contains(#[trigger] pd(a, d)[i])
}
pub open spec fn holds_back(a: Map<Dg, Ent>, t: Topsort) -> bool { forall|d: Dg, i: int| t.dom().contains(d) && 0 <= i < pd(a, d).len() ==> t.dom().contains(#[trigger] pd(a, d)[i]) && t.w(pd(a, d)[i], d) }
pub open spec fn inside(t: Topsort) -> bool { forall|b: Dg, x: Dg| #[trigger] t.w(b, x) ==> t.dom().contains(b) && t.dom().contains(x) }
/// no circles
pub open spec fn ranked(t: Topsort, rk: spec_fn(Dg) -> nat, top: nat) -> bool { (forall|b: Dg, x: Dg| #[trigger] t.w(b, x) ==> rk(b) < rk(x)) && forall|d: Dg| #[trigger] t.dom().contains(d) ==> rk(d) < top }
/// successors of a revocation: what it names
pub open spec fn succ_ok(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, d: Dg) -> bool {
    &&& pd(a, d).len() > 0 ==> s.dom().contains(d)
    &&& forall|i: int| 0 <= i < pd(a, d).len() ==> s[d]@.contains(#[trigger] pd(a, d)[i])
    &&& is_rev(a[d].0) && s.dom().contains(d) ==> forall|i: int| 0 <= i < s[d]@.len() ==> pd(a, d).contains(#[trigger] s[d]@[i])
}
pub open spec fn succs_ok(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>) -> bool { forall|d: Dg| #[trigger] a.dom().contains(d) ==> succ_ok(a, s, d) }
pub open spec fn popped(t0: Topsort, t: Topsort, b: Seq<N>) -> bool {
    &&& forall|i: int| 0 <= i < b.len() ==> fits(#[trigger] b[i]) && t0.dom().contains(b[i].0) && forall|a: Dg| !(#[trigger] t0.w(b[i].0, a) && t0.dom().contains(a))
    &&& forall|d: Dg| #[trigger] t.dom().contains(d) <==> t0.dom().contains(d) && !inn(b, d)
    &&& forall|x: Dg, a: Dg| #[trigger] t.w(x, a) == (t0.w(x, a) && t.dom().contains(x) && !inn(b, a))
}
pub open spec fn names(b: Seq<N>) -> ISet<Dg> { ISet::new(|d: Dg| inn(b, d)) }
pub proof fn took(a: Map<Dg, Ent>, t0: Topsort, t: Topsort, o: Out, b: Seq<N>) requires st(a, t0, o, ISet::empty()), popped(t0, t, b) ensures st(a, t, o, names(b))
{
    let lim = names(b);
    assert forall|d: Dg| #[trigger] lim.contains(d) implies t0.dom().contains(d) && !out_has(o, d) && forall|i: int| 0 <= i < pd(a, d).len() ==> t.dom().contains(#[trigger] pd(a, d)[i]) by {
        let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == d; assert(t0.dom().contains(b[k].0));
        assert forall|i: int| 0 <= i < pd(a, d).len() implies t.dom().contains(#[trigger] pd(a, d)[i]) by { free_of(t0, t, b, a, d, i); } }
    assert forall|d: Dg, i: int| t.dom().contains(d) && 0 <= i < pd(a, d).len() implies t.dom().contains(#[trigger] pd(a, d)[i]) && t.w(pd(a, d)[i], d) by { assert(t0.dom().contains(d)); free_of(t0, t, b, a, d, i); }
    assert forall|d: Dg| #[trigger] a.dom().contains(d) <==> t.dom().contains(d) || out_has(o, d) || lim.contains(d) by { assert(lim.contains(d) == inn(b, d)); assert(t0.dom().contains(d) ==> (t.dom().contains(d) || inn(b, d))); }
}
pub proof fn free_of(t0: Topsort, t: Topsort, b: Seq<N>, a: Map<Dg, Ent>, d: Dg, i: int) requires popped(t0, t, b), holds_back(a, t0), t0.dom().contains(d), 0 <= i < pd(a, d).len() ensures t.dom().contains(pd(a, d)[i])
{
    let p = pd(a, d)[i];
    assert(t0.dom().contains(p) && t0.w(p, d));
    if inn(b, p) { let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0 == p; assert(!(t0.w(b[k].0, d) && t0.dom().contains(d))); }
}
pub proof fn put(a: Map<Dg, Ent>, t: Topsort, o: Out, lim: ISet<Dg>, n: (Dg, MembershipOperation)) requires st(a, t, o, lim), lim.contains(n.0), op_dg(n.1) == n.0 ensures st(a, t, o.push(n), lim.remove(n.0))
{
    no_collision();
    let p = o.push(n); let l2 = lim.remove(n.0);
    assert(a.dom().contains(n.0)); assert(entry_ok(a, n.0)); assert(n.1 == a[n.0].0);
    assert forall|d: Dg| #[trigger] out_has(p, d) <==> out_has(o, d) || d == n.0 by {
        if out_has(o, d) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == d; assert(p[i].0 == d); } assert(p[o.len() as int].0 == n.0); }
    assert forall|i: int, k: int| 0 <= i < p.len() && 0 <= k < pd(a, p[i].0).len() implies !out_before(p, i + 1, #[trigger] pd(a, p[i].0)[k]) by {
        let x = pd(a, p[i].0)[k];
        if i < o.len() { assert(p[i] == o[i]); assert(!out_before(o, i + 1, pd(a, o[i].0)[k])); if out_before(p, i + 1, x) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] p[j]).0 == x; assert(o[j].0 == x); } }
        else { assert(t.dom().contains(x)); if out_before(p, i + 1, x) { let j = choose|j: int| 0 <= j < i + 1 && (#[trigger] p[j]).0 == x; if j < o.len() { assert(o[j].0 == x); assert(out_has(o, x)); } else { assert(x == n.0); assert(lim.contains(x)); } } } }
    assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() && (#[trigger] p[i]).0 == (#[trigger] p[j]).0 implies i == j by {
        if i < o.len() && j < o.len() { assert(o[i].0 == o[j].0); } else if i < o.len() { assert(o[i].0 == n.0); assert(out_has(o, n.0)); } else if j < o.len() { assert(o[j].0 == n.0); assert(out_has(o, n.0)); } }
    assert forall|i: int| 0 <= i < p.len() implies a.dom().contains((#[trigger] p[i]).0) && p[i].1 == a[p[i].0].0 by { if i < o.len() { assert(p[i] == o[i]); } }
}
pub open spec fn left(b: Seq<N>, k: int) -> ISet<Dg> { ISet::new(|d: Dg| exists|i: int| k <= i < b.len() && (#[trigger] b[i]).0 == d) }
pub proof fn left_all(b: Seq<N>) ensures left(b, 0) =~= names(b), left(b, b.len() as int) =~= ISet::<Dg>::empty() {
    assert forall|d: Dg| left(b, 0).contains(d) == names(b).contains(d) by { if inn(b, d) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == d; assert(left(b, 0).contains(d)); } } }
/// the first `k` of `b` are out, then the next one is
pub proof fn put_next(a: Map<Dg, Ent>, t: Topsort, o: Out, b: Seq<N>, k: int, more: ISet<Dg>, n: (Dg, MembershipOperation)) requires st(a, t, o, left(b, k).union(more)), nodup(b), 0 <= k < b.len(), n.0 == b[k].0, op_dg(n.1) == n.0, !more.contains(n.0)
    ensures st(a, t, o.push(n), left(b, k + 1).union(more))
{
    let l = left(b, k).union(more); assert(b[k].0 == n.0); assert(left(b, k).contains(n.0)); put(a, t, o, l, n);
    assert(l.remove(n.0) =~= left(b, k + 1).union(more)) by {
        assert forall|d: Dg| l.remove(n.0).contains(d) == left(b, k + 1).union(more).contains(d) by {
            if left(b, k).contains(d) && d != n.0 { let i = choose|i: int| k <= i < b.len() && (#[trigger] b[i]).0 == d; assert(i != k); assert(left(b, k + 1).contains(d)); }
            if left(b, k + 1).contains(d) { let i = choose|i: int| k + 1 <= i < b.len() && (#[trigger] b[i]).0 == d; assert(left(b, k).contains(d)); if d == n.0 { assert(b[i].0 == b[k].0); } } } }
}
// ---- several revocations at once: all but the first go back ----
pub open spec fn chained(t1: Topsort, t: Topsort, rem: Seq<N>, j: int) -> bool {
    &&& forall|d: Dg| #[trigger] t.dom().contains(d) <==> t1.dom().contains(d) || (j > 0 && exists|i: int| 0 <= i <= j && (#[trigger] rem[i]).0 == d)
    &&& forall|b: Dg, x: Dg| #[trigger] t.w(b, x) <==> t1.w(b, x) || is_link(rem, j, b, x)
}
pub open spec fn is_link(rem: Seq<N>, j: int, b: Dg, x: Dg) -> bool { exists|i: int| 0 <= i < j && (#[trigger] rem[i]).0 == b && rem[i + 1].0 == x }
pub open spec fn at(rem: Seq<N>, d: Dg) -> int { choose|i: int| 0 <= i < rem.len() && (#[trigger] rem[i]).0 == d }
pub open spec fn back(a: Map<Dg, Ent>, t1: Topsort, t: Topsort, rem: Seq<N>, k: int) -> bool {
    &&& forall|d: Dg| #[trigger] t.dom().contains(d) <==> t1.dom().contains(d) || inn(rem, d)
    &&& forall|b: Dg, x: Dg| #[trigger] t1.w(b, x) ==> t.w(b, x)
    &&& forall|b: Dg, x: Dg| #[trigger] t.w(b, x) ==> t1.w(b, x) || is_link(rem, rem.len() - 1, b, x) || (inn(rem, x) && pd(a, x).contains(b))
    &&& forall|i: int, m: int| 0 <= i < k && 0 <= m < pd(a, rem[i].0).len() ==> t.w(#[trigger] pd(a, rem[i].0)[m], rem[i].0)
}
pub proof fn link_step(t1: Topsort, t: Topsort, u: Topsort, rem: Seq<N>, j: int)
    requires chained(t1, t, rem, j), 0 <= j < rem.len() - 1, u.dom() == t.dom().insert(rem[j + 1].0).insert(rem[j].0), forall|b: Dg, x: Dg| #[trigger] u.w(b, x) == (t.w(b, x) || (b == rem[j].0 && x == rem[j + 1].0))
    ensures chained(t1, u, rem, j + 1)
{
    assert forall|d: Dg| #[trigger] u.dom().contains(d) <==> t1.dom().contains(d) || (exists|i: int| 0 <= i <= j + 1 && (#[trigger] rem[i]).0 == d) by {
        if j > 0 && exists|i: int| 0 <= i <= j && (#[trigger] rem[i]).0 == d { let i = choose|i: int| 0 <= i <= j && (#[trigger] rem[i]).0 == d; assert(rem[i].0 == d); }
        if d == rem[j + 1].0 { } if d == rem[j].0 {}
        if exists|i: int| 0 <= i <= j + 1 && (#[trigger] rem[i]).0 == d { let i = choose|i: int| 0 <= i <= j + 1 && (#[trigger] rem[i]).0 == d; if i < j { assert(j > 0); assert(rem[i].0 == d); } } }
    assert forall|b: Dg, x: Dg| #[trigger] u.w(b, x) <==> t1.w(b, x) || is_link(rem, j + 1, b, x) by {
        if is_link(rem, j, b, x) { let i = choose|i: int| 0 <= i < j && (#[trigger] rem[i]).0 == b && rem[i + 1].0 == x; assert(rem[i].0 == b); }
        if is_link(rem, j + 1, b, x) { let i = choose|i: int| 0 <= i < j + 1 && (#[trigger] rem[i]).0 == b && rem[i + 1].0 == x; if i < j { assert(is_link(rem, j, b, x)); } }
        assert(rem[j].0 == rem[j].0); }
}
pub proof fn linked(a: Map<Dg, Ent>, t1: Topsort, t: Topsort, rem: Seq<N>)
    requires rem.len() >= 1, (rem.len() > 1 && chained(t1, t, rem, rem.len() - 1)) || (rem.len() == 1 && t.dom() == t1.dom().insert(rem[0].0) && forall|b: Dg, x: Dg| #[trigger] t.w(b, x) == t1.w(b, x))
    ensures back(a, t1, t, rem, 0)
{
    assert forall|d: Dg| #[trigger] t.dom().contains(d) <==> t1.dom().contains(d) || inn(rem, d) by {
        if inn(rem, d) { let i = choose|i: int| 0 <= i < rem.len() && (#[trigger] rem[i]).0 == d; assert(0 <= i <= rem.len() - 1 && rem[i].0 == d); }
        if rem.len() == 1 { assert(rem[0].0 == rem[0].0); } }
}
pub proof fn all_back(a: Map<Dg, Ent>, t1: Topsort, t: Topsort, o: Out, rem: Seq<N>, k: int, rk: spec_fn(Dg) -> nat, top: nat)
    requires st(a, t1, o, names(rem)), back(a, t1, t, rem, k), k == rem.len(), nodup(rem), forall|i: int| 0 <= i < rem.len() ==> fits(#[trigger] rem[i])
    ensures st(a, t, o, ISet::empty()), ranked(t1, rk, top) ==> ranked(t, rank2(rem, rk, top), (top + rem.len()) as nat)
{
    assert forall|d: Dg| inn(rem, d) == #[trigger] names(rem).contains(d) by {}
    assert forall|d: Dg, i: int| t.dom().contains(d) && 0 <= i < pd(a, d).len() implies t.dom().contains(#[trigger] pd(a, d)[i]) && t.w(pd(a, d)[i], d) by {
        if t1.dom().contains(d) { assert(t1.dom().contains(pd(a, d)[i])); assert(t1.w(pd(a, d)[i], d)); } else { assert(names(rem).contains(d)); let j = choose|j: int| 0 <= j < rem.len() && (#[trigger] rem[j]).0 == d; assert(t1.dom().contains(pd(a, d)[i])); assert(t.w(pd(a, rem[j].0)[i], rem[j].0)); } }
    assert forall|b: Dg, x: Dg| #[trigger] t.w(b, x) implies t.dom().contains(b) && t.dom().contains(x) by {
        if is_link(rem, rem.len() - 1, b, x) { let i = choose|i: int| 0 <= i < rem.len() - 1 && (#[trigger] rem[i]).0 == b && rem[i + 1].0 == x; assert(inn(rem, b)); assert(inn(rem, x)); }
        else if inn(rem, x) && pd(a, x).contains(b) { assert(names(rem).contains(x)); let i = choose|i: int| 0 <= i < pd(a, x).len() && pd(a, x)[i] == b; assert(t1.dom().contains(pd(a, x)[i])); } }
    assert forall|d: Dg| #[trigger] a.dom().contains(d) <==> t.dom().contains(d) || out_has(o, d) by { assert(names(rem).contains(d) == inn(rem, d)); }
    assert forall|d: Dg| #[trigger] t.dom().contains(d) implies !out_has(o, d) by { if inn(rem, d) { assert(names(rem).contains(d)); } else { assert(t1.dom().contains(d)); } }
    if ranked(t1, rk, top) {
        let r2 = rank2(rem, rk, top);
        assert forall|d: Dg| #[trigger] t.dom().contains(d) implies r2(d) < top + rem.len() by { if inn(rem, d) { let i = at(rem, d); } else { assert(t1.dom().contains(d)); } }
        assert forall|b: Dg, x: Dg| #[trigger] t.w(b, x) implies r2(b) < r2(x) by {
            if t1.w(b, x) { assert(t1.dom().contains(b) && t1.dom().contains(x)); assert(!names(rem).contains(b) && !names(rem).contains(x)); }
            else if is_link(rem, rem.len() - 1, b, x) { let i = choose|i: int| 0 <= i < rem.len() - 1 && (#[trigger] rem[i]).0 == b && rem[i + 1].0 == x; assert(inn(rem, b)); assert(inn(rem, x)); let p = at(rem, b); assert(rem[p].0 == rem[i].0); let q = at(rem, x); assert(rem[q].0 == rem[i + 1].0); }
            else { assert(names(rem).contains(x)); let i = choose|i: int| 0 <= i < pd(a, x).len() && pd(a, x)[i] == b; assert(t1.dom().contains(pd(a, x)[i])); assert(!names(rem).contains(b)); assert(rk(b) < top); } }
    }
}
pub open spec fn rank2(rem: Seq<N>, rk: spec_fn(Dg) -> nat, top: nat) -> spec_fn(Dg) -> nat { |d: Dg| if inn(rem, d) { (top + at(rem, d)) as nat } else { rk(d) } }
pub proof fn pop_ranked(t0: Topsort, t: Topsort, b: Seq<N>, rk: spec_fn(Dg) -> nat, top: nat) requires popped(t0, t, b), ranked(t0, rk, top) ensures ranked(t, rk, top) {}
/// something is always at the front
pub proof fn front(t: Topsort, rk: spec_fn(Dg) -> nat, top: nat, d: Dg) -> (f: Dg) requires ranked(t, rk, top), inside(t), t.dom().contains(d) ensures t.dom().contains(f), forall|x: Dg| !#[trigger] t.w(f, x) decreases top - rk(d)
{ if exists|x: Dg| #[trigger] t.w(d, x) { let x = choose|x: Dg| #[trigger] t.w(d, x); front(t, rk, top, x) } else { d } }
// ---- filling the sorter ----
/// the entries from 0 to k are in, and held back
pub open spec fn filled(a: Map<Dg, Ent>, t: Topsort, e: Seq<(&Dg, &Ent)>, k: int, o: Out) -> bool {
    &&& inside(t) && forall|d: Dg| #[trigger] t.dom().contains(d) ==> a.dom().contains(d) && !out_has(o, d)
    &&& forall|i: int| 0 <= i < k && !out_has(o, *(#[trigger] e[i]).0) ==> held(a, t, *e[i].0, pd(a, *e[i].0).len() as int)
}
pub open spec fn held(a: Map<Dg, Ent>, t: Topsort, d: Dg, n: int) -> bool { t.dom().contains(d) && forall|j: int| 0 <= j < n ==> t.dom().contains(#[trigger] pd(a, d)[j]) && t.w(pd(a, d)[j], d) }
pub open spec fn listing(a: Map<Dg, Ent>, e: Seq<(&Dg, &Ent)>) -> bool {
    &&& forall|i: int| 0 <= i < e.len() ==> a.dom().contains(*(#[trigger] e[i]).0) && a[*e[i].0] == *e[i].1
    &&& forall|k: Dg| #[trigger] a.dom().contains(k) ==> exists|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == k
    &&& forall|i: int, j: int| 0 <= i < e.len() && 0 <= j < e.len() && *(#[trigger] e[i]).0 == *(#[trigger] e[j]).0 ==> i == j
}
pub open spec fn grown(t: Topsort, u: Topsort) -> bool { (forall|d: Dg| #[trigger] t.dom().contains(d) ==> u.dom().contains(d)) && forall|b: Dg, x: Dg| #[trigger] t.w(b, x) ==> u.w(b, x) }
pub proof fn grow(a: Map<Dg, Ent>, t: Topsort, u: Topsort, e: Seq<(&Dg, &Ent)>, k: int, o: Out) requires filled(a, t, e, k, o), grown(t, u), inside(u), forall|d: Dg| #[trigger] u.dom().contains(d) ==> a.dom().contains(d) && !out_has(o, d) ensures filled(a, u, e, k, o)
{ assert forall|i: int| 0 <= i < k && !out_has(o, *(#[trigger] e[i]).0) implies held(a, u, *e[i].0, pd(a, *e[i].0).len() as int) by { assert(held(a, t, *e[i].0, pd(a, *e[i].0).len() as int)); } }
pub proof fn full(a: Map<Dg, Ent>, t: Topsort, e: Seq<(&Dg, &Ent)>, o: Out) requires closed(a), filled(a, t, e, e.len() as int, o), listing(a, e), sent(a, o) ensures st(a, t, o, ISet::empty())
{
    assert forall|d: Dg| #[trigger] a.dom().contains(d) implies out_has(o, d) || held(a, t, d, pd(a, d).len() as int) by { let i = choose|i: int| 0 <= i < e.len() && *(#[trigger] e[i]).0 == d; assert(*e[i].0 == d); }
    assert forall|i: int| 0 <= i < o.len() implies a.dom().contains((#[trigger] o[i]).0) by {}
    assert forall|d: Dg| out_has(o, d) implies a.dom().contains(d) by {}
}
pub open spec fn succs_upto(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, e: Seq<(&Dg, &Ent)>, k: int) -> bool {
    (forall|i: int| 0 <= i < k ==> succ_ok(a, s, *(#[trigger] e[i]).0)) && forall|i: int| k <= i < e.len() ==> !s.dom().contains(*(#[trigger] e[i]).0) }
pub open spec fn succ_part(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, d: Dg, j: int) -> bool {
    &&& j > 0 ==> s.dom().contains(d)
    &&& forall|i: int| 0 <= i < j ==> s[d]@.contains(#[trigger] pd(a, d)[i])
    &&& s.dom().contains(d) ==> forall|i: int| 0 <= i < s[d]@.len() ==> pd(a, d).contains(#[trigger] s[d]@[i])
}
/// the result
pub proof fn finish(a: Map<Dg, Ent>, t: Topsort, o: Out, dh: DelegationStore, rh: RevocationStore) requires collected(a, seq![], dh, rh), st(a, t, o, ISet::empty()), t.dom() == Set::<Dg>::empty() ensures sorted_below(dh, rh, o)
{
    no_collision();
    assert forall|d: Dg| #[trigger] a.dom().contains(d) implies out_has(o, d) && lists(o, a[d].0) by { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0 == d; assert(o[i].1 == a[d].0); }
    assert forall|x: MembershipOperation| #[trigger] is_head(dh, rh, x) implies lists(o, x) by { assert(!has_op(Seq::<MembershipOperation>::empty(), op_dg(x))); assert(a.dom().contains(op_dg(x))); assert(entry_ok(a, op_dg(x))); }
    assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0 == op_dg(o[i].1) by { assert(entry_ok(a, o[i].0)); }
    assert forall|i: int, k: int| 0 <= i < o.len() && 0 <= k < parents(o[i].1).len() implies later(o, i + 1, #[trigger] parents(o[i].1)[k]) by {
        let d = o[i].0; assert(entry_ok(a, d)); let p = pd(a, d)[k]; assert(p == op_dg(parents(o[i].1)[k])); assert(a.dom().contains(p)); assert(entry_ok(a, p));
        let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).0 == p; assert(!out_before(o, i + 1, pd(a, o[i].0)[k])); assert(o[j].1 == parents(o[i].1)[k]); }
}
/// at most as many out as there are
pub proof fn bounded(a: Map<Dg, Ent>, o: Out) requires sent(a, o), true ensures o.len() <= a.dom().len()
{
    let ds = o.map_values(|x: (Dg, MembershipOperation)| x.0);
    assert(ds.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() && i != j implies ds[i] != ds[j] by { assert(o[i].0 == ds[i] && o[j].0 == ds[j]); } }
    ds.unique_seq_to_set();
    assert(ds.to_set().subset_of(a.dom())) by { assert forall|d: Dg| ds.to_set().contains(d) implies a.dom().contains(d) by { let i = choose|i: int| 0 <= i < ds.len() && ds[i] == d; assert(o[i].0 == d); } }
    vstd::set_lib::lemma_len_subset(ds.to_set(), a.dom());
}
"""

PRE = core.std("ax_identifier::key_model", "ax_dg::key_model") + receive.BASE + receive.KEYOP + receive.IDS + receive.OPS.replace("pub trait Dupe: Sized { fn dupe(&self) -> (r: Self) ensures r == *self; }\nimpl<T> Dupe for Arc<T> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }\n", "") + TYPES + REV + TOP

after_fns = [
    Fn(DL, "Delegation", "after_auth", "pub fn after_auth(&self) -> (r: AfterAuth<'_>) ensures r.optional_delegation == self.proof, r.revocations@ == self.after_revocations@", ["self"], wrap="impl Delegation"),
    Fn(DL, "Delegation", "after", "pub fn after(&self) -> (r: Dependencies<'_>) ensures r.delegations@ =~= (match self.proof { Some(p) => seq![p], None => seq![] }), r.revocations@ == self.after_revocations@", ["self"],
       [("optional_delegation.map(|delegation| vec![delegation]).unwrap_or_default()", "opt_vec(optional_delegation)", "must"), ("revocations.to_vec()", "copy_of(revocations)", "must")], wrap="impl Delegation"),
    Fn(RV, "Revocation", "after", "pub fn after(&self) -> (r: Dependencies<'_>) ensures r.delegations@ =~= seq![self.revoke] + (match self.proof { Some(p) => seq![p], None => seq![] }), r.revocations@.len() == 0", ["self"], wrap="impl Revocation"),
]
op_fns = [
    Fn(MO, "MembershipOperation", "is_delegation", "pub fn is_delegation(&self) -> (r: bool) ensures r == (self is Delegation)", ["self"], wrap="impl MembershipOperation"),
    Fn(MO, "MembershipOperation", "is_revocation", "pub fn is_revocation(&self) -> (r: bool) ensures r == is_rev(*self)", ["self"], wrap="impl MembershipOperation"),
    Fn(MO, "MembershipOperation", "digest", "pub fn digest(&self) -> (r: Dg) ensures r == op_dg(*self)", ["self"], wrap="impl MembershipOperation"),
    Fn(MO, "MembershipOperation", "after", "pub fn after(&self) -> (r: Dependencies<'_>) ensures r.delegations@ =~= deps_d(*self), r.revocations@ =~= deps_r(*self)", ["self"], wrap="impl MembershipOperation"),
    Fn(MO, "MembershipOperation", "after_auth", "pub fn after_auth(&self) -> (r: Vec<MembershipOperation>) ensures r@ =~= parents(*self)", ["self"],
       [("deps.delegations.into_iter().map(|$$d| $x).chain(deps.revocations.into_iter().map(|$$r| $y)).collect()",
         "({ let a = map_into(deps.delegations, |$$d: Arc<Signed<Delegation>>| -> (o: MembershipOperation) ensures o == MembershipOperation::Delegation($$d) { $x }); let b = map_into(deps.revocations, |$$r: Arc<Signed<Revocation>>| -> (o: MembershipOperation) ensures o == MembershipOperation::Revocation($$r) { $y }); let c = chain(a, b); proof { joined(*self, a@, b@); } c })", "must")],
       wrap="impl MembershipOperation"),
]
DEPS = r"""
pub open spec fn deps_d(o: MembershipOperation) -> Seq<Arc<Signed<Delegation>>> { match o { MembershipOperation::Delegation(d) => (match d.payload.proof { Some(p) => seq![p], None => seq![] }),
    MembershipOperation::Revocation(r) => seq![r.payload.revoke] + (match r.payload.proof { Some(p) => seq![p], None => seq![] }) } }
pub open spec fn deps_r(o: MembershipOperation) -> Seq<Arc<Signed<Revocation>>> { match o { MembershipOperation::Delegation(d) => d.payload.after_revocations@, MembershipOperation::Revocation(r) => seq![] } }
pub proof fn joined(o: MembershipOperation, a: Seq<MembershipOperation>, b: Seq<MembershipOperation>)
    requires a.len() == deps_d(o).len(), b.len() == deps_r(o).len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == MembershipOperation::Delegation(deps_d(o)[i]), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == MembershipOperation::Revocation(deps_r(o)[i])
    ensures a + b =~= parents(o) {}
"""

TOP_RW = [("<F, S, T, L>", ""), ("let mut all_ops: $x = BTreeMap::new();", "let mut all_ops = OpMap::new();", "must"),
    ("struct Key(ed25519_dalek::Signature);", ""), ("impl Hash for Key { $x }", ""), ("impl std::borrow::Borrow<ed25519_dalek::Signature> for Key { $x }", ""),
    ("let mut revoked_dependencies: $x = HashMap::new();", "let mut revoked_dependencies = Revoked::new();", "must"),
    ("let mut explore: $x = vec![];", "let mut explore: Vec<MembershipOperation> = Vec::new();"),
    ("for $$x in delegation_heads.values() {", "let dv = delegation_heads.values(); let ghost dvs = dv@; for $$x in dv {", "must"),
    ("for $$x in revocation_heads.values() {", "let rv = revocation_heads.values(); let ghost rvs = rv@; let ghost ex0 = explore@; for $$x in rv {", "must"),
    ("while let Some(op) = explore.pop() {", "proof { started(*delegation_heads, *revocation_heads, dvs, rvs, explore@); } while let Some(op) = take(&mut explore) {", "must"),
    ("for parent in &parents {", "for parent in refs(&parents) {", "must"),
    ("let parent_digests: Vec<_> = parents.iter().map(|$$p| $y).collect();", "let parent_digests: Vec<Dg> = map_vec(&parents, |$$p: &MembershipOperation| -> (d: Dg) ensures d == op_dg(*$$p) { $y });", "must"),
    ("revoked_dependencies.entry($x).or_default().push(digest)", "revoked_dependencies.note(r.payload.revoke.signature, digest)", "must"),
    ("revoked_dependencies.get($x).and_then($y)", "revoked_dependencies.pick(proof.signature, &distance_to_root)", "must"),
    ("@drop_fn compute_distance", ""),
    ("let mut distance_to_root: $x = HashMap::new();", "let mut distance_to_root = Dist::new();", "must"), ("all_ops.keys()", "all_ops.key_list()"),
    ("type TsKey<'a, F, S, T, L> = $x;", ""), ("let mut adjacencies: $x = Topsort::new();", "let mut adjacencies: Topsort = Topsort::new();", "must"),
    ("let mut successors_of: $x = HashMap::new();", "let mut successors_of = Succ::new(); let e1 = all_ops.entries(); let ghost es = e1@; let ghost none: Out = Seq::empty(); let ghost gm = all_ops@; proof { assert(closed(gm)) by { assert forall|d: Dg| !has_op(Seq::<MembershipOperation>::empty(), d) by {} assert(explore@ =~= Seq::empty()); } }", "must"),
    ("for (digest, (op, parent_digests)) in all_ops.iter() { if $x {",
     "let e2 = all_ops.entries(); let ghost es2 = e2@; proof { rk = |d: Dg| if gm.dom().contains(d) { height(gm[d].0) } else { 0 }; top = 0; } for en in e2 { let digest = en.0; let op = &en.1.0; let parent_digests = &en.1.1; if $x {", "must"),
    ("for (digest, (op, parent_digests)) in all_ops.iter() {", "for en in e1 { let digest = en.0; let op = &en.1.0; let parent_digests = &en.1.1;", "must"),
    ("for parent_digest in parent_digests {", "for parent_digest in refs(parent_digests) {", "must"),
    ("successors_of.entry(*digest).or_default().push($x);", "successors_of.push_at(*digest, $x);", "must"),
    ("let mut dependencies = vec![];", "let mut dependencies: Vec<(Dg, MembershipOperation)> = Vec::new(); let ghost mut rk: spec_fn(Dg) -> nat = |d: Dg| 0; let ghost mut top: nat = 0; proof { full(gm, adjacencies, es, none); assert(dependencies@ =~= none); }", "must"),
    ("if let MembershipOperation::Delegation(d) = op {", "let ghost tb = adjacencies; let ghost sb = successors_of@; if let MembershipOperation::Delegation(d) = op {", "must"),
    ("let emitted: HashSet<_> = $x;", "let emitted = digests(&dependencies);", "must"),
    ("continue; } let (mut revocations, mut others): (Vec<_>, Vec<_>) = batch.into_iter().partition(|(_, op)| $y);",
     "proof { full(gm, adjacencies, es2, o0); } continue; } let (mut revocations, mut others) = partition(batch, |x: &N| -> (b: bool) ensures b == is_rev(*x.1) { let op = &x.1; $y });", "must"),
    ("others.sort_by_key($x);", "arrange(&mut others); proof { parted(bs, revocations@, others@); left_all(others@); left_all(revocations@); assert(names(bs) =~= left(others@, 0).union(names(revocations@))); }", "must"),
    ("for (digest, op) in &others {", "for nn in refs(&others) { let digest = &nn.0; let op = &nn.1;", "must"),
    ("if revocations.len() <= $x {", "proof { assert(left(others@, others@.len() as int).union(names(revocations@)) =~= left(revocations@, 0).union(ISet::empty())); } let ghost od2 = dependencies@.len(); if revocations.len() <= $x {", "must"),
    ("for (digest, op) in &revocations {", "for nn in refs(&revocations) { let digest = &nn.0; let op = &nn.1;", "must"),
    ("revocations.sort_by($x);", "let ghost rv0 = revocations@; arrange(&mut revocations); proof { same_names(rv0, revocations@); assert(names(rv0) =~= names(revocations@)); left_all(revocations@); }", "must"),
    ("let remaining = &revocations[$x..];", "let remaining = tail(&revocations, $x); proof { put_next(gm, t1, o1, revocations@, 0, ISet::empty(), (first_digest, *first_op)); assert(dependencies@ =~= o1.push((first_digest, *first_op))); grem = remaining@; rest(revocations@, remaining@); }", "must"),
    ("let (first_digest, first_op) = revocations[0];", "let ghost o1 = dependencies@; let (first_digest, first_op) = revocations[0];", "must"),
    ("remaining.windows(2)", "windows(&remaining)", "must"),
    ("for &(rev_digest, rev_op) in remaining {", "proof { if remaining@.len() == 1 { assert(adjacencies.dom() =~= t1.dom().insert(remaining@[0].0)); } linked(gm, t1, adjacencies, remaining@); } for nn in refs(&remaining) { let rev_digest = nn.0; let rev_op = nn.1;", "must"),
    ("for succ_digest in succs {", "for succ_digest in refs(succs) {", "must"),
    ("Reversed(dependencies)", "({ proof { finish(gm, adjacencies, dependencies@, *delegation_heads, *revocation_heads); } dependencies })", "must"),
]
EXTRA = r"""
pub proof fn started(dh: DelegationStore, rh: RevocationStore, dv: Seq<&Arc<Signed<Delegation>>>, rv: Seq<&Arc<Signed<Revocation>>>, ex: Seq<MembershipOperation>)
    requires addressed(dh, rh), ex.len() == dv.len() + rv.len(), forall|i: int| 0 <= i < dv.len() ==> #[trigger] ex[i] == MembershipOperation::Delegation(*dv[i]), forall|i: int| dv.len() <= i < ex.len() ==> #[trigger] ex[i] == MembershipOperation::Revocation(*rv[i - dv.len()]),
        valued(dh.view(), dv), valued(rh.view(), rv)
    ensures collected(Map::empty(), ex, dh, rh)
{
    assert forall|i: int| 0 <= i < ex.len() implies is_head(dh, rh, #[trigger] ex[i]) by {
        if i < dv.len() { let k = choose|k: Dg| dh.view().dom().contains(k) && #[trigger] dh.view()[k] == *dv[i]; } else { let j = i - dv.len(); let k = choose|k: Dg| rh.view().dom().contains(k) && #[trigger] rh.view()[k] == *rv[j]; } }
    assert forall|o: MembershipOperation| #[trigger] is_head(dh, rh, o) implies has_op(ex, op_dg(o)) by { match o {
        MembershipOperation::Delegation(x) => { let i = choose|i: int| 0 <= i < dv.len() && *(#[trigger] dv[i]) == dh.view()[dg_d(*x)]; assert(op_dg(ex[i]) == op_dg(o)); }
        MembershipOperation::Revocation(x) => { let i = choose|i: int| 0 <= i < rv.len() && *(#[trigger] rv[i]) == rh.view()[dg_r(*x)]; assert(op_dg(ex[dv.len() + i]) == op_dg(o)); } } }
}
pub proof fn same_names(a: Seq<N>, b: Seq<N>) requires forall|d: Dg| #[trigger] inn(b, d) == inn(a, d) ensures names(a) =~= names(b) {}
pub proof fn parted(b: Seq<N>, r: Seq<N>, o: Seq<N>) requires forall|d: Dg| #[trigger] inn(b, d) == (inn(r, d) || inn(o, d)) ensures names(b) =~= names(o).union(names(r)) {}
pub proof fn rest(r: Seq<N>, rem: Seq<N>) requires r.len() > 0, rem == r.subrange(1, r.len() as int) ensures left(r, 1).union(ISet::empty()) =~= names(rem)
{
    assert forall|d: Dg| left(r, 1).contains(d) == names(rem).contains(d) by {
        if left(r, 1).contains(d) { let i = choose|i: int| 1 <= i < r.len() && (#[trigger] r[i]).0 == d; assert(rem[i - 1].0 == d); }
        if inn(rem, d) { let i = choose|i: int| 0 <= i < rem.len() && (#[trigger] rem[i]).0 == d; assert(r[i + 1].0 == d); } }
}
"""
COMMON = "all_ops@ == gm, closed(gm), "
L6 = COMMON + "listing(gm, es), it.seq() == es, none == (Seq::<(Dg, MembershipOperation)>::empty()), filled(gm, adjacencies, es, it.index@ as int, none), succs_upto(gm, successors_of@, es, it.index@ as int)"
L7 = COMMON + """listing(gm, es), none == (Seq::<(Dg, MembershipOperation)>::empty()), 0 <= ix < es.len(), *digest == *es[ix].0, gd == *digest, gm.dom().contains(gd), *op == gm[gd].0, it2.seq().len() == pd(gm, gd).len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == pd(gm, gd)[i],
            filled(gm, adjacencies, es, ix, none), held(gm, adjacencies, gd, it2.index@ as int), succ_part(gm, successors_of@, gd, it2.index@ as int), forall|i: int| 0 <= i < ix ==> succ_ok(gm, successors_of@, *(#[trigger] es[i]).0), forall|i: int| ix < i < es.len() ==> !successors_of@.dom().contains(*(#[trigger] es[i]).0)"""
L8 = COMMON + "succs_ok(gm, successors_of@), st(gm, adjacencies, dependencies@, ISet::empty()), causal_only ==> ranked(adjacencies, rk, top)"
L9 = COMMON + """listing(gm, es2), it.seq() == es2, causal_only, dependencies@ == o0, st(gm, t1, o0, ISet::empty()), forall|d: Dg| #[trigger] emitted@.contains(d) == out_has(o0, d), filled(gm, adjacencies, es2, it.index@ as int, o0), ranked(adjacencies, rk, top), forall|d: Dg| #[trigger] gm.dom().contains(d) ==> rk(d) == height(gm[d].0)"""
L10 = L9.replace("it.seq() == es2, ", "").replace("it.index@ as int", "ix") + """, 0 <= ix < es2.len(), *digest == *es2[ix].0, gd == *digest, gm.dom().contains(gd), t1.dom().contains(gd), *op == gm[gd].0, it2.seq().len() == pd(gm, gd).len(), forall|i: int| 0 <= i < it2.seq().len() ==> *(#[trigger] it2.seq()[i]) == pd(gm, gd)[i], held(gm, adjacencies, gd, it2.index@ as int)"""
LT = COMMON + "adjacencies == t1, "
top_fn = Fn(MO, "MembershipOperation", "reverse_topsort", """#[verifier::exec_allows_no_decreases_clause] pub fn reverse_topsort(delegation_heads: &DelegationStore, revocation_heads: &RevocationStore) -> (v: Vec<(Dg, MembershipOperation)>)
    requires addressed(*delegation_heads, *revocation_heads) ensures sorted_below(*delegation_heads, *revocation_heads, v@)""", ["delegation_heads", "revocation_heads"], TOP_RW,
    loops=[
        ("for", "it", "invariant it.seq() == dvs, explore@.len() == it.index@, forall|i: int| 0 <= i < explore@.len() ==> #[trigger] explore@[i] == MembershipOperation::Delegation(*dvs[i])"),
        ("for", "it", "invariant it.seq() == rvs, ex0.len() == dvs.len(), explore@.len() == ex0.len() + it.index@, forall|i: int| 0 <= i < ex0.len() ==> #[trigger] explore@[i] == ex0[i], forall|i: int| ex0.len() <= i < explore@.len() ==> #[trigger] explore@[i] == MembershipOperation::Revocation(*rvs[i - ex0.len()])"),
        ("while", None, "invariant collected(all_ops@, explore@, *delegation_heads, *revocation_heads) ensures explore@.len() == 0",
         "let ghost t0 = explore@.push(op); let ghost a0 = all_ops@; let ghost l0 = explore@; let ghost gop = op; proof { assert(l0 =~= t0.drop_last()); assert(t0.last() == op); if a0.dom().contains(op_dg(op)) { explored(a0, t0, a0, l0, op, seq![], arbitrary(), *delegation_heads, *revocation_heads); } }",
         "proof { explored(a0, t0, all_ops@, explore@, gop, parents@, parent_digests, *delegation_heads, *revocation_heads); }"),
        ("for", "it", "invariant it.seq().len() == parents@.len(), forall|i: int| 0 <= i < parents@.len() ==> *(#[trigger] it.seq()[i]) == parents@[i], explore@ =~= l0 + parents@.subrange(0, it.index@ as int)", "", "proof { assert(parents@.subrange(0, it.index@ + 1) =~= parents@.subrange(0, it.index@ as int).push(parents@[it.index@ as int])); }"),
        ("for", "it", "invariant true"),
        ("for", "it", "invariant " + L6, "let ghost ix = it.index@ as int; let ghost gd = *en.0; let ghost ta = adjacencies; let ghost sa = successors_of@; proof { assert(*es[ix].0 == gd); assert(entry_ok(gm, gd)); }",
         "proof { grow(gm, tb, adjacencies, es, ix, none); if sb.dom().contains(gd) { assert(successors_of@[gd]@ == sb[gd]@ || successors_of@[gd]@.drop_last() =~= sb[gd]@); } assert(held(gm, adjacencies, gd, pd(gm, gd).len() as int)); upto(gm, sb, successors_of@, es, ix); }"),
        ("for", "it2", "invariant " + L7, "let ghost j = it2.index@ as int; let ghost tc = adjacencies; let ghost sc = successors_of@; proof { assert(gm.dom().contains(pd(gm, gd)[j])); assert(entry_ok(gm, gd)); assert(entry_ok(gm, pd(gm, gd)[j])); }",
         "proof { grow(gm, tc, adjacencies, es, ix, none); pushed(gm, sc, successors_of@, es, ix, j); }"),
        ("while", None, "invariant " + L8 + " ensures adjacencies.dom() == Set::<Dg>::empty() decreases gm.dom().len() - dependencies@.len(), (if causal_only { 0int } else { 1int })",
         "let ghost t0 = adjacencies; let ghost o0 = dependencies@; let ghost mut grem: Seq<N> = Seq::empty();",
         """proof { if revocations@.len() > 1 { all_back(gm, t1, adjacencies, dependencies@, grem, grem.len() as int, rk, top); if causal_only { rk = rank2(grem, rk, top); top = (top + grem.len()) as nat; } }
            else { left_all(revocations@); assert(left(revocations@, revocations@.len() as int).union(ISet::empty()) =~= ISet::empty()); } bounded(gm, dependencies@); bounded(gm, o0); }"""),
        ("for", "it", "invariant " + L9, "let ghost ix = it.index@ as int; let ghost gd = *en.0; let ghost ta = adjacencies; let ghost tp = top; proof { assert(*es2[ix].0 == gd); assert(entry_ok(gm, gd)); if !out_has(o0, gd) { assert(t1.dom().contains(gd)); top = if top > rk(gd) { top } else { (rk(gd) + 1) as nat }; } }",
         "proof { if !out_has(o0, gd) { assert(held(gm, adjacencies, gd, pd(gm, gd).len() as int)); } }"),
        ("for", "it2", "invariant " + L10, "let ghost j = it2.index@ as int; let ghost tc = adjacencies; let ghost p = pd(gm, gd)[j]; proof { contains_parents(); assert(gm.dom().contains(pd(gm, gd)[j])); assert(t1.dom().contains(p)); assert(entry_ok(gm, gd)); assert(entry_ok(gm, p)); lower(gm, gd, j); top = if top > rk(p) { top } else { (rk(p) + 1) as nat }; }",
         "proof { grow(gm, tc, adjacencies, es2, ix, o0); }"),
        ("for", "it", "invariant " + LT + "it.seq().len() == others@.len(), forall|i: int| 0 <= i < others@.len() ==> *(#[trigger] it.seq()[i]) == others@[i], nodup(others@), forall|i: int| 0 <= i < others@.len() ==> fits(#[trigger] others@[i]), forall|d: Dg| !(#[trigger] inn(others@, d) && inn(revocations@, d)), dependencies@.len() == o0.len() + it.index@, st(gm, t1, dependencies@, left(others@, it.index@ as int).union(names(revocations@)))",
         "let ghost od = dependencies@; proof { assert(fits(others@[it.index@ as int])); assert(inn(others@, nn.0)); }", "proof { put_next(gm, t1, od, others@, it.index@ as int, names(revocations@), (nn.0, *nn.1)); assert(dependencies@ =~= od.push((nn.0, *nn.1))); }"),
        ("for", "it", "invariant " + LT + "it.seq().len() == revocations@.len(), forall|i: int| 0 <= i < revocations@.len() ==> *(#[trigger] it.seq()[i]) == revocations@[i], nodup(revocations@), forall|i: int| 0 <= i < revocations@.len() ==> fits(#[trigger] revocations@[i]), dependencies@.len() == od2 + it.index@, st(gm, t1, dependencies@, left(revocations@, it.index@ as int).union(ISet::empty()))",
         "let ghost od = dependencies@; proof { assert(fits(revocations@[it.index@ as int])); }", "proof { put_next(gm, t1, od, revocations@, it.index@ as int, ISet::empty(), (nn.0, *nn.1)); assert(dependencies@ =~= od.push((nn.0, *nn.1))); }"),
        ("for", "it", "invariant " + COMMON + "remaining@.len() > 0, it.seq().len() == remaining@.len() - 1, forall|i: int| 0 <= i < remaining@.len() - 1 ==> (#[trigger] it.seq()[i])@.len() == 2 && it.seq()[i]@[0] == remaining@[i] && it.seq()[i]@[1] == remaining@[i + 1], forall|i: int| 0 <= i < remaining@.len() ==> fits(#[trigger] remaining@[i]), chained(t1, adjacencies, remaining@, it.index@ as int)",
         "let ghost ix = it.index@ as int; let ghost tc = adjacencies; proof { assert(fits(remaining@[ix])); assert(fits(remaining@[ix + 1])); }", "proof { link_step(t1, tc, adjacencies, remaining@, ix); }"),
        ("for", "it", "invariant " + COMMON + "succs_ok(gm, successors_of@), it.seq().len() == remaining@.len(), forall|i: int| 0 <= i < remaining@.len() ==> *(#[trigger] it.seq()[i]) == remaining@[i], nodup(remaining@), forall|i: int| 0 <= i < remaining@.len() ==> fits(#[trigger] remaining@[i]) && is_rev(*remaining@[i].1), st(gm, t1, dependencies@, names(remaining@)), back(gm, t1, adjacencies, remaining@, it.index@ as int)",
         "let ghost ix = it.index@ as int; proof { no_collision(); assert(fits(remaining@[ix])); assert(inn(remaining@, nn.0)); assert(names(remaining@).contains(nn.0)); assert(gm.dom().contains(nn.0)); assert(entry_ok(gm, nn.0)); assert(*nn.1 == gm[nn.0].0); assert(succ_ok(gm, successors_of@, nn.0)); }",
         "proof { back_next(gm, t1, adjacencies, remaining@, ix, successors_of@); }"),
        ("for", "it2", "invariant " + COMMON + "inn(remaining@, rev_digest), 0 <= ix < remaining@.len(), op_dg(*rev_op) == rev_digest, st(gm, t1, dependencies@, names(remaining@)), back(gm, t1, adjacencies, remaining@, ix), it2.seq().len() == succs@.len(), forall|i: int| 0 <= i < succs@.len() ==> *(#[trigger] it2.seq()[i]) == succs@[i], forall|i: int| 0 <= i < succs@.len() ==> pd(gm, rev_digest).contains(#[trigger] succs@[i]), forall|i: int| 0 <= i < it2.index@ ==> adjacencies.w(#[trigger] succs@[i], rev_digest)",
         "let ghost j = it2.index@ as int; let ghost tc = adjacencies; proof { assert(*succ_digest == succs@[j]); assert(names(remaining@).contains(rev_digest)); assert(gm.dom().contains(rev_digest)); let m = choose|m: int| 0 <= m < pd(gm, rev_digest).len() && pd(gm, rev_digest)[m] == *succ_digest; assert(gm.dom().contains(pd(gm, rev_digest)[m])); assert(t1.dom().contains(pd(gm, rev_digest)[m])); assert(entry_ok(gm, *succ_digest)); }",
         "proof { assert(back(gm, t1, adjacencies, remaining@, ix)); }"),
    ],
    hints=[("let batch = adjacencies.pop_frontier();", " let ghost t1 = adjacencies; let ghost bs = batch@; proof { assert(popped(t0, t1, bs)); took(gm, t0, t1, o0, bs); if causal_only { pop_ranked(t0, t1, bs, rk, top); } }"),
           ("if batch.is_empty() {", " proof { assert(names(bs) =~= ISet::empty()); if causal_only { if forall|d: Dg| !t0.dom().contains(d) { assert(t0.dom() =~= Set::empty()); } let d = choose|d: Dg| t0.dom().contains(d); let f = front(t0, rk, top, d); assert(inn(bs, f)); assert(false); } }")],
    wrap="impl MembershipOperation")
MORE = r"""
pub proof fn lower(a: Map<Dg, Ent>, d: Dg, j: int) requires closed(a), a.dom().contains(d), 0 <= j < pd(a, d).len() ensures height(a[pd(a, d)[j]].0) < height(a[d].0)
{ no_collision(); contains_parents(); assert(entry_ok(a, d)); let p = pd(a, d)[j]; assert(a.dom().contains(pd(a, d)[j])); assert(entry_ok(a, p)); assert(p == op_dg(parents(a[d].0)[j])); assert(a[p].0 == parents(a[d].0)[j]); }
pub proof fn same_succ(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, u: Map<Dg, Vec<Dg>>, x: Dg) requires succ_ok(a, s, x), u.dom().contains(x) == s.dom().contains(x), s.dom().contains(x) ==> u[x] == s[x] ensures succ_ok(a, u, x)
{ if u.dom().contains(x) { assert(u[x] == s[x]); }
  assert forall|i: int| 0 <= i < pd(a, x).len() implies u[x]@.contains(#[trigger] pd(a, x)[i]) by { assert(s[x]@.contains(pd(a, x)[i])); assert(u.dom().contains(x)); }
  if is_rev(a[x].0) && u.dom().contains(x) { assert forall|i: int| 0 <= i < u[x]@.len() implies pd(a, x).contains(#[trigger] u[x]@[i]) by { assert(pd(a, x).contains(s[x]@[i])); } } }
pub proof fn pushed(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, u: Map<Dg, Vec<Dg>>, e: Seq<(&Dg, &Ent)>, ix: int, j: int)
    requires listing(a, e), 0 <= ix < e.len(), 0 <= j < pd(a, *e[ix].0).len(), succ_part(a, s, *e[ix].0, j), forall|i: int| 0 <= i < ix ==> succ_ok(a, s, *(#[trigger] e[i]).0), forall|i: int| ix < i < e.len() ==> !s.dom().contains(*(#[trigger] e[i]).0),
        u.dom() == s.dom().insert(*e[ix].0), forall|x: Dg| x != *e[ix].0 && s.dom().contains(x) ==> u[x] == #[trigger] s[x], u[*e[ix].0]@ == (if s.dom().contains(*e[ix].0) { s[*e[ix].0]@.push(pd(a, *e[ix].0)[j]) } else { seq![pd(a, *e[ix].0)[j]] })
    ensures succ_part(a, u, *e[ix].0, j + 1), forall|i: int| 0 <= i < ix ==> succ_ok(a, u, *(#[trigger] e[i]).0), forall|i: int| ix < i < e.len() ==> !u.dom().contains(*(#[trigger] e[i]).0)
{
    let d = *e[ix].0;
    assert forall|i: int| 0 <= i < j + 1 implies u[d]@.contains(#[trigger] pd(a, d)[i]) by {
        if i < j { assert(s[d]@.contains(pd(a, d)[i])); let k = choose|k: int| 0 <= k < s[d]@.len() && s[d]@[k] == pd(a, d)[i]; assert(u[d]@[k] == pd(a, d)[i]); } else { assert(u[d]@[u[d]@.len() - 1] == pd(a, d)[j]); } }
    assert forall|i: int| 0 <= i < u[d]@.len() implies pd(a, d).contains(#[trigger] u[d]@[i]) by { if s.dom().contains(d) && i < s[d]@.len() { assert(u[d]@[i] == s[d]@[i]); assert(pd(a, d).contains(s[d]@[i])); } else { assert(pd(a, d)[j] == u[d]@[i]); } }
    assert forall|i: int| 0 <= i < ix implies succ_ok(a, u, *(#[trigger] e[i]).0) by { let x = *e[i].0; assert(x != d); same_succ(a, s, u, x); }
}
/// the entry is done: what it names is listed, maybe one more if it is a delegation
pub proof fn upto(a: Map<Dg, Ent>, s: Map<Dg, Vec<Dg>>, u: Map<Dg, Vec<Dg>>, e: Seq<(&Dg, &Ent)>, ix: int)
    requires listing(a, e), 0 <= ix < e.len(), succ_part(a, s, *e[ix].0, pd(a, *e[ix].0).len() as int), forall|i: int| 0 <= i < ix ==> succ_ok(a, s, *(#[trigger] e[i]).0), forall|i: int| ix < i < e.len() ==> !s.dom().contains(*(#[trigger] e[i]).0),
        u == s || (!is_rev(a[*e[ix].0].0) && u.dom() == s.dom().insert(*e[ix].0) && (forall|x: Dg| x != *e[ix].0 && s.dom().contains(x) ==> u[x] == #[trigger] s[x]) && (s.dom().contains(*e[ix].0) ==> u[*e[ix].0]@.drop_last() == s[*e[ix].0]@ && u[*e[ix].0]@.len() > 0))
    ensures succs_upto(a, u, e, ix + 1)
{
    let d = *e[ix].0;
    if u != s {
        assert forall|i: int| 0 <= i < pd(a, d).len() implies u[d]@.contains(#[trigger] pd(a, d)[i]) by { assert(s[d]@.contains(pd(a, d)[i])); let k = choose|k: int| 0 <= k < s[d]@.len() && s[d]@[k] == pd(a, d)[i]; assert(u[d]@.drop_last()[k] == pd(a, d)[i]); assert(u[d]@[k] == pd(a, d)[i]); }
        assert forall|i: int| 0 <= i < ix implies succ_ok(a, u, *(#[trigger] e[i]).0) by { let x = *e[i].0; assert(x != d); same_succ(a, s, u, x); }
    }
    if u == s { assert forall|i: int| 0 <= i < pd(a, d).len() implies u.dom().contains(d) && u[d]@.contains(#[trigger] pd(a, d)[i]) by { assert(s[d]@.contains(pd(a, d)[i])); }
        if u.dom().contains(d) { assert forall|i: int| 0 <= i < u[d]@.len() implies pd(a, d).contains(#[trigger] u[d]@[i]) by { assert(pd(a, d).contains(s[d]@[i])); } } }
    assert(succ_ok(a, u, d));
}
pub proof fn back_next(a: Map<Dg, Ent>, t1: Topsort, t: Topsort, rem: Seq<N>, k: int, s: Map<Dg, Vec<Dg>>)
    requires back(a, t1, t, rem, k), 0 <= k < rem.len(), succ_ok(a, s, rem[k].0), s.dom().contains(rem[k].0) ==> forall|i: int| 0 <= i < s[rem[k].0]@.len() ==> t.w(#[trigger] s[rem[k].0]@[i], rem[k].0)
    ensures back(a, t1, t, rem, k + 1)
{
    let d = rem[k].0;
    assert forall|i: int, m: int| 0 <= i < k + 1 && 0 <= m < pd(a, rem[i].0).len() implies t.w(#[trigger] pd(a, rem[i].0)[m], rem[i].0) by {
        if i == k { assert(s[d]@.contains(pd(a, d)[m])); let j = choose|j: int| 0 <= j < s[d]@.len() && s[d]@[j] == pd(a, d)[m]; assert(t.w(s[d]@[j], d)); } }
}
"""
u_after = Unit("after", PRE + DEPS, after_fns + op_fns)
def stub(fns): return [Fn(f.path, f.impl, f.name, f.sig, f.params, f.rewrites, wrap=f.wrap) for f in fns]
u_top = Unit("reverse_topsort", PRE + DEPS + EXTRA + MORE, after_fns + op_fns + [top_fn], rlimit=100)
