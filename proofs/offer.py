"""P19: what is offered to a peer is everything it needs, and nothing about what it cannot reach."""
from vp.verus import Fn, Unit
from . import core, receive, revtop

KH = "keyhive_core/src/keyhive.rs"
MO = "keyhive_core/src/principal/group/membership_operation.rs"
GP = "keyhive_core/src/principal/group.rs"
GS = "keyhive_core/src/principal/group/state.rs"
DC = "keyhive_core/src/principal/document.rs"
MB = "keyhive_core/src/principal/membered.rs"
AG = "keyhive_core/src/principal/agent.rs"

TYPES = r"""
impl std::hash::Hash for Dg { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_dg { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Dg>(); }
macro_rules! value { ($t:ident) => { verus!{ #[verifier::external_body] pub struct $t { x: u64 } impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } } } }
macro_rules! duped { ($t:ident) => { verus!{ impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } impl Dupe for $t { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } } } } }
value!(Cgka);
/// the prekey operations of one individual, by digest
value!(KeyOps);
pub struct Individual { pub ops: KeyOps } duped!(Individual);
impl Individual { pub fn prekey_ops(&self) -> (r: &KeyOps) ensures *r == self.ops { &self.ops } }
impl KeyOps { pub uninterp spec fn view(&self) -> Map<Dg, Arc<KeyOp>>;
    #[verifier::external_body] pub fn default() -> (r: KeyOps) ensures r@ == Map::<Dg, Arc<KeyOp>>::empty() { unimplemented!() } }
pub enum IdOrIndividual { GroupId(GroupId), Individual(Individual) } duped!(IdOrIndividual);
/// handles stand for what is behind them at the time of the query
pub struct Active { pub id: IndividualId, pub individual: Individual } duped!(Active);
impl Active { pub fn id(&self) -> (r: IndividualId) ensures r == self.id { self.id } }
pub struct GroupState { pub id: GroupId, pub delegation_heads: DelegationStore, pub revocation_heads: RevocationStore }
pub struct Group { pub id_or_indie: IdOrIndividual, pub state: GroupState } duped!(Group);
pub struct Document { pub group: Group, pub cgka: Option<Cgka> } duped!(Document);
pub enum Agent { Active(IndividualId, Active), Individual(IndividualId, Individual), Group(GroupId, Group), Document(DocumentId, Document) } duped!(Agent);
pub enum Membered { Group(GroupId, Group), Document(DocumentId, Document) } duped!(Membered);
pub open spec fn agent_id(a: Agent) -> Identifier { match a { Agent::Active(i, _) => i.0, Agent::Individual(i, _) => i.0, Agent::Group(i, _) => i.0, Agent::Document(i, _) => i.0 } }
pub open spec fn as_mem(a: Agent) -> Option<Membered> { match a { Agent::Group(i, g) => Some(Membered::Group(i, g)), Agent::Document(i, d) => Some(Membered::Document(i, d)), _ => None } }
/// one kind of agent per identifier
#[derive(Clone, Copy)] pub struct AgentId(pub Identifier);
conv!(AgentId, Identifier, k, k.0); conv!(IndividualId, AgentId, k, AgentId(k.0)); conv!(GroupId, AgentId, k, AgentId(k.0)); conv!(DocumentId, AgentId, k, AgentId(k.0));
pub enum MembershipOperation { Delegation(Arc<Signed<Delegation>>), Revocation(Arc<Signed<Revocation>>) }
pub type Op = MembershipOperation;
conv!(Arc<Signed<Delegation>>, MembershipOperation, d, MembershipOperation::Delegation(d));
conv!(Arc<Signed<Revocation>>, MembershipOperation, d, MembershipOperation::Revocation(d));
pub open spec fn op_dg(m: Op) -> Dg { match m { Op::Delegation(d) => dg_d(*d), Op::Revocation(r) => dg_r(*r) } }
/// no two operations have the same digest
pub axiom fn no_collision() ensures forall|a: Op, b: Op| #[trigger] op_dg(a) == #[trigger] op_dg(b) ==> a == b;
pub trait Hashed { spec fn dg(&self) -> Dg; }
impl Hashed for Signed<Delegation> { open spec fn dg(&self) -> Dg { dg_d(*self) } } impl Hashed for Signed<Revocation> { open spec fn dg(&self) -> Dg { dg_r(*self) } }
pub struct Digest; impl Digest { #[verifier::external_body] pub fn hash<T: Hashed>(t: &T) -> (r: Dg) ensures r == t.dg() { unimplemented!() } }
/// the stores (P17)
#[verifier::external_body] pub struct DelegationStore { x: u64 } #[verifier::external_body] pub struct RevocationStore { x: u64 }
duped!(DelegationStore); duped!(RevocationStore);
pub open spec fn valued<T>(m: Map<Dg, Arc<T>>, v: Seq<&Arc<T>>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> exists|k: Dg| m.dom().contains(k) && #[trigger] m[k] == *(#[trigger] v[i])
    &&& forall|k: Dg| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == m[k] }
pub open spec fn entered<T>(m: Map<Dg, Arc<T>>, v: Seq<(&Dg, &Arc<T>)>) -> bool {
    &&& forall|i: int| 0 <= i < v.len() ==> m.dom().contains(*(#[trigger] v[i]).0) && m[*v[i].0] == *v[i].1
    &&& forall|k: Dg| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]).0 == k }
macro_rules! store { ($s:ident, $t:ty) => { verus!{ impl $s { pub uninterp spec fn view(&self) -> Map<Dg, Arc<Signed<$t>>>;
    #[verifier::external_body] pub fn len(&self) -> usize { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&Arc<Signed<$t>>>) ensures valued(self.view(), r@) { unimplemented!() }
    #[verifier::external_body] pub fn iter(&self) -> (r: Vec<(&Dg, &Arc<Signed<$t>>)>) ensures entered(self.view(), r@) { unimplemented!() } } } } }
store!(DelegationStore, Delegation); store!(RevocationStore, Revocation);
pub open spec fn keyed_stores(d: DelegationStore, r: RevocationStore) -> bool {
    &&& forall|h: Dg| #[trigger] d.view().dom().contains(h) ==> dg_d(*d.view()[h]) == h
    &&& forall|h: Dg| #[trigger] r.view().dom().contains(h) ==> dg_r(*r.view()[h]) == h }
pub open spec fn in_d(d: DelegationStore, x: Arc<Signed<Delegation>>) -> bool { exists|k: Dg| d.view().dom().contains(k) && #[trigger] d.view()[k] == x }
pub open spec fn in_r(r: RevocationStore, x: Arc<Signed<Revocation>>) -> bool { exists|k: Dg| r.view().dom().contains(k) && #[trigger] r.view()[k] == x }
pub open spec fn grp(m: Membered) -> Group { match m { Membered::Group(_, g) => g, Membered::Document(_, d) => d.group } }
pub open spec fn sub(m: Membered) -> Identifier { match m { Membered::Group(i, _) => i.0, Membered::Document(i, _) => i.0 } }
/// the newest operations of a group or document
pub open spec fn head_of(m: Membered, o: Op) -> bool { match o { Op::Delegation(x) => in_d(grp(m).state.delegation_heads, x), Op::Revocation(x) => in_r(grp(m).state.revocation_heads, x) } }
pub open spec fn mem_good(m: Membered) -> bool { keyed_stores(grp(m).state.delegation_heads, grp(m).state.revocation_heads) }
"""
REACH = r"""
pub type D = Arc<Signed<Delegation>>; pub type R = Arc<Signed<Revocation>>;
pub open spec fn pd(d: D) -> Option<D> { d.payload.proof } pub open spec fn ar(d: D) -> Seq<R> { d.payload.after_revocations@ } pub open spec fn to(d: D) -> Option<Membered> { as_mem(d.payload.delegate) }
pub open spec fn pr(r: R) -> Option<D> { r.payload.proof } pub open spec fn rv_of(r: R) -> D { r.payload.revoke }

// ---- what an operation needs, and what follows from some operations ----
pub open spec fn edge(o: Op, p: Op) -> bool { parents(o).contains(p) || (o is Delegation && to(o->Delegation_0) is Some && head_of(to(o->Delegation_0)->0, p)) }
pub open spec fn shut(c: ISet<Op>) -> bool { forall|o: Op, p: Op| c.contains(o) && #[trigger] edge(o, p) ==> c.contains(p) }
pub open spec fn from(s: ISet<Op>, c: ISet<Op>) -> bool { shut(c) && forall|o: Op| #[trigger] s.contains(o) ==> c.contains(o) }
/// everything that the operations of s need, and they themselves; nothing else
pub open spec fn below(s: ISet<Op>) -> ISet<Op> { ISet::new(|o: Op| forall|c: ISet<Op>| #[trigger] from(s, c) ==> c.contains(o)) }
pub type Ent = (Dg, Op);
pub open spec fn lists(v: Seq<Ent>, o: Op) -> bool { exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).1 == o }
pub open spec fn listed(v: Seq<Ent>) -> ISet<Op> { ISet::new(|o: Op| lists(v, o)) }
pub open spec fn tagged(v: Seq<Ent>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == op_dg(v[i].1) }
pub type OpMap = Map<Dg, Op>;
pub open spec fn has(m: OpMap, o: Op) -> bool { m.dom().contains(op_dg(o)) && m[op_dg(o)] == o }
pub open spec fn ops_of(m: OpMap) -> ISet<Op> { ISet::new(|o: Op| has(m, o)) }
pub open spec fn keyed(m: OpMap) -> bool { forall|k: Dg| #[trigger] m.dom().contains(k) ==> op_dg(m[k]) == k }
pub open spec fn one(o: Op) -> ISet<Op> { ISet::new(|x: Op| x == o) }

pub proof fn below_shut(s: ISet<Op>) ensures from(s, below(s))
{ assert forall|o: Op, p: Op| below(s).contains(o) && #[trigger] edge(o, p) implies below(s).contains(p) by { assert forall|c: ISet<Op>| #[trigger] from(s, c) implies c.contains(p) by { assert(c.contains(o)); } } }
pub proof fn below_least(s: ISet<Op>, c: ISet<Op>) requires from(s, c) ensures below(s).subset_of(c) { }
pub proof fn below_mono(s: ISet<Op>, t: ISet<Op>) requires s.subset_of(below(t)) ensures below(s).subset_of(below(t)) { below_shut(t); below_least(s, below(t)); }
pub proof fn below_is(s: ISet<Op>, c: ISet<Op>) requires from(s, c), c.subset_of(below(s)) ensures c == below(s) { below_least(s, c); assert(c =~= below(s)); }

// ---- the steps of the walk ----
/// b has what a has, and what `op` needs
#[verifier::opaque]
pub open spec fn grown(a: Seq<Ent>, b: Seq<Ent>, op: Op) -> bool { tagged(b) && (forall|o: Op| #[trigger] lists(a, o) ==> lists(b, o)) && (forall|o: Op| #[trigger] lists(b, o) ==> lists(a, o) || edge(op, o)) }
pub proof fn grown_start(a: Seq<Ent>, op: Op) requires tagged(a) ensures grown(a, a, op) { reveal(grown); }
pub proof fn kept(a: Seq<Ent>, e: Ent) ensures lists(a.push(e), e.1), forall|o: Op| #[trigger] lists(a, o) ==> lists(a.push(e), o), forall|o: Op| #[trigger] lists(a.push(e), o) ==> lists(a, o) || o == e.1
{
    let b = a.push(e); assert(b[a.len() as int] == e);
    assert forall|o: Op| #[trigger] lists(a, o) implies lists(b, o) by { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).1 == o; assert(b[i] == a[i]); }
    assert forall|o: Op| #[trigger] lists(b, o) implies lists(a, o) || o == e.1 by { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).1 == o; if i < a.len() { assert(a[i] == b[i]); } }
}
pub proof fn put(a: Seq<Ent>, b: Seq<Ent>, op: Op, e: Ent) requires grown(a, b, op), edge(op, e.1), e.0 == op_dg(e.1) ensures grown(a, b.push(e), op), lists(b.push(e), e.1), forall|o: Op| #[trigger] lists(b, o) ==> lists(b.push(e), o)
{ reveal(grown); kept(b, e); }
pub open spec fn met(b: Seq<Ent>, v: Set<Dg>, o: Op) -> bool { lists(b, o) || v.contains(op_dg(o)) }
pub open spec fn met_d(b: Seq<Ent>, v: Set<Dg>, vals: Seq<&Arc<Signed<Delegation>>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> met(b, v, Op::Delegation(*#[trigger] vals[i])) }
pub open spec fn met_r(b: Seq<Ent>, v: Set<Dg>, vals: Seq<&Arc<Signed<Revocation>>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> met(b, v, Op::Revocation(*#[trigger] vals[i])) }
pub open spec fn met_rev(b: Seq<Ent>, v: Set<Dg>, vals: Seq<Arc<Signed<Revocation>>>, n: int) -> bool { forall|i: int| 0 <= i < n ==> met(b, v, Op::Revocation(#[trigger] vals[i])) }
pub open spec fn met_opt(b: Seq<Ent>, v: Set<Dg>, p: Option<Arc<Signed<Delegation>>>) -> bool { p is Some ==> met(b, v, Op::Delegation(p->0)) }
pub proof fn met_on(b: Seq<Ent>, e: Ent, v: Set<Dg>) ensures forall|o: Op| #[trigger] met(b, v, o) ==> met(b.push(e), v, o), met(b.push(e), v, e.1) { kept(b, e); }
pub proof fn parent_d(d: Arc<Signed<Delegation>>) ensures pd(d) is Some ==> edge(Op::Delegation(d), Op::Delegation(pd(d)->0)), forall|i: int| 0 <= i < ar(d).len() ==> edge(Op::Delegation(d), Op::Revocation(#[trigger] ar(d)[i]))
{
    let o = Op::Delegation(d); let n = op_list(pd(d)).len();
    if pd(d) is Some { assert(parents(o)[0] == Op::Delegation(pd(d)->0)); }
    assert forall|i: int| 0 <= i < ar(d).len() implies edge(o, Op::Revocation(#[trigger] ar(d)[i])) by { assert(parents(o)[n + i] == Op::Revocation(ar(d)[i])); }
}
pub proof fn parent_r(r: Arc<Signed<Revocation>>) ensures pr(r) is Some ==> edge(Op::Revocation(r), Op::Delegation(pr(r)->0)), edge(Op::Revocation(r), Op::Delegation(rv_of(r)))
{ let o = Op::Revocation(r); assert(parents(o)[0] == Op::Delegation(rv_of(r))); if pr(r) is Some { assert(parents(o)[1] == Op::Delegation(pr(r)->0)); } }
/// nothing else is needed
pub proof fn edges_d(d: Arc<Signed<Delegation>>, p: Op) requires edge(Op::Delegation(d), p)
    ensures (pd(d) is Some && p == Op::Delegation(pd(d)->0)) || (exists|i: int| 0 <= i < ar(d).len() && p == Op::Revocation(#[trigger] ar(d)[i])) || (to(d) is Some && head_of(to(d)->0, p))
{
    let o = Op::Delegation(d); let n = op_list(pd(d)).len();
    if parents(o).contains(p) { let k = choose|k: int| 0 <= k < parents(o).len() && parents(o)[k] == p; if k >= n { assert(p == Op::Revocation(ar(d)[k - n])); } }
}
pub proof fn edges_r(r: Arc<Signed<Revocation>>, p: Op) requires edge(Op::Revocation(r), p)
    ensures (pr(r) is Some && p == Op::Delegation(pr(r)->0)) || p == Op::Delegation(rv_of(r))
{ let o = Op::Revocation(r); let k = choose|k: int| 0 <= k < parents(o).len() && parents(o)[k] == p; if k > 0 { assert(pr(r) is Some); } }
pub open spec fn all_met(b: Seq<Ent>, v: Set<Dg>, op: Op) -> bool { forall|p: Op| #[trigger] edge(op, p) ==> met(b, v, p) }
pub proof fn met_all_d(b: Seq<Ent>, v: Set<Dg>, d: Arc<Signed<Delegation>>)
    requires met_opt(b, v, pd(d)), met_rev(b, v, ar(d), ar(d).len() as int),
        to(d) is Some ==> heads_met(b, v, to(d)->0)
    ensures all_met(b, v, Op::Delegation(d))
{ assert forall|p: Op| #[trigger] edge(Op::Delegation(d), p) implies met(b, v, p) by { edges_d(d, p);
    if to(d) is Some && head_of(to(d)->0, p) {}
    else if exists|i: int| 0 <= i < ar(d).len() && p == Op::Revocation(#[trigger] ar(d)[i]) { let i = choose|i: int| 0 <= i < ar(d).len() && p == Op::Revocation(#[trigger] ar(d)[i]); assert(met(b, v, Op::Revocation(ar(d)[i]))); } } }
pub proof fn met_all_r(b: Seq<Ent>, v: Set<Dg>, r: Arc<Signed<Revocation>>) requires met_opt(b, v, pr(r)), met(b, v, Op::Delegation(rv_of(r))) ensures all_met(b, v, Op::Revocation(r))
{ assert forall|p: Op| #[trigger] edge(Op::Revocation(r), p) implies met(b, v, p) by { edges_r(r, p); } }
pub open spec fn heads_met(b: Seq<Ent>, v: Set<Dg>, m: Membered) -> bool { forall|p: Op| #[trigger] head_of(m, p) ==> met(b, v, p) }
pub proof fn heads_done(b: Seq<Ent>, v: Set<Dg>, m: Membered, dv: Seq<&Arc<Signed<Delegation>>>, rv: Seq<&Arc<Signed<Revocation>>>)
    requires valued(grp(m).state.delegation_heads.view(), dv), valued(grp(m).state.revocation_heads.view(), rv), met_d(b, v, dv, dv.len() as int), met_r(b, v, rv, rv.len() as int) ensures heads_met(b, v, m)
{ assert forall|p: Op| #[trigger] head_of(m, p) implies met(b, v, p) by { match p {
    Op::Delegation(x) => { let s = grp(m).state.delegation_heads.view(); let k = choose|k: Dg| s.dom().contains(k) && #[trigger] s[k] == x; assert(s.dom().contains(k)); let i = choose|i: int| 0 <= i < dv.len() && *(#[trigger] dv[i]) == s[k]; assert(met(b, v, Op::Delegation(*dv[i]))); }
    Op::Revocation(x) => { let s = grp(m).state.revocation_heads.view(); let k = choose|k: Dg| s.dom().contains(k) && #[trigger] s[k] == x; assert(s.dom().contains(k)); let i = choose|i: int| 0 <= i < rv.len() && *(#[trigger] rv[i]) == s[k]; assert(met(b, v, Op::Revocation(*rv[i]))); } } } }
pub proof fn head_d(m: Membered, dv: Seq<&Arc<Signed<Delegation>>>, i: int) requires valued(grp(m).state.delegation_heads.view(), dv), 0 <= i < dv.len() ensures head_of(m, Op::Delegation(*dv[i]))
{ let s = grp(m).state.delegation_heads.view(); let k = choose|k: Dg| s.dom().contains(k) && #[trigger] s[k] == *dv[i]; assert(in_d(grp(m).state.delegation_heads, *dv[i])); }
pub proof fn head_r(m: Membered, dv: Seq<&Arc<Signed<Revocation>>>, i: int) requires valued(grp(m).state.revocation_heads.view(), dv), 0 <= i < dv.len() ensures head_of(m, Op::Revocation(*dv[i]))
{ let s = grp(m).state.revocation_heads.view(); let k = choose|k: Dg| s.dom().contains(k) && #[trigger] s[k] == *dv[i]; assert(in_r(grp(m).state.revocation_heads, *dv[i])); }

/// the last steps of push_membership_edges
pub proof fn closing(h0: Seq<Ent>, v: Set<Dg>, op: Op) ensures
    op is Delegation ==> forall|b: Seq<Ent>| #[trigger] grown(h0, b, op) && met_opt(b, v, pd(op->Delegation_0)) && met_rev(b, v, ar(op->Delegation_0), ar(op->Delegation_0).len() as int)
        && (to(op->Delegation_0) is Some ==> heads_met(b, v, to(op->Delegation_0)->0)) ==> all_met(b, v, op),
    op is Revocation ==> forall|b: Seq<Ent>| #[trigger] grown(h0, b, op) && met_opt(b, v, pr(op->Revocation_0)) && met(b, v, Op::Delegation(rv_of(op->Revocation_0))) ==> all_met(b, v, op),
    op is Delegation && to(op->Delegation_0) is Some ==> forall|b: Seq<Ent>, dv: Seq<&Arc<Signed<Delegation>>>, rv: Seq<&Arc<Signed<Revocation>>>| #[trigger] met_d(b, v, dv, dv.len() as int) && #[trigger] met_r(b, v, rv, rv.len() as int)
        && valued(grp(to(op->Delegation_0)->0).state.delegation_heads.view(), dv) && valued(grp(to(op->Delegation_0)->0).state.revocation_heads.view(), rv) ==> heads_met(b, v, to(op->Delegation_0)->0),
{
    match op {
        Op::Delegation(d) => {
            assert forall|b: Seq<Ent>| #[trigger] grown(h0, b, op) && met_opt(b, v, pd(d)) && met_rev(b, v, ar(d), ar(d).len() as int) && (to(d) is Some ==> heads_met(b, v, to(d)->0)) implies all_met(b, v, op) by { met_all_d(b, v, d); }
            if to(d) is Some { let m = to(d)->0;
                assert forall|b: Seq<Ent>, dv: Seq<&Arc<Signed<Delegation>>>, rv: Seq<&Arc<Signed<Revocation>>>| #[trigger] met_d(b, v, dv, dv.len() as int) && #[trigger] met_r(b, v, rv, rv.len() as int) && valued(grp(m).state.delegation_heads.view(), dv) && valued(grp(m).state.revocation_heads.view(), rv) implies heads_met(b, v, m) by { heads_done(b, v, m, dv, rv); } } }
        Op::Revocation(r) => { assert forall|b: Seq<Ent>| #[trigger] grown(h0, b, op) && met_opt(b, v, pr(r)) && met(b, v, Op::Delegation(rv_of(r))) implies all_met(b, v, op) by { met_all_r(b, v, r); } } }
}
/// the walk: what is not yet in `ops` but needed is still listed; nothing but what s0 needs
#[verifier::opaque]
pub open spec fn walk(ops: OpMap, h: Seq<Ent>, s0: ISet<Op>) -> bool {
    &&& keyed(ops) && tagged(h)
    &&& forall|o: Op| #[trigger] s0.contains(o) ==> lists(h, o) || has(ops, o)
    &&& forall|o: Op, p: Op| has(ops, o) && #[trigger] edge(o, p) ==> lists(h, p) || has(ops, p)
    &&& forall|o: Op| #[trigger] has(ops, o) ==> below(s0).contains(o)
    &&& forall|o: Op| #[trigger] lists(h, o) ==> below(s0).contains(o)
}
pub proof fn walk_start(h: Seq<Ent>) requires tagged(h) ensures walk(Map::empty(), h, listed(h)) { reveal(walk); below_shut(listed(h)); assert forall|o: Op| #[trigger] lists(h, o) implies below(listed(h)).contains(o) by { assert(listed(h).contains(o)); } }
pub proof fn split(t: Seq<Ent>) requires t.len() > 0 ensures forall|o: Op| #[trigger] lists(t, o) <==> lists(t.drop_last(), o) || o == t.last().1
{ let l = t.drop_last(); assert(t =~= l.push(t.last())); kept(l, t.last()); }
pub proof fn walk_skip(ops: OpMap, t: Seq<Ent>, s0: ISet<Op>) requires walk(ops, t, s0), t.len() > 0, ops.dom().contains(t.last().0) ensures walk(ops, t.drop_last(), s0)
{ reveal(walk); split(t); no_collision(); let l = t.drop_last(); let x = t.last().1; assert(t.last().0 == op_dg(x)); assert(has(ops, x));
    assert forall|o: Op, p: Op| has(ops, o) && #[trigger] edge(o, p) implies lists(l, p) || has(ops, p) by { assert(lists(t, p) || has(ops, p)); }
    assert forall|o: Op| #[trigger] s0.contains(o) implies lists(l, o) || has(ops, o) by { assert(lists(t, o) || has(ops, o)); }
    assert forall|o: Op| #[trigger] lists(l, o) implies below(s0).contains(o) by { assert(lists(t, o)); } }
pub proof fn walk_step(ops: OpMap, t: Seq<Ent>, h: Seq<Ent>, s0: ISet<Op>)
    requires walk(ops, t, s0), t.len() > 0, !ops.dom().contains(t.last().0), grown(t.drop_last(), h, t.last().1), all_met(h, ops.dom().insert(t.last().0), t.last().1)
    ensures walk(ops.insert(t.last().0, t.last().1), h, s0)
{
    reveal(walk); reveal(grown); split(t); no_collision(); below_shut(s0);
    let e = t.last(); let n = ops.insert(e.0, e.1);
    assert(lists(t, e.1)); assert(e.0 == op_dg(e.1)); assert(below(s0).contains(e.1));
    assert forall|o: Op| #[trigger] has(n, o) <==> has(ops, o) || o == e.1 by { if op_dg(o) == e.0 { assert(o == e.1); } }
    assert forall|o: Op| #[trigger] lists(t, o) implies lists(h, o) || has(n, o) by { if o != e.1 { assert(lists(t.drop_last(), o)); } }
    assert forall|o: Op, p: Op| has(n, o) && #[trigger] edge(o, p) implies lists(h, p) || has(n, p) by {
        if o == e.1 { assert(met(h, ops.dom().insert(e.0), p)); if !lists(h, p) { if op_dg(p) == e.0 { assert(p == e.1); } else { assert(op_dg(ops[op_dg(p)]) == op_dg(p)); assert(has(ops, p)); } } }
        else { assert(has(ops, o)); assert(lists(t, p) || has(ops, p)); } }
    assert forall|o: Op| #[trigger] lists(h, o) implies below(s0).contains(o) by { if lists(t.drop_last(), o) { assert(lists(t, o)); } else { assert(edge(e.1, o)); } }
    assert forall|o: Op| #[trigger] s0.contains(o) implies lists(h, o) || has(n, o) by { assert(lists(t, o) || has(ops, o)); }
    assert(keyed(n));
}
pub proof fn walk_end(ops: OpMap, h: Seq<Ent>, s0: ISet<Op>) requires walk(ops, h, s0), h.len() == 0 ensures keyed(ops), ops_of(ops) == below(s0)
{
    reveal(walk); let c = ops_of(ops);
    assert forall|o: Op| !#[trigger] lists(h, o) by {}
    assert forall|o: Op, p: Op| c.contains(o) && #[trigger] edge(o, p) implies c.contains(p) by { assert(has(ops, o)); }
    below_is(s0, c);
}
pub open spec fn ended(s0: ISet<Op>) -> bool { forall|ops: OpMap, h: Seq<Ent>| #[trigger] walk(ops, h, s0) && h.len() == 0 ==> keyed(ops) && ops_of(ops) == below(s0) }
pub proof fn walk_ends(s0: ISet<Op>) ensures ended(s0) { assert forall|ops: OpMap, h: Seq<Ent>| #[trigger] walk(ops, h, s0) && h.len() == 0 implies keyed(ops) && ops_of(ops) == below(s0) by { walk_end(ops, h, s0); } }
// ---- collecting heads ----
pub open spec fn among(d: DelegationStore, r: RevocationStore, o: Op) -> bool { match o { Op::Delegation(x) => in_d(d, x), Op::Revocation(x) => in_r(r, x) } }
pub type DE<'a> = Seq<(&'a Dg, &'a D)>; pub type RE<'a> = Seq<(&'a Dg, &'a R)>;
pub open spec fn got(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore, dv: DE, n: int, rv: RE, m: int, h: Seq<Ent>) -> bool {
    tagged(h) && (forall|o: Op| #[trigger] lists(h, o) ==> lists(b0, o) || among(d, r, o)) && (forall|o: Op| #[trigger] lists(b0, o) ==> lists(h, o)) && (forall|i: int| 0 <= i < n ==> lists(h, Op::Delegation(*(#[trigger] dv[i]).1))) && (forall|i: int| 0 <= i < m ==> lists(h, Op::Revocation(*(#[trigger] rv[i]).1))) }
pub proof fn got_d(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore, dv: DE, i: int, b: Seq<Ent>) requires keyed_stores(d, r), entered(d.view(), dv), 0 <= i < dv.len(), got(b0, d, r, dv, i, seq![], 0, b)
    ensures got(b0, d, r, dv, i + 1, seq![], 0, b.push((*dv[i].0, Op::Delegation(*dv[i].1))))
{ let e = (*dv[i].0, Op::Delegation(*dv[i].1)); kept(b, e); assert(d.view()[*dv[i].0] == *dv[i].1); assert(in_d(d, *dv[i].1)); assert(tagged(b.push(e))); }
pub proof fn got_r(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore, dv: DE, rv: RE, i: int, b: Seq<Ent>) requires keyed_stores(d, r), entered(r.view(), rv), 0 <= i < rv.len(), got(b0, d, r, dv, dv.len() as int, rv, i, b)
    ensures got(b0, d, r, dv, dv.len() as int, rv, i + 1, b.push((*rv[i].0, Op::Revocation(*rv[i].1))))
{ let e = (*rv[i].0, Op::Revocation(*rv[i].1)); kept(b, e); assert(r.view()[*rv[i].0] == *rv[i].1); assert(in_r(r, *rv[i].1)); assert(tagged(b.push(e))); }
pub proof fn got_all(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore, dv: DE, rv: RE, h: Seq<Ent>) requires got(b0, d, r, dv, dv.len() as int, rv, rv.len() as int, h), entered(d.view(), dv), entered(r.view(), rv) ensures forall|o: Op| #[trigger] lists(h, o) <==> lists(b0, o) || among(d, r, o)
{ assert forall|o: Op| #[trigger] lists(h, o) <==> lists(b0, o) || among(d, r, o) by { if among(d, r, o) { match o {
    Op::Delegation(x) => { let k = choose|k: Dg| d.view().dom().contains(k) && #[trigger] d.view()[k] == x; assert(d.view().dom().contains(k)); let i = choose|i: int| 0 <= i < dv.len() && *(#[trigger] dv[i]).0 == k; assert(*dv[i].1 == x); }
    Op::Revocation(x) => { let k = choose|k: Dg| r.view().dom().contains(k) && #[trigger] r.view()[k] == x; assert(r.view().dom().contains(k)); let i = choose|i: int| 0 <= i < rv.len() && *(#[trigger] rv[i]).0 == k; assert(*rv[i].1 == x); } } } } }
pub open spec fn ends(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore) -> bool { forall|dv: DE, rv: RE, h: Seq<Ent>| #[trigger] got(b0, d, r, dv, dv.len() as int, rv, rv.len() as int, h) && entered(d.view(), dv) && entered(r.view(), rv) ==> forall|o: Op| #[trigger] lists(h, o) <==> lists(b0, o) || among(d, r, o) }
pub proof fn got_ends(b0: Seq<Ent>, d: DelegationStore, r: RevocationStore) ensures ends(b0, d, r)
{ assert forall|dv: DE, rv: RE, h: Seq<Ent>| #[trigger] got(b0, d, r, dv, dv.len() as int, rv, rv.len() as int, h) && entered(d.view(), dv) && entered(r.view(), rv) implies forall|o: Op| #[trigger] lists(h, o) <==> lists(b0, o) || among(d, r, o) by { got_all(b0, d, r, dv, rv, h); } }
pub proof fn none() ensures forall|o: Op| !#[trigger] lists(seq![], o) {}
/// following a revocation from operations that are otherwise complete
pub proof fn extend_start(ops: OpMap, h: Seq<Ent>, r: R)
    requires keyed(ops), has(ops, Op::Revocation(r)), forall|o: Op, p: Op| has(ops, o) && o != Op::Revocation(r) && #[trigger] edge(o, p) ==> has(ops, p), grown(seq![], h, Op::Revocation(r)), all_met(h, Set::empty(), Op::Revocation(r))
    ensures walk(ops, h, ops_of(ops))
{
    reveal(walk); reveal(grown); none(); let s0 = ops_of(ops); below_shut(s0);
    assert forall|o: Op, p: Op| has(ops, o) && #[trigger] edge(o, p) implies lists(h, p) || has(ops, p) by { if o == Op::Revocation(r) { assert(met(h, Set::empty(), p)); } }
    assert forall|o: Op| #[trigger] lists(h, o) implies below(s0).contains(o) by { assert(edge(Op::Revocation(r), o)); assert(s0.contains(Op::Revocation(r))); }
    assert forall|o: Op| #[trigger] has(ops, o) implies below(s0).contains(o) by { assert(s0.contains(o)); }
}
pub proof fn tag_of(ops: OpMap, t: Seq<Ent>, s0: ISet<Op>) requires walk(ops, t, s0), t.len() > 0 ensures tagged(t), tagged(t.drop_last()) { reveal(walk); }
"""
STD = r"""
#[verifier::external_body] pub fn take<A>(v: &mut Vec<A>) -> (r: Option<A>) ensures r is None ==> final(v)@.len() == 0 && old(v)@ == final(v)@, r is Some ==> old(v)@ == final(v)@.push(r->0) { v.pop() }
/// entry(k).or_insert(v)
#[verifier::external_body] pub fn or_put(m: &mut HashMap<Dg, Op>, k: Dg, v: Op) ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
#[verifier::external_body] pub fn refs<'a, T>(v: &'a Vec<T>) -> (r: Vec<&'a T>) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] r@[i]) == v@[i] { unimplemented!() }
"""
PRE = core.std("ax_identifier::key_model", "ax_dg::key_model", "ax_individualid::key_model", "ax_groupid::key_model", "ax_documentid::key_model") + receive.BASE + receive.KEYOP + receive.IDS + receive.OPS + TYPES + revtop.REV.split("pub open spec fn is_head")[0] + REACH + STD

ACC = [
    Fn(GS, "GroupState", "group_id", "pub fn group_id(&self) -> (r: GroupId) ensures r == self.id", ["self"], wrap="impl GroupState"),
    Fn(GP, "Group", "group_id", "pub fn group_id(&self) -> (r: GroupId) ensures r == self.state.id", ["self"], wrap="impl Group"),
    Fn(GP, "Group", "delegation_heads", "pub fn delegation_heads(&self) -> (r: &DelegationStore) ensures *r == self.state.delegation_heads", ["self"], wrap="impl Group"),
    Fn(GP, "Group", "revocation_heads", "pub fn revocation_heads(&self) -> (r: &RevocationStore) ensures *r == self.state.revocation_heads", ["self"], wrap="impl Group"),
    Fn(DC, "Document", "delegation_heads", "pub fn delegation_heads(&self) -> (r: &DelegationStore) ensures *r == self.group.state.delegation_heads", ["self"], wrap="impl Document"),
    Fn(DC, "Document", "revocation_heads", "pub fn revocation_heads(&self) -> (r: &RevocationStore) ensures *r == self.group.state.revocation_heads", ["self"], wrap="impl Document"),
    Fn(MB, "Membered", "delegation_heads", "pub fn delegation_heads(&self) -> (r: DelegationStore) ensures r == grp(*self).state.delegation_heads", ["self"], [(".lock()", "")], wrap="impl Membered"),
    Fn(MB, "Membered", "revocation_heads", "pub fn revocation_heads(&self) -> (r: RevocationStore) ensures r == grp(*self).state.revocation_heads", ["self"], [(".lock()", "")], wrap="impl Membered"),
    Fn(MB, "Membered", "agent_id", "pub fn agent_id(&self) -> (r: AgentId) ensures r.0 == sub(*self)", ["self"], wrap="impl Membered"),
    Fn(AG, "Agent", "id", "pub fn id(&self) -> (r: Identifier) ensures r == agent_id(*self)", ["self"], wrap="impl Agent"),
    Fn(AG, "Agent", "agent_id", "pub fn agent_id(&self) -> (r: AgentId) ensures r.0 == agent_id(*self)", ["self"], [("id::AgentId", "AgentId")], wrap="impl Agent"),
    Fn(AG, "Agent", "as_membered", "pub fn as_membered(&self) -> (r: Option<Membered>) ensures r == as_mem(*self)", ["self"], wrap="impl Agent"),
]
VALS = lambda v: f"it.seq() == {v}"
PUSH = Fn(MO, None, "push_membership_edges", """pub fn push_membership_edges(op: &MembershipOperation, heads: &mut Vec<(Dg, MembershipOperation)>, visited: &HashSet<Dg>)
    requires tagged(old(heads)@) ensures grown(old(heads)@, final(heads)@, *op), all_met(final(heads)@, visited@, *op)""", ["op", "heads", "visited"],
    [("for $$x in dlg.payload.after_revocations.iter() {", "for $$x in refs(&dlg.payload.after_revocations) {", "must"),
     ("for dlg in membered.delegation_heads().values() {", "let ghost gm = membered; let ghost gd = *dlg; let dh = membered.delegation_heads(); let dv = dh.values(); let ghost dvs = dv@; for dlg in dv {", "must"),
     ("for rev in membered.revocation_heads().values() {", "let rh = membered.revocation_heads(); let rv = rh.values(); let ghost rvs = rv@; for rev in rv {", "must"),
     ("heads.push($x);", "({ let ghost b = heads@; let e = $x; proof { assert(e.0 == op_dg(e.1)); put(h0, b, *op, e); met_on(b, e, visited@); } heads.push(e); });", "must")],
    pre="let ghost h0 = heads@; proof { grown_start(h0, *op); closing(h0, visited@, *op); match op { MembershipOperation::Delegation(d) => { parent_d(*d); } MembershipOperation::Revocation(r) => { parent_r(*r); } } }",
    loops=[
        ("for", "it", "invariant *op == MembershipOperation::Delegation(*dlg), grown(h0, heads@, *op), met_opt(heads@, visited@, dlg.payload.proof), it.seq().len() == dlg.payload.after_revocations@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == dlg.payload.after_revocations@[i], met_rev(heads@, visited@, dlg.payload.after_revocations@, it.index@ as int)",
         "proof { parent_d(*dlg); assert(*it.seq()[it.index@ as int] == ar(*dlg)[it.index@ as int]); assert(edge(*op, MembershipOperation::Revocation(*it.seq()[it.index@ as int]))); }"),
        ("for", "it", "invariant *op == MembershipOperation::Delegation(gd), as_mem(gd.payload.delegate) == Some(gm), grown(h0, heads@, *op), met_opt(heads@, visited@, gd.payload.proof), met_rev(heads@, visited@, gd.payload.after_revocations@, gd.payload.after_revocations@.len() as int), it.seq() == dvs, valued(grp(gm).state.delegation_heads.view(), dvs), met_d(heads@, visited@, dvs, it.index@ as int)",
         "proof { head_d(gm, dvs, it.index@ as int); assert(edge(*op, MembershipOperation::Delegation(*dvs[it.index@ as int]))); }"),
        ("for", "it", "invariant *op == MembershipOperation::Delegation(gd), as_mem(gd.payload.delegate) == Some(gm), grown(h0, heads@, *op), met_opt(heads@, visited@, gd.payload.proof), met_rev(heads@, visited@, gd.payload.after_revocations@, gd.payload.after_revocations@.len() as int), met_d(heads@, visited@, dvs, dvs.len() as int), it.seq() == rvs, valued(grp(gm).state.revocation_heads.view(), rvs), met_r(heads@, visited@, rvs, it.index@ as int)",
         "proof { head_r(gm, rvs, it.index@ as int); assert(edge(*op, MembershipOperation::Revocation(*rvs[it.index@ as int]))); }"),
    ])
COLLECT = Fn(MO, None, "collect_membership_heads", """pub fn collect_membership_heads(dlg_heads: &DelegationStore, rev_heads: &RevocationStore) -> (r: Vec<(Dg, MembershipOperation)>)
    requires keyed_stores(*dlg_heads, *rev_heads) ensures tagged(r@), forall|o: Op| #[trigger] lists(r@, o) <==> among(*dlg_heads, *rev_heads, o)""", ["dlg_heads", "rev_heads"],
    [("Vec::with_capacity($x)", "Vec::new()", "must"), ("for (hash, dlg_head) in dlg_heads.iter() {", "let dv = dlg_heads.iter(); let ghost dvs = dv@; for e in dv { let hash = e.0; let dlg_head = e.1;", "must"),
     ("for (hash, rev_head) in rev_heads.iter() {", "let rv = rev_heads.iter(); let ghost rvs = rv@; for e in rv { let hash = e.0; let rev_head = e.1;", "must"), ("heads }", "heads }")],
    pre="proof { none(); got_ends(seq![], *dlg_heads, *rev_heads); }",
    loops=[("for", "it", "invariant ends(seq![], *dlg_heads, *rev_heads), it.seq() == dvs, keyed_stores(*dlg_heads, *rev_heads), entered(dlg_heads.view(), dvs), got(seq![], *dlg_heads, *rev_heads, dvs, it.index@ as int, seq![], 0, heads@)", "let ghost b = heads@;", "proof { got_d(seq![], *dlg_heads, *rev_heads, dvs, it.index@ as int, b); assert(heads@ =~= b.push((*dvs[it.index@ as int].0, MembershipOperation::Delegation(*dvs[it.index@ as int].1)))); }"),
           ("for", "it", "invariant ends(seq![], *dlg_heads, *rev_heads), it.seq() == rvs, keyed_stores(*dlg_heads, *rev_heads), entered(dlg_heads.view(), dvs), entered(rev_heads.view(), rvs), got(seq![], *dlg_heads, *rev_heads, dvs, dvs.len() as int, rvs, it.index@ as int, heads@)", "let ghost b = heads@;", "proof { got_r(seq![], *dlg_heads, *rev_heads, dvs, rvs, it.index@ as int, b); assert(heads@ =~= b.push((*rvs[it.index@ as int].0, MembershipOperation::Revocation(*rvs[it.index@ as int].1)))); }")])
BFS = Fn(MO, None, "bfs_membership_ops", """#[verifier::exec_allows_no_decreases_clause] pub fn bfs_membership_ops(mut heads: Vec<(Dg, MembershipOperation)>) -> (ops: HashMap<Dg, MembershipOperation>)
    requires tagged(heads@) ensures keyed(ops@), ops_of(ops@) == below(listed(heads@))""", ["heads"],
    [("let mut ops = HashMap::new();", "let mut ops: HashMap<Dg, MembershipOperation> = HashMap::new();"), ("let mut visited: $x = HashSet::new();", "let mut visited: HashSet<Dg> = HashSet::new();"),
     ("while let Some((hash, op)) = heads.pop() {", "while let Some((hash, op)) = take(&mut heads) {", "must")],
    pre="let ghost s0 = listed(heads@); proof { walk_start(heads@); walk_ends(s0); }",
    loops=[("while", None, "invariant ended(s0), walk(ops@, heads@, s0), visited@ == ops@.dom() ensures keyed(ops@), ops_of(ops@) == below(s0)", "let ghost t = heads@.push((hash, op)); let ghost o0 = ops@; let ghost e = (hash, op); proof { assert(t.drop_last() =~= heads@); assert(t.last() == e); if o0.dom().contains(hash) { walk_skip(o0, t, s0); } else { tag_of(o0, t, s0); } }",
            "proof { walk_step(o0, t, heads@, s0); assert(ops@ == o0.insert(e.0, e.1)); assert(visited@ =~= ops@.dom()); }")],
    hints=[])
EXT = Fn(MO, None, "bfs_extend_from_revocation", """#[verifier::exec_allows_no_decreases_clause] pub fn bfs_extend_from_revocation(rev: &Arc<Signed<Revocation>>, all_ops: &mut HashMap<Dg, MembershipOperation>, visited: &mut HashSet<Dg>)
    requires keyed(old(all_ops)@), old(visited)@ == old(all_ops)@.dom(), has(old(all_ops)@, Op::Revocation(*rev)), forall|o: Op, p: Op| has(old(all_ops)@, o) && o != Op::Revocation(*rev) && #[trigger] edge(o, p) ==> has(old(all_ops)@, p)
    ensures keyed(final(all_ops)@), final(visited)@ == final(all_ops)@.dom(), ops_of(final(all_ops)@) == below(ops_of(old(all_ops)@))""", ["rev", "all_ops", "visited"],
    [("let mut heads: $x = Vec::new();", "let mut heads: Vec<(Dg, MembershipOperation)> = Vec::new(); proof { grown_start(heads@, rop); }", "must"),
     ("heads.push($x);", "({ let ghost b = heads@; let e = $x; proof { assert(e.0 == op_dg(e.1)); put(seq![], b, rop, e); met_on(b, e, Set::empty()); } heads.push(e); });", "must"),
     ("while let Some((hash, op)) = heads.pop() {", "proof { closing(seq![], Set::empty(), rop); assert(grown(seq![], heads@, rop)); extend_start(a0, heads@, *rev); } while let Some((hash, op)) = take(&mut heads) {", "must"),
     ("all_ops.entry(hash).or_insert(op);", "or_put(all_ops, hash, op);", "must")],
    pre="let ghost a0 = all_ops@; let ghost s0 = ops_of(a0); let ghost rop = Op::Revocation(*rev); proof { walk_ends(s0); parent_r(*rev); assert(Seq::<Ent>::empty() =~= seq![]); }",
    loops=[("while", None, "invariant ended(s0), walk(all_ops@, heads@, s0), visited@ == all_ops@.dom() ensures keyed(all_ops@), ops_of(all_ops@) == below(s0), visited@ == all_ops@.dom()", "let ghost t = heads@.push((hash, op)); let ghost o0 = all_ops@; let ghost e = (hash, op); proof { assert(t.drop_last() =~= heads@); assert(t.last() == e); if o0.dom().contains(hash) { walk_skip(o0, t, s0); } else { tag_of(o0, t, s0); } }",
            "proof { walk_step(o0, t, heads@, s0); assert(all_ops@ == o0.insert(e.0, e.1)); assert(visited@ =~= all_ops@.dom()); }")])
walk_fns = [EXT, PUSH, COLLECT, BFS]
u_walk = Unit("offer_walk", PRE, ACC + walk_fns)

KTYPES = r"""
#[derive(Clone, Copy)] pub enum MemberedId { GroupId(GroupId), DocumentId(DocumentId) }
""" + core.eq_struct("MemberedId") + r"""
impl std::hash::Hash for MemberedId { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_memberedid { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<MemberedId>(); }
conv!(GroupId, MemberedId, k, MemberedId::GroupId(k)); conv!(DocumentId, MemberedId, k, MemberedId::DocumentId(k));
pub open spec fn mid(m: Membered) -> MemberedId { match m { Membered::Group(i, _) => MemberedId::GroupId(i), Membered::Document(i, _) => MemberedId::DocumentId(i) } }
pub struct Keyhive { pub active: Active, pub individuals: HashMap<IndividualId, Individual>, pub groups: HashMap<GroupId, Group>, pub docs: HashMap<DocumentId, Document>, pub revocations: RevocationStore }
pub struct Ability { pub doc: Document, pub can: Access }
pub type Caps = Map<Identifier, (Agent, Access)>;
/// who has access, directly or through groups (P04)
pub uninterp spec fn caps_g(g: Group) -> Caps; pub uninterp spec fn caps_d(d: Document) -> Caps;
pub open spec fn caps(m: Membered) -> Caps { match m { Membered::Group(_, g) => caps_g(g), Membered::Document(_, d) => caps_d(d) } }
impl Group { #[verifier::external_body] pub fn transitive_members(&self) -> (r: HashMap<Identifier, (Agent, Access)>) ensures r@ == caps_g(*self) { unimplemented!() } }
impl Document { #[verifier::external_body] pub fn transitive_members(&self) -> (r: HashMap<Identifier, (Agent, Access)>) ensures r@ == caps_d(*self) { unimplemented!() }
    pub fn doc_id(&self) -> (r: DocumentId) ensures r == DocumentId(self.group.state.id.0) { DocumentId(self.group.state.id.0) } }
pub open spec fn here(k: Keyhive, m: Membered) -> bool { match m { Membered::Group(i, g) => k.groups@.dom().contains(i) && k.groups@[i] == g, Membered::Document(i, d) => k.docs@.dom().contains(i) && k.docs@[i] == d } }
/// groups and documents are registered under their ids, which are all different; heads are keyed by digest
pub open spec fn wf(k: Keyhive) -> bool {
    &&& forall|i: GroupId| #[trigger] k.groups@.dom().contains(i) ==> k.groups@[i].state.id == i
    &&& forall|i: DocumentId| #[trigger] k.docs@.dom().contains(i) ==> k.docs@[i].group.state.id.0 == i.0 && !k.groups@.dom().contains(GroupId(i.0))
    &&& forall|m: Membered| #[trigger] here(k, m) ==> mem_good(m)
    &&& forall|h: Dg| #[trigger] k.revocations.view().dom().contains(h) ==> dg_r(*k.revocations.view()[h]) == h
}
/// std: the values of a map, each once
pub open spec fn vals_of<K, V>(m: Map<K, V>, r: Seq<V>) -> bool { exists|ks: Seq<K>| ks.len() == r.len() && #[trigger] ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> m.dom().contains(#[trigger] ks[i]) && m[ks[i]] == r[i]) && (forall|k: K| #[trigger] m.dom().contains(k) ==> ks.contains(k)) }
#[verifier::external_body] pub fn vals<K, V>(m: &HashMap<K, V>) -> (r: Vec<V>) ensures vals_of(m@, r@) { unimplemented!() }
#[verifier::external_body] pub fn vals_into<K, V>(m: HashMap<K, V>) -> (r: Vec<V>) ensures vals_of(m@, r@) { unimplemented!() }
#[verifier::external_body] pub fn map_into<A, B, F: Fn(A) -> B>(v: Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|a: A| f.requires((a,)) ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> f.ensures((v@[i],), #[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn push_opt<A>(v: &mut Vec<A>, a: Option<A>) ensures a is Some ==> final(v)@ == old(v)@.push(a->0), a is None ==> final(v)@ == old(v)@ { unimplemented!() }
/// revocations of one agent (P17)
pub open spec fn about(r: R) -> Identifier { agent_id(r.payload.revoke.payload.delegate) }
#[verifier::external_body] pub struct RevSet { x: u64 }
impl RevSet { pub uninterp spec fn view(&self) -> Seq<R>; #[verifier::external_body] pub fn list(self) -> (r: Vec<R>) ensures r@ == self@ { unimplemented!() } #[verifier::external_body] pub fn list_ref(&self) -> (r: Vec<&R>) ensures r@.len() == self@.len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self@[i] { unimplemented!() } }
pub open spec fn revs_of(s: RevocationStore, id: Identifier, l: Seq<R>) -> bool { (forall|i: int| 0 <= i < l.len() ==> in_r(s, #[trigger] l[i]) && about(l[i]) == id) && forall|r: R| #[trigger] in_r(s, r) && about(r) == id ==> l.contains(r) }
impl RevocationStore { #[verifier::external_body] pub fn get_revocations_for_agent(&self, a: &AgentId) -> (r: Option<RevSet>) ensures r is Some ==> revs_of(*self, a.0, r->0@), r is None ==> revs_of(*self, a.0, seq![]) { unimplemented!() }
    #[verifier::external_body] pub fn all_agent_revocations(&self) -> (r: Vec<(&AgentId, &RevSet)>) ensures
        forall|i: int| 0 <= i < r@.len() ==> revs_of(*self, (#[trigger] r@[i]).0.0, r@[i].1@) && r@[i].1@.len() > 0, forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && (#[trigger] r@[i]).0.0 == (#[trigger] r@[j]).0.0 ==> i == j,
        forall|q: R| #[trigger] in_r(*self, q) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0.0 == about(q) { unimplemented!() } }

// ---- what an agent is offered ----
pub open spec fn reaches(k: Keyhive, a: Identifier, m: Membered) -> bool { here(k, m) && caps(m).dom().contains(a) }
/// the groups and documents the agent reaches, and itself if it is one
pub open spec fn source(k: Keyhive, a: Agent, m: Membered) -> bool { reaches(k, agent_id(a), m) || as_mem(a) == Some(m) }
pub open spec fn rev_in(k: Keyhive, id: Identifier, o: Op) -> bool { o is Revocation && in_r(k.revocations, o->Revocation_0) && about(o->Revocation_0) == id }
/// the newest operations of those, and the revocations of the agent and of those
pub open spec fn start(k: Keyhive, a: Agent) -> ISet<Op> { ISet::new(|o: Op| (exists|m: Membered| source(k, a, m) && #[trigger] head_of(m, o)) || rev_in(k, agent_id(a), o) || (exists|m: Membered| #[trigger] source(k, a, m) && rev_in(k, sub(m), o))) }
pub open spec fn upto(s: Seq<Membered>, n: int, o: Op) -> bool decreases n { n > 0 && (upto(s, n - 1, o) || head_of(s[n - 1], o)) }
pub proof fn upto_is(s: Seq<Membered>, n: int, o: Op) requires 0 <= n <= s.len() ensures upto(s, n, o) <==> exists|i: int| 0 <= i < n && head_of(#[trigger] s[i], o) decreases n
{ if n > 0 { upto_is(s, n - 1, o); if upto(s, n - 1, o) { let i = choose|i: int| 0 <= i < n - 1 && head_of(#[trigger] s[i], o); assert(head_of(s[i], o)); } } }
pub open spec fn revs_upto(k: Keyhive, s: Seq<AgentId>, n: int, o: Op) -> bool decreases n { n > 0 && (revs_upto(k, s, n - 1, o) || rev_in(k, s[n - 1].0, o)) }
pub proof fn revs_upto_is(k: Keyhive, s: Seq<AgentId>, n: int, o: Op) requires 0 <= n <= s.len() ensures revs_upto(k, s, n, o) <==> exists|i: int| 0 <= i < n && rev_in(k, (#[trigger] s[i]).0, o) decreases n
{ if n > 0 { revs_upto_is(k, s, n - 1, o); if revs_upto(k, s, n - 1, o) { let i = choose|i: int| 0 <= i < n - 1 && rev_in(k, (#[trigger] s[i]).0, o); assert(rev_in(k, s[i].0, o)); } } }
pub open spec fn sources_ok(k: Keyhive, a: Agent, s: Seq<Membered>) -> bool { (forall|i: int| 0 <= i < s.len() ==> source(k, a, #[trigger] s[i])) && forall|m: Membered| #[trigger] source(k, a, m) ==> s.contains(m) }
pub open spec fn ids_ok(a: Agent, s: Seq<Membered>, n: int, ids: Seq<AgentId>) -> bool { ids.len() == n + 1 && ids[0].0 == agent_id(a) && forall|i: int| 0 < i < ids.len() ==> (#[trigger] ids[i]).0 == sub(s[i - 1]) }
pub proof fn start_is(k: Keyhive, a: Agent, s: Seq<Membered>, ids: Seq<AgentId>, h: Seq<Ent>)
    requires sources_ok(k, a, s), ids_ok(a, s, s.len() as int, ids), forall|o: Op| #[trigger] lists(h, o) <==> upto(s, s.len() as int, o) || revs_upto(k, ids, ids.len() as int, o)
    ensures listed(h) == start(k, a)
{
    assert forall|o: Op| #[trigger] listed(h).contains(o) <==> start(k, a).contains(o) by {
        upto_is(s, s.len() as int, o); revs_upto_is(k, ids, ids.len() as int, o);
        assert(listed(h).contains(o) == lists(h, o));
        if upto(s, s.len() as int, o) { let i = choose|i: int| 0 <= i < s.len() && head_of(#[trigger] s[i], o); assert(source(k, a, s[i])); }
        if revs_upto(k, ids, ids.len() as int, o) { let i = choose|i: int| 0 <= i < ids.len() && rev_in(k, (#[trigger] ids[i]).0, o); if i > 0 { assert(source(k, a, s[i - 1])); } }
        if exists|m: Membered| source(k, a, m) && #[trigger] head_of(m, o) { let m = choose|m: Membered| source(k, a, m) && #[trigger] head_of(m, o); assert(s.contains(m)); let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(head_of(s[i], o)); }
        if rev_in(k, agent_id(a), o) { assert(rev_in(k, ids[0].0, o)); }
        if exists|m: Membered| #[trigger] source(k, a, m) && rev_in(k, sub(m), o) { let m = choose|m: Membered| #[trigger] source(k, a, m) && rev_in(k, sub(m), o); assert(s.contains(m)); let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(rev_in(k, ids[i + 1].0, o)); }
    }
    assert(listed(h) =~= start(k, a));
}
pub open spec fn all_ends(b: spec_fn(Membered) -> bool) -> bool { true }
/// the agent's reachable groups and documents, by id
pub open spec fn reached(k: Keyhive, a: Identifier, r: Map<MemberedId, (Membered, Access)>) -> bool {
    &&& forall|i: MemberedId| #[trigger] r.dom().contains(i) ==> mid(r[i].0) == i && reaches(k, a, r[i].0) && r[i].1 == caps(r[i].0)[a].1
    &&& forall|m: Membered| #[trigger] reaches(k, a, m) ==> r.dom().contains(mid(m)) && r[mid(m)].0 == m
}
pub open spec fn some_reached(k: Keyhive, a: Identifier, r: Map<MemberedId, (Membered, Access)>, s: Seq<Membered>, n: int) -> bool {
    &&& forall|i: MemberedId| #[trigger] r.dom().contains(i) ==> mid(r[i].0) == i && reaches(k, a, r[i].0) && r[i].1 == caps(r[i].0)[a].1
    &&& forall|i: int| 0 <= i < n && caps(#[trigger] s[i]).dom().contains(a) ==> r.dom().contains(mid(s[i])) && r[mid(s[i])].0 == s[i]
}
pub open spec fn mg(g: Group) -> Membered { Membered::Group(g.state.id, g) }
pub open spec fn md(d: Document) -> Membered { Membered::Document(DocumentId(d.group.state.id.0), d) }
pub open spec fn mgs(s: Seq<Group>) -> Seq<Membered> { s.map_values(|g: Group| mg(g)) }
pub open spec fn mds(s: Seq<Document>) -> Seq<Membered> { s.map_values(|g: Document| md(g)) }
pub open spec fn every_group(k: Keyhive, s: Seq<Group>) -> bool { (forall|i: int| 0 <= i < s.len() ==> here(k, mg(#[trigger] s[i]))) && (forall|i: GroupId| #[trigger] k.groups@.dom().contains(i) ==> s.contains(k.groups@[i])) && forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).state.id == (#[trigger] s[j]).state.id ==> i == j }
pub open spec fn every_doc(k: Keyhive, s: Seq<Document>) -> bool { (forall|i: int| 0 <= i < s.len() ==> here(k, md(#[trigger] s[i]))) && (forall|i: DocumentId| #[trigger] k.docs@.dom().contains(i) ==> s.contains(k.docs@[i])) && forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).group.state.id == (#[trigger] s[j]).group.state.id ==> i == j }
pub proof fn groups_all(k: Keyhive, s: Seq<Group>) requires wf(k), vals_of(k.groups@, s) ensures every_group(k, s)
{ let ks = choose|ks: Seq<GroupId>| ks.len() == s.len() && #[trigger] ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> k.groups@.dom().contains(#[trigger] ks[i]) && k.groups@[ks[i]] == s[i]) && (forall|x: GroupId| #[trigger] k.groups@.dom().contains(x) ==> ks.contains(x));
  assert forall|i: int| 0 <= i < s.len() implies here(k, mg(#[trigger] s[i])) && s[i].state.id == ks[i] by { assert(k.groups@.dom().contains(ks[i])); }
  assert forall|x: GroupId| #[trigger] k.groups@.dom().contains(x) implies s.contains(k.groups@[x]) by { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(s[i] == k.groups@[x]); } }
pub proof fn docs_all(k: Keyhive, s: Seq<Document>) requires wf(k), vals_of(k.docs@, s) ensures every_doc(k, s)
{ let ks = choose|ks: Seq<DocumentId>| ks.len() == s.len() && #[trigger] ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> k.docs@.dom().contains(#[trigger] ks[i]) && k.docs@[ks[i]] == s[i]) && (forall|x: DocumentId| #[trigger] k.docs@.dom().contains(x) ==> ks.contains(x));
  assert forall|i: int| 0 <= i < s.len() implies here(k, md(#[trigger] s[i])) && s[i].group.state.id.0 == ks[i].0 by { assert(k.docs@.dom().contains(ks[i])); }
  assert forall|x: DocumentId| #[trigger] k.docs@.dom().contains(x) implies s.contains(k.docs@[x]) by { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; assert(s[i] == k.docs@[x]); } }
pub proof fn reached_all(k: Keyhive, a: Identifier, r: Map<MemberedId, (Membered, Access)>, g: Seq<Group>, d: Seq<Document>)
    requires wf(k), every_group(k, g), every_doc(k, d), some_reached(k, a, r, mgs(g), g.len() as int), some_reached(k, a, r, mds(d), d.len() as int) ensures reached(k, a, r)
{ assert forall|m: Membered| #[trigger] reaches(k, a, m) implies r.dom().contains(mid(m)) && r[mid(m)].0 == m by { match m {
    Membered::Group(i, x) => { assert(g.contains(x)); let n = choose|n: int| 0 <= n < g.len() && g[n] == x; assert(mgs(g)[n] == m); }
    Membered::Document(i, x) => { assert(d.contains(x)); let n = choose|n: int| 0 <= n < d.len() && d[n] == x; assert(mds(d)[n] == m); } } } }
pub proof fn sources_from(k: Keyhive, a: Agent, r: Map<MemberedId, (Membered, Access)>, v: Seq<(Membered, Access)>, s: Seq<Membered>)
    requires reached(k, agent_id(a), r), vals_of(r, v), as_mem(a) is Some ==> s.len() == v.len() + 1 && s.last() == as_mem(a)->0, as_mem(a) is None ==> s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] s[i] == v[i].0
    ensures sources_ok(k, a, s)
{
    let ks = choose|ks: Seq<MemberedId>| ks.len() == v.len() && #[trigger] ks.no_duplicates() && (forall|i: int| 0 <= i < ks.len() ==> r.dom().contains(#[trigger] ks[i]) && r[ks[i]] == v[i]) && (forall|x: MemberedId| #[trigger] r.dom().contains(x) ==> ks.contains(x));
    assert forall|i: int| 0 <= i < s.len() implies source(k, a, #[trigger] s[i]) by { if i < v.len() { assert(r.dom().contains(ks[i])); } }
    assert forall|m: Membered| #[trigger] source(k, a, m) implies s.contains(m) by { if as_mem(a) == Some(m) { assert(s[s.len() - 1] == m); } else { assert(ks.contains(mid(m))); let i = choose|i: int| 0 <= i < ks.len() && ks[i] == mid(m); assert(s[i] == m); } }
}
"""
KPRE = PRE.replace('ax_documentid::key_model', 'ax_documentid::key_model, ax_memberedid::key_model') + KTYPES
LK = [("let locked = group.lock();", "let locked = &group;"), ("let locked = doc.lock();", "let locked = &doc;"), (".lock()", ""), ("<F, S, T, L>", "")]
VALS_RW = [("{ self.groups.values().cloned().collect::<Vec<_>>() }", "vals(&self.groups)"), ("{ self.docs.values().cloned().collect::<Vec<_>>() }", "vals(&self.docs)")]
REACHED = Fn(KH, "Keyhive", "membered_reachable_by_agent", "pub fn membered_reachable_by_agent(&self, agent: &Agent) -> (r: HashMap<MemberedId, (Membered, Access)>) requires wf(*self) ensures reached(*self, agent_id(*agent), r@)", ["self", "agent"],
    LK + VALS_RW + [("let mut caps = HashMap::new();", "let mut caps: HashMap<MemberedId, (Membered, Access)> = HashMap::new();"),
        ("for group in groups {", "let ghost gs = groups@; proof { groups_all(*self, gs); } for group in groups {", "must"), ("for doc in docs {", "let ghost ds = docs@; proof { docs_all(*self, ds); all_last(*self, agent_id(*agent), gs, ds); } for doc in docs {", "must"),
        ("locked.group_id().into()", "MemberedId::from(locked.group_id())"), ("locked.doc_id().into()", "MemberedId::from(locked.doc_id())")],
    loops=[("for", "it", "invariant wf(*self), it.seq() == gs, every_group(*self, gs), some_reached(*self, agent_id(*agent), caps@, mgs(gs), it.index@ as int)", "proof { assert(here(*self, mg(gs[it.index@ as int]))); assert(mgs(gs)[it.index@ as int] == mg(gs[it.index@ as int])); }"),
           ("for", "it", "invariant wf(*self), it.seq() == ds, every_group(*self, gs), every_doc(*self, ds), some_reached(*self, agent_id(*agent), caps@, mgs(gs), gs.len() as int), some_reached(*self, agent_id(*agent), caps@, mds(ds), it.index@ as int), ended2(*self, agent_id(*agent), gs, ds)", "proof { assert(here(*self, md(ds[it.index@ as int]))); assert(mds(ds)[it.index@ as int] == md(ds[it.index@ as int])); }")],
    wrap="impl Keyhive")
KTYPES2 = r"""
pub open spec fn ended2(k: Keyhive, a: Identifier, g: Seq<Group>, d: Seq<Document>) -> bool { forall|r: Map<MemberedId, (Membered, Access)>| #[trigger] some_reached(k, a, r, mds(d), d.len() as int) && some_reached(k, a, r, mgs(g), g.len() as int) ==> reached(k, a, r) }
pub proof fn all_last(k: Keyhive, a: Identifier, g: Seq<Group>, d: Seq<Document>) requires wf(k), every_group(k, g), every_doc(k, d) ensures ended2(k, a, g, d)
{ assert forall|r: Map<MemberedId, (Membered, Access)>| #[trigger] some_reached(k, a, r, mds(d), d.len() as int) && some_reached(k, a, r, mgs(g), g.len() as int) implies reached(k, a, r) by { reached_all(k, a, r, g, d); } }
"""
MEMFOR = Fn(KH, "Keyhive", "membership_ops_for_agent", "pub fn membership_ops_for_agent(&self, agent: &Agent) -> (r: HashMap<Dg, MembershipOperation>) requires wf(*self), as_mem(*agent) is Some ==> mem_good(as_mem(*agent)->0) ensures keyed(r@), ops_of(r@) == below(start(*self, *agent))", ["self", "agent"],
    LK + [("let mut heads: $x = Vec::new();", "let mut heads: Vec<(Dg, MembershipOperation)> = Vec::new();", "must"),
        ("let mut sources: Vec<Membered> = $x.into_values().map(|($$m, $$a)| $y).collect();", "let rm = $x; let ghost rmv = rm@; let vi = vals_into(rm); let ghost viv = vi@; let mut sources: Vec<Membered> = map_into(vi, |p: (Membered, Access)| -> (r: Membered) ensures r == p.0 { let ($$m, $$a) = p; $y });", "must"),
        ("sources.extend(agent.as_membered());", "push_opt(&mut sources, agent.as_membered()); let ghost srcs = sources@; proof { none(); sources_from(*self, *agent, rmv, viv, srcs); }", "must"),
        ("for (hash, dlg_head) in mem_rc.delegation_heads().iter() {", "let dh = mem_rc.delegation_heads(); let rh = mem_rc.revocation_heads(); proof { got_ends(b0, dh, rh); } let dv = dh.iter(); let ghost dvs = dv@; for e in dv { let hash = e.0; let dlg_head = e.1;", "must"),
        ("for (hash, rev_head) in mem_rc.revocation_heads().iter() {", "let rv = rh.iter(); let ghost rvs = rv@; for e in rv { let hash = e.0; let rev_head = e.1;", "must"),
        ("for agent_id in agent_ids {", "let ghost ids = agent_ids@; for agent_id in agent_ids {", "must"),
        ("let hash: $x = Digest::hash(rev.as_ref()).coerce();", "let hash = Digest::hash(rev.as_ref()).coerce();"),
        ("for rev in agent_revocations {", "let ghost rsv = agent_revocations@; proof { revs_all(*self, agent_id.0, rsv); } for rev in agent_revocations.list() {", "must"),
        ("bfs_membership_ops(heads)", "({ proof { start_is(*self, *agent, srcs, ids, heads@); } bfs_membership_ops(heads) })", "must")],
    loops=[("for", "it", "invariant wf(*self), it.seq() == srcs, sources_ok(*self, *agent, srcs), as_mem(*agent) is Some ==> mem_good(as_mem(*agent)->0), tagged(heads@), ids_ok(*agent, srcs, it.index@ as int, agent_ids@), forall|o: Op| #[trigger] lists(heads@, o) <==> upto(srcs, it.index@ as int, o)",
              "let ghost b0 = heads@; let ghost gm = mem_rc; proof { assert(source(*self, *agent, srcs[it.index@ as int])); assert(mem_good(gm)); }", "proof { assert forall|o: Op| #[trigger] lists(heads@, o) <==> upto(srcs, it.index@ + 1, o) by { assert(head_of(gm, o) == among(dh, rh, o)); } }"),
           ("for", "it2", "invariant keyed_stores(dh, rh), ends(b0, dh, rh), it2.seq() == dvs, entered(dh.view(), dvs), got(b0, dh, rh, dvs, it2.index@ as int, seq![], 0, heads@)", "let ghost b = heads@;", "proof { let i = it2.index@ as int; got_d(b0, dh, rh, dvs, i, b); assert(heads@ =~= b.push((*dvs[i].0, MembershipOperation::Delegation(*dvs[i].1)))); }"),
           ("for", "it2", "invariant keyed_stores(dh, rh), ends(b0, dh, rh), it2.seq() == rvs, entered(dh.view(), dvs), entered(rh.view(), rvs), got(b0, dh, rh, dvs, dvs.len() as int, rvs, it2.index@ as int, heads@)", "let ghost b = heads@;", "proof { let i = it2.index@ as int; got_r(b0, dh, rh, dvs, rvs, i, b); assert(heads@ =~= b.push((*rvs[i].0, MembershipOperation::Revocation(*rvs[i].1)))); }"),
           ("for", "it", "invariant it.seq() == ids, tagged(heads@), forall|o: Op| #[trigger] lists(heads@, o) <==> upto(srcs, srcs.len() as int, o) || revs_upto(*self, ids, it.index@ as int, o)", "let ghost b0 = heads@; let ghost ix = it.index@ as int;", "proof { assert(ids[ix] == agent_id); assert(revs_of(self.revocations, agent_id.0, seq![]) ==> none_of(*self, agent_id.0)) by { if revs_of(self.revocations, agent_id.0, seq![]) { revs_all(*self, agent_id.0, seq![]); assert(none_of(*self, agent_id.0)); } } }"),
           ("for", "it2", "invariant tagged(heads@), it2.seq() == rsv, forall|o: Op| #[trigger] lists(heads@, o) <==> lists(b0, o) || some_rev(rsv, it2.index@ as int, o)", "let ghost b = heads@; let ghost go = Op::Revocation(rev);", "proof { kept(b, (op_dg(go), go)); assert(heads@ =~= b.push((op_dg(go), go))); assert(Op::Revocation(rsv[it2.index@ as int]) == go); some_more(rsv, it2.index@ as int); assert forall|o: Op| #[trigger] lists(heads@, o) <==> lists(b0, o) || some_rev(rsv, it2.index@ + 1, o) by { assert(lists(heads@, o) <==> lists(b, o) || o == go); assert(some_rev(rsv, it2.index@ + 1, o) <==> some_rev(rsv, it2.index@ as int, o) || o == go); } }")],
    wrap="impl Keyhive")
KTYPES3 = r"""
pub open spec fn some_rev(l: Seq<R>, n: int, o: Op) -> bool { exists|i: int| 0 <= i < n && Op::Revocation(#[trigger] l[i]) == o }
pub proof fn some_more(l: Seq<R>, n: int) requires 0 <= n < l.len() ensures forall|o: Op| #[trigger] some_rev(l, n + 1, o) <==> some_rev(l, n, o) || o == Op::Revocation(l[n])
{ assert forall|o: Op| #[trigger] some_rev(l, n + 1, o) <==> some_rev(l, n, o) || o == Op::Revocation(l[n]) by {
    if some_rev(l, n, o) { let i = choose|i: int| 0 <= i < n && Op::Revocation(#[trigger] l[i]) == o; assert(Op::Revocation(l[i]) == o); }
    if some_rev(l, n + 1, o) { let i = choose|i: int| 0 <= i < n + 1 && Op::Revocation(#[trigger] l[i]) == o; if i < n { assert(Op::Revocation(l[i]) == o); } } } }
pub open spec fn none_of(k: Keyhive, id: Identifier) -> bool { forall|o: Op| !#[trigger] rev_in(k, id, o) }
/// the listed revocations are those of the agent
pub proof fn revs_all(k: Keyhive, id: Identifier, l: Seq<R>) requires revs_of(k.revocations, id, l) ensures forall|o: Op| #[trigger] some_rev(l, l.len() as int, o) <==> rev_in(k, id, o)
{ assert forall|o: Op| #[trigger] some_rev(l, l.len() as int, o) <==> rev_in(k, id, o) by {
    if some_rev(l, l.len() as int, o) { let i = choose|i: int| 0 <= i < l.len() && Op::Revocation(#[trigger] l[i]) == o; assert(in_r(k.revocations, l[i])); }
    if rev_in(k, id, o) { let r = o->Revocation_0; assert(l.contains(r)); let i = choose|i: int| 0 <= i < l.len() && l[i] == r; assert(Op::Revocation(l[i]) == o); } } }
"""
u_member = Unit("offer_member", KPRE + KTYPES2 + KTYPES3, ACC + walk_fns + [REACHED, MEMFOR])

# ---- the same for every agent in one pass ----
ALLTYPES = r"""
pub type OpTable = HashMap<Identifier, HashMap<Dg, MembershipOperation>>;
pub type IdTable = HashMap<Identifier, HashSet<Identifier>>;
pub struct AllMembershipOps { pub ops: OpTable, pub index: IdTable }
#[verifier::external_body] pub fn map_entry<'a, V>(m: &'a mut HashMap<Identifier, HashMap<Dg, V>>, k: Identifier) -> (r: &'a mut HashMap<Dg, V>)
    ensures r@ == (if old(m)@.dom().contains(k) { old(m)@[k]@ } else { Map::<Dg, V>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
#[verifier::external_body] pub fn set_entry<'a>(m: &'a mut IdTable, k: Identifier) -> (r: &'a mut HashSet<Identifier>)
    ensures r@ == (if old(m)@.dom().contains(k) { old(m)@[k]@ } else { Set::<Identifier>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
/// std: the keys of a map
#[verifier::external_body] pub fn keys<'a, V>(m: &'a HashMap<Identifier, V>) -> (r: Vec<&'a Identifier>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i])), forall|k: Identifier| #[trigger] m@.dom().contains(k) ==> among_ids(r@, r@.len() as int, k) { unimplemented!() }
#[verifier::external_body] pub fn key_set<V>(m: &HashMap<Dg, V>) -> (r: HashSet<Dg>) ensures r@ == m@.dom() { unimplemented!() }
#[verifier::external_body] pub fn has_none<V>(m: &HashMap<Dg, V>) -> (r: bool) ensures r == (forall|k: Dg| !#[trigger] m@.dom().contains(k)) { unimplemented!() }
pub open spec fn among_ids(s: Seq<&Identifier>, n: int, k: Identifier) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]) == k }
pub proof fn among_more(s: Seq<&Identifier>, n: int) requires 0 <= n < s.len() ensures forall|k: Identifier| #[trigger] among_ids(s, n + 1, k) <==> among_ids(s, n, k) || k == *s[n]
{ assert forall|k: Identifier| #[trigger] among_ids(s, n + 1, k) <==> among_ids(s, n, k) || k == *s[n] by {
    if among_ids(s, n, k) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]) == k; assert(*s[i] == k); }
    if among_ids(s, n + 1, k) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]) == k; if i < n { assert(*s[i] == k); } } } }
pub open spec fn idx(t: Map<Identifier, HashSet<Identifier>>, id: Identifier, src: Identifier) -> bool { t.dom().contains(id) && t[id]@.contains(src) }
/// no entry is empty
pub open spec fn solid(t: Map<Identifier, HashSet<Identifier>>) -> bool { forall|i: Identifier| #[trigger] t.dom().contains(i) ==> exists|c: Identifier| #[trigger] idx(t, i, c) }
/// index.entry(k).or_default().insert(v)
pub fn note(t: &mut IdTable, k: Identifier, v: Identifier) ensures forall|i: Identifier, s: Identifier| #[trigger] idx(final(t)@, i, s) <==> idx(old(t)@, i, s) || (i == k && s == v), solid(old(t)@) ==> solid(final(t)@)
{ broadcast use vstd::std_specs::hash::group_hash_axioms, ax_identifier::key_model; let e = set_entry(t, k); e.insert(v); proof { if solid(old(t)@) { assert forall|i: Identifier| #[trigger] t@.dom().contains(i) implies exists|c: Identifier| #[trigger] idx(t@, i, c) by { if i == k { assert(idx(t@, k, v)); } else { assert(old(t)@.dom().contains(i)); let c = choose|c: Identifier| #[trigger] idx(old(t)@, i, c); assert(idx(t@, i, c)); } } } } }

pub open spec fn heads_at(s: Seq<Membered>, src: Identifier) -> ISet<Op> { ISet::new(|o: Op| exists|i: int| 0 <= i < s.len() && sub(#[trigger] s[i]) == src && head_of(s[i], o)) }
pub open spec fn src_in(s: Seq<Membered>, src: Identifier) -> bool { exists|i: int| 0 <= i < s.len() && sub(#[trigger] s[i]) == src }
pub open spec fn src_for(s: Seq<Membered>, id: Identifier, src: Identifier) -> bool { exists|i: int| 0 <= i < s.len() && sub(#[trigger] s[i]) == src && (id == src || caps(s[i]).dom().contains(id)) }
pub open spec fn distinct(s: Seq<Membered>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && sub(#[trigger] s[i]) == sub(#[trigger] s[j]) ==> i == j }
/// every group and document, once
pub open spec fn all_of(k: Keyhive, s: Seq<Membered>) -> bool { distinct(s) && (forall|i: int| 0 <= i < s.len() ==> here(k, #[trigger] s[i])) && forall|m: Membered| #[trigger] here(k, m) ==> s.contains(m) }
pub open spec fn ops_good(t: Map<Identifier, HashMap<Dg, Op>>, id: Identifier, st: ISet<Op>) -> bool { keyed(t[id]@) && ops_of(t[id]@) == below(st) }
#[verifier::opaque]
pub open spec fn filled(t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>) -> bool {
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) <==> src_in(s, i)
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) ==> ops_good(t, i, heads_at(s, i))
    &&& forall|i: Identifier, c: Identifier| #[trigger] idx(x, i, c) <==> src_for(s, i, c)
}
pub proof fn fill_start(t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>) requires t == Map::<Identifier, HashMap<Dg, Op>>::empty(), x == Map::<Identifier, HashSet<Identifier>>::empty() ensures filled(t, x, seq![]) { reveal(filled); }
pub proof fn srcs_more(s: Seq<Membered>, m: Membered) requires !src_in(s, sub(m))
    ensures forall|i: Identifier| #[trigger] src_in(s.push(m), i) <==> src_in(s, i) || i == sub(m),
        forall|i: Identifier, c: Identifier| #[trigger] src_for(s.push(m), i, c) <==> src_for(s, i, c) || (c == sub(m) && (i == c || caps(m).dom().contains(i))),
        forall|i: Identifier| i != sub(m) ==> #[trigger] heads_at(s.push(m), i) == heads_at(s, i),
        heads_at(s.push(m), sub(m)) == ISet::new(|o: Op| head_of(m, o))
{
    let b = s.push(m); assert(b[s.len() as int] == m);
    assert forall|i: Identifier| #[trigger] src_in(b, i) <==> src_in(s, i) || i == sub(m) by { if src_in(s, i) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == i; assert(b[j] == s[j]); } if src_in(b, i) { let j = choose|j: int| 0 <= j < b.len() && sub(#[trigger] b[j]) == i; if j < s.len() { assert(s[j] == b[j]); } } if i == sub(m) { assert(sub(b[s.len() as int]) == i); } }
    assert forall|i: Identifier, c: Identifier| #[trigger] src_for(b, i, c) <==> src_for(s, i, c) || (c == sub(m) && (i == c || caps(m).dom().contains(i))) by {
        if src_for(s, i, c) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == c && (i == c || caps(s[j]).dom().contains(i)); assert(b[j] == s[j]); }
        if src_for(b, i, c) { let j = choose|j: int| 0 <= j < b.len() && sub(#[trigger] b[j]) == c && (i == c || caps(b[j]).dom().contains(i)); if j < s.len() { assert(s[j] == b[j]); } }
        if c == sub(m) && (i == c || caps(m).dom().contains(i)) { assert(sub(b[s.len() as int]) == c); } }
    assert forall|i: Identifier| i != sub(m) implies #[trigger] heads_at(b, i) == heads_at(s, i) by { assert forall|o: Op| #[trigger] heads_at(b, i).contains(o) <==> heads_at(s, i).contains(o) by {
        if heads_at(s, i).contains(o) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == i && head_of(s[j], o); assert(b[j] == s[j]); }
        if heads_at(b, i).contains(o) { let j = choose|j: int| 0 <= j < b.len() && sub(#[trigger] b[j]) == i && head_of(b[j], o); assert(s[j] == b[j]); } } assert(heads_at(b, i) =~= heads_at(s, i)); }
    let h = ISet::new(|o: Op| head_of(m, o));
    assert forall|o: Op| #[trigger] heads_at(b, sub(m)).contains(o) <==> h.contains(o) by {
        if h.contains(o) { assert(sub(b[s.len() as int]) == sub(m)); }
        if heads_at(b, sub(m)).contains(o) { let j = choose|j: int| 0 <= j < b.len() && sub(#[trigger] b[j]) == sub(m) && head_of(b[j], o); if j < s.len() { assert(s[j] == b[j]); assert(src_in(s, sub(m))); } } }
    assert(heads_at(b, sub(m)) =~= h);
}
/// one more group or document is noted
pub proof fn fill_step(t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, m: Membered, v: HashMap<Dg, Op>, h: Seq<Ent>, t2: Map<Identifier, HashMap<Dg, Op>>, x2: Map<Identifier, HashSet<Identifier>>)
    requires filled(t, x, s), !src_in(s, sub(m)), t2 == t.insert(sub(m), v), keyed(v@), ops_of(v@) == below(listed(h)), forall|o: Op| #[trigger] lists(h, o) <==> head_of(m, o),
        forall|i: Identifier, c: Identifier| #[trigger] idx(x2, i, c) <==> idx(x, i, c) || (c == sub(m) && (i == c || caps(m).dom().contains(i)))
    ensures filled(t2, x2, s.push(m))
{ reveal(filled); srcs_more(s, m); assert(listed(h) =~= ISet::new(|o: Op| head_of(m, o)));
  assert forall|i: Identifier| #[trigger] t2.dom().contains(i) implies ops_good(t2, i, heads_at(s.push(m), i)) by { if i != sub(m) { assert(t.dom().contains(i)); assert(ops_good(t, i, heads_at(s, i))); } } }
pub open spec fn about_in(v: Seq<(&AgentId, &RevSet)>, n: int, id: Identifier) -> bool { exists|i: int| 0 <= i < n && (#[trigger] v[i]).0.0 == id }
pub open spec fn heads_and(k: Keyhive, s: Seq<Membered>, id: Identifier, done: bool) -> ISet<Op> { ISet::new(|o: Op| heads_at(s, id).contains(o) || (done && rev_in(k, id, o))) }
#[verifier::opaque]
pub open spec fn revved(k: Keyhive, t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, v: Seq<(&AgentId, &RevSet)>, n: int) -> bool {
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) <==> src_in(s, i) || about_in(v, n, i)
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) ==> ops_good(t, i, heads_and(k, s, i, about_in(v, n, i)))
    &&& forall|i: Identifier, c: Identifier| #[trigger] idx(x, i, c) <==> src_for(s, i, c) || (i == c && about_in(v, n, i))
}
pub proof fn rev_start(k: Keyhive, t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, v: Seq<(&AgentId, &RevSet)>) requires filled(t, x, s) ensures revved(k, t, x, s, v, 0)
{ reveal(filled); reveal(revved); assert forall|i: Identifier| #[trigger] t.dom().contains(i) implies ops_good(t, i, heads_and(k, s, i, about_in(v, 0, i))) by { assert(heads_and(k, s, i, false) =~= heads_at(s, i)); assert(!about_in(v, 0, i)); } }
/// what is known of one agent's operations after n of its revocations
#[verifier::opaque]
pub open spec fn agent_part(base: ISet<Op>, l: Seq<R>, n: int, m: OpMap, vis: Set<Dg>) -> bool { keyed(m) && vis == m.dom() && ops_of(m) == below(base_and(base, l, n)) }
pub open spec fn base_and(base: ISet<Op>, l: Seq<R>, n: int) -> ISet<Op> { ISet::new(|o: Op| base.contains(o) || some_rev(l, n, o)) }
pub proof fn below_in(s: ISet<Op>, t: ISet<Op>) requires s.subset_of(t) ensures below(s).subset_of(below(t)) { below_shut(t); assert(from(s, below(t))); below_least(s, below(t)); }
pub proof fn below_add(s: ISet<Op>, t: ISet<Op>, x: Op) requires forall|o: Op| #[trigger] t.contains(o) <==> s.contains(o) || o == x
    ensures below(s).contains(x) ==> below(t) == below(s), forall|u: ISet<Op>| (forall|o: Op| #[trigger] u.contains(o) <==> below(s).contains(o) || o == x) ==> #[trigger] below(u) == below(t)
{
    below_shut(s); below_shut(t);
    if below(s).contains(x) { assert(from(t, below(s))); below_in(s, t); below_is(t, below(s)); }
    assert forall|u: ISet<Op>| (forall|o: Op| #[trigger] u.contains(o) <==> below(s).contains(o) || o == x) implies #[trigger] below(u) == below(t) by {
        below_shut(u); below_in(s, t); assert(t.contains(x)); assert(from(u, below(t))) by { assert forall|o: Op| #[trigger] u.contains(o) implies below(t).contains(o) by { if o == x { } else { assert(below(s).contains(o)); } } }
        below_least(u, below(t)); assert(from(t, below(u))) by { assert forall|o: Op| #[trigger] t.contains(o) implies below(u).contains(o) by { if s.contains(o) { assert(below(s).contains(o)); assert(u.contains(o)); } else { assert(u.contains(o)); } } }
        below_least(t, below(u)); assert(below(u) =~= below(t)); }
}
pub proof fn part_step(base: ISet<Op>, l: Seq<R>, n: int, m0: OpMap, m1: OpMap, m2: OpMap, v0: Set<Dg>, v2: Set<Dg>, h: Dg)
    requires agent_part(base, l, n, m0, v0), 0 <= n < l.len(), h == dg_r(*l[n]),
        v0.contains(h) ==> m2 == m0 && v2 == v0,
        !v0.contains(h) ==> m1 == m0.insert(h, Op::Revocation(l[n])) && keyed(m2) && v2 == m2.dom() && ops_of(m2) == below(ops_of(m1))
    ensures agent_part(base, l, n + 1, m2, v2)
{
    reveal(agent_part); let x = Op::Revocation(l[n]); let s = base_and(base, l, n); let t = base_and(base, l, n + 1); some_more(l, n);
    below_add(s, t, x); no_collision();
    if v0.contains(h) { assert(op_dg(m0[h]) == op_dg(x)); assert(has(m0, x)); assert(ops_of(m0).contains(x)); }
    else { assert forall|o: Op| #[trigger] ops_of(m1).contains(o) <==> below(s).contains(o) || o == x by { assert(ops_of(m0).contains(o) == has(m0, o)); assert(ops_of(m1).contains(o) == has(m1, o)); if o != x && has(m1, o) { assert(op_dg(o) != op_dg(x)); } if has(m0, o) { assert(op_dg(o) != h); } } assert(below(ops_of(m1)) == below(t)); }
}
pub proof fn part_ready(base: ISet<Op>, l: Seq<R>, n: int, m0: OpMap, m1: OpMap, v0: Set<Dg>, h: Dg)
    requires agent_part(base, l, n, m0, v0), 0 <= n < l.len(), h == dg_r(*l[n]), !v0.contains(h), m1 == m0.insert(h, Op::Revocation(l[n]))
    ensures keyed(m1), v0.insert(h) == m1.dom(), has(m1, Op::Revocation(l[n])), forall|o: Op, p: Op| has(m1, o) && o != Op::Revocation(l[n]) && #[trigger] edge(o, p) ==> has(m1, p)
{
    reveal(agent_part); no_collision(); let s = base_and(base, l, n); below_shut(s); let x = Op::Revocation(l[n]);
    assert(v0.insert(h) =~= m1.dom()); assert(op_dg(x) == h);
    assert forall|o: Op, p: Op| has(m1, o) && o != x && #[trigger] edge(o, p) implies has(m1, p) by { assert(op_dg(o) != h); assert(has(m0, o)); assert(ops_of(m0).contains(o)); assert(ops_of(m0).contains(p)); assert(has(m0, p)); assert(op_dg(p) != h); }
}
pub proof fn part_start(k: Keyhive, t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, v: Seq<(&AgentId, &RevSet)>, n: int, id: Identifier, l: Seq<R>, m: OpMap)
    requires revved(k, t, x, s, v, n), !about_in(v, n, id), m == (if t.dom().contains(id) { t[id]@ } else { Map::<Dg, Op>::empty() }) ensures agent_part(heads_at(s, id), l, 0, m, m.dom())
{
    reveal(revved); reveal(agent_part); let b = heads_at(s, id); assert(base_and(b, l, 0) =~= b); assert(heads_and(k, s, id, false) =~= b);
    if !t.dom().contains(id) { assert forall|o: Op| !#[trigger] b.contains(o) by { if b.contains(o) { let i = choose|i: int| 0 <= i < s.len() && sub(#[trigger] s[i]) == id && head_of(s[i], o); assert(src_in(s, id)); } }
        let e = ISet::<Op>::new(|o: Op| false); assert(from(b, e)); below_least(b, e); assert(ops_of(m) =~= below(b)); }
}
pub proof fn rev_step(k: Keyhive, t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, v: Seq<(&AgentId, &RevSet)>, n: int, id: Identifier, l: Seq<R>, m: HashMap<Dg, Op>, vis: Set<Dg>, t2: Map<Identifier, HashMap<Dg, Op>>, x2: Map<Identifier, HashSet<Identifier>>)
    requires revved(k, t, x, s, v, n), 0 <= n < v.len(), v[n].0.0 == id, !about_in(v, n, id), revs_of(k.revocations, id, l), l.len() > 0, agent_part(heads_at(s, id), l, l.len() as int, m@, vis), t2 == t.insert(id, m),
        (exists|d: Dg| #[trigger] m@.dom().contains(d)) ==> forall|i: Identifier, c: Identifier| #[trigger] idx(x2, i, c) <==> idx(x, i, c) || (i == id && c == id)
    ensures revved(k, t2, x2, s, v, n + 1)
{
    reveal(revved); reveal(agent_part); revs_all(k, id, l); let b = heads_at(s, id); let a = base_and(b, l, l.len() as int);
    assert forall|i: Identifier| #[trigger] about_in(v, n + 1, i) <==> about_in(v, n, i) || i == id by {
        if about_in(v, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] v[j]).0.0 == i; assert(v[j].0.0 == i); }
        if about_in(v, n + 1, i) { let j = choose|j: int| 0 <= j < n + 1 && (#[trigger] v[j]).0.0 == i; if j < n { assert(v[j].0.0 == i); } } if i == id { assert(v[n].0.0 == i); } }
    let full = heads_and(k, s, id, true);
    assert forall|o: Op| #[trigger] a.contains(o) <==> full.contains(o) by { assert(some_rev(l, l.len() as int, o) <==> rev_in(k, id, o)); }
    assert(a =~= full); below_shut(a); let f = Op::Revocation(l[0]); assert(some_rev(l, l.len() as int, f)); assert(a.contains(f)); assert(ops_of(m@).contains(f)); assert(m@.dom().contains(op_dg(f)));
    assert forall|i: Identifier| #[trigger] t2.dom().contains(i) implies ops_good(t2, i, heads_and(k, s, i, about_in(v, n + 1, i))) by { if i != id { assert(t.dom().contains(i)); assert(about_in(v, n + 1, i) == about_in(v, n, i)); } }
}

// ---- what every agent is offered ----
pub open spec fn has_rev(k: Keyhive, id: Identifier) -> bool { exists|o: Op| #[trigger] rev_in(k, id, o) }
pub open spec fn src_start(k: Keyhive, id: Identifier) -> ISet<Op> { ISet::new(|o: Op| (exists|m: Membered| here(k, m) && sub(m) == id && #[trigger] head_of(m, o)) || rev_in(k, id, o)) }
pub open spec fn src_here(k: Keyhive, id: Identifier) -> bool { exists|m: Membered| #[trigger] here(k, m) && sub(m) == id }
pub open spec fn src_of(k: Keyhive, id: Identifier, src: Identifier) -> bool { (exists|m: Membered| #[trigger] here(k, m) && sub(m) == src && (id == src || caps(m).dom().contains(id))) || (id == src && has_rev(k, id)) }
/// each group, document and agent with revocations has its operations; each agent is referred to those it may have
pub open spec fn complete(k: Keyhive, r: AllMembershipOps) -> bool {
    &&& forall|i: Identifier| #[trigger] r.ops@.dom().contains(i) <==> src_here(k, i) || has_rev(k, i)
    &&& forall|i: Identifier| #[trigger] r.ops@.dom().contains(i) ==> ops_good(r.ops@, i, src_start(k, i))
    &&& forall|i: Identifier, c: Identifier| #[trigger] idx(r.index@, i, c) <==> src_of(k, i, c)
}
/// the operations the agent is referred to
pub open spec fn offered(r: AllMembershipOps, id: Identifier) -> ISet<Op> { ISet::new(|o: Op| exists|c: Identifier| #[trigger] idx(r.index@, id, c) && r.ops@.dom().contains(c) && has(r.ops@[c]@, o)) }
/// an agent as this keyhive knows it: a group or document is the registered one
pub open spec fn known(k: Keyhive, a: Agent) -> bool { match as_mem(a) { Some(m) => here(k, m), None => forall|m: Membered| #[trigger] here(k, m) ==> sub(m) != agent_id(a) } }
pub proof fn complete_all(k: Keyhive, t: Map<Identifier, HashMap<Dg, Op>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Membered>, v: Seq<(&AgentId, &RevSet)>, r: AllMembershipOps)
    requires all_of(k, s), revved(k, r.ops@, r.index@, s, v, v.len() as int), forall|i: int| 0 <= i < v.len() ==> revs_of(k.revocations, (#[trigger] v[i]).0.0, v[i].1@) && v[i].1@.len() > 0, forall|q: R| #[trigger] in_r(k.revocations, q) ==> about_in(v, v.len() as int, about(q))
    ensures complete(k, r)
{
    reveal(revved); let n = v.len() as int;
    assert forall|i: Identifier| about_in(v, n, i) <==> #[trigger] has_rev(k, i) by {
        if about_in(v, n, i) { let j = choose|j: int| 0 <= j < n && (#[trigger] v[j]).0.0 == i; assert(in_r(k.revocations, v[j].1@[0])); assert(rev_in(k, i, Op::Revocation(v[j].1@[0]))); }
        if has_rev(k, i) { let o = choose|o: Op| #[trigger] rev_in(k, i, o); assert(in_r(k.revocations, o->Revocation_0)); } }
    assert forall|i: Identifier| src_in(s, i) <==> #[trigger] src_here(k, i) by {
        if src_in(s, i) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == i; assert(here(k, s[j])); }
        if src_here(k, i) { let m = choose|m: Membered| #[trigger] here(k, m) && sub(m) == i; assert(s.contains(m)); let j = choose|j: int| 0 <= j < s.len() && s[j] == m; assert(sub(s[j]) == i); } }
    assert forall|i: Identifier| #[trigger] r.ops@.dom().contains(i) implies ops_good(r.ops@, i, src_start(k, i)) by {
        assert(has_rev(k, i) == about_in(v, n, i)); let a = heads_and(k, s, i, about_in(v, n, i)); let b = src_start(k, i);
        assert forall|o: Op| #[trigger] a.contains(o) <==> b.contains(o) by {
            if heads_at(s, i).contains(o) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == i && head_of(s[j], o); assert(here(k, s[j]) && sub(s[j]) == i && head_of(s[j], o)); }
            if exists|m: Membered| here(k, m) && sub(m) == i && #[trigger] head_of(m, o) { let m = choose|m: Membered| here(k, m) && sub(m) == i && #[trigger] head_of(m, o); assert(s.contains(m)); let j = choose|j: int| 0 <= j < s.len() && s[j] == m; assert(sub(s[j]) == i && head_of(s[j], o)); }
            if rev_in(k, i, o) { assert(has_rev(k, i)); } }
        assert(a =~= b); }
    assert forall|i: Identifier, c: Identifier| #[trigger] idx(r.index@, i, c) <==> src_of(k, i, c) by {
        assert(has_rev(k, i) == about_in(v, n, i));
        if src_for(s, i, c) { let j = choose|j: int| 0 <= j < s.len() && sub(#[trigger] s[j]) == c && (i == c || caps(s[j]).dom().contains(i)); assert(here(k, s[j])); }
        if exists|m: Membered| #[trigger] here(k, m) && sub(m) == c && (i == c || caps(m).dom().contains(i)) { let m = choose|m: Membered| #[trigger] here(k, m) && sub(m) == c && (i == c || caps(m).dom().contains(i)); assert(s.contains(m)); let j = choose|j: int| 0 <= j < s.len() && s[j] == m; assert(sub(s[j]) == c); } }
}
/// both ways of asking give an agent the same operations
pub proof fn same_offer(k: Keyhive, r: AllMembershipOps, a: Agent) requires wf(k), complete(k, r), known(k, a) ensures offered(r, agent_id(a)) == below(start(k, a))
{
    let id = agent_id(a); let st = start(k, a); let off = offered(r, id); below_shut(st);
    assert forall|o: Op| #[trigger] off.contains(o) implies below(st).contains(o) by {
        let c = choose|c: Identifier| #[trigger] idx(r.index@, id, c) && r.ops@.dom().contains(c) && has(r.ops@[c]@, o);
        assert(src_of(k, id, c)); assert(ops_good(r.ops@, c, src_start(k, c))); assert(ops_of(r.ops@[c]@).contains(o));
        assert(src_start(k, c).subset_of(st)) by { assert forall|p: Op| #[trigger] src_start(k, c).contains(p) implies st.contains(p) by {
            if exists|m: Membered| #[trigger] here(k, m) && sub(m) == c && (id == c || caps(m).dom().contains(id)) {
                let m = choose|m: Membered| #[trigger] here(k, m) && sub(m) == c && (id == c || caps(m).dom().contains(id));
                if !caps(m).dom().contains(id) { match as_mem(a) { Some(q) => { one_here(k, m, q); } None => { assert(false); } } }
                assert(source(k, a, m));
                if exists|q: Membered| here(k, q) && sub(q) == c && #[trigger] head_of(q, p) { let q = choose|q: Membered| here(k, q) && sub(q) == c && #[trigger] head_of(q, p); one_here(k, m, q); assert(source(k, a, q) && head_of(q, p)); }
                if rev_in(k, c, p) { assert(source(k, a, m) && rev_in(k, sub(m), p)); }
            } else {
                assert(id == c);
                if exists|q: Membered| here(k, q) && sub(q) == c && #[trigger] head_of(q, p) { let q = choose|q: Membered| here(k, q) && sub(q) == c && #[trigger] head_of(q, p); assert(here(k, q)); }
            } } }
        below_in(src_start(k, c), st);
    }
    assert(from(st, off)) by {
        assert forall|o: Op, p: Op| off.contains(o) && #[trigger] edge(o, p) implies off.contains(p) by {
            let c = choose|c: Identifier| #[trigger] idx(r.index@, id, c) && r.ops@.dom().contains(c) && has(r.ops@[c]@, o);
            assert(ops_good(r.ops@, c, src_start(k, c))); assert(ops_of(r.ops@[c]@).contains(o)); below_shut(src_start(k, c)); assert(ops_of(r.ops@[c]@).contains(p)); assert(idx(r.index@, id, c)); }
        assert forall|o: Op| #[trigger] st.contains(o) implies off.contains(o) by {
            if exists|m: Membered| source(k, a, m) && #[trigger] head_of(m, o) { let m = choose|m: Membered| source(k, a, m) && #[trigger] head_of(m, o); src_offers(k, r, a, m, o); }
            else if rev_in(k, id, o) { assert(has_rev(k, id)); assert(src_of(k, id, id)); assert(idx(r.index@, id, id)); assert(r.ops@.dom().contains(id)); assert(src_start(k, id).contains(o)); below_shut(src_start(k, id)); assert(ops_of(r.ops@[id]@).contains(o)); }
            else { let m = choose|m: Membered| #[trigger] source(k, a, m) && rev_in(k, sub(m), o); src_offers(k, r, a, m, o); } } }
    below_is(st, off);
}
pub proof fn one_here(k: Keyhive, m: Membered, q: Membered) requires wf(k), here(k, m), here(k, q), sub(m) == sub(q) ensures m == q
{ match m { Membered::Group(i, g) => { match q { Membered::Group(j, h) => { assert(i.0 == j.0); assert(i == j); } Membered::Document(j, h) => { assert(k.docs@.dom().contains(j)); assert(GroupId(j.0) == i); } } }
    Membered::Document(i, g) => { match q { Membered::Document(j, h) => { assert(i == j); } Membered::Group(j, h) => { assert(k.docs@.dom().contains(i)); assert(GroupId(i.0) == j); } } } } }
pub proof fn src_offers(k: Keyhive, r: AllMembershipOps, a: Agent, m: Membered, o: Op) requires wf(k), complete(k, r), known(k, a), source(k, a, m), head_of(m, o) || rev_in(k, sub(m), o) ensures offered(r, agent_id(a)).contains(o)
{
    let id = agent_id(a); let c = sub(m); assert(here(k, m)); assert(id == c || caps(m).dom().contains(id)) by { if as_mem(a) == Some(m) { } }
    assert(src_of(k, id, c)); assert(idx(r.index@, id, c)); assert(src_here(k, c)); assert(r.ops@.dom().contains(c));
    assert(src_start(k, c).contains(o)) by { if head_of(m, o) { assert(here(k, m) && sub(m) == c && head_of(m, o)); } }
    below_shut(src_start(k, c)); assert(ops_good(r.ops@, c, src_start(k, c))); assert(ops_of(r.ops@[c]@).contains(o)); assert(has(r.ops@[c]@, o));
}
pub open spec fn offers_same(k: Keyhive, r: AllMembershipOps) -> bool { forall|a: Agent| known(k, a) ==> #[trigger] offered(r, agent_id(a)) == below(start(k, a)) }
pub proof fn same_offers(k: Keyhive, r: AllMembershipOps) requires wf(k), complete(k, r) ensures offers_same(k, r)
{ assert forall|a: Agent| known(k, a) implies #[trigger] offered(r, agent_id(a)) == below(start(k, a)) by { same_offer(k, r, a); } }
pub proof fn all_here(k: Keyhive, g: Seq<Group>, d: Seq<Document>) requires wf(k), every_group(k, g), every_doc(k, d) ensures all_of(k, mgs(g) + mds(d))
{
    let s = mgs(g) + mds(d);
    assert forall|i: int| 0 <= i < s.len() implies here(k, #[trigger] s[i]) by { if i < g.len() { assert(s[i] == mg(g[i])); } else { assert(s[i] == md(d[i - g.len()])); } }
    assert forall|m: Membered| #[trigger] here(k, m) implies s.contains(m) by { match m {
        Membered::Group(i, x) => { assert(g.contains(x)); let n = choose|n: int| 0 <= n < g.len() && g[n] == x; assert(s[n] == m); }
        Membered::Document(i, x) => { assert(d.contains(x)); let n = choose|n: int| 0 <= n < d.len() && d[n] == x; assert(s[n + g.len()] == m); } } }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && sub(#[trigger] s[i]) == sub(#[trigger] s[j]) implies i == j by {
        one_here(k, s[i], s[j]);
        if i < g.len() && j < g.len() { assert(g[i].state.id == g[j].state.id); } else if i >= g.len() && j >= g.len() { assert(d[i - g.len()].group.state.id == d[j - g.len()].group.state.id); } else if i < g.len() { assert(s[i] == mg(g[i])); assert(s[j] == md(d[j - g.len()])); } else { assert(s[j] == mg(g[j])); assert(s[i] == md(d[i - g.len()])); } }
}
pub proof fn new_src(s: Seq<Membered>, n: int) requires distinct(s), 0 <= n < s.len() ensures !src_in(s.take(n), sub(s[n])), s.take(n).push(s[n]) =~= s.take(n + 1)
{ if src_in(s.take(n), sub(s[n])) { let j = choose|j: int| 0 <= j < n && sub(#[trigger] s.take(n)[j]) == sub(s[n]); assert(s[j] == s.take(n)[j]); } }
"""
def _phase(ss, n, m):
    return ("let ghost o0 = ops@; let ghost x0 = index@; let ghost nn = %s; let ghost gm = %s; proof { new_src(%s, nn); assert(%s[nn] == gm); assert(here(*self, gm)); assert(mem_good(gm)); }" % (n, m, ss, ss))
KEYLOOP = ("for", "it2", "invariant solid(index@), sub(gm) == source_id, it2.seq() == ksv, forall|i: int| 0 <= i < ksv.len() ==> transitive@.dom().contains(*(#[trigger] ksv[i])), forall|k: Identifier| #[trigger] transitive@.dom().contains(k) ==> among_ids(ksv, ksv.len() as int, k), forall|i: Identifier, c: Identifier| #[trigger] idx(index@, i, c) <==> idx(x0, i, c) || (c == source_id && (i == source_id || among_ids(ksv, it2.index@ as int, i)))", "let ghost ix2 = it2.index@ as int;", "proof { among_more(ksv, ix2); }")
ALL = Fn(KH, "Keyhive", "membership_ops_for_all_agents", "pub fn membership_ops_for_all_agents(&self) -> (r: AllMembershipOps) requires wf(*self) ensures complete(*self, r), offers_same(*self, r), solid(r.index@)", ["self"],
    LK + VALS_RW + [("let mut ops: $x = HashMap::new();", "let mut ops: HashMap<Identifier, HashMap<Dg, MembershipOperation>> = HashMap::new();", "must"), ("let mut index: $x = HashMap::new();", "let mut index: HashMap<Identifier, HashSet<Identifier>> = HashMap::new(); proof { fill_start(ops@, index@); }", "must"),
        ("for group in &groups {", "let ghost gs = groups@; proof { groups_all(*self, gs); groups_distinct(*self, gs); assert(mgs(gs).take(0) =~= seq![]); } for group in &groups {", "must"),
        ("for doc in &docs {", "let ghost ds = docs@; let ghost ss = mgs(gs) + mds(ds); proof { docs_all(*self, ds); all_here(*self, gs, ds); assert(mgs(gs).take(gs.len() as int) =~= ss.take(gs.len() as int)); } for doc in &docs {", "must"),
        ("let locked = group;", "let locked = group;"), ("collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())", "collect_membership_heads(locked.delegation_heads(), locked.revocation_heads())", "must"),
        ("{ let revocations = self.revocations;", "; let ghost mut avs: Seq<(&AgentId, &RevSet)> = seq![]; { let revocations = &self.revocations;", "must"), ("ops.insert(source_id, $x);", "let ghost hs = heads@; let opsm = $x; let ghost opsv = opsm; ops.insert(source_id, opsm);", "must"),
        ("group_id.into();", "Identifier::from(group_id);"), ("doc_id.into();", "Identifier::from(doc_id);"),
        ("index.entry($k).or_default().insert($v);", "note(&mut index, $k, $v);", "must"),
        ("for agent_id in transitive.keys() {", "let ks = keys(&transitive); let ghost ksv = ks@; for agent_id in ks {", "must"),
        ("for (agent_id, agent_revs) in revocations.all_agent_revocations() {", "let av = revocations.all_agent_revocations(); proof { avs = av@; assert(ss.take(ss.len() as int) =~= ss); rev_start(*self, ops@, index@, ss, avs); } for ap in av { let agent_id = ap.0; let agent_revs = ap.1;", "must"),
        ("(*agent_id).into();", "agent_id.0;"),
        ("let agent_ops = ops.entry(identifier).or_default();", "let agent_ops = map_entry(&mut ops, identifier);", "must"),
        ("let mut visited: $x = agent_ops.keys().copied().collect();", "let mut visited = key_set(agent_ops); proof { part_start(*self, o0, x0, ss, avs, nn, identifier, agent_revs@, agent_ops@); }", "must"),
        ("for rev in agent_revs {", "let rl = agent_revs.list_ref(); let ghost rs = agent_revs@; let ghost rlv = rl@; let ghost bs = heads_at(ss, identifier); for rev in rl {", "must"),
        ("let hash: $x = Digest::hash(rev.as_ref()).coerce();", "let hash = Digest::hash(rev.as_ref()).coerce(); let ghost m0 = agent_ops@; let ghost v0 = visited@; let ghost mut m1 = m0;"),
        ("agent_ops.entry(hash).or_insert_with(|| $x);", "or_put(agent_ops, hash, $x); proof { m1 = agent_ops@; assert(!m0.dom().contains(hash)) by { reveal(agent_part); } part_ready(bs, rs, ix2, m0, m1, v0, hash); }", "must"),
        ("rev.dupe().into()", "MembershipOperation::from(rev.dupe())"),
        ("if !agent_ops.is_empty() {", "let ghost aops = *agent_ops; if !has_none(agent_ops) {", "must"),
        ("AllMembershipOps { ops, index }", "({ let r = AllMembershipOps { ops, index }; proof { complete_all(*self, r.ops@, r.index@, ss, avs, r); same_offers(*self, r); } r })", "must")],
    loops=[("for", "it", "invariant solid(index@), wf(*self), it.seq().len() == gs.len(), forall|i: int| 0 <= i < gs.len() ==> *(#[trigger] it.seq()[i]) == gs[i], every_group(*self, gs), distinct(mgs(gs)), filled(ops@, index@, mgs(gs).take(it.index@ as int))",
              _phase("mgs(gs)", "it.index@ as int", "mg(*group)"), "proof { fill_step(o0, x0, mgs(gs).take(nn), gm, opsv, hs, ops@, index@); }"),
           KEYLOOP,
           ("for", "it", "invariant solid(index@), wf(*self), it.seq().len() == ds.len(), forall|i: int| 0 <= i < ds.len() ==> *(#[trigger] it.seq()[i]) == ds[i], every_doc(*self, ds), ss == mgs(gs) + mds(ds), all_of(*self, ss), filled(ops@, index@, ss.take(gs.len() + it.index@))",
              _phase("ss", "gs.len() + it.index@", "md(*doc)"), "proof { fill_step(o0, x0, ss.take(nn), gm, opsv, hs, ops@, index@); }"),
           KEYLOOP,
           ("for", "it", "invariant solid(index@), it.seq() == avs, revs_ok(*self, avs), revved(*self, ops@, index@, ss, avs, it.index@ as int)", "let ghost o0 = ops@; let ghost x0 = index@; let ghost nn = it.index@ as int; proof { new_about(*self, avs, nn); }", "proof { rev_step(*self, o0, x0, ss, avs, nn, identifier, rs, aops, visited@, ops@, index@); }"),
           ("for", "it2", "invariant it2.seq() == rlv, rlv.len() == rs.len(), forall|i: int| 0 <= i < rlv.len() ==> *(#[trigger] rlv[i]) == rs[i], agent_part(bs, rs, it2.index@ as int, agent_ops@, visited@)", "let ghost ix2 = it2.index@ as int;", "proof { assert(v0.contains(hash) ==> v0.insert(hash) =~= v0); part_step(bs, rs, ix2, m0, m1, agent_ops@, v0, visited@, hash); }")],
    wrap="impl Keyhive")
ALLTYPES2 = r"""
pub proof fn groups_distinct(k: Keyhive, g: Seq<Group>) requires wf(k), every_group(k, g) ensures distinct(mgs(g))
{ assert forall|i: int, j: int| 0 <= i < g.len() && 0 <= j < g.len() && sub(#[trigger] mgs(g)[i]) == sub(#[trigger] mgs(g)[j]) implies i == j by { assert(g[i].state.id == g[j].state.id); } }
pub open spec fn revs_ok(k: Keyhive, v: Seq<(&AgentId, &RevSet)>) -> bool { (forall|i: int| 0 <= i < v.len() ==> revs_of(k.revocations, (#[trigger] v[i]).0.0, v[i].1@) && v[i].1@.len() > 0) && (forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && (#[trigger] v[i]).0.0 == (#[trigger] v[j]).0.0 ==> i == j) }
pub proof fn new_about(k: Keyhive, v: Seq<(&AgentId, &RevSet)>, n: int) requires revs_ok(k, v), 0 <= n < v.len() ensures !about_in(v, n, v[n].0.0), revs_of(k.revocations, v[n].0.0, v[n].1@), v[n].1@.len() > 0 { }
"""
u_all = Unit("offer_all", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + ALLTYPES2, ACC + walk_fns + [ALL])

# ---- CGKA operations ----
CTYPES = r"""
pub type COp = Arc<Signed<CgkaOperation>>;
pub enum CgkaError { NotInitialized, Other }
#[verifier::external_body] pub struct Epoch { x: u64 } #[verifier::external_body] pub struct Epochs { x: u64 }
impl Epoch { pub uninterp spec fn view(&self) -> Seq<COp>; }
impl Epochs { pub uninterp spec fn view(&self) -> Seq<Epoch>; #[verifier::external_body] pub fn list(self) -> (r: Vec<Epoch>) ensures r@ == self@ { unimplemented!() } }
/// the operations of a document's key agreement, by epoch (P11); none before it is set up
pub uninterp spec fn cg(d: Document) -> Option<Seq<Epoch>>;
impl Document { #[verifier::external_body] pub fn cgka_ops(&self) -> (r: Result<Epochs, CgkaError>) ensures r is Ok <==> cg(*self) is Some, r is Ok ==> r->Ok_0@ == cg(*self)->0 { unimplemented!() } }
pub open spec fn in_epochs(s: Seq<Epoch>, n: int, o: COp) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i])@.contains(o) }
pub open spec fn doc_has(d: Document, o: COp) -> bool { cg(d) is Some && in_epochs(cg(d)->0, cg(d)->0.len() as int, o) }
pub proof fn epochs_more(s: Seq<Epoch>, n: int) requires 0 <= n < s.len() ensures forall|o: COp| #[trigger] in_epochs(s, n + 1, o) <==> in_epochs(s, n, o) || s[n]@.contains(o)
{ assert forall|o: COp| #[trigger] in_epochs(s, n + 1, o) <==> in_epochs(s, n, o) || s[n]@.contains(o) by {
    if in_epochs(s, n, o) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i])@.contains(o); assert(s[i]@.contains(o)); }
    if in_epochs(s, n + 1, o) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i])@.contains(o); if i < n { assert(s[i]@.contains(o)); } } } }
/// std: v.extend(w)
#[verifier::external_body] pub fn extend_all(v: &mut Vec<COp>, e: &Epoch) ensures final(v)@ == old(v)@ + e@ { unimplemented!() }
#[verifier::external_body] pub fn flat(e: &Epochs) -> (r: Vec<COp>) ensures forall|o: COp| #[trigger] r@.contains(o) <==> in_epochs(e@, e@.len() as int, o) { unimplemented!() }
#[verifier::external_body] pub fn pull<A>(v: &mut Vec<A>) -> (r: Option<A>) ensures r is None ==> old(v)@.len() == 0 && final(v)@ == old(v)@, r is Some ==> old(v)@ == seq![r->0] + final(v)@ { unimplemented!() }
pub proof fn joined(a: Seq<COp>, b: Seq<COp>) ensures forall|o: COp| #[trigger] (a + b).contains(o) <==> a.contains(o) || b.contains(o)
{ assert forall|o: COp| #[trigger] (a + b).contains(o) <==> a.contains(o) || b.contains(o) by {
    if a.contains(o) { let i = choose|i: int| 0 <= i < a.len() && a[i] == o; assert((a + b)[i] == o); } if b.contains(o) { let i = choose|i: int| 0 <= i < b.len() && b[i] == o; assert((a + b)[a.len() + i] == o); }
    if (a + b).contains(o) { let i = choose|i: int| 0 <= i < (a + b).len() && (a + b)[i] == o; if i < a.len() { assert(a[i] == o); } else { assert(b[i - a.len()] == o); } } } }
/// std: an ordered map
#[verifier::external_body] pub struct Docs { x: u64 }
impl Docs { pub uninterp spec fn view(&self) -> Map<DocumentId, Ability>; #[verifier::external_body] pub fn new() -> (r: Docs) ensures r@ == Map::<DocumentId, Ability>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: DocumentId, v: Ability) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn into_list(self) -> (r: Vec<(DocumentId, Ability)>) ensures (forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1), forall|k: DocumentId| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() } }
pub open spec fn reach_d(k: Keyhive, a: Identifier, i: DocumentId) -> bool { k.docs@.dom().contains(i) && caps_d(k.docs@[i]).dom().contains(a) }
pub open spec fn some_docs(k: Keyhive, a: Identifier, m: Map<DocumentId, Ability>, s: Seq<Document>, n: int) -> bool {
    &&& forall|i: DocumentId| #[trigger] m.dom().contains(i) ==> reach_d(k, a, i) && m[i].doc == k.docs@[i] && m[i].can == caps_d(k.docs@[i])[a].1
    &&& forall|i: int| 0 <= i < n && caps_d(#[trigger] s[i]).dom().contains(a) ==> m.dom().contains(DocumentId(s[i].group.state.id.0)) }
pub open spec fn docs_for(k: Keyhive, a: Identifier, m: Map<DocumentId, Ability>) -> bool {
    &&& forall|i: DocumentId| #[trigger] m.dom().contains(i) <==> reach_d(k, a, i)
    &&& forall|i: DocumentId| #[trigger] m.dom().contains(i) ==> m[i].doc == k.docs@[i] && m[i].can == caps_d(k.docs@[i])[a].1 }
pub proof fn docs_end(k: Keyhive, a: Identifier, s: Seq<Document>) requires wf(k), every_doc(k, s) ensures docs_ended(k, a, s)
{ assert forall|m: Map<DocumentId, Ability>| #[trigger] some_docs(k, a, m, s, s.len() as int) implies docs_for(k, a, m) by {
    assert forall|i: DocumentId| #[trigger] m.dom().contains(i) <==> reach_d(k, a, i) by { if reach_d(k, a, i) { assert(s.contains(k.docs@[i])); let n = choose|n: int| 0 <= n < s.len() && s[n] == k.docs@[i]; assert(caps_d(s[n]).dom().contains(a)); } } } }
pub open spec fn docs_ended(k: Keyhive, a: Identifier, s: Seq<Document>) -> bool { forall|m: Map<DocumentId, Ability>| #[trigger] some_docs(k, a, m, s, s.len() as int) ==> docs_for(k, a, m) }
/// the key agreement operations of the documents the agent reaches
pub open spec fn cgka_for(k: Keyhive, a: Identifier, o: COp) -> bool { exists|i: DocumentId| #[trigger] reach_d(k, a, i) && doc_has(k.docs@[i], o) }
pub open spec fn listed_docs(v: Seq<(DocumentId, Ability)>, n: int, o: COp) -> bool { exists|i: int| 0 <= i < n && doc_has((#[trigger] v[i]).1.doc, o) }
pub proof fn listed_more(v: Seq<(DocumentId, Ability)>, n: int) requires 0 <= n < v.len() ensures forall|o: COp| #[trigger] listed_docs(v, n + 1, o) <==> listed_docs(v, n, o) || doc_has(v[n].1.doc, o)
{ assert forall|o: COp| #[trigger] listed_docs(v, n + 1, o) <==> listed_docs(v, n, o) || doc_has(v[n].1.doc, o) by {
    if listed_docs(v, n, o) { let i = choose|i: int| 0 <= i < n && doc_has((#[trigger] v[i]).1.doc, o); assert(doc_has(v[i].1.doc, o)); }
    if listed_docs(v, n + 1, o) { let i = choose|i: int| 0 <= i < n + 1 && doc_has((#[trigger] v[i]).1.doc, o); if i < n { assert(doc_has(v[i].1.doc, o)); } } } }
pub proof fn all_listed(k: Keyhive, a: Identifier, m: Map<DocumentId, Ability>, v: Seq<(DocumentId, Ability)>)
    requires docs_for(k, a, m), forall|i: int| 0 <= i < v.len() ==> m.dom().contains((#[trigger] v[i]).0) && m[v[i].0] == v[i].1, forall|i: DocumentId| #[trigger] m.dom().contains(i) ==> exists|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == i
    ensures forall|o: COp| #[trigger] listed_docs(v, v.len() as int, o) <==> cgka_for(k, a, o)
{ assert forall|o: COp| #[trigger] listed_docs(v, v.len() as int, o) <==> cgka_for(k, a, o) by {
    if listed_docs(v, v.len() as int, o) { let i = choose|i: int| 0 <= i < v.len() && doc_has((#[trigger] v[i]).1.doc, o); assert(m.dom().contains(v[i].0)); assert(reach_d(k, a, v[i].0)); }
    if cgka_for(k, a, o) { let i = choose|i: DocumentId| #[trigger] reach_d(k, a, i) && doc_has(k.docs@[i], o); assert(m.dom().contains(i)); let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).0 == i; assert(doc_has(v[j].1.doc, o)); } } }

// ---- for every agent in one pass ----
pub struct AllCgkaOps { pub ops: HashMap<Identifier, Vec<COp>>, pub index: IdTable }
pub open spec fn any_op(d: Document) -> bool { exists|o: COp| #[trigger] doc_has(d, o) }
pub open spec fn did(d: Document) -> Identifier { d.group.state.id.0 }
pub open spec fn c_in(s: Seq<Document>, i: Identifier) -> bool { exists|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == i && any_op(s[j]) }
pub open spec fn c_idx(s: Seq<Document>, i: Identifier, c: Identifier) -> bool { exists|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == c && any_op(s[j]) && caps_d(s[j]).dom().contains(i) }
pub open spec fn c_ops(s: Seq<Document>, v: Seq<COp>, i: Identifier) -> bool { forall|j: int, o: COp| 0 <= j < s.len() && did(#[trigger] s[j]) == i ==> (#[trigger] v.contains(o) <==> doc_has(s[j], o)) }
#[verifier::opaque]
pub open spec fn c_filled(t: Map<Identifier, Vec<COp>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Document>) -> bool {
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) <==> c_in(s, i)
    &&& forall|i: Identifier| #[trigger] t.dom().contains(i) ==> c_ops(s, t[i]@, i)
    &&& forall|i: Identifier, c: Identifier| #[trigger] idx(x, i, c) <==> c_idx(s, i, c)
}
pub open spec fn d_distinct(s: Seq<Document>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && did(#[trigger] s[i]) == did(#[trigger] s[j]) ==> i == j }
pub open spec fn d_new(s: Seq<Document>, d: Document) -> bool { forall|i: int| 0 <= i < s.len() ==> did(#[trigger] s[i]) != did(d) }
pub proof fn c_start(t: Map<Identifier, Vec<COp>>, x: Map<Identifier, HashSet<Identifier>>) requires t == Map::<Identifier, Vec<COp>>::empty(), x == Map::<Identifier, HashSet<Identifier>>::empty() ensures c_filled(t, x, seq![]) { reveal(c_filled); }
pub proof fn c_more(s: Seq<Document>, d: Document)
    ensures forall|i: Identifier| #[trigger] c_in(s.push(d), i) <==> c_in(s, i) || (i == did(d) && any_op(d)), forall|i: Identifier, c: Identifier| #[trigger] c_idx(s.push(d), i, c) <==> c_idx(s, i, c) || (c == did(d) && any_op(d) && caps_d(d).dom().contains(i))
{
    let b = s.push(d); assert(b[s.len() as int] == d);
    assert forall|i: Identifier| #[trigger] c_in(b, i) <==> c_in(s, i) || (i == did(d) && any_op(d)) by { if c_in(s, i) { let j = choose|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == i && any_op(s[j]); assert(b[j] == s[j]); }
        if c_in(b, i) { let j = choose|j: int| 0 <= j < b.len() && did(#[trigger] b[j]) == i && any_op(b[j]); if j < s.len() { assert(s[j] == b[j]); } } if i == did(d) && any_op(d) { assert(did(b[s.len() as int]) == i); } }
    assert forall|i: Identifier, c: Identifier| #[trigger] c_idx(b, i, c) <==> c_idx(s, i, c) || (c == did(d) && any_op(d) && caps_d(d).dom().contains(i)) by {
        if c_idx(s, i, c) { let j = choose|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == c && any_op(s[j]) && caps_d(s[j]).dom().contains(i); assert(b[j] == s[j]); }
        if c_idx(b, i, c) { let j = choose|j: int| 0 <= j < b.len() && did(#[trigger] b[j]) == c && any_op(b[j]) && caps_d(b[j]).dom().contains(i); if j < s.len() { assert(s[j] == b[j]); } }
        if c == did(d) && any_op(d) && caps_d(d).dom().contains(i) { assert(did(b[s.len() as int]) == c); } }
}
pub proof fn c_skip(t: Map<Identifier, Vec<COp>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Document>, d: Document) requires c_filled(t, x, s), d_new(s, d), !any_op(d) ensures c_filled(t, x, s.push(d))
{ reveal(c_filled); c_more(s, d); let b = s.push(d);
  assert forall|i: Identifier| #[trigger] t.dom().contains(i) implies c_ops(b, t[i]@, i) by { c_kept(s, d, t[i]@, i); } }
pub proof fn c_kept(s: Seq<Document>, d: Document, v: Seq<COp>, i: Identifier) requires c_ops(s, v, i), c_in(s, i), d_new(s, d) ensures c_ops(s.push(d), v, i)
{ let b = s.push(d); let z = choose|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == i && any_op(s[j]); assert(did(s[z]) != did(d));
  assert forall|j: int, o: COp| 0 <= j < b.len() && did(#[trigger] b[j]) == i implies (#[trigger] v.contains(o) <==> doc_has(b[j], o)) by { if j < s.len() { assert(b[j] == s[j]); } else { assert(false); } } }
pub proof fn c_step(t: Map<Identifier, Vec<COp>>, x: Map<Identifier, HashSet<Identifier>>, s: Seq<Document>, d: Document, v: Vec<COp>, t2: Map<Identifier, Vec<COp>>, x2: Map<Identifier, HashSet<Identifier>>)
    requires c_filled(t, x, s), d_new(s, d), forall|o: COp| #[trigger] v@.contains(o) <==> doc_has(d, o), v@.len() > 0, t2 == t.insert(did(d), v), forall|i: Identifier, c: Identifier| #[trigger] idx(x2, i, c) <==> idx(x, i, c) || (c == did(d) && caps_d(d).dom().contains(i))
    ensures c_filled(t2, x2, s.push(d))
{
    reveal(c_filled); c_more(s, d); let b = s.push(d); assert(v@.contains(v@[0])); assert(any_op(d)) by { assert(doc_has(d, v@[0])); }
    assert forall|i: Identifier| #[trigger] t2.dom().contains(i) implies c_ops(b, t2[i]@, i) by {
        if i == did(d) { assert forall|j: int, o: COp| 0 <= j < b.len() && did(#[trigger] b[j]) == i implies (#[trigger] v@.contains(o) <==> doc_has(b[j], o)) by { if j < s.len() { assert(did(s[j]) != did(d)); assert(b[j] == s[j]); } } }
        else { assert(t.dom().contains(i)); c_kept(s, d, t[i]@, i); } }
}
/// the operations the agent is referred to
pub open spec fn c_offered(r: AllCgkaOps, a: Identifier, o: COp) -> bool { exists|c: Identifier| #[trigger] idx(r.index@, a, c) && r.ops@.dom().contains(c) && r.ops@[c]@.contains(o) }
pub open spec fn c_same(k: Keyhive, r: AllCgkaOps) -> bool { forall|a: Identifier, o: COp| #[trigger] c_offered(r, a, o) <==> cgka_for(k, a, o) }
pub proof fn c_end(k: Keyhive, r: AllCgkaOps, s: Seq<Document>) requires wf(k), every_doc(k, s), c_filled(r.ops@, r.index@, s) ensures c_same(k, r)
{
    reveal(c_filled);
    assert forall|a: Identifier, o: COp| #[trigger] c_offered(r, a, o) <==> cgka_for(k, a, o) by {
        if c_offered(r, a, o) { let c = choose|c: Identifier| #[trigger] idx(r.index@, a, c) && r.ops@.dom().contains(c) && r.ops@[c]@.contains(o); let j = choose|j: int| 0 <= j < s.len() && did(#[trigger] s[j]) == c && any_op(s[j]) && caps_d(s[j]).dom().contains(a);
            assert(here(k, md(s[j]))); assert(c_ops(s, r.ops@[c]@, c)); assert(doc_has(s[j], o)); assert(reach_d(k, a, DocumentId(c))); }
        if cgka_for(k, a, o) { let i = choose|i: DocumentId| #[trigger] reach_d(k, a, i) && doc_has(k.docs@[i], o); assert(s.contains(k.docs@[i])); let j = choose|j: int| 0 <= j < s.len() && s[j] == k.docs@[i]; let c = did(s[j]); assert(any_op(s[j])); assert(c_idx(s, a, c)); assert(idx(r.index@, a, c)); assert(c_in(s, c)); assert(r.ops@.dom().contains(c)); assert(c_ops(s, r.ops@[c]@, c)); }
    }
}
pub proof fn docs_distinct(k: Keyhive, s: Seq<Document>) requires wf(k), every_doc(k, s) ensures d_distinct(s)
{ assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && did(#[trigger] s[i]) == did(#[trigger] s[j]) implies i == j by { assert(here(k, md(s[i]))); assert(here(k, md(s[j]))); assert(s[i].group.state.id == s[j].group.state.id); } }
pub proof fn d_next(s: Seq<Document>, n: int) requires d_distinct(s), 0 <= n < s.len() ensures d_new(s.take(n), s[n]), s.take(n).push(s[n]) =~= s.take(n + 1)
{ assert forall|i: int| 0 <= i < s.take(n).len() implies did(#[trigger] s.take(n)[i]) != did(s[n]) by { assert(s.take(n)[i] == s[i]); } }
"""
DOCS = Fn(KH, "Keyhive", "docs_reachable_by_agent", "pub fn docs_reachable_by_agent(&self, agent: &Agent) -> (r: Docs) requires wf(*self) ensures docs_for(*self, agent_id(*agent), r@)", ["self", "agent"],
    LK + VALS_RW + [("let mut caps: $x = BTreeMap::new();", "let mut caps = Docs::new();", "must"), ("for doc in docs {", "let ghost ds = docs@; proof { docs_all(*self, ds); docs_end(*self, agent_id(*agent), ds); } for doc in docs {", "must")],
    loops=[("for", "it", "invariant wf(*self), it.seq() == ds, every_doc(*self, ds), docs_ended(*self, agent_id(*agent), ds), some_docs(*self, agent_id(*agent), caps@, ds, it.index@ as int)", "proof { let d = ds[it.index@ as int]; assert(here(*self, md(d))); }")],
    wrap="impl Keyhive")
RDOCS = Fn(KH, "Keyhive", "reachable_docs", "pub fn reachable_docs(&self) -> (r: Docs) requires wf(*self) ensures docs_for(*self, self.active.id.0, r@)", ["self"],
    [("let locked_active = self.active.lock();", "let locked_active = &self.active;")] + LK, wrap="impl Keyhive")
EXTEND = ("ops.extend(epoch.iter().cloned());", "({ proof { joined(ops@, epoch@); } extend_all(&mut ops, &epoch); });", "must")
CREACH = Fn(KH, "Keyhive", "cgka_ops_reachable_by_agent", "pub fn cgka_ops_reachable_by_agent(&self, agent: &Agent) -> (r: Vec<COp>) requires wf(*self) ensures forall|o: COp| #[trigger] r@.contains(o) <==> cgka_for(*self, agent_id(*agent), o)", ["self", "agent"],
    LK + [EXTEND, ("let mut ops = Vec::new();", "let mut ops: Vec<COp> = Vec::new();"), ("for (doc_id, ability) in reachable {", "let ghost rm = reachable@; let mut todo = reachable.into_list(); let ghost rs = todo@; proof { all_listed(*self, agent_id(*agent), rm, rs); assert(rs.skip(0) =~= rs); } while let Some((doc_id, ability)) = pull(&mut todo) {", "must"),
        ("tracing::error!($x);", ""), ("for epoch in &epochs {", "let ghost es = epochs@; for epoch in epochs.list() {", "must")],
    loops=[("while", None, "invariant todo@.len() <= rs.len(), todo@ == rs.skip(rs.len() - todo@.len()), forall|o: COp| #[trigger] ops@.contains(o) <==> listed_docs(rs, rs.len() - todo@.len(), o) ensures forall|o: COp| #[trigger] ops@.contains(o) <==> listed_docs(rs, rs.len() as int, o)",
              "let ghost nn = rs.len() - todo@.len() - 1; let ghost b0 = ops@; proof { let w = seq![(doc_id, ability)] + todo@; assert(w == rs.skip(nn)); assert(w[0] == rs[nn]); assert(todo@ =~= rs.skip(nn + 1)) by { assert forall|i: int| 0 <= i < todo@.len() implies todo@[i] == rs.skip(nn + 1)[i] by { assert(w[i + 1] == rs.skip(nn)[i + 1]); } } listed_more(rs, nn); }"),
           ("for", "it2", "invariant it2.seq() == es, forall|o: COp| #[trigger] ops@.contains(o) <==> b0.contains(o) || in_epochs(es, it2.index@ as int, o)", "proof { epochs_more(es, it2.index@ as int); }")],
    attrs="#[verifier::exec_allows_no_decreases_clause]", wrap="impl Keyhive")
CDOC = Fn(KH, "Keyhive", "cgka_ops_for_doc", """pub fn cgka_ops_for_doc(&self, doc: &DocumentId) -> (r: Result<Option<Vec<COp>>, CgkaError>)
    ensures r is Ok && r->Ok_0 is None <==> !self.docs@.dom().contains(*doc), r is Ok && r->Ok_0 is Some ==> forall|o: COp| #[trigger] r->Ok_0->0@.contains(o) <==> doc_has(self.docs@[*doc], o)""", ["self", "doc"],
    LK + [EXTEND, ("let locked_docs = self.docs;", "let locked_docs = &self.docs;", "must"), ("drop(locked_docs);", ""), ("let mut ops = Vec::new();", "let mut ops: Vec<COp> = Vec::new();"), ("for epoch in &epochs {", "let ghost es = epochs@; for epoch in epochs.list() {", "must")],
    loops=[("for", "it2", "invariant it2.seq() == es, forall|o: COp| #[trigger] ops@.contains(o) <==> in_epochs(es, it2.index@ as int, o)", "proof { epochs_more(es, it2.index@ as int); }")], wrap="impl Keyhive")
CKEYLOOP = ("for", "it2", "invariant source_id == did(gm), it2.seq() == ksv, forall|i: int| 0 <= i < ksv.len() ==> transitive@.dom().contains(*(#[trigger] ksv[i])), forall|k: Identifier| #[trigger] transitive@.dom().contains(k) ==> among_ids(ksv, ksv.len() as int, k), forall|i: Identifier, c: Identifier| #[trigger] idx(index@, i, c) <==> idx(x0, i, c) || (c == source_id && among_ids(ksv, it2.index@ as int, i))", "let ghost ix2 = it2.index@ as int;", "proof { among_more(ksv, ix2); }")
CALL = Fn(KH, "Keyhive", "cgka_ops_for_all_agents", "pub fn cgka_ops_for_all_agents(&self) -> (r: AllCgkaOps) requires wf(*self) ensures c_same(*self, r)", ["self"],
    LK + VALS_RW + [("let mut ops: $x = HashMap::new();", "let mut ops: HashMap<Identifier, Vec<COp>> = HashMap::new();", "must"), ("let mut index: $x = HashMap::new();", "let mut index: HashMap<Identifier, HashSet<Identifier>> = HashMap::new(); proof { c_start(ops@, index@); }", "must"),
        ("for doc in &docs {", "let ghost ds = docs@; proof { docs_all(*self, ds); docs_distinct(*self, ds); assert(ds.take(0) =~= seq![]); } let mut todo = refs(&docs); let ghost rs = todo@; proof { assert(rs.skip(0) =~= rs); } while let Some(doc) = pull(&mut todo) {", "must"),
        ("let locked = &doc;", "let locked = doc;"), ("tracing::error!($x);", ""), ("let doc_ops: Vec<_> = epochs.iter().flat_map(|e| e.iter().cloned()).collect();", "let doc_ops: Vec<COp> = flat(&epochs);", "must"),
        ("if doc_ops.is_empty() { continue; }", "if doc_ops.is_empty() { proof { assert(!any_op(gm)) by { if any_op(gm) { let o = choose|o: COp| #[trigger] doc_has(gm, o); assert(doc_ops@.contains(o)); } } c_skip(o0, x0, ds.take(nn), gm); } continue; }"),
        ("doc_id.into();", "Identifier::from(doc_id);"),
        ("index.entry($k).or_default().insert($v);", "note(&mut index, $k, $v);", "must"),
        ("for agent_id in transitive.keys() {", "let ks = keys(&transitive); let ghost ksv = ks@; for agent_id in ks {", "must"),
        ("ops.insert(source_id, doc_ops);", "let ghost dv = doc_ops; ops.insert(source_id, doc_ops); proof { c_step(o0, x0, ds.take(nn), gm, dv, ops@, index@); }", "must"),
        ("AllCgkaOps { ops, index }", "({ let r = AllCgkaOps { ops, index }; proof { assert(ds.take(ds.len() as int) =~= ds); c_end(*self, r, ds); } r })", "must")],
    loops=[("while", None, "invariant wf(*self), every_doc(*self, ds), d_distinct(ds), rs.len() == ds.len(), forall|i: int| 0 <= i < rs.len() ==> *(#[trigger] rs[i]) == ds[i], todo@.len() <= rs.len(), todo@ == rs.skip(rs.len() - todo@.len()), c_filled(ops@, index@, ds.take(rs.len() - todo@.len())) ensures c_filled(ops@, index@, ds.take(ds.len() as int))",
              "let ghost nn = rs.len() - todo@.len() - 1; let ghost o0 = ops@; let ghost x0 = index@; let ghost gm = *doc; proof { let w = seq![doc] + todo@; assert(w == rs.skip(nn)); assert(w[0] == rs[nn]); assert(gm == ds[nn]); assert(todo@ =~= rs.skip(nn + 1)) by { assert forall|i: int| 0 <= i < todo@.len() implies todo@[i] == rs.skip(nn + 1)[i] by { assert(w[i + 1] == rs.skip(nn)[i + 1]); } } d_next(ds, nn); if cg(gm) is None { assert(!any_op(gm)); c_skip(o0, x0, ds.take(nn), gm); } }"), CKEYLOOP],
    attrs="#[verifier::exec_allows_no_decreases_clause]", wrap="impl Keyhive")
u_cgka = Unit("offer_cgka", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + CTYPES, ACC + [DOCS, CREACH, CDOC, CALL])

# ---- prekey operations ----
PTYPES = r"""
pub type Keys = Map<Dg, Arc<KeyOp>>;
pub type TransitiveMembers = HashMap<Identifier, (Agent, Access)>;
/// the prekey operations of an agent
pub open spec fn kop(a: Agent) -> Keys { match a { Agent::Active(_, x) => x.individual.ops@, Agent::Individual(_, x) => x.ops@,
    Agent::Group(_, g) => match g.id_or_indie { IdOrIndividual::Individual(i) => i.ops@, _ => Map::empty() }, Agent::Document(_, d) => match d.group.id_or_indie { IdOrIndividual::Individual(i) => i.ops@, _ => Map::empty() } } }
impl KeyOps { #[verifier::external_body] pub fn extend_with(&mut self, o: KeyOps) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() } }
#[verifier::external_body] pub fn key_entry<'a>(m: &'a mut HashMap<Identifier, KeyOps>, k: Identifier) -> (r: &'a mut KeyOps)
    ensures r@ == (if old(m)@.dom().contains(k) { old(m)@[k]@ } else { Map::<Dg, Arc<KeyOp>>::empty() }), final(m)@ == old(m)@.insert(k, *final(r)) { unimplemented!() }
/// every operation once it is put in order (P10)
pub open spec fn tops(s: Seq<Arc<KeyOp>>, m: Keys) -> bool { forall|o: Arc<KeyOp>| #[trigger] s.contains(o) <==> exists|d: Dg| #[trigger] m.dom().contains(d) && m[d] == o }
impl KeyOp { #[verifier::external_body] pub fn topsort(m: &KeyOps) -> (r: Vec<Arc<KeyOp>>) ensures tops(r@, m@) { unimplemented!() } }
#[verifier::external_body] pub fn collect_pairs<K, V, W, F: Fn((K, V)) -> (K, W)>(m: HashMap<K, V>, f: F) -> (r: HashMap<K, W>)
    requires forall|p: (K, V)| f.requires((p,)), forall|p: (K, V), o: (K, W)| #[trigger] f.ensures((p,), o) ==> o.0 == p.0 ensures r@.dom() == m@.dom(), forall|k: K| #[trigger] m@.dom().contains(k) ==> f.ensures(((k, m@[k]),), (k, r@[k])) { unimplemented!() }
#[verifier::external_body] pub fn collect_refs<'a, K, V, W, F: Fn((&'a K, &'a V)) -> (K, W)>(m: &'a HashMap<K, V>, f: F) -> (r: HashMap<K, W>)
    requires forall|p: (&'a K, &'a V)| f.requires((p,)), forall|p: (&'a K, &'a V), o: (K, W)| #[trigger] f.ensures((p,), o) ==> o.0 == *p.0 ensures r@.dom() == m@.dom(), forall|k: K| #[trigger] m@.dom().contains(k) ==> f.ensures(((&k, &m@[k]),), (k, r@[k])) { unimplemented!() }
pub open spec fn lists_map<K, V>(m: Map<K, V>, r: Seq<(&K, &V)>) -> bool { (forall|i: int| 0 <= i < r.len() ==> m.dom().contains(*(#[trigger] r[i]).0) && m[*r[i].0] == *r[i].1) && forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]).0 == k }
/// std: the entries of a map
#[verifier::external_body] pub fn entries<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<(&'a K, &'a V)>) ensures lists_map(m@, r@) { unimplemented!() }
pub open spec fn lists_vals(m: OpMap, r: Seq<&Op>) -> bool { (forall|i: int| 0 <= i < r.len() ==> exists|d: Dg| #[trigger] m.dom().contains(d) && m[d] == *(#[trigger] r[i])) && forall|d: Dg| #[trigger] m.dom().contains(d) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == m[d] }
#[verifier::external_body] pub fn op_vals<'a>(m: &'a HashMap<Dg, Op>) -> (r: Vec<&'a Op>) ensures lists_vals(m@, r@) { unimplemented!() }

pub open spec fn del(o: Op) -> Agent { match o { Op::Delegation(d) => d.payload.delegate, Op::Revocation(r) => r.payload.revoke.payload.delegate } }
pub open spec fn del_id(o: Op) -> Identifier { agent_id(del(o)) }
pub open spec fn ag(m: Membered) -> Agent { match m { Membered::Group(i, g) => Agent::Group(i, g), Membered::Document(i, d) => Agent::Document(i, d) } }
/// the operations held
pub open spec fn held(k: Keyhive) -> ISet<Op> { below(ISet::new(|o: Op| (exists|m: Membered| here(k, m) && #[trigger] head_of(m, o)) || (o is Revocation && in_r(k.revocations, o->Revocation_0)))) }
/// the prekey operations known of an identifier
pub uninterp spec fn ko(k: Keyhive, id: Identifier) -> Keys;
pub open spec fn right(k: Keyhive, m: Map<Identifier, KeyOps>) -> bool { forall|i: Identifier| #[trigger] m.dom().contains(i) ==> m[i]@ == ko(k, i) }
/// whoever refers to an agent refers to the same one
pub open spec fn one_agent_per_id(k: Keyhive) -> bool {
    &&& k.active.individual.ops@ == ko(k, k.active.id.0)
    &&& forall|m: Membered| #[trigger] here(k, m) ==> kop(ag(m)) == ko(k, sub(m))
    &&& forall|m: Membered, i: Identifier| #[trigger] here(k, m) && #[trigger] caps(m).dom().contains(i) ==> kop(caps(m)[i].0) == ko(k, i)
    &&& forall|o: Op| #[trigger] held(k).contains(o) ==> kop(del(o)) == ko(k, del_id(o))
    &&& forall|i: IndividualId| #[trigger] k.individuals@.dom().contains(i) ==> k.individuals@[i].ops@ == ko(k, i.0)
}
pub open spec fn by_mem(m: Membered, a: Identifier, c: Identifier) -> bool { caps(m).dom().contains(a) && (c == sub(m) || caps(m).dom().contains(c)) }
/// whose prekeys an agent needs: its own and ours, those of everyone it shares access with, and of everyone its operations are about
pub open spec fn named(k: Keyhive, a: Agent, c: Identifier) -> bool { c == k.active.id.0 || c == agent_id(a) || (exists|m: Membered| here(k, m) && #[trigger] by_mem(m, agent_id(a), c)) || exists|o: Op| #[trigger] below(start(k, a)).contains(o) && del_id(o) == c }
pub open spec fn by_some(s: Seq<Membered>, n: int, a: Identifier, c: Identifier) -> bool { exists|i: int| 0 <= i < n && by_mem(#[trigger] s[i], a, c) }
pub open spec fn by_vals(s: Seq<&Op>, n: int, c: Identifier) -> bool { exists|i: int| 0 <= i < n && del_id(*#[trigger] s[i]) == c }
pub proof fn by_more(s: Seq<Membered>, n: int, a: Identifier) requires 0 <= n < s.len() ensures forall|c: Identifier| #[trigger] by_some(s, n + 1, a, c) <==> by_some(s, n, a, c) || by_mem(s[n], a, c)
{ assert forall|c: Identifier| #[trigger] by_some(s, n + 1, a, c) <==> by_some(s, n, a, c) || by_mem(s[n], a, c) by {
    if by_some(s, n, a, c) { let i = choose|i: int| 0 <= i < n && by_mem(#[trigger] s[i], a, c); assert(by_mem(s[i], a, c)); } if by_some(s, n + 1, a, c) { let i = choose|i: int| 0 <= i < n + 1 && by_mem(#[trigger] s[i], a, c); if i < n { assert(by_mem(s[i], a, c)); } } if by_mem(s[n], a, c) { assert(by_mem(s[n], a, c)); } } }
pub proof fn vals_more(s: Seq<&Op>, n: int) requires 0 <= n < s.len() ensures forall|c: Identifier| #[trigger] by_vals(s, n + 1, c) <==> by_vals(s, n, c) || c == del_id(*s[n])
{ assert forall|c: Identifier| #[trigger] by_vals(s, n + 1, c) <==> by_vals(s, n, c) || c == del_id(*s[n]) by {
    if by_vals(s, n, c) { let i = choose|i: int| 0 <= i < n && del_id(*#[trigger] s[i]) == c; assert(del_id(*s[i]) == c); } if by_vals(s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && del_id(*#[trigger] s[i]) == c; if i < n { assert(del_id(*s[i]) == c); } } if c == del_id(*s[n]) { assert(del_id(*s[n]) == c); } } }
pub open spec fn by_keys(s: Seq<(&Identifier, &(Agent, Access))>, n: int, c: Identifier) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == c }
pub proof fn keys_more(s: Seq<(&Identifier, &(Agent, Access))>, n: int) requires 0 <= n < s.len() ensures forall|c: Identifier| #[trigger] by_keys(s, n + 1, c) <==> by_keys(s, n, c) || c == *s[n].0
{ assert forall|c: Identifier| #[trigger] by_keys(s, n + 1, c) <==> by_keys(s, n, c) || c == *s[n].0 by {
    if by_keys(s, n, c) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == c; assert(*s[i].0 == c); } if by_keys(s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]).0 == c; if i < n { assert(*s[i].0 == c); } } if c == *s[n].0 { assert(*s[n].0 == c); } } }
pub proof fn keys_all(m: Caps, s: Seq<(&Identifier, &(Agent, Access))>) requires lists_map(m, s) ensures forall|c: Identifier| #[trigger] by_keys(s, s.len() as int, c) <==> m.dom().contains(c)
{ assert forall|c: Identifier| #[trigger] by_keys(s, s.len() as int, c) <==> m.dom().contains(c) by { if by_keys(s, s.len() as int, c) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c; assert(m.dom().contains(*s[i].0)); } if m.dom().contains(c) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == c; assert(*s[i].0 == c); } } }
pub proof fn some_all(k: Keyhive, s: Seq<Membered>, a: Identifier) requires all_of(k, s) ensures forall|c: Identifier| #[trigger] by_some(s, s.len() as int, a, c) <==> exists|m: Membered| here(k, m) && #[trigger] by_mem(m, a, c)
{ assert forall|c: Identifier| #[trigger] by_some(s, s.len() as int, a, c) <==> exists|m: Membered| here(k, m) && #[trigger] by_mem(m, a, c) by {
    if by_some(s, s.len() as int, a, c) { let i = choose|i: int| 0 <= i < s.len() && by_mem(#[trigger] s[i], a, c); assert(here(k, s[i]) && by_mem(s[i], a, c)); }
    if exists|m: Membered| here(k, m) && #[trigger] by_mem(m, a, c) { let m = choose|m: Membered| here(k, m) && #[trigger] by_mem(m, a, c); assert(s.contains(m)); let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(by_mem(s[i], a, c)); } } }
pub proof fn held_start(k: Keyhive, a: Agent) requires known(k, a) ensures below(start(k, a)).subset_of(held(k))
{ let h = ISet::new(|o: Op| (exists|m: Membered| here(k, m) && #[trigger] head_of(m, o)) || (o is Revocation && in_r(k.revocations, o->Revocation_0)));
  assert forall|o: Op| #[trigger] start(k, a).contains(o) implies h.contains(o) by { if exists|m: Membered| source(k, a, m) && #[trigger] head_of(m, o) { let m = choose|m: Membered| source(k, a, m) && #[trigger] head_of(m, o); assert(here(k, m) && head_of(m, o)); } }
  below_in(start(k, a), h); }
pub proof fn vals_all(m: OpMap, s: Seq<&Op>, b: ISet<Op>) requires keyed(m), ops_of(m) == b, lists_vals(m, s) ensures forall|c: Identifier| #[trigger] by_vals(s, s.len() as int, c) <==> exists|o: Op| #[trigger] b.contains(o) && del_id(o) == c, forall|i: int| 0 <= i < s.len() ==> b.contains(*(#[trigger] s[i]))
{
    assert forall|i: int| 0 <= i < s.len() implies b.contains(*(#[trigger] s[i])) by { let d = choose|d: Dg| #[trigger] m.dom().contains(d) && m[d] == *s[i]; assert(has(m, *s[i])); assert(ops_of(m).contains(*s[i])); }
    assert forall|c: Identifier| #[trigger] by_vals(s, s.len() as int, c) <==> exists|o: Op| #[trigger] b.contains(o) && del_id(o) == c by {
        if by_vals(s, s.len() as int, c) { let i = choose|i: int| 0 <= i < s.len() && del_id(*#[trigger] s[i]) == c; assert(b.contains(*s[i])); }
        if exists|o: Op| #[trigger] b.contains(o) && del_id(o) == c { let o = choose|o: Op| #[trigger] b.contains(o) && del_id(o) == c; assert(ops_of(m).contains(o)); assert(m.dom().contains(op_dg(o))); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == m[op_dg(o)]; assert(del_id(*s[i]) == c); } }
}
pub open spec fn mix(k: Keyhive, a: Agent, s: Seq<Membered>, n: int, c: Identifier) -> bool { c == k.active.id.0 || c == agent_id(a) || by_some(s, n, agent_id(a), c) }
"""
KEYOPS = Fn(AG, "Agent", "key_ops", "pub fn key_ops(&self) -> (r: KeyOps) ensures r@ == kop(*self)", ["self"], [(".lock()", ""), ("Default::default()", "KeyOps::default()")], wrap="impl Agent")
DELEG = Fn(MO, "MembershipOperation", "delegate", "pub fn delegate(&self) -> (r: &Agent) ensures *r == del(*self)", ["self"], [], wrap="impl MembershipOperation")
ADDMANY = Fn(KH, "Keyhive", "reachable_prekey_ops_for_agent/add_many_keys", """pub fn add_many_keys(map: &mut HashMap<Identifier, KeyOps>, agent_id: Identifier, key_ops: KeyOps)
    ensures final(map)@.dom() == old(map)@.dom().insert(agent_id), forall|i: Identifier| i != agent_id && #[trigger] old(map)@.dom().contains(i) ==> final(map)@[i] == old(map)@[i],
        final(map)@[agent_id]@ == (if old(map)@.dom().contains(agent_id) { old(map)@[agent_id]@ } else { Map::empty() }).union_prefer_right(key_ops@),
        !old(map)@.dom().contains(agent_id) || old(map)@[agent_id]@ == key_ops@ ==> final(map)@[agent_id]@ == key_ops@""", ["map", "agent_id", "key_ops"],
    [("map.entry(agent_id).or_default().extend(key_ops.0);", "let ke = key_entry(map, agent_id); let ghost kk = key_ops@; proof { assert(kk.union_prefer_right(kk) =~= kk); assert(Map::<Dg, Arc<KeyOp>>::empty().union_prefer_right(kk) =~= kk); } ke.extend_with(key_ops);", "must")])
def _members(kind, var, ss, n, m):
    return (("for", "it", "invariant wf(*self), one_agent_per_id(*self), known(*self, ga), kop(ga) == ko(*self, aid), ga == *agent, aid == agent_id(ga), it.seq() == %s, %s, right(*self, map@), forall|c: Identifier| #[trigger] map@.dom().contains(c) <==> mix(*self, ga, ss, %s, c)" % (kind, ss, n),
             "let ghost m0 = map@; let ghost gm = %s; let ghost nn = %s; proof { assert(ss[nn] == gm); assert(here(*self, gm)); by_more(ss, nn, aid); }" % (m, n), "proof { assert forall|c: Identifier| #[trigger] map@.dom().contains(c) <==> mix(*self, ga, ss, nn + 1, c) by { assert(by_some(ss, nn + 1, aid, c) <==> by_some(ss, nn, aid, c) || by_mem(gm, aid, c)); } }"),
            ("for", "it2", "invariant one_agent_per_id(*self), here(*self, gm), transitive@ == caps(gm), it2.seq() == tvs, lists_map(caps(gm), tvs), right(*self, map@), forall|c: Identifier| #[trigger] map@.dom().contains(c) <==> m0.dom().contains(c) || c == sub(gm) || by_keys(tvs, it2.index@ as int, c)",
             "let ghost n2 = it2.index@ as int; proof { keys_more(tvs, n2); assert(caps(gm).dom().contains(*tvs[n2].0)); }", ""))
PREK = Fn(KH, "Keyhive", "reachable_prekey_ops_for_agent", """pub fn reachable_prekey_ops_for_agent(&self, agent: &Agent) -> (r: HashMap<Identifier, Vec<Arc<KeyOp>>>)
    requires wf(*self), one_agent_per_id(*self), known(*self, *agent), kop(*agent) == ko(*self, agent_id(*agent))
    ensures forall|c: Identifier| #[trigger] r@.dom().contains(c) <==> named(*self, *agent, c), forall|c: Identifier| #[trigger] r@.dom().contains(c) ==> tops(r@[c]@, ko(*self, c))""", ["self", "agent"],
    [("@drop_fn add_many_keys", "")] + [("let locked = self.active.lock();", "let locked = &self.active;", "must")] + LK + VALS_RW + [
        ("let mut map = HashMap::new();", "let mut map: HashMap<Identifier, KeyOps> = HashMap::new();", "must"),
        ("(locked.id().into(), prekeys)", "(Identifier::from(locked.id()), prekeys)"), ("group_id.into()", "Identifier::from(group_id)"), ("doc_id.into()", "Identifier::from(doc_id)"),
        ("let groups = $x;", "let groups = $x; let docs9 = vals(&self.docs); let ghost gs = groups@; let ghost ds = docs9@; let ghost ss = mgs(gs) + mds(ds); proof { groups_all(*self, gs); docs_all(*self, ds); all_here(*self, gs, ds); }", "must"),
        ("let docs = $x;", "let docs = docs9;", "must"),
        ("for (agent_id, (agent, _access)) in &transitive {", "let tv = entries(&transitive); let ghost tvs = tv@; proof { keys_all(caps(gm), tvs); } for te in tv { let agent_id = te.0; let agent = &te.1.0;", "must"),
        ("for op in $x.values() {", "let mo = $x; let ov = op_vals(&mo); let ghost ovs = ov@; let ghost m9 = map@; proof { vals_all(mo@, ovs, below(start(*self, ga))); held_start(*self, ga); some_all(*self, ss, aid); } for op in ov {", "must"),
        ("map.into_iter().map(|($$i, $$k)| $y).collect()", "({ proof { assert forall|c: Identifier| #[trigger] map@.dom().contains(c) <==> named(*self, ga, c) by { assert(by_vals(ovs, ovs.len() as int, c) <==> exists|o: Op| #[trigger] below(start(*self, ga)).contains(o) && del_id(o) == c); assert(by_some(ss, ss.len() as int, aid, c) <==> exists|m: Membered| here(*self, m) && #[trigger] by_mem(m, aid, c)); } } collect_pairs(map, |p: (Identifier, KeyOps)| -> (r: (Identifier, Vec<Arc<KeyOp>>)) ensures r.0 == p.0, tops(r.1@, p.1@) { let ($$i, $$k) = p; $y }) })", "must")],
    pre="let ghost ga = *agent; let ghost aid = agent_id(ga);",
    loops=[*_members("gs", "group", "every_group(*self, gs), every_doc(*self, ds), ss == mgs(gs) + mds(ds), all_of(*self, ss)", "it.index@ as int", "mg(group)"),
           *_members("ds", "doc", "every_doc(*self, ds), ss == mgs(gs) + mds(ds), all_of(*self, ss)", "gs.len() + it.index@", "md(doc)"),
           ("for", "it", "invariant one_agent_per_id(*self), it.seq() == ovs, forall|i: int| 0 <= i < ovs.len() ==> held(*self).contains(*(#[trigger] ovs[i])), right(*self, map@), forall|c: Identifier| #[trigger] map@.dom().contains(c) <==> m9.dom().contains(c) || by_vals(ovs, it.index@ as int, c)", "let ghost n3 = it.index@ as int; proof { vals_more(ovs, n3); assert(held(*self).contains(*ovs[n3])); }", "")],
    wrap="impl Keyhive")
u_prekeys = Unit("offer_prekeys", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + ALLTYPES2 + PTYPES, ACC + walk_fns + [REACHED, MEMFOR, KEYOPS, DELEG, ADDMANY, PREK])

PALL = r"""
pub struct AllReachablePrekeyOps { pub ops: HashMap<Identifier, Vec<Arc<KeyOp>>>, pub index: IdTable }
pub open spec fn gdata(s: Seq<Group>, v: Seq<(GroupId, Group, TransitiveMembers)>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0 == s[i].state.id && v[i].1 == s[i] && v[i].2@ == caps_g(s[i]) }
pub open spec fn ddata(s: Seq<Document>, v: Seq<(DocumentId, Document, TransitiveMembers)>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).0.0 == s[i].group.state.id.0 && v[i].1 == s[i] && v[i].2@ == caps_d(s[i]) }
pub open spec fn refers<A>(v: Seq<A>, r: Seq<&A>) -> bool { r.len() == v.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == v[i] }
/// std: s.extend(keys)
#[verifier::external_body] pub fn extend_keys<V>(s: &mut HashSet<Identifier>, m: &HashMap<Identifier, V>) ensures forall|c: Identifier| #[trigger] final(s)@.contains(c) <==> old(s)@.contains(c) || m@.dom().contains(c) { unimplemented!() }
#[verifier::external_body] pub fn extend_opt(s: &mut HashSet<Identifier>, m: Option<&HashSet<Identifier>>) ensures forall|c: Identifier| #[trigger] final(s)@.contains(c) <==> old(s)@.contains(c) || (m is Some && (m->0)@.contains(c)) { unimplemented!() }
#[verifier::external_body] pub fn id_list(s: &HashSet<Identifier>) -> (r: Vec<&Identifier>) ensures forall|i: int| 0 <= i < r@.len() ==> s@.contains(*(#[trigger] r@[i])), forall|c: Identifier| #[trigger] s@.contains(c) ==> among_ids(r@, r@.len() as int, c) { unimplemented!() }
pub open spec fn lists_ids(m: Map<IndividualId, Individual>, r: Seq<&IndividualId>) -> bool { (forall|i: int| 0 <= i < r.len() ==> m.dom().contains(*(#[trigger] r[i]))) && forall|k: IndividualId| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == k }
#[verifier::external_body] pub fn ind_keys<'a>(m: &'a HashMap<IndividualId, Individual>) -> (r: Vec<&'a IndividualId>) ensures lists_ids(m@, r@) { unimplemented!() }

/// the cache covers everyone that may be named
pub open spec fn cached(s: Seq<Membered>, n: int, d: Set<Identifier>) -> bool { forall|i: int, c: Identifier| 0 <= i < n && (c == sub(#[trigger] s[i]) || caps(s[i]).dom().contains(c)) ==> #[trigger] d.contains(c) }
pub proof fn cached_more(s: Seq<Membered>, n: int, d: Set<Identifier>, e: Set<Identifier>) requires cached(s, n, d), 0 <= n < s.len(), d.subset_of(e), forall|c: Identifier| c == sub(s[n]) || caps(s[n]).dom().contains(c) ==> #[trigger] e.contains(c) ensures cached(s, n + 1, e)
{ assert forall|i: int, c: Identifier| 0 <= i < n + 1 && (c == sub(#[trigger] s[i]) || caps(s[i]).dom().contains(c)) implies #[trigger] e.contains(c) by { if i < n { assert(d.contains(c)); } } }
pub proof fn cached_on(s: Seq<Membered>, n: int, d: Set<Identifier>, e: Set<Identifier>) requires cached(s, n, d), d.subset_of(e) ensures cached(s, n, e) { assert forall|i: int, c: Identifier| 0 <= i < n && (c == sub(#[trigger] s[i]) || caps(s[i]).dom().contains(c)) implies #[trigger] e.contains(c) by { assert(d.contains(c)); } }
pub open spec fn listed_inds(r: Seq<&IndividualId>, n: int, c: Identifier) -> bool { exists|i: int| 0 <= i < n && (*#[trigger] r[i]).0 == c }
pub proof fn inds_more(r: Seq<&IndividualId>, n: int) requires 0 <= n < r.len() ensures forall|c: Identifier| #[trigger] listed_inds(r, n + 1, c) <==> listed_inds(r, n, c) || c == r[n].0
{ assert forall|c: Identifier| #[trigger] listed_inds(r, n + 1, c) <==> listed_inds(r, n, c) || c == r[n].0 by {
    if listed_inds(r, n, c) { let i = choose|i: int| 0 <= i < n && (*#[trigger] r[i]).0 == c; assert((*r[i]).0 == c); } if listed_inds(r, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && (*#[trigger] r[i]).0 == c; if i < n { assert((*r[i]).0 == c); } } if c == r[n].0 { assert((*r[n]).0 == c); } } }
pub proof fn inds_all(m: Map<IndividualId, Individual>, r: Seq<&IndividualId>) requires lists_ids(m, r) ensures forall|c: Identifier| #[trigger] listed_inds(r, r.len() as int, c) <==> m.dom().contains(IndividualId(c))
{ assert forall|c: Identifier| #[trigger] listed_inds(r, r.len() as int, c) <==> m.dom().contains(IndividualId(c)) by { if listed_inds(r, r.len() as int, c) { let i = choose|i: int| 0 <= i < r.len() && (*#[trigger] r[i]).0 == c; assert(*r[i] == IndividualId(c)); } if m.dom().contains(IndividualId(c)) { let i = choose|i: int| 0 <= i < r.len() && *(#[trigger] r[i]) == IndividualId(c); assert((*r[i]).0 == c); } } }

// whom the operations of each source are about
pub type Tables = Seq<(&'static Identifier, &'static HashMap<Dg, Op>)>;
pub open spec fn about_map(m: OpMap, c: Identifier) -> bool { exists|o: Op| #[trigger] has(m, o) && del_id(o) == c }
pub open spec fn mentions(t: Map<Identifier, HashMap<Dg, Op>>, src: Identifier, c: Identifier) -> bool { t.dom().contains(src) && about_map(t[src]@, c) }
pub open spec fn in_tables(s: Seq<(&Identifier, &HashMap<Dg, Op>)>, n: int, src: Identifier, c: Identifier) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == src && about_map((*s[i].1)@, c) }
pub proof fn tables_more(s: Seq<(&Identifier, &HashMap<Dg, Op>)>, n: int) requires 0 <= n < s.len() ensures forall|a: Identifier, c: Identifier| #[trigger] in_tables(s, n + 1, a, c) <==> in_tables(s, n, a, c) || (a == *s[n].0 && about_map((*s[n].1)@, c))
{ assert forall|a: Identifier, c: Identifier| #[trigger] in_tables(s, n + 1, a, c) <==> in_tables(s, n, a, c) || (a == *s[n].0 && about_map((*s[n].1)@, c)) by {
    if in_tables(s, n, a, c) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == a && about_map((*s[i].1)@, c); assert(*s[i].0 == a); }
    if in_tables(s, n + 1, a, c) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]).0 == a && about_map((*s[i].1)@, c); if i < n { assert(*s[i].0 == a); } } if a == *s[n].0 && about_map((*s[n].1)@, c) { assert(*s[n].0 == a); } } }
pub proof fn tables_all(t: Map<Identifier, HashMap<Dg, Op>>, s: Seq<(&Identifier, &HashMap<Dg, Op>)>) requires lists_map(t, s) ensures forall|a: Identifier, c: Identifier| #[trigger] in_tables(s, s.len() as int, a, c) <==> mentions(t, a, c)
{ assert forall|a: Identifier, c: Identifier| #[trigger] in_tables(s, s.len() as int, a, c) <==> mentions(t, a, c) by {
    if in_tables(s, s.len() as int, a, c) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == a && about_map((*s[i].1)@, c); assert(t.dom().contains(*s[i].0)); }
    if mentions(t, a, c) { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == a; assert(about_map((*s[i].1)@, c)); } } }
pub proof fn about_vals(m: OpMap, s: Seq<&Op>) requires keyed(m), lists_vals(m, s) ensures forall|c: Identifier| #[trigger] by_vals(s, s.len() as int, c) <==> about_map(m, c)
{ vals_all(m, s, ops_of(m)); assert forall|c: Identifier| #[trigger] by_vals(s, s.len() as int, c) <==> about_map(m, c) by { if about_map(m, c) { let o = choose|o: Op| #[trigger] has(m, o) && del_id(o) == c; assert(ops_of(m).contains(o)); } if by_vals(s, s.len() as int, c) { let o = choose|o: Op| #[trigger] ops_of(m).contains(o) && del_id(o) == c; assert(has(m, o)); } } }
pub proof fn table_held(k: Keyhive, r: AllMembershipOps, i: Identifier) requires complete(k, r), r.ops@.dom().contains(i) ensures keyed(r.ops@[i]@), forall|o: Op| #[trigger] has(r.ops@[i]@, o) ==> held(k).contains(o)
{ assert(ops_good(r.ops@, i, src_start(k, i))); let h = ISet::new(|o: Op| (exists|m: Membered| here(k, m) && #[trigger] head_of(m, o)) || (o is Revocation && in_r(k.revocations, o->Revocation_0)));
  assert forall|o: Op| #[trigger] src_start(k, i).contains(o) implies h.contains(o) by { if exists|m: Membered| here(k, m) && sub(m) == i && #[trigger] head_of(m, o) { let m = choose|m: Membered| here(k, m) && sub(m) == i && #[trigger] head_of(m, o); assert(here(k, m) && head_of(m, o)); } }
  below_in(src_start(k, i), h); assert forall|o: Op| #[trigger] has(r.ops@[i]@, o) implies held(k).contains(o) by { assert(ops_of(r.ops@[i]@).contains(o)); } }

// the index
pub open spec fn e_mem(m: Membered, act: Identifier, a: Identifier, c: Identifier) -> bool { caps(m).dom().contains(a) && (c == act || c == a || c == sub(m) || caps(m).dom().contains(c)) }
pub open spec fn e_some(s: Seq<Membered>, n: int, act: Identifier, a: Identifier, c: Identifier) -> bool { exists|i: int| 0 <= i < n && e_mem(#[trigger] s[i], act, a, c) }
pub proof fn e_more(s: Seq<Membered>, n: int, act: Identifier) requires 0 <= n < s.len() ensures forall|a: Identifier, c: Identifier| #[trigger] e_some(s, n + 1, act, a, c) <==> e_some(s, n, act, a, c) || e_mem(s[n], act, a, c)
{ assert forall|a: Identifier, c: Identifier| #[trigger] e_some(s, n + 1, act, a, c) <==> e_some(s, n, act, a, c) || e_mem(s[n], act, a, c) by {
    if e_some(s, n, act, a, c) { let i = choose|i: int| 0 <= i < n && e_mem(#[trigger] s[i], act, a, c); assert(e_mem(s[i], act, a, c)); } if e_some(s, n + 1, act, a, c) { let i = choose|i: int| 0 <= i < n + 1 && e_mem(#[trigger] s[i], act, a, c); if i < n { assert(e_mem(s[i], act, a, c)); } } if e_mem(s[n], act, a, c) { assert(e_mem(s[n], act, a, c)); } } }
pub open spec fn some_src(m: Map<Identifier, HashSet<Identifier>>, s: Seq<&Identifier>, n: int, c: Identifier) -> bool { exists|i: int| 0 <= i < n && idx(m, *#[trigger] s[i], c) }
pub proof fn src_more(m: Map<Identifier, HashSet<Identifier>>, s: Seq<&Identifier>, n: int) requires 0 <= n < s.len() ensures forall|c: Identifier| #[trigger] some_src(m, s, n + 1, c) <==> some_src(m, s, n, c) || idx(m, *s[n], c)
{ assert forall|c: Identifier| #[trigger] some_src(m, s, n + 1, c) <==> some_src(m, s, n, c) || idx(m, *s[n], c) by {
    if some_src(m, s, n, c) { let i = choose|i: int| 0 <= i < n && idx(m, *#[trigger] s[i], c); assert(idx(m, *s[i], c)); } if some_src(m, s, n + 1, c) { let i = choose|i: int| 0 <= i < n + 1 && idx(m, *#[trigger] s[i], c); if i < n { assert(idx(m, *s[i], c)); } } if idx(m, *s[n], c) { assert(idx(m, *s[n], c)); } } }
pub open spec fn e_src(t: HashSet<Identifier>, ment: Map<Identifier, HashSet<Identifier>>, act: Identifier, a: Identifier, c: Identifier) -> bool { c == act || c == a || exists|x: Identifier| #[trigger] t@.contains(x) && idx(ment, x, c) }
pub open spec fn e_list(s: Seq<(&Identifier, &HashSet<Identifier>)>, n: int, ment: Map<Identifier, HashSet<Identifier>>, act: Identifier, a: Identifier, c: Identifier) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == a && e_src(*s[i].1, ment, act, a, c) }
pub proof fn elist_more(s: Seq<(&Identifier, &HashSet<Identifier>)>, n: int, ment: Map<Identifier, HashSet<Identifier>>, act: Identifier) requires 0 <= n < s.len() ensures forall|a: Identifier, c: Identifier| #[trigger] e_list(s, n + 1, ment, act, a, c) <==> e_list(s, n, ment, act, a, c) || (a == *s[n].0 && e_src(*s[n].1, ment, act, a, c))
{ assert forall|a: Identifier, c: Identifier| #[trigger] e_list(s, n + 1, ment, act, a, c) <==> e_list(s, n, ment, act, a, c) || (a == *s[n].0 && e_src(*s[n].1, ment, act, a, c)) by {
    if e_list(s, n, ment, act, a, c) { let i = choose|i: int| 0 <= i < n && *(#[trigger] s[i]).0 == a && e_src(*s[i].1, ment, act, a, c); assert(*s[i].0 == a); }
    if e_list(s, n + 1, ment, act, a, c) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] s[i]).0 == a && e_src(*s[i].1, ment, act, a, c); if i < n { assert(*s[i].0 == a); } } if a == *s[n].0 && e_src(*s[n].1, ment, act, a, c) { assert(*s[n].0 == a); } } }
pub open spec fn registered(k: Keyhive, a: Identifier) -> bool { k.individuals@.dom().contains(IndividualId(a)) }
/// the entries before the operations are looked at
pub open spec fn e_first(k: Keyhive, s: Seq<Membered>, n: int, a: Identifier, c: Identifier) -> bool { let act = k.active.id.0; (a == act && c == act) || (registered(k, a) && (c == act || c == a)) || e_some(s, n, act, a, c) }
pub open spec fn p_offered(k: Keyhive, r: AllReachablePrekeyOps) -> bool {
    // everyone referred to has its operations, all of them
    &&& forall|a: Identifier, c: Identifier| #[trigger] idx(r.index@, a, c) ==> r.ops@.dom().contains(c)
    &&& forall|c: Identifier| #[trigger] r.ops@.dom().contains(c) ==> tops(r.ops@[c]@, ko(k, c))
    // each agent is referred to those it needs, and only to those
    &&& forall|a: Agent, c: Identifier| #![trigger idx(r.index@, agent_id(a), c)] known(k, a) && idx(r.index@, agent_id(a), k.active.id.0) ==> (idx(r.index@, agent_id(a), c) <==> named(k, a, c))
    &&& forall|a: Identifier, c: Identifier| #[trigger] idx(r.index@, a, c) ==> idx(r.index@, a, k.active.id.0)
    // nobody is left out
    &&& idx(r.index@, k.active.id.0, k.active.id.0)
    &&& forall|a: Identifier| #[trigger] registered(k, a) ==> idx(r.index@, a, k.active.id.0)
    &&& forall|a: Identifier, s: Identifier| #[trigger] src_of(k, a, s) ==> idx(r.index@, a, k.active.id.0)
}
pub proof fn p_end(k: Keyhive, s: Seq<Membered>, mem: AllMembershipOps, ment: Map<Identifier, HashSet<Identifier>>, es: Seq<(&Identifier, &HashSet<Identifier>)>, cache: Set<Identifier>, r: AllReachablePrekeyOps)
    requires wf(k), all_of(k, s), complete(k, mem), offers_same(k, mem), lists_map(mem.index@, es), forall|i: Identifier, c: Identifier| #[trigger] idx(ment, i, c) <==> mentions(mem.ops@, i, c),
        forall|i: Identifier, c: Identifier| #[trigger] mentions(mem.ops@, i, c) ==> cache.contains(c), cached(s, s.len() as int, cache), cache.contains(k.active.id.0), forall|a: Identifier| #[trigger] registered(k, a) ==> cache.contains(a),
        r.ops@.dom() == cache, forall|c: Identifier| #[trigger] r.ops@.dom().contains(c) ==> tops(r.ops@[c]@, ko(k, c)),
        forall|a: Identifier, c: Identifier| #[trigger] idx(r.index@, a, c) <==> e_first(k, s, s.len() as int, a, c) || e_list(es, es.len() as int, ment, k.active.id.0, a, c),
        forall|a: Identifier| #[trigger] mem.index@.dom().contains(a) ==> cache.contains(a)
    ensures p_offered(k, r)
{
    let act = k.active.id.0; let n = s.len() as int; let ne = es.len() as int;
    assert forall|a: Identifier, c: Identifier| #[trigger] e_some(s, n, act, a, c) <==> (exists|m: Membered| here(k, m) && #[trigger] e_mem(m, act, a, c)) by {
        if e_some(s, n, act, a, c) { let i = choose|i: int| 0 <= i < n && e_mem(#[trigger] s[i], act, a, c); assert(here(k, s[i]) && e_mem(s[i], act, a, c)); }
        if exists|m: Membered| here(k, m) && #[trigger] e_mem(m, act, a, c) { let m = choose|m: Membered| here(k, m) && #[trigger] e_mem(m, act, a, c); assert(s.contains(m)); let i = choose|i: int| 0 <= i < n && s[i] == m; assert(e_mem(s[i], act, a, c)); } }
    assert forall|a: Identifier, c: Identifier| #[trigger] e_list(es, ne, ment, act, a, c) <==> mem.index@.dom().contains(a) && e_src(mem.index@[a], ment, act, a, c) by {
        if e_list(es, ne, ment, act, a, c) { let i = choose|i: int| 0 <= i < ne && *(#[trigger] es[i]).0 == a && e_src(*es[i].1, ment, act, a, c); assert(mem.index@.dom().contains(*es[i].0)); }
        if mem.index@.dom().contains(a) && e_src(mem.index@[a], ment, act, a, c) { let i = choose|i: int| 0 <= i < ne && *(#[trigger] es[i]).0 == a; assert(e_src(*es[i].1, ment, act, a, c)); } }
    assert forall|a: Identifier, c: Identifier| #[trigger] idx(r.index@, a, c) implies r.ops@.dom().contains(c) && idx(r.index@, a, act) by {
        if e_some(s, n, act, a, c) { let i = choose|i: int| 0 <= i < n && e_mem(#[trigger] s[i], act, a, c); assert(e_mem(s[i], act, a, act)); assert(caps(s[i]).dom().contains(a)); assert(cache.contains(a)); if c == sub(s[i]) || caps(s[i]).dom().contains(c) { assert(cache.contains(c)); } assert(e_some(s, n, act, a, act)); }
        if e_list(es, ne, ment, act, a, c) { assert(cache.contains(a)); assert(e_src(mem.index@[a], ment, act, a, act)); assert(e_list(es, ne, ment, act, a, act)); }
        if registered(k, a) { assert(e_first(k, s, n, a, act)); } }
    assert(e_first(k, s, n, act, act));
    assert forall|a: Identifier| #[trigger] registered(k, a) implies idx(r.index@, a, act) by { assert(e_first(k, s, n, a, act)); }
    assert forall|a: Identifier, x: Identifier| #[trigger] src_of(k, a, x) implies idx(r.index@, a, act) by { assert(idx(mem.index@, a, x)); assert(e_src(mem.index@[a], ment, act, a, act)); assert(e_list(es, ne, ment, act, a, act)); }
    assert forall|a: Agent, c: Identifier| known(k, a) && idx(r.index@, agent_id(a), act) implies (#[trigger] idx(r.index@, agent_id(a), c) <==> named(k, a, c)) by { p_one(k, s, mem, ment, es, r, a, c); }
}
pub proof fn p_one(k: Keyhive, s: Seq<Membered>, mem: AllMembershipOps, ment: Map<Identifier, HashSet<Identifier>>, es: Seq<(&Identifier, &HashSet<Identifier>)>, r: AllReachablePrekeyOps, a: Agent, c: Identifier)
    requires wf(k), all_of(k, s), complete(k, mem), offers_same(k, mem), known(k, a), idx(r.index@, agent_id(a), k.active.id.0), forall|i: Identifier, c: Identifier| #[trigger] idx(ment, i, c) <==> mentions(mem.ops@, i, c),
        forall|a: Identifier, c: Identifier| #[trigger] idx(r.index@, a, c) <==> e_first(k, s, s.len() as int, a, c) || e_list(es, es.len() as int, ment, k.active.id.0, a, c),
        forall|x: Identifier, c: Identifier| #[trigger] e_some(s, s.len() as int, k.active.id.0, x, c) <==> (exists|m: Membered| here(k, m) && #[trigger] e_mem(m, k.active.id.0, x, c)),
        forall|x: Identifier, c: Identifier| #[trigger] e_list(es, es.len() as int, ment, k.active.id.0, x, c) <==> mem.index@.dom().contains(x) && e_src(mem.index@[x], ment, k.active.id.0, x, c)
    ensures idx(r.index@, agent_id(a), c) <==> named(k, a, c)
{
    let act = k.active.id.0; let n = s.len() as int; let ne = es.len() as int; let id = agent_id(a); let b = below(start(k, a)); assert(offered(mem, id) == b);
    if e_some(s, n, act, id, c) { let m = choose|m: Membered| here(k, m) && #[trigger] e_mem(m, act, id, c); if c != act && c != id { assert(here(k, m) && by_mem(m, id, c)); } }
    if e_list(es, ne, ment, act, id, c) && c != act && c != id { let x = choose|x: Identifier| #[trigger] mem.index@[id]@.contains(x) && idx(ment, x, c); assert(mentions(mem.ops@, x, c)); let o = choose|o: Op| #[trigger] has(mem.ops@[x]@, o) && del_id(o) == c; assert(idx(mem.index@, id, x)); assert(offered(mem, id).contains(o)); assert(b.contains(o)); }
    // conversely
    if named(k, a, c) {
        if c == id {
            if e_first(k, s, n, id, act) { if e_some(s, n, act, id, act) { let m = choose|m: Membered| here(k, m) && #[trigger] e_mem(m, act, id, act); assert(e_mem(m, act, id, id)); assert(e_some(s, n, act, id, id)); } assert(e_first(k, s, n, id, id)); }
            else { assert(e_src(mem.index@[id], ment, act, id, id)); assert(e_list(es, ne, ment, act, id, id)); }
        } else if c == act { }
        else if exists|m: Membered| here(k, m) && #[trigger] by_mem(m, id, c) { let m = choose|m: Membered| here(k, m) && #[trigger] by_mem(m, id, c); assert(e_mem(m, act, id, c)); assert(e_some(s, n, act, id, c)); assert(e_first(k, s, n, id, c)); }
        else { let o = choose|o: Op| #[trigger] b.contains(o) && del_id(o) == c; assert(offered(mem, id).contains(o)); let x = choose|x: Identifier| #[trigger] idx(mem.index@, id, x) && mem.ops@.dom().contains(x) && has(mem.ops@[x]@, o); assert(about_map(mem.ops@[x]@, c)); assert(mentions(mem.ops@, x, c)); assert(idx(ment, x, c)); assert(e_src(mem.index@[id], ment, act, id, c)); assert(e_list(es, ne, ment, act, id, c)); }
    }
}
/// whoever has an entry in the index has operations or is a member
pub proof fn index_cached(k: Keyhive, s: Seq<Membered>, mem: AllMembershipOps, cache: Set<Identifier>)
    requires complete(k, mem), solid(mem.index@), all_of(k, s), cached(s, s.len() as int, cache), forall|i: Identifier, c: Identifier| #[trigger] mentions(mem.ops@, i, c) ==> cache.contains(c)
    ensures forall|a: Identifier| #[trigger] mem.index@.dom().contains(a) ==> cache.contains(a)
{
    assert forall|a: Identifier| #[trigger] mem.index@.dom().contains(a) implies cache.contains(a) by {
        let x = choose|x: Identifier| #[trigger] idx(mem.index@, a, x); assert(src_of(k, a, x));
        if exists|m: Membered| #[trigger] here(k, m) && sub(m) == x && (a == x || caps(m).dom().contains(a)) { let m = choose|m: Membered| #[trigger] here(k, m) && sub(m) == x && (a == x || caps(m).dom().contains(a)); assert(s.contains(m)); let i = choose|i: int| 0 <= i < s.len() && s[i] == m; assert(sub(s[i]) == x); }
        else { let o = choose|o: Op| #[trigger] rev_in(k, a, o); assert(mem.ops@.dom().contains(a)); assert(ops_good(mem.ops@, a, src_start(k, a))); below_shut(src_start(k, a)); assert(src_start(k, a).contains(o)); assert(ops_of(mem.ops@[a]@).contains(o)); assert(has(mem.ops@[a]@, o)); assert(del_id(o) == a); assert(about_map(mem.ops@[a]@, a)); assert(mentions(mem.ops@, a, a)); }
    }
}
"""
VAC = ("if let Entry::Vacant(e) = key_ops_cache.entry($k) { e.insert($v); }", "if !key_ops_cache.contains_key(&$k) { key_ops_cache.insert($k, $v); }", "must")

PB = "wf(*self), one_agent_per_id(*self), every_group(*self, gs), every_doc(*self, ds), ss == mgs(gs) + mds(ds), all_of(*self, ss), act == self.active.id.0, act == active_id"
def _vec(kind, n, who):
    return ("let e9 = refs(&%s_data); let ghost e9v = e9@; let ghost %sv = %s_data@; for e in e9 { let %s_id = &e.0; let %s = &e.1; let transitive = &e.2;" % (kind, kind, kind, kind, kind))
def _cache(kind, dat, n):
    return (("for", "it", "invariant %s, %s, refers(%sv, e9v), it.seq() == e9v, right(*self, key_ops_cache@), key_ops_cache@.dom().contains(act), cached(ss, %s, key_ops_cache@.dom())" % (PB, dat, kind, n),
             "let ghost nn = %s; let ghost gm = ss[nn]; let ghost c0 = key_ops_cache@.dom(); let ghost mut c1 = c0; proof { assert(*e == %sv[it.index@ as int]); assert(here(*self, gm)); }" % (n, kind), "proof { assert forall|c: Identifier| c == sub(gm) || caps(gm).dom().contains(c) implies #[trigger] key_ops_cache@.dom().contains(c) by { if c == sub(gm) { assert(c1.contains(c)); } else { assert(by_keys(tvs, tvs.len() as int, c)); } } cached_more(ss, nn, c0, key_ops_cache@.dom()); }"),
            ("for", "it2", "invariant one_agent_per_id(*self), here(*self, gm), transitive@ == caps(gm), it2.seq() == tvs, lists_map(caps(gm), tvs), right(*self, key_ops_cache@), c1.subset_of(key_ops_cache@.dom()), forall|c: Identifier| #[trigger] by_keys(tvs, it2.index@ as int, c) ==> key_ops_cache@.dom().contains(c)",
             "let ghost n2 = it2.index@ as int; proof { keys_more(tvs, n2); assert(caps(gm).dom().contains(*tvs[n2].0)); }", ""))
def _index(kind, dat, n):
    return (("for", "it", "invariant %s, %s, refers(%sv, e9v), it.seq() == e9v, forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> e_first(*self, ss, %s, a, c)" % (PB, dat, kind, n),
             "let ghost nn = %s; let ghost gm = ss[nn]; let ghost x0 = index@; proof { assert(*e == %sv[it.index@ as int]); e_more(ss, nn, act); }" % (n, kind), "proof { assert forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> e_first(*self, ss, nn + 1, a, c) by { assert(idx(x0, a, c) <==> e_first(*self, ss, nn, a, c)); assert(e_some(ss, nn + 1, act, a, c) <==> e_some(ss, nn, act, a, c) || e_mem(gm, act, a, c)); assert(among_ids(ksv, ksv.len() as int, a) <==> caps(gm).dom().contains(a)); } }"),
            ("for", "it2", "invariant act == active_id, %s_id.0 == sub(gm), %s == sub(gm), transitive@ == caps(gm), it2.seq() == ksv, forall|i: int| 0 <= i < ksv.len() ==> transitive@.dom().contains(*(#[trigger] ksv[i])), forall|k: Identifier| #[trigger] transitive@.dom().contains(k) ==> among_ids(ksv, ksv.len() as int, k), forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> idx(x0, a, c) || (among_ids(ksv, it2.index@ as int, a) && (c == act || c == a || c == sub(gm) || caps(gm).dom().contains(c)))" % (kind, kind[0] + "_id"),
             "let ghost n2 = it2.index@ as int; let ghost x2 = index@; proof { among_more(ksv, n2); }", "proof { let me = *ksv[n2]; assert forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> idx(x0, a, c) || (among_ids(ksv, n2 + 1, a) && (c == act || c == a || c == sub(gm) || caps(gm).dom().contains(c))) by { assert(idx(x2, a, c) <==> idx(x0, a, c) || (among_ids(ksv, n2, a) && (c == act || c == a || c == sub(gm) || caps(gm).dom().contains(c)))); assert(idx(index@, a, c) <==> idx(x2, a, c) || (a == me && (c == act || c == a || c == sub(gm) || caps(gm).dom().contains(c)))); } }"))
PREKALL = Fn(KH, "Keyhive", "reachable_prekey_ops_for_all_agents", "pub fn reachable_prekey_ops_for_all_agents(&self) -> (r: AllReachablePrekeyOps) requires wf(*self), one_agent_per_id(*self) ensures p_offered(*self, r)", ["self"],
    [("let locked = self.active.lock();", "let locked = &self.active;", "must")] + LK + VALS_RW + [("type TransitiveMembers = $x;", ""),
        ("(locked.id().into(), prekeys)", "(Identifier::from(locked.id()), prekeys)"),
        ("let docs = $x;", "let docs = $x; let ghost gs = groups@; let ghost ds = docs@; let ghost ss = mgs(gs) + mds(ds); let ghost act = self.active.id.0; proof { groups_all(*self, gs); docs_all(*self, ds); all_here(*self, gs, ds); }", "must"),
        ("let mut group_data: $x = Vec::with_capacity($y);", "let mut group_data: Vec<(GroupId, Group, TransitiveMembers)> = Vec::new();", "must"), ("let mut doc_data: $x = Vec::with_capacity($y);", "let mut doc_data: Vec<(DocumentId, Document, TransitiveMembers)> = Vec::new();", "must"),
        ("let mut key_ops_cache: $x = HashMap::new();", "let mut key_ops_cache: HashMap<Identifier, KeyOps> = HashMap::new();", "must"),
        ("for (group_id, group, transitive) in &group_data {", _vec("group", 0, 0), "must"), ("for (doc_id, doc, transitive) in &doc_data {", _vec("doc", 0, 0), "must"),
        ("for (group_id, _, transitive) in &group_data {", _vec("group", 0, 0), "must"), ("for (doc_id, _, transitive) in &doc_data {", _vec("doc", 0, 0), "must"),
        ("for (agent_id, (agent, _access)) in transitive {", "proof { c1 = key_ops_cache@.dom(); } let tv = entries(transitive); let ghost tvs = tv@; proof { keys_all(caps(gm), tvs); } for te in tv { let agent_id = te.0; let agent = &te.1.0;", "must"),
        ("for (id, indie) in self.individuals.iter() {", "let iv = entries(&self.individuals); let ghost ivs = iv@; let ghost c2 = key_ops_cache@.dom(); for ie in iv { let id = ie.0; let indie = ie.1;", "must"),
        ("(*id).into();", "id.0;"), ("(*group_id).into();", "group_id.0;"), ("(*doc_id).into();", "doc_id.0;"),
        VAC, ("entry.extend(transitive.keys());", "extend_keys(entry, transitive);", "must"), ("entry.extend(mentioned.get(source_id).into_iter().flatten());", "extend_opt(entry, mentioned.get(source_id));", "must"),
        ("for (source_id, source_ops) in &membership.ops {", "let mt = entries(&membership.ops); let ghost mts = mt@; let ghost c3 = key_ops_cache@.dom(); proof { cached_on(ss, ss.len() as int, c2, c3); tables_all(membership.ops@, mts); } for me in mt { let source_id = me.0; let source_ops = me.1; let ghost ment0 = mentioned@;", "must"),
        ("let delegate_ids = mentioned.entry($k).or_default();", "let delegate_ids = set_entry(&mut mentioned, $k); let ghost d0 = delegate_ids@; let ghost c4 = key_ops_cache@.dom();", "must"),
        ("for op in source_ops.values() {", "let ov = op_vals(source_ops); let ghost ovs = ov@; proof { about_vals(source_ops@, ovs); vals_all(source_ops@, ovs, ops_of(source_ops@)); } for op in ov {", "must"),
        ("key_ops_cache.iter().map(|($$i, $$k)| $y).collect()", "collect_refs(&key_ops_cache, |p: (&Identifier, &KeyOps)| -> (r: (Identifier, Vec<Arc<KeyOp>>)) ensures r.0 == *p.0, tops(r.1@, p.1@) { let ($$i, $$k) = p; $y })", "must"),
        ("let mut index: $x = HashMap::new();", "let ghost cfin = key_ops_cache@.dom(); proof { cached_on(ss, ss.len() as int, c3, cfin); assert forall|a: Identifier, c: Identifier| #[trigger] mentions(membership.ops@, a, c) implies cfin.contains(c) by { assert(in_tables(mts, mts.len() as int, a, c)); } assert forall|a: Identifier, c: Identifier| #[trigger] idx(mentioned@, a, c) <==> mentions(membership.ops@, a, c) by { assert(in_tables(mts, mts.len() as int, a, c) <==> mentions(membership.ops@, a, c)); } index_cached(*self, ss, membership, cfin); } let mut index: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();", "must"),
        ("index.entry(active_id).or_default().insert(active_id);", "note(&mut index, active_id, active_id);", "must"),
        ("for id in self.individuals.keys() {", "let il = ind_keys(&self.individuals); let ghost ilv = il@; proof { inds_all(self.individuals@, ilv); } for id in il {", "must"),
        ("let entry = index.entry($k).or_default();", "let entry = set_entry(&mut index, $k);", "must"),
        ("for agent_id in transitive.keys() {", "let ks = keys(transitive); let ghost ksv = ks@; for agent_id in ks {", "must"),
        ("for (agent_id, source_ids) in &membership.index {", "let xt = entries(&membership.index); let ghost xts = xt@; let ghost ment = mentioned@; for xe in xt { let agent_id = xe.0; let source_ids = xe.1; let ghost x0 = index@;", "must"),
        ("for source_id in source_ids {", "let sl = id_list(source_ids); let ghost slv = sl@; let ghost e1 = entry@; for source_id in sl {", "must"),
        ("AllReachablePrekeyOps { ops, index }", "({ let r = AllReachablePrekeyOps { ops, index }; proof { p_end(*self, ss, membership, ment, xts, cfin, r); } r })", "must")],
    loops=[("for", "it", "invariant %s, it.seq() == gs, gdata(gs.take(it.index@ as int), group_data@)" % PB, "let ghost nn = it.index@ as int; let ghost g0 = group_data@; proof { assert(here(*self, mg(gs[nn]))); }", "proof { assert(gs.take(nn + 1) =~= gs.take(nn).push(gs[nn])); }"),
           ("for", "it", "invariant %s, it.seq() == ds, ddata(ds.take(it.index@ as int), doc_data@)" % PB, "let ghost nn = it.index@ as int; proof { assert(here(*self, md(ds[nn]))); }", "proof { assert(ds.take(nn + 1) =~= ds.take(nn).push(ds[nn])); }"),
           *_cache("group", "gdata(gs, groupv)", "it.index@ as int"), *_cache("doc", "ddata(ds, docv)", "gs.len() + it.index@"),
           ("for", "it", "invariant one_agent_per_id(*self), it.seq() == ivs, lists_map(self.individuals@, ivs), right(*self, key_ops_cache@), c2.subset_of(key_ops_cache@.dom()), forall|i: int| 0 <= i < it.index@ ==> key_ops_cache@.dom().contains((*(#[trigger] ivs[i]).0).0)", "proof { assert(self.individuals@.dom().contains(*ivs[it.index@ as int].0)); }", ""),
           ("for", "it", "invariant one_agent_per_id(*self), complete(*self, membership), it.seq() == mts, lists_map(membership.ops@, mts), right(*self, key_ops_cache@), c3.subset_of(key_ops_cache@.dom()), forall|a: Identifier, c: Identifier| #[trigger] idx(mentioned@, a, c) <==> in_tables(mts, it.index@ as int, a, c), forall|a: Identifier, c: Identifier| #[trigger] in_tables(mts, it.index@ as int, a, c) ==> key_ops_cache@.dom().contains(c)",
             "let ghost nn = it.index@ as int; proof { tables_more(mts, nn); assert(membership.ops@.dom().contains(*mts[nn].0)); table_held(*self, membership, *mts[nn].0); }", "proof { assert forall|a: Identifier, c: Identifier| #[trigger] in_tables(mts, nn + 1, a, c) implies key_ops_cache@.dom().contains(c) by { if in_tables(mts, nn, a, c) { assert(c4.contains(c)); } else { assert(by_vals(ovs, ovs.len() as int, c) <==> about_map(source_ops@, c)); } } assert forall|a: Identifier, c: Identifier| #[trigger] idx(mentioned@, a, c) <==> in_tables(mts, nn + 1, a, c) by { assert(by_vals(ovs, ovs.len() as int, c) <==> about_map(source_ops@, c)); assert(idx(ment0, a, c) <==> in_tables(mts, nn, a, c)); } }"),
           ("for", "it2", "invariant one_agent_per_id(*self), it2.seq() == ovs, right(*self, key_ops_cache@), c4.subset_of(key_ops_cache@.dom()), forall|i: int| 0 <= i < ovs.len() ==> held(*self).contains(*(#[trigger] ovs[i])), forall|c: Identifier| #[trigger] delegate_ids@.contains(c) <==> d0.contains(c) || by_vals(ovs, it2.index@ as int, c), forall|c: Identifier| #[trigger] by_vals(ovs, it2.index@ as int, c) ==> key_ops_cache@.dom().contains(c)",
             "let ghost n2 = it2.index@ as int; proof { vals_more(ovs, n2); assert(held(*self).contains(*ovs[n2])); }", ""),
           ("for", "it", "invariant act == active_id, it.seq() == ilv, forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> (a == act && c == act) || (listed_inds(ilv, it.index@ as int, a) && (c == act || c == a))", "let ghost nn = it.index@ as int; let ghost x0 = index@; proof { inds_more(ilv, nn); }", "proof { let me = ilv[nn].0; assert forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> (a == act && c == act) || (listed_inds(ilv, nn + 1, a) && (c == act || c == a)) by { assert(idx(index@, a, c) <==> idx(x0, a, c) || (a == me && (c == act || c == a))); } }"),
           *_index("group", "gdata(gs, groupv)", "it.index@ as int"), *_index("doc", "ddata(ds, docv)", "gs.len() + it.index@"),
           ("for", "it", "invariant act == active_id, act == self.active.id.0, it.seq() == xts, ment == mentioned@, forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> e_first(*self, ss, ss.len() as int, a, c) || e_list(xts, it.index@ as int, ment, act, a, c)", "let ghost nn = it.index@ as int; proof { elist_more(xts, nn, ment, act); }",
             "proof { let me = *xts[nn].0; assert forall|a: Identifier, c: Identifier| #[trigger] idx(index@, a, c) <==> e_first(*self, ss, ss.len() as int, a, c) || e_list(xts, nn + 1, ment, act, a, c) by { assert(some_src(ment, slv, slv.len() as int, c) <==> exists|x: Identifier| #[trigger] source_ids@.contains(x) && idx(ment, x, c)) by { src_all(ment, slv, *source_ids, c); } assert(idx(x0, a, c) <==> e_first(*self, ss, ss.len() as int, a, c) || e_list(xts, nn, ment, act, a, c)); assert(idx(index@, a, c) <==> idx(x0, a, c) || (a == me && e_src(*source_ids, ment, act, a, c))); } }"),
           ("for", "it2", "invariant ment == mentioned@, it2.seq() == slv, forall|c: Identifier| #[trigger] entry@.contains(c) <==> e1.contains(c) || some_src(ment, slv, it2.index@ as int, c)", "proof { src_more(ment, slv, it2.index@ as int); }", "")],
    wrap="impl Keyhive")
PALL2 = r"""
pub open spec fn all_ids(s: Seq<&Identifier>, t: HashSet<Identifier>) -> bool { (forall|i: int| 0 <= i < s.len() ==> t@.contains(*(#[trigger] s[i]))) && forall|c: Identifier| #[trigger] t@.contains(c) ==> among_ids(s, s.len() as int, c) }
pub proof fn src_all(m: Map<Identifier, HashSet<Identifier>>, s: Seq<&Identifier>, t: HashSet<Identifier>, c: Identifier) requires all_ids(s, t) ensures some_src(m, s, s.len() as int, c) <==> exists|x: Identifier| #[trigger] t@.contains(x) && idx(m, x, c)
{ if some_src(m, s, s.len() as int, c) { let i = choose|i: int| 0 <= i < s.len() && idx(m, *#[trigger] s[i], c); assert(t@.contains(*s[i])); }
  if exists|x: Identifier| #[trigger] t@.contains(x) && idx(m, x, c) { let x = choose|x: Identifier| #[trigger] t@.contains(x) && idx(m, x, c); assert(among_ids(s, s.len() as int, x)); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == x; assert(idx(m, *s[i], c)); } }
"""
u_preall = Unit("offer_preall", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + ALLTYPES2 + PTYPES + PALL + PALL2, ACC + walk_fns + [ALL, KEYOPS, DELEG, PREKALL])

# ---- all of it as events ----
EV = "keyhive_core/src/event.rs"
ETYPES = r"""
pub enum Event { PrekeysExpanded(Arc<Signed<AddKeyOp>>), PrekeyRotated(Arc<Signed<RotateKeyOp>>), CgkaOperation(Arc<Signed<CgkaOperation>>), Delegated(Arc<Signed<Delegation>>), Revoked(Arc<Signed<Revocation>>) }
pub open spec fn ev_m(o: Op) -> Event { match o { Op::Delegation(d) => Event::Delegated(d), Op::Revocation(r) => Event::Revoked(r) } }
pub open spec fn ev_k(o: KeyOp) -> Event { match o { KeyOp::Add(a) => Event::PrekeysExpanded(a), KeyOp::Rotate(r) => Event::PrekeyRotated(r) } }
pub open spec fn ev_c(o: COp) -> Event { Event::CgkaOperation(o) }
impl Event { #[verifier::external_body] pub fn of_cgka(o: COp) -> (r: Event) ensures r == ev_c(o) { unimplemented!() } }
pub uninterp spec fn edg(e: Event) -> Dg;
/// under what an event is listed: membership operations under their own digest
pub open spec fn key_of(e: Event) -> Dg { match e { Event::Delegated(d) => dg_d(*d), Event::Revoked(r) => dg_r(*r), _ => edg(e) } }
/// no two events have the same digest
pub axiom fn no_collision_ev() ensures forall|a: Event, b: Event| #[trigger] key_of(a) == #[trigger] key_of(b) ==> a == b;
impl Hashed for Event { open spec fn dg(&self) -> Dg { edg(*self) } }
pub type EvMap = Map<Dg, Event>;
pub open spec fn ev_in(m: EvMap, e: Event) -> bool { exists|d: Dg| #[trigger] m.dom().contains(d) && m[d] == e }
pub open spec fn ev_keyed(m: EvMap) -> bool { forall|d: Dg| #[trigger] m.dom().contains(d) ==> key_of(m[d]) == d }
pub proof fn ev_put(m: EvMap, e: Event) requires ev_keyed(m) ensures ev_keyed(m.insert(key_of(e), e)), forall|x: Event| #[trigger] ev_in(m.insert(key_of(e), e), x) <==> ev_in(m, x) || x == e
{
    no_collision_ev(); let n = m.insert(key_of(e), e);
    assert forall|x: Event| #[trigger] ev_in(n, x) <==> ev_in(m, x) || x == e by {
        if ev_in(m, x) { let d = choose|d: Dg| #[trigger] m.dom().contains(d) && m[d] == x; assert(n.dom().contains(d)); if d == key_of(e) { assert(x == e); } assert(n[d] == x); }
        if ev_in(n, x) { let d = choose|d: Dg| #[trigger] n.dom().contains(d) && n[d] == x; if d != key_of(e) { assert(m.dom().contains(d)); } }
        if x == e { assert(n.dom().contains(key_of(e))); } }
}
pub open spec fn ev_mem(b: ISet<Op>, e: Event) -> bool { exists|o: Op| #[trigger] b.contains(o) && ev_m(o) == e }
pub proof fn ev_start(m: OpMap, n: EvMap) requires keyed(m), n.dom() == m.dom(), forall|d: Dg| #[trigger] m.dom().contains(d) ==> n[d] == ev_m(m[d]) ensures ev_keyed(n), forall|e: Event| #[trigger] ev_in(n, e) <==> ev_mem(ops_of(m), e)
{
    assert forall|d: Dg| #[trigger] n.dom().contains(d) implies key_of(n[d]) == d by { assert(m.dom().contains(d)); }
    assert forall|e: Event| #[trigger] ev_in(n, e) <==> ev_mem(ops_of(m), e) by {
        if ev_in(n, e) { let d = choose|d: Dg| #[trigger] n.dom().contains(d) && n[d] == e; assert(m.dom().contains(d)); assert(ops_of(m).contains(m[d])); }
        if ev_mem(ops_of(m), e) { let o = choose|o: Op| #[trigger] ops_of(m).contains(o) && ev_m(o) == e; assert(m.dom().contains(op_dg(o))); assert(n.dom().contains(op_dg(o))); } }
}
pub open spec fn ev_key(k: Keyhive, a: Agent, e: Event) -> bool { exists|c: Identifier, d: Dg| named(k, a, c) && #[trigger] ko(k, c).dom().contains(d) && ev_k(*ko(k, c)[d]) == e }
pub open spec fn ev_cg(k: Keyhive, a: Identifier, e: Event) -> bool { exists|o: COp| #[trigger] cgka_for(k, a, o) && ev_c(o) == e }
/// everything an agent is offered
pub open spec fn ev_for(k: Keyhive, a: Agent, e: Event) -> bool { ev_mem(below(start(k, a)), e) || ev_key(k, a, e) || ev_cg(k, agent_id(a), e) }
pub open spec fn kvals(m: Map<Identifier, Vec<Arc<KeyOp>>>, s: Seq<&Vec<Arc<KeyOp>>>) -> bool { (forall|i: int| 0 <= i < s.len() ==> exists|c: Identifier| #[trigger] m.dom().contains(c) && m[c] == *(#[trigger] s[i])) && forall|c: Identifier| #[trigger] m.dom().contains(c) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == m[c] }
#[verifier::external_body] pub fn key_vals<'a>(m: &'a HashMap<Identifier, Vec<Arc<KeyOp>>>) -> (r: Vec<&'a Vec<Arc<KeyOp>>>) ensures kvals(m@, r@) { unimplemented!() }
pub open spec fn in_ops(s: Seq<Arc<KeyOp>>, n: int, e: Event) -> bool { exists|i: int| 0 <= i < n && ev_k(*#[trigger] s[i]) == e }
pub proof fn in_ops_more(s: Seq<Arc<KeyOp>>, n: int) requires 0 <= n < s.len() ensures forall|e: Event| #[trigger] in_ops(s, n + 1, e) <==> in_ops(s, n, e) || e == ev_k(*s[n])
{ assert forall|e: Event| #[trigger] in_ops(s, n + 1, e) <==> in_ops(s, n, e) || e == ev_k(*s[n]) by { if in_ops(s, n, e) { let i = choose|i: int| 0 <= i < n && ev_k(*#[trigger] s[i]) == e; assert(ev_k(*s[i]) == e); } if in_ops(s, n + 1, e) { let i = choose|i: int| 0 <= i < n + 1 && ev_k(*#[trigger] s[i]) == e; if i < n { assert(ev_k(*s[i]) == e); } } if e == ev_k(*s[n]) { assert(ev_k(*s[n]) == e); } } }
pub open spec fn in_vecs(s: Seq<&Vec<Arc<KeyOp>>>, n: int, e: Event) -> bool { exists|i: int| 0 <= i < n && in_ops((*#[trigger] s[i])@, (*s[i])@.len() as int, e) }
pub proof fn in_vecs_more(s: Seq<&Vec<Arc<KeyOp>>>, n: int) requires 0 <= n < s.len() ensures forall|e: Event| #[trigger] in_vecs(s, n + 1, e) <==> in_vecs(s, n, e) || in_ops((*s[n])@, (*s[n])@.len() as int, e)
{ assert forall|e: Event| #[trigger] in_vecs(s, n + 1, e) <==> in_vecs(s, n, e) || in_ops((*s[n])@, (*s[n])@.len() as int, e) by { if in_vecs(s, n, e) { let i = choose|i: int| 0 <= i < n && in_ops((*#[trigger] s[i])@, (*s[i])@.len() as int, e); assert(in_ops((*s[i])@, (*s[i])@.len() as int, e)); }
    if in_vecs(s, n + 1, e) { let i = choose|i: int| 0 <= i < n + 1 && in_ops((*#[trigger] s[i])@, (*s[i])@.len() as int, e); if i < n { assert(in_ops((*s[i])@, (*s[i])@.len() as int, e)); } } if in_ops((*s[n])@, (*s[n])@.len() as int, e) { assert(in_ops((*s[n])@, (*s[n])@.len() as int, e)); } } }
pub proof fn in_vecs_all(k: Keyhive, a: Agent, m: Map<Identifier, Vec<Arc<KeyOp>>>, s: Seq<&Vec<Arc<KeyOp>>>)
    requires kvals(m, s), forall|c: Identifier| #[trigger] m.dom().contains(c) <==> named(k, a, c), forall|c: Identifier| #[trigger] m.dom().contains(c) ==> tops(m[c]@, ko(k, c)) ensures forall|e: Event| #[trigger] in_vecs(s, s.len() as int, e) <==> ev_key(k, a, e)
{ assert forall|e: Event| #[trigger] in_vecs(s, s.len() as int, e) <==> ev_key(k, a, e) by {
    if in_vecs(s, s.len() as int, e) { let i = choose|i: int| 0 <= i < s.len() && in_ops((*#[trigger] s[i])@, (*s[i])@.len() as int, e); let v = (*s[i])@; let j = choose|j: int| 0 <= j < v.len() && ev_k(*#[trigger] v[j]) == e; let c = choose|c: Identifier| #[trigger] m.dom().contains(c) && m[c] == *s[i];
        assert(tops(v, ko(k, c))); assert(v.contains(v[j])); let d = choose|d: Dg| #[trigger] ko(k, c).dom().contains(d) && ko(k, c)[d] == v[j]; assert(named(k, a, c)); assert(ko(k, c).dom().contains(d) && ev_k(*ko(k, c)[d]) == e); }
    if ev_key(k, a, e) { let (c, d) = choose|c: Identifier, d: Dg| named(k, a, c) && #[trigger] ko(k, c).dom().contains(d) && ev_k(*ko(k, c)[d]) == e; assert(m.dom().contains(c)); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == m[c]; let v = (*s[i])@; assert(tops(v, ko(k, c))); let o = ko(k, c)[d]; assert(v.contains(o)); let j = choose|j: int| 0 <= j < v.len() && v[j] == o; assert(ev_k(*v[j]) == e); assert(in_ops(v, v.len() as int, e)); } } }
pub open spec fn in_cgs(s: Seq<COp>, n: int, e: Event) -> bool { exists|i: int| 0 <= i < n && ev_c(#[trigger] s[i]) == e }
pub proof fn in_cgs_more(s: Seq<COp>, n: int) requires 0 <= n < s.len() ensures forall|e: Event| #[trigger] in_cgs(s, n + 1, e) <==> in_cgs(s, n, e) || e == ev_c(s[n])
{ assert forall|e: Event| #[trigger] in_cgs(s, n + 1, e) <==> in_cgs(s, n, e) || e == ev_c(s[n]) by { if in_cgs(s, n, e) { let i = choose|i: int| 0 <= i < n && ev_c(#[trigger] s[i]) == e; assert(ev_c(s[i]) == e); } if in_cgs(s, n + 1, e) { let i = choose|i: int| 0 <= i < n + 1 && ev_c(#[trigger] s[i]) == e; if i < n { assert(ev_c(s[i]) == e); } } if e == ev_c(s[n]) { assert(ev_c(s[n]) == e); } } }
pub proof fn in_cgs_all(k: Keyhive, a: Identifier, s: Seq<COp>) requires forall|o: COp| #[trigger] s.contains(o) <==> cgka_for(k, a, o) ensures forall|e: Event| #[trigger] in_cgs(s, s.len() as int, e) <==> ev_cg(k, a, e)
{ assert forall|e: Event| #[trigger] in_cgs(s, s.len() as int, e) <==> ev_cg(k, a, e) by { if in_cgs(s, s.len() as int, e) { let i = choose|i: int| 0 <= i < s.len() && ev_c(#[trigger] s[i]) == e; assert(s.contains(s[i])); assert(cgka_for(k, a, s[i])); } if ev_cg(k, a, e) { let o = choose|o: COp| #[trigger] cgka_for(k, a, o) && ev_c(o) == e; assert(s.contains(o)); let i = choose|i: int| 0 <= i < s.len() && s[i] == o; assert(ev_c(s[i]) == e); } } }
"""
EVM = Fn(EV, "From for Event ~MembershipOperation", "from", "pub fn from_op(op: MembershipOperation) -> (r: Event) ensures r == ev_m(op)", ["op"], [], wrap="impl Event", vname="from_op")
EVK = Fn(EV, "From for Event ~KeyOp", "from", "pub fn from_key(key_op: KeyOp) -> (r: Event) ensures r == ev_k(key_op)", ["key_op"], [], wrap="impl Event", vname="from_key")
EVENTS = Fn(KH, "Keyhive", "events_for_agent", """pub fn events_for_agent(&self, agent: &Agent) -> (r: HashMap<Dg, Event>)
    requires wf(*self), one_agent_per_id(*self), known(*self, *agent), kop(*agent) == ko(*self, agent_id(*agent))
    ensures forall|e: Event| #[trigger] ev_in(r@, e) <==> ev_for(*self, *agent, e)""", ["self", "agent"],
    [("Event::from(key_op.as_ref().dupe())", "Event::from_key((*key_op.as_ref()).clone())", "must"), ("Event::from(cgka_op)", "Event::of_cgka(cgka_op)", "must")] + LK + [
        ("let mut ops: HashMap<_, _> = $x.into_iter().map(|($$d, $$o)| ($$e.coerce(), $$p.into())).collect();", "let mo = $x; let ghost mom = mo@; let mut ops: HashMap<Dg, Event> = collect_pairs(mo, |p: (Dg, MembershipOperation)| -> (r: (Dg, Event)) ensures r.0 == p.0, r.1 == ev_m(p.1) { let ($$d, $$o) = p; ($$e, Event::from_op($$p)) }); proof { ev_start(mom, ops@); }", "must"),
        ("for key_ops in $x.values() {", "let ghost e0 = ops@; let km = $x; let kv = key_vals(&km); let ghost kvs = kv@; proof { in_vecs_all(*self, *agent, km@, kvs); } for key_ops in kv {", "must"),
        ("for key_op in key_ops.iter() {", "let ghost es = ops@; for key_op in key_ops.iter() {", "must"),
        ("for cgka_op in $x {", "let ghost e2 = ops@; let cv = $x; let ghost cvs = cv@; proof { in_cgs_all(*self, agent_id(*agent), cvs); } for cgka_op in cv {", "must"),
        ("ops.insert(Digest::hash(&op), op);", "({ let ghost oe = op; proof { ev_put(ops@, oe); } ops.insert(Digest::hash(&op), op); });", "must")],
    loops=[("for", "it", "invariant it.seq() == kvs, ev_keyed(ops@), forall|e: Event| #[trigger] ev_in(ops@, e) <==> ev_in(e0, e) || in_vecs(kvs, it.index@ as int, e)", "proof { in_vecs_more(kvs, it.index@ as int); }", ""),
           ("for", "it2", "invariant it2.seq().len() == key_ops@.len(), forall|i: int| 0 <= i < key_ops@.len() ==> *(#[trigger] it2.seq()[i]) == key_ops@[i], ev_keyed(ops@), forall|e: Event| #[trigger] ev_in(ops@, e) <==> ev_in(es, e) || in_ops(key_ops@, it2.index@ as int, e)", "proof { in_ops_more(key_ops@, it2.index@ as int); }", ""),
           ("for", "it", "invariant it.seq() == cvs, ev_keyed(ops@), forall|e: Event| #[trigger] ev_in(ops@, e) <==> ev_in(e2, e) || in_cgs(cvs, it.index@ as int, e)", "proof { in_cgs_more(cvs, it.index@ as int); }", "")],
    wrap="impl Keyhive")
u_events = Unit("offer_events", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + ALLTYPES2 + CTYPES + PTYPES + ETYPES, ACC + walk_fns + [REACHED, MEMFOR, DOCS, CREACH, KEYOPS, DELEG, ADDMANY, PREK, EVM, EVK, EVENTS])
# P04: which groups and documents an agent reaches, with which access
u_reach = Unit("offer_reach", KPRE + KTYPES2 + KTYPES3 + ALLTYPES + CTYPES, ACC + [REACHED, DOCS, RDOCS])
