"""P02, P05: what Group::add_member and Group::revoke_member sign and take in."""
from vp.verus import Fn, Unit
from . import core, authority

GP = "keyhive_core/src/principal/group.rs"
MEMBERSHIP = core.MEMBERSHIP.replace("pub after_revocations: Vec<Arc<Signed<Revocation>>> }", "pub after_revocations: Vec<Arc<Signed<Revocation>>>, pub after_content: Content }").replace(
    "pub proof: Option<Arc<Signed<Delegation>>> }\n\n", "pub proof: Option<Arc<Signed<Delegation>>>, pub after_content: Content }\n\n")
assert MEMBERSHIP.count("after_content: Content") == 2
from . import receive
CONVM = [l for l in receive.IDS.splitlines() if l.startswith("macro_rules! conv ")][0] + "\n"
PRELUDE = core.std("ax_identifier::key_model", "ax_sigbytes::key_model") + core.ACCESS + core.IDS + core.hashkey("SigBytes") + CONVM + r"""
#[verifier::external_body] pub struct Membered { x: u64 }
#[derive(Clone)] pub struct Content(pub u64);
pub mod ax_content { use super::*; pub axiom fn clones(a: Content, b: Content) ensures call_ensures(Content::clone, (&a,), b) ==> a == b; }
pub struct Agent { pub the_id: Identifier, pub members: Option<Membered> }
impl Clone for Agent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Agent {
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.the_id.0 { self.the_id.0 }
    pub fn id(&self) -> (r: Identifier) ensures r == self.the_id { self.the_id }
    pub fn as_membered(&self) -> (r: Option<&Membered>) ensures r is Some == self.members is Some, r is Some ==> *r->0 == self.members->0 { self.members.as_ref() }
}
pub uninterp spec fn access_in(m: Membered, outside: Identifier, id: Identifier) -> Option<Access>;
#[verifier::external_body] pub struct Transitive { x: u64 }
pub uninterp spec fn tmap(t: Transitive, id: Identifier) -> Option<Access>;
impl Transitive {
    #[verifier::external_body] pub fn get(&self, id: &Identifier) -> (r: Option<&((), Access)>)
        ensures r is Some == tmap(*self, *id) is Some, r is Some ==> (*r->0).1 == tmap(*self, *id)->0 { unimplemented!() }
}
impl Membered {
    #[verifier::external_body] pub fn transitive_members_outside(&self, s: Identifier) -> (r: Transitive)
        ensures forall|i: Identifier| tmap(r, i) == #[trigger] access_in(*self, s, i) { unimplemented!() }
}
""" + MEMBERSHIP + r"""
pub type SD = Arc<Signed<Delegation>>;
pub type SR = Arc<Signed<Revocation>>;
pub enum Op { D(Signed<Delegation>), R(Signed<Revocation>) }
/// std: NonEmpty
#[verifier::external_body] pub struct NonEmpty { x: u64 }
impl NonEmpty { pub uninterp spec fn view(&self) -> Seq<SD>;
    #[verifier::external_body] pub fn list(&self) -> (r: Vec<SD>) ensures r@ == self@, r@.len() > 0 { unimplemented!() } }
impl Clone for NonEmpty { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
#[verifier::external_body] pub struct RevStore { x: u64 }
impl RevStore { pub uninterp spec fn view(&self) -> Set<Signed<Revocation>>;
    /// values().duped().collect()
    #[verifier::external_body] pub fn listed(&self) -> (r: Vec<SR>) ensures forall|x: Signed<Revocation>| #[trigger] self@.contains(x) ==> names_rev(r@, x) { unimplemented!() } }
pub open spec fn names_rev(v: Seq<SR>, x: Signed<Revocation>) -> bool { exists|i: int| 0 <= i < v.len() && same(*(#[trigger] v[i]), x) }
#[verifier::external_body] pub fn contains_rev(v: &Vec<SR>, r: &SR) -> (b: bool) ensures b == names_rev(v@, **r) { unimplemented!() }
#[verifier::external_body] pub struct Rest { x: u64 }
#[verifier::external_body] pub struct Digest { x: u64 }
#[verifier::external_body] pub struct AddError { x: u64 }
#[verifier::external_body] pub struct SigningError { x: u64 }
#[verifier::external_body] pub struct COp { x: u64 }
pub struct GroupState { pub revocation_heads: RevStore, pub rest: Rest }
/// what the group has taken in, in order
pub uninterp spec fn log(s: GroupState) -> Seq<Op>;
impl GroupState {
    /// P02
    #[verifier::external_body] pub fn add_delegation(&mut self, d: SD) -> (r: Result<Digest, AddError>) ensures r is Ok ==> log(*final(self)) == log(*old(self)).push(Op::D(*d)), r is Err ==> *final(self) == *old(self) { unimplemented!() }
    /// P03
    #[verifier::external_body] pub fn add_revocation(&mut self, d: SR) -> (r: Result<Digest, AddError>) ensures r is Ok ==> log(*final(self)) == log(*old(self)).push(Op::R(*d)), r is Err ==> *final(self) == *old(self) { unimplemented!() }
}
#[verifier::external_body] pub struct Listener { x: u64 }
impl Listener { #[verifier::external_body] pub fn on_delegation(&self, d: &SD) { unimplemented!() } #[verifier::external_body] pub fn on_revocation(&self, d: &SR) { unimplemented!() } }
pub struct Group { pub the_id: GroupId, pub members: HashMap<Identifier, NonEmpty>, pub state: GroupState, pub active_revocations: HashMap<SigBytes, SR>, pub listener: Listener }
/// what rebuild makes of what was taken in (P05)
pub uninterp spec fn shown(s: GroupState) -> (Map<Identifier, NonEmpty>, Map<SigBytes, SR>);
pub open spec fn is_shown(g: Group) -> bool { g.members@ == shown(g.state).0 && g.active_revocations@ == shown(g.state).1 }
pub open spec fn gkey(g: Group) -> Key { g.the_id.0.0 }
impl Group {
    pub fn id(&self) -> (r: Identifier) ensures r == self.the_id.0 { self.the_id.0 }
    pub fn verifying_key(&self) -> (r: Key) ensures r == gkey(*self) { self.the_id.0.0 }
    pub fn members(&self) -> (r: &HashMap<Identifier, NonEmpty>) ensures *r == self.members { &self.members }
    #[verifier::external_body] pub fn rebuild(&mut self) ensures is_shown(*final(self)), final(self).the_id == old(self).the_id, final(self).state == old(self).state, final(self).listener == old(self).listener { unimplemented!() }
    /// proved in access.queries
    #[verifier::external_body] pub fn get_capability(&self, id: &Identifier) -> (r: Option<&SD>) ensures best(*self, *id, deref(r)) { unimplemented!() }
}
pub open spec fn can(d: SD) -> int { lvl(d.payload.can) }
pub open spec fn held(g: Group, id: Identifier, d: SD) -> bool { held_in(g.members@, id, d) }
pub open spec fn best(g: Group, id: Identifier, r: Option<SD>) -> bool {
    &&& r is Some == g.members@.dom().contains(id)
    &&& r is Some ==> held(g, id, r->0) && forall|i: int| 0 <= i < g.members@[id]@.len() ==> can(#[trigger] g.members@[id]@[i]) <= can(r->0) }
pub open spec fn deref(r: Option<&SD>) -> Option<SD> { match r { Some(d) => Some(*d), None => None } }
/// listing helpers
#[verifier::external_body] pub fn key_list(m: &HashMap<Identifier, NonEmpty>) -> (r: Vec<&Identifier>) ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i])), forall|k: Identifier| #[trigger] m@.dom().contains(k) ==> among(r@, k) { unimplemented!() }
pub open spec fn among(v: Seq<&Identifier>, k: Identifier) -> bool { exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == k }
#[verifier::external_body] pub fn active_list(m: &HashMap<SigBytes, SR>) -> (r: Vec<&SR>) ensures forall|k: SigBytes| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]) == m@[k] { unimplemented!() }
/// values().flatten().cloned().collect()
#[verifier::external_body] pub fn all_held(m: &HashMap<Identifier, NonEmpty>) -> (r: Vec<SD>) ensures forall|id: Identifier, d: SD| #[trigger] held_in(m@, id, d) ==> r@.contains(d), forall|i: int| 0 <= i < r@.len() ==> in_any(m@, #[trigger] r@[i]) { unimplemented!() }
pub open spec fn held_in(m: Map<Identifier, NonEmpty>, id: Identifier, d: SD) -> bool { m.dom().contains(id) && m[id]@.contains(d) }
pub open spec fn in_any(m: Map<Identifier, NonEmpty>, d: SD) -> bool { exists|id: Identifier| #[trigger] held_in(m, id, d) }
#[verifier::external_body] pub fn pull<A>(v: &mut Vec<A>) -> (r: Option<A>) ensures r is None ==> old(v)@.len() == 0 && final(v)@ == old(v)@, r is Some ==> old(v)@ == seq![r->0] + final(v)@ { unimplemented!() }
pub fn min_of<'a>(a: &'a Access, b: &'a Access) -> (r: &'a Access) ensures lvl(*r) == (if lvl(*a) <= lvl(*b) { lvl(*a) } else { lvl(*b) }) { if *a <= *b { a } else { b } }
pub struct Signer { pub vk: Key }
impl Signer { pub fn verifying_key(&self) -> (r: Key) ensures r == self.vk { self.vk } }
/// P01
#[verifier::external_body] pub fn try_sign_async<P>(s: &Signer, p: P) -> (r: Result<Signed<P>, SigningError>) ensures r is Ok ==> r->Ok_0.payload == p && r->Ok_0.issuer == s.vk { unimplemented!() }
pub enum AddGroupMemberError { SigningError(SigningError), NoProof, AccessEscalation { wanted: Access, have: Access }, AddError(AddError) }
conv!(SigningError, AddGroupMemberError, e, AddGroupMemberError::SigningError(e));
conv!(AddError, AddGroupMemberError, e, AddGroupMemberError::AddError(e));
pub enum RevokeMemberError { AddError(AddError), NoProof, SigningError(SigningError), RedelegationError(AddGroupMemberError) }
conv!(SigningError, RevokeMemberError, e, RevokeMemberError::SigningError(e));
conv!(AddError, RevokeMemberError, e, RevokeMemberError::AddError(e));
conv!(AddGroupMemberError, RevokeMemberError, e, RevokeMemberError::RedelegationError(e));
/// core: `?` converts the error with `From`
pub axiom fn q_sign(a: SigningError, b: AddGroupMemberError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == AddGroupMemberError::SigningError(a);
pub axiom fn q_add(a: AddError, b: AddGroupMemberError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == AddGroupMemberError::AddError(a);
pub proof fn q_all() ensures forall|a: SigningError, b: AddGroupMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == AddGroupMemberError::SigningError(a), forall|a: AddError, b: AddGroupMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == AddGroupMemberError::AddError(a)
{ assert forall|a: SigningError, b: AddGroupMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == AddGroupMemberError::SigningError(a) by { q_sign(a, b); }
  assert forall|a: AddError, b: AddGroupMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == AddGroupMemberError::AddError(a) by { q_add(a, b); } }
pub struct AddMemberUpdate { pub cgka_ops: Vec<COp>, pub delegation: SD }

/// acts through the holder of `p` with at least `want`, and so does the holder
pub open spec fn via(g: Group, vk: Key, p: SD, want: int) -> bool {
    p.payload.delegate.members is Some && access_in(p.payload.delegate.members->0, g.the_id.0, Identifier(vk)) is Some
    && lvl(access_in(p.payload.delegate.members->0, g.the_id.0, Identifier(vk))->0) >= want && can(p) >= want }
/// what entitles `vk` to grant `want`
pub open spec fn entitled(g: Group, vk: Key, want: Access, proof: Option<SD>) -> bool {
    if proof is None { vk == gkey(g) } else { (held(g, Identifier(vk), proof->0) && lvl(want) <= can(proof->0)) || (exists|id: Identifier| #[trigger] held(g, id, proof->0) && via(g, vk, proof->0, lvl(want))) } }
/// no best delegation of `id` lets `vk` act through it
pub open spec fn no_way(g: Group, vk: Key, want: int, id: Identifier) -> bool { exists|p: SD| #[trigger] best(g, id, Some(p)) && !via(g, vk, p, want) }
pub open spec fn not_entitled(g: Group, vk: Key, want: Access) -> bool {
    vk != gkey(g) && if g.members@.dom().contains(Identifier(vk)) { forall|d: SD| #[trigger] held(g, Identifier(vk), d) ==> can(d) < lvl(want) }
        else { forall|id: Identifier| #[trigger] g.members@.dom().contains(id) ==> no_way(g, vk, lvl(want), id) } }
pub open spec fn to_of(d: SD) -> Identifier { d.payload.delegate.the_id }
pub open spec fn target(r: SR) -> SD { r.payload.revoke }
/// the new delegation rests on every revocation known, and in particular on those of whom it adds
pub open spec fn after_all(g: Group, who: Identifier, d: Signed<Delegation>) -> bool {
    &&& forall|x: Signed<Revocation>| #[trigger] g.state.revocation_heads@.contains(x) ==> names_rev(d.payload.after_revocations@, x)
    &&& forall|k: SigBytes| #[trigger] g.active_revocations@.dom().contains(k) && to_of(target(g.active_revocations@[k])) == who ==> names_rev(d.payload.after_revocations@, *g.active_revocations@[k]) }
pub proof fn pushed_rev(a: Seq<SR>, b: Seq<SR>) requires a.len() <= b.len(), forall|i: int| 0 <= i < a.len() ==> a[i] == b[i] ensures forall|x: Signed<Revocation>| #[trigger] names_rev(a, x) ==> names_rev(b, x)
{ assert forall|x: Signed<Revocation>| #[trigger] names_rev(a, x) implies names_rev(b, x) by { let i = choose|i: int| 0 <= i < a.len() && same(*(#[trigger] a[i]), x); assert(same(*b[i], x)); } }
pub proof fn is_named(a: Seq<SR>, i: int) requires 0 <= i < a.len() ensures names_rev(a, *a[i]) { assert(same(*a[i], *a[i])); }
"""
R = [(".dupe()", ".clone()"), ("keyhive_crypto::signer::async_signer::try_sign_async::<F, _, _>(", "try_sign_async(")]
recv_d = Fn(GP, "Group", "receive_delegation", """pub fn receive_delegation(&mut self, delegation: SD) -> (r: Result<Digest, AddError>)
    ensures r is Ok ==> log(final(self).state) == log(old(self).state).push(Op::D(*delegation)) && is_shown(*final(self)), r is Err ==> *final(self) == *old(self), final(self).the_id == old(self).the_id""", ["self", "delegation"], R, wrap="impl Group")
recv_r = Fn(GP, "Group", "receive_revocation", """pub fn receive_revocation(&mut self, revocation: SR) -> (r: Result<Digest, AddError>)
    ensures r is Ok ==> log(final(self).state) == log(old(self).state).push(Op::R(*revocation)) && is_shown(*final(self)), r is Err ==> *final(self) == *old(self), final(self).the_id == old(self).the_id""", ["self", "revocation"], R, wrap="impl Group")
ADD_RW = R + [
    ("self.state.revocation_heads.values().duped().collect()", "self.state.revocation_heads.listed()"),
    ("for revocation in self.active_revocations.values() {", "let al = active_list(&self.active_revocations); let ghost als = al@; let ghost heads = after_revocations@; for revocation in al {", "must"),
    ("after_revocations.contains(revocation)", "contains_rev(&after_revocations, revocation)"),
    ("let mut after_revocations: Vec<_> =", "let mut after_revocations: Vec<SR> ="),
    ("for member_id in self.members.keys() {", "let mut todo = key_list(&self.members); let ghost ids = todo@; proof { assert(ids.skip(0) =~= ids); } while let Some(member_id) = pull(&mut todo) {", "must"),
    ("sub_access.min(&dlg.payload.can)", "min_of(sub_access, &dlg.payload.can)"),
    ("let mut best_proof = None;", "let mut best_proof: Option<SD> = None;"),
    ("best_access.is_none_or(|$$a| $c)", "(match best_access { Some($$a) => $c, None => true })"),
    ('.expect($x)', ".unwrap()"),
]
add = Fn(GP, "Group", "add_member_with_manual_content", """pub fn add_member_with_manual_content(&mut self, member_to_add: Agent, can: Access, signer: &Signer, after_content: Content) -> (r: Result<AddMemberUpdate, AddGroupMemberError>)
    ensures
        r is Ok ==> ({ let d = *r->Ok_0.delegation; d.issuer == signer.vk && d.payload.delegate == member_to_add && d.payload.can == can && d.payload.after_content == after_content
            && entitled(*old(self), signer.vk, can, d.payload.proof) && after_all(*old(self), member_to_add.the_id, d)
            && log(final(self).state) == log(old(self).state).push(Op::D(d)) && is_shown(*final(self)) }),
        r is Err ==> *final(self) == *old(self), final(self).the_id == old(self).the_id,
        r is Err && (r->Err_0 is NoProof || r->Err_0 is AccessEscalation) ==> not_entitled(*old(self), signer.vk, can)""",
    ["self", "member_to_add", "can", "signer", "after_content"], ADD_RW, pre="let ghost g0 = *self; let ghost want = can; proof { q_all(); }",
    loops=[("while", None, """invariant_except_break best_proof is None, forall|i: int| 0 <= i < ids.len() - todo@.len() ==> no_way(g0, signer.vk, lvl(want), *(#[trigger] ids[i]))
            invariant *self == g0, *old(self) == g0, want == can, signer_id == Identifier(signer.vk), todo@.len() <= ids.len(), todo@ == ids.skip(ids.len() - todo@.len()), forall|i: int| 0 <= i < ids.len() ==> self.members@.dom().contains(*(#[trigger] ids[i]))
            ensures best_proof is Some ==> exists|id: Identifier| #[trigger] held(g0, id, best_proof->0) && via(g0, signer.vk, best_proof->0, lvl(want)),
                best_proof is None ==> forall|i: int| 0 <= i < ids.len() ==> no_way(g0, signer.vk, lvl(want), *(#[trigger] ids[i]))
            decreases todo@.len()""",
              "let ghost nn = ids.len() - todo@.len() - 1; proof { let w = seq![member_id] + todo@; assert(w == ids.skip(nn)); assert(w[0] == ids[nn]); assert(todo@ =~= ids.skip(nn + 1)) by { assert forall|i: int| 0 <= i < todo@.len() implies todo@[i] == ids.skip(nn + 1)[i] by { assert(w[i + 1] == ids.skip(nn)[i + 1]); } } }",
              ""),
           ("for", "it", """invariant *self == g0, it.seq() == als, forall|x: Signed<Revocation>| #[trigger] g0.state.revocation_heads@.contains(x) ==> names_rev(after_revocations@, x),
              forall|i: int| 0 <= i < it.index@ && to_of(target(*(#[trigger] als[i]))) == member_to_add.the_id ==> names_rev(after_revocations@, **als[i])""",
              "let ghost v0 = after_revocations@; let ghost k = it.index@ as int;", "proof { pushed_rev(v0, after_revocations@); if after_revocations@.len() > v0.len() { is_named(after_revocations@, v0.len() as int); } }")],
    wrap="impl Group")
grant = Unit("grant", PRELUDE, [recv_d, recv_r, add])

REMOVE = r"""
impl Delegation {
    /// proved in authority.authority
    #[verifier::external_body] pub fn proof_lineage(&self) -> (r: Vec<SD>) ensures r@ == lineage(*self) { unimplemented!() }
}
pub uninterp spec fn lineage(d: Delegation) -> Seq<SD>;
pub struct RevokeMemberUpdate { pub cgka_ops: Vec<COp>, pub revocations: Vec<SR>, pub redelegations: Vec<SD> }
impl RevokeMemberUpdate { #[verifier::external_body] pub fn default() -> (r: Self) ensures r.cgka_ops@.len() == 0, r.revocations@.len() == 0, r.redelegations@.len() == 0 { unimplemented!() } }
/// Vec::from(NonEmpty), or nothing
#[verifier::external_body] pub fn listed_or_none<F: Fn(&NonEmpty) -> Vec<SD>>(o: Option<&NonEmpty>, f: F) -> (r: Vec<SD>)
    requires o is Some ==> call_requires(f, (o->0,)) ensures o is None ==> r@.len() == 0, o is Some ==> call_ensures(f, (o->0,), r) { unimplemented!() }
#[verifier::external_body] pub fn take_in(a: &mut Vec<COp>, b: Vec<COp>) { unimplemented!() }
pub open spec fn rlog(v: Seq<SR>) -> Seq<Op> { Seq::new(v.len(), |i: int| Op::R(*v[i])) }
pub open spec fn dlog(v: Seq<SD>) -> Seq<Op> { Seq::new(v.len(), |i: int| Op::D(*v[i])) }
/// the group as it was after the first `i` of these revocations
pub open spec fn reached(g0: Group, g: Group, v: Seq<SR>) -> bool { g.the_id == g0.the_id && log(g.state) == log(g0.state) + rlog(v) && (g == g0 || is_shown(g)) }
/// what lets `vk` revoke `d` in this state of the group, when `who` is being removed
pub open spec fn grounds(g: Group, vk: Key, who: Identifier, d: SD, p: Option<SD>) -> bool {
    if p is None { vk == gkey(g) } else {
        (p->0 == d && d.issuer == vk) || (lineage(d.payload).contains(p->0) && p->0.issuer == vk)
        || (held(g, Identifier(vk), p->0) && p->0.payload.can is Admin && to_of(p->0) == who)
        || (exists|id: Identifier| #[trigger] held(g, id, p->0) && via(g, vk, p->0, can(d))) }
}
pub open spec fn grounded(g0: Group, vk: Key, who: Identifier, v: Seq<SR>, i: int) -> bool {
    exists|g: Group, n: int| 0 <= n <= i && #[trigger] reached(g0, g, v.take(n)) && grounds(g, vk, who, target(v[i]), v[i].payload.proof)
}
pub open spec fn doomed(g0: Group, who: Identifier) -> Seq<SD> { if g0.members@.dom().contains(who) { g0.members@[who]@ } else { Seq::empty() } }
pub proof fn empty_logs() ensures forall|a: Seq<Op>, v: Seq<SR>| v.len() == 0 ==> #[trigger] (a + rlog(v)) == a, forall|a: Seq<Op>, v: Seq<SD>| v.len() == 0 ==> #[trigger] (a + dlog(v)) == a
{ assert forall|a: Seq<Op>, v: Seq<SR>| v.len() == 0 implies #[trigger] (a + rlog(v)) == a by { assert(a + rlog(v) =~= a); }
  assert forall|a: Seq<Op>, v: Seq<SD>| v.len() == 0 implies #[trigger] (a + dlog(v)) == a by { assert(a + dlog(v) =~= a); } }
pub open spec fn all_sound(g0: Group, vk: Key, who: Identifier, v: Seq<SR>) -> bool {
    forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).issuer == vk && held(g0, who, target(v[i])) && grounded(g0, vk, who, v, i)
}
pub open spec fn covers(v: Seq<SR>, d: SD) -> bool { exists|i: int| 0 <= i < v.len() && target(#[trigger] v[i]) == d }
/// one more revocation, resting on what the group was after the first n
pub proof fn one_more(g0: Group, gs: Group, n: int, g1: Group, g2: Group, vk: Key, who: Identifier, v: Seq<SR>, w: Seq<SR>, d: SD)
    requires all_sound(g0, vk, who, v), reached(g0, g1, v), reached(g0, gs, v.take(n)), 0 <= n <= v.len(),
        w == v || (w == v.push(w.last()) && w.last().issuer == vk && target(w.last()) == d && held(g0, who, d) && (grounds(gs, vk, who, d, w.last().payload.proof) || grounds(g1, vk, who, d, w.last().payload.proof))
            && log(g2.state) == log(g1.state).push(Op::R(*w.last())) && is_shown(g2) && g2.the_id == g1.the_id),
        w == v ==> g1 == g2
    ensures all_sound(g0, vk, who, w), reached(g0, g2, w), w != v ==> covers(w, d), forall|d: SD| #[trigger] covers(v, d) ==> covers(w, d), reached(g0, gs, w.take(n))
{
  if w != v {
    let r = w.last();
    assert(w.take(v.len() as int) =~= v); assert(w[v.len() as int] == r); assert(target(w[v.len() as int]) == target(r)); assert(w.take(n) =~= v.take(n));
    assert forall|i: int| 0 <= i < w.len() implies (#[trigger] w[i]).issuer == vk && held(g0, who, target(w[i])) && grounded(g0, vk, who, w, i) by {
        if i < v.len() { assert(w[i] == v[i]); assert(grounded(g0, vk, who, v, i));
            let (g, m) = choose|g: Group, m: int| 0 <= m <= i && #[trigger] reached(g0, g, v.take(m)) && grounds(g, vk, who, target(v[i]), v[i].payload.proof);
            assert(w.take(m) =~= v.take(m)); assert(reached(g0, g, w.take(m)));
        } else { assert(reached(g0, g1, w.take(i))); assert(reached(g0, gs, w.take(n))); } }
    assert(rlog(w) =~= rlog(v).push(Op::R(*r)));
    assert(log(g2.state) =~= log(g0.state) + rlog(w));
    assert forall|d: SD| #[trigger] covers(v, d) implies covers(w, d) by { let i = choose|i: int| 0 <= i < v.len() && target(#[trigger] v[i]) == d; assert(target(w[i]) == d); }
  }
}
/// someone else's membership that hangs from a delegation held by the removed member
pub open spec fn hangs(d: SD, who: Identifier) -> bool { to_of(d) != who && d.payload.proof is Some && to_of(d.payload.proof->0) == who }
pub open spec fn same_terms(a: SD, b: SD) -> bool { a.payload.delegate == b.payload.delegate && a.payload.can == b.payload.can }
pub open spec fn kept(v: Seq<SD>, d: SD) -> bool { exists|i: int| 0 <= i < v.len() && same_terms(#[trigger] v[i], d) }
pub open spec fn only_kept(g0: Group, vk: Key, who: Identifier, v: Seq<SD>) -> bool { forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i]).issuer == vk && kept_one(g0, who, v[i]) }
pub open spec fn kept_one(g0: Group, who: Identifier, x: SD) -> bool { exists|d: SD| #[trigger] in_any(g0.members@, d) && hangs(d, who) && same_terms(x, d) }
pub proof fn kept_more(v: Seq<SD>, x: SD) ensures forall|d: SD| #[trigger] kept(v, d) ==> kept(v.push(x), d), forall|d: SD| #[trigger] same_terms(x, d) ==> kept(v.push(x), d)
{ let w = v.push(x); assert(w[v.len() as int] == x);
  assert forall|d: SD| #[trigger] kept(v, d) implies kept(w, d) by { let i = choose|i: int| 0 <= i < v.len() && same_terms(#[trigger] v[i], d); assert(same_terms(w[i], d)); }
  assert forall|d: SD| #[trigger] same_terms(x, d) implies kept(w, d) by { assert(same_terms(w[v.len() as int], d)); } }
pub proof fn dlog_more(v: Seq<SD>, x: SD) ensures dlog(v.push(x)) == dlog(v).push(Op::D(*x)) { assert(dlog(v.push(x)) =~= dlog(v).push(Op::D(*x))); }
/// `v` lists what the group showed
pub open spec fn held_by(g0: Group, v: Seq<SD>) -> bool { (forall|d: SD| #[trigger] in_any(g0.members@, d) ==> v.contains(d)) && forall|i: int| 0 <= i < v.len() ==> in_any(g0.members@, #[trigger] v[i]) }
pub open spec fn all_covered(a: Seq<SD>, v: Seq<SR>) -> bool { forall|i: int| 0 <= i < a.len() ==> covers(v, #[trigger] a[i]) }
/// nothing of its own entitles `vk` to revoke `d`
pub open spec fn no_claim(g0: Group, vk: Key, d: SD) -> bool { vk != gkey(g0) && d.issuer != vk && forall|i: int| 0 <= i < lineage(d.payload).len() ==> (#[trigger] lineage(d.payload)[i]).issuer != vk }
pub axiom fn q_sign2(a: SigningError, b: RevokeMemberError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::SigningError(a);
pub axiom fn q_add2(a: AddError, b: RevokeMemberError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::AddError(a);
pub axiom fn q_add3(a: AddGroupMemberError, b: RevokeMemberError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::RedelegationError(a);
pub open spec fn q_ok() -> bool { (forall|a: SigningError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::SigningError(a)) && (forall|a: AddError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::AddError(a)) && (forall|a: AddGroupMemberError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == RevokeMemberError::RedelegationError(a)) }
pub proof fn q_all2() ensures q_ok()
{ assert forall|a: SigningError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == RevokeMemberError::SigningError(a) by { q_sign2(a, b); }
  assert forall|a: AddError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == RevokeMemberError::AddError(a) by { q_add2(a, b); }
  assert forall|a: AddGroupMemberError, b: RevokeMemberError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == RevokeMemberError::RedelegationError(a) by { q_add3(a, b); } }
"""
build = Fn(GP, "Group", "build_revocation", """fn build_revocation(&mut self, signer: &Signer, revoke: SD, proof: Option<SD>, after_content: Content) -> (r: Result<SR, SigningError>)
    ensures *final(self) == *old(self), r is Ok ==> r->Ok_0.issuer == signer.vk && r->Ok_0.payload == (Revocation { revoke: revoke, proof: proof, after_content: after_content })""",
    ["self", "signer", "revoke", "proof", "after_content"], R, wrap="impl Group")
INV = "q_ok(), g0 == *old(self), vk == signer.vk, self.the_id == g0.the_id, g1 == *self, v1 == revocations@, 0 <= ns <= v1.len(), reached(g0, g1, v1), reached(g0, gs, v1.take(ns)), all_sound(g0, vk, member_to_remove, v1), all_to_revoke@ == doomed(g0, member_to_remove), all_to_revoke@.len() > 0, og_dlgs@ == og, held_by(g0, og)"
EACH = "it.seq().len() == all_to_revoke@.len(), forall|i: int| 0 <= i < all_to_revoke@.len() ==> *(#[trigger] it.seq()[i]) == all_to_revoke@[i], forall|i: int| 0 <= i < it.index@ ==> covers(revocations@, #[trigger] all_to_revoke@[i])"
BEGIN = "proof { gs = *self; ns = revocations@.len() as int; assert(v1.take(ns) =~= v1); let q = all_to_revoke@[it.index@ as int]; assert(*to_revoke == q); assert(all_to_revoke@.contains(q)); assert(held(g0, member_to_remove, q)); }"
SYNC = "proof { one_more(g0, gs, ns, g1, *self, vk, member_to_remove, v1, revocations@, *to_revoke); v1 = revocations@; g1 = *self; }"
KEEP = "held(g0, member_to_remove, *to_revoke), forall|i: int| 0 <= i < upto ==> covers(revocations@, #[trigger] all_to_revoke@[i]), found ==> covers(revocations@, *to_revoke)"
revoke = Fn(GP, "Group", "revoke_member", """pub fn revoke_member(&mut self, member_to_remove: Identifier, retain_all_other_members: bool, signer: &Signer, after_content: &Content) -> (r: Result<RevokeMemberUpdate, RevokeMemberError>)
    ensures final(self).the_id == old(self).the_id,
        r is Ok ==> all_sound(*old(self), signer.vk, member_to_remove, r->Ok_0.revocations@),
        r is Ok ==> forall|d: SD| #[trigger] held(*old(self), member_to_remove, d) ==> covers(r->Ok_0.revocations@, d),
        r is Ok ==> log(final(self).state) == log(old(self).state) + rlog(r->Ok_0.revocations@) + dlog(r->Ok_0.redelegations@),
        r is Ok ==> only_kept(*old(self), signer.vk, member_to_remove, r->Ok_0.redelegations@) && (!retain_all_other_members ==> r->Ok_0.redelegations@.len() == 0),
        r is Ok && retain_all_other_members && old(self).members@.dom().contains(member_to_remove) ==> forall|d: SD| #[trigger] in_any(old(self).members@, d) && hangs(d, member_to_remove) ==> kept(r->Ok_0.redelegations@, d),
        r is Ok && old(self).members@.dom().contains(member_to_remove) ==> is_shown(*final(self)),
        r is Err && r->Err_0 is NoProof ==> exists|d: SD| #[trigger] held(*old(self), member_to_remove, d) && no_claim(*old(self), signer.vk, d)""",
    ["self", "member_to_remove", "retain_all_other_members", "signer", "after_content"], R + [
    ("let og_dlgs: Vec<_> = self.members.values().flatten().cloned().collect();", "let og_dlgs: Vec<SD> = all_held(&self.members); let ghost og = og_dlgs@;"),
    ("let mut revocations = vec![];", "let mut revocations: Vec<SR> = vec![];"), ("let mut redelegations = vec![];", "let mut redelegations: Vec<SD> = vec![];"),
    ("self.members().get(&member_to_remove).map(|ne| $b).unwrap_or_default()", "listed_or_none(self.members().get(&member_to_remove), |ne: &NonEmpty| -> (b: Vec<SD>) ensures b@ == ne@, b@.len() > 0 { $b })"),
    ("Vec::<_>::from(ne.clone())", "ne.list()"),
    ("for mem_dlg in member_dlgs.clone().iter() {", "let ml = member_dlgs.clone().list(); let ghost mls = ml@; for mem_dlg in ml.iter() {", "must"),
    ("for ancestor in to_revoke.payload().proof_lineage() {", "let mut line = to_revoke.payload().proof_lineage(); let ghost lin = line@; proof { assert(lin.skip(0) =~= lin); } while let Some(ancestor) = pull(&mut line) {", "must"),
    ("for mid in self.members.keys() {", "let mut todo = key_list(&self.members); let ghost ids = todo@; proof { assert(ids.skip(0) =~= ids); } while let Some(mid) = pull(&mut todo) {", "must"),
    ("sub_access.min(&dlg.payload.can)", "min_of(sub_access, &dlg.payload.can)"),
    ("cgka_ops.extend(update.cgka_ops);", "take_in(&mut cgka_ops, update.cgka_ops);"), ("let mut cgka_ops = Vec::new();", "let mut cgka_ops: Vec<COp> = Vec::new(); proof { assert(covers(revocations@, all_to_revoke@[0])); assert(rlog(revocations@).len() > 0); assert(log(self.state).len() > log(g0.state).len()); assert(is_shown(*self)); }", "must"),
    ("&vk.into()", "&Identifier(vk)"), ('.expect($x)', ".unwrap()"),
    ("found = true;", "found = true; " + SYNC), ("break;", SYNC + " break;"),
    ("let mut found = false;", "let mut found = false; let ghost upto = it.index@ as int;", "must"),
    ], wrap="impl Group", pre="let ghost g0 = *self; let ghost mut g1 = *self; let ghost mut gs = *self; let ghost mut ns: int = 0; let ghost mut v1: Seq<SR> = Seq::empty(); proof { q_all2(); empty_logs(); assert(v1.take(0) =~= v1); }",
    loops=[("for", "it", "invariant " + INV + ", " + EACH + ", vk == gkey(g0)", BEGIN, SYNC),
        ("for", "it", "invariant vk != gkey(g0), " + INV + ", " + EACH, BEGIN, ""),
        ("for", "it3", "invariant " + INV + ", " + KEEP + ", gs.members@.dom().contains(Identifier(vk)), mls == gs.members@[Identifier(vk)]@, it3.seq().len() == mls.len(), forall|i: int| 0 <= i < mls.len() ==> *(#[trigger] it3.seq()[i]) == mls[i]", "proof { let q = mls[it3.index@ as int]; assert(*mem_dlg == q); assert(mls.contains(q)); assert(held(gs, Identifier(vk), q)); }", ""),
        ("while", None, "invariant_except_break line@ == lin.skip(lin.len() - line@.len()), forall|i: int| 0 <= i < lin.len() - line@.len() ==> (#[trigger] lin[i]).issuer != vk invariant lin == lineage(to_revoke.payload), line@.len() <= lin.len(), " + INV + ", " + KEEP + " ensures found || (forall|i: int| 0 <= i < lin.len() ==> (#[trigger] lin[i]).issuer != vk) decreases line@.len()",
         "proof { let nn = lin.len() - line@.len() - 1; let w = seq![ancestor] + line@; assert(w == lin.skip(nn)); assert(w[0] == lin[nn]); assert(lin.contains(lin[nn])); assert(line@ =~= lin.skip(nn + 1)) by { assert forall|i: int| 0 <= i < line@.len() implies line@[i] == lin.skip(nn + 1)[i] by { assert(w[i + 1] == lin.skip(nn)[i + 1]); } } }", ""),
        ("while", None, "invariant_except_break !found, todo@ == ids.skip(ids.len() - todo@.len()), forall|i: int| 0 <= i < ids.len() ==> self.members@.dom().contains(*(#[trigger] ids[i])) invariant todo@.len() <= ids.len(), signer_id == Identifier(vk), " + INV + ", " + KEEP + " decreases todo@.len()",
         "let ghost nn = ids.len() - todo@.len() - 1; proof { let w = seq![mid] + todo@; assert(w == ids.skip(nn)); assert(w[0] == ids[nn]); assert(todo@ =~= ids.skip(nn + 1)) by { assert forall|i: int| 0 <= i < todo@.len() implies todo@[i] == ids.skip(nn + 1)[i] by { assert(w[i + 1] == ids.skip(nn)[i + 1]); } } }", ""),
        ("for", "it", "invariant " + INV + ", all_covered(all_to_revoke@, revocations@)", "", ""),
        ("for", "it7", "invariant q_ok(), g0 == *old(self), vk == signer.vk, self.the_id == g0.the_id, is_shown(*self), all_sound(g0, vk, member_to_remove, revocations@), all_covered(all_to_revoke@, revocations@), all_to_revoke@ == doomed(g0, member_to_remove), log(self.state) == log(g0.state) + rlog(revocations@) + dlog(redelegations@), only_kept(g0, vk, member_to_remove, redelegations@), og_dlgs@ == og, held_by(g0, og), it7.seq().len() == og.len(), forall|i: int| 0 <= i < og.len() ==> *(#[trigger] it7.seq()[i]) == og[i], forall|i: int| 0 <= i < it7.index@ && hangs(#[trigger] og[i], member_to_remove) ==> kept(redelegations@, og[i])",
         "let ghost r0 = redelegations@; let ghost gl = log(self.state); proof { let q = og[it7.index@ as int]; assert(*dlg == q); assert(in_any(g0.members@, q)); }",
         "proof { if redelegations@.len() > r0.len() { let x = redelegations@.last(); assert(redelegations@ =~= r0.push(x)); kept_more(r0, x); dlog_more(r0, x); assert(same_terms(x, *dlg)); assert(kept_one(g0, member_to_remove, x)); assert(log(self.state) =~= log(g0.state) + rlog(revocations@) + dlog(redelegations@)); } }"),
    ])
remove = Unit("remove", PRELUDE + REMOVE, [recv_d, recv_r, add, build, revoke])
