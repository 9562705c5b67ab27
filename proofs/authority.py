"""P02, P03: what a group accepts as delegation or revocation."""
from vp.verus import Fn, Unit
from . import core

PRELUDE = core.std("ax_identifier::key_model") + core.ACCESS + core.IDS + r"""
#[verifier::external_body] pub struct Membered { x: u64 }
pub struct Agent { pub the_id: Identifier, pub members: Option<Membered> }
impl Agent {
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.the_id.0 { self.the_id.0 }
    pub fn id(&self) -> (r: Identifier) ensures r == self.the_id { self.the_id }
    pub fn as_membered(&self) -> (r: Option<&Membered>) ensures r is Some == self.members is Some, r is Some ==> *r->0 == self.members->0 { self.members.as_ref() }
}
/// access of an identifier in a group or document, not going through `outside` (decided by P04)
pub uninterp spec fn access_in(m: Membered, outside: Identifier, id: Identifier) -> Option<Access>;
#[verifier::external_body] pub struct Transitive { x: u64 }
pub uninterp spec fn tmap(t: Transitive, id: Identifier) -> Option<Access>;
impl Transitive {
    #[verifier::external_body] pub fn get(&self, id: &Identifier) -> (r: Option<&((), Access)>)
        ensures r is Some == tmap(*self, *id) is Some, r is Some ==> (*r->0).1 == tmap(*self, *id)->0 { unimplemented!() }
}
impl Membered {
    #[verifier::external_body] pub fn transitive_members_outside(&self, s: Identifier) -> (r: Transitive)
        ensures forall|i: Identifier| tmap(r, i) == #[trigger] access_in(*self, s, i) { unimplemented!() }
}
pub open spec fn through(subject: Identifier, holder: Agent, id: Identifier, min: Access) -> bool {
    holder.members is Some && access_in(holder.members->0, subject, id) is Some && lvl(access_in(holder.members->0, subject, id)->0) >= lvl(min)
}
""" + core.MEMBERSHIP + r"""
impl Signed<Revocation> {
    pub fn subject_id(&self) -> (r: Identifier) ensures r.0 == root_key(*self.payload.revoke) { self.payload.revoke.subject_id() }
}
pub proof fn links_of_authorised(subject: Identifier, d: Signed<Delegation>)
    requires authorised(subject, d)
    ensures root_key(d) == subject.0, forall|i: int| 0 <= i < full(d).len() - 1 ==> link_ok(subject, #[trigger] full(d)[i], full(d)[i + 1])
    decreases d
{
    lemma_root(subject, d);
    chain_step(d.payload);
    if d.payload.proof is Some {
        let p = prf(d.payload);
        links_of_authorised(subject, p);
        assert forall|i: int| 0 <= i < full(d).len() - 1 implies link_ok(subject, #[trigger] full(d)[i], full(d)[i + 1]) by {
            if i > 0 { assert(full(d)[i] == full(p)[i - 1]); assert(full(d)[i + 1] == full(p)[i]); assert(link_ok(subject, full(p)[i - 1], full(p)[i])); }
        }
    }
}
#[verifier::external_body] pub struct Digest { x: u64 }
pub uninterp spec fn dig<P>(p: Signed<P>) -> Digest;
/// content-addressed stores as sets (the map itself is decided by P17)
#[verifier::external_body] #[verifier::reject_recursive_types(P)] pub struct Store<P> { x: std::marker::PhantomData<P> }
impl<P> Store<P> {
    pub uninterp spec fn view(&self) -> Set<Signed<P>>;
    #[verifier::external_body] pub fn insert(&mut self, d: Arc<Signed<P>>) -> (r: Digest) ensures final(self)@ == old(self)@.insert(*d), r == dig(*d) { unimplemented!() }
    #[verifier::external_body] pub fn remove_by_hash(&mut self, h: &Digest) -> (r: Option<Arc<Signed<P>>>)
        ensures forall|x: Signed<P>| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) && dig(x) != *h { unimplemented!() }
    #[verifier::external_body] pub fn entries(&self) -> (r: Vec<(Digest, Arc<Signed<P>>)>)
        ensures forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).0 == dig(*r@[i].1) && self@.contains(*r@[i].1),
                forall|x: Signed<P>| #[trigger] self@.contains(x) ==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).1 == x { unimplemented!() }
    #[verifier::external_body] pub fn contains_value(&self, v: &Signed<P>) -> (r: bool) ensures r ==> exists|x: Signed<P>| #[trigger] self@.contains(x) && dig(x) == dig(*v) { unimplemented!() }
}
/// Arc<Mutex<Store>>: sequential reading of lock()
#[verifier::reject_recursive_types(P)] pub struct Shared<P> { pub s: Store<P> }
impl<P> Shared<P> { pub fn lock(&mut self) -> (r: &mut Store<P>) ensures *r == old(self).s, final(self).s == *final(r) { &mut self.s } }
pub type DelegationStore = Store<Delegation>;
pub type RevocationStore = Store<Revocation>;
/// distinct operations have distinct digests
pub open spec fn no_collisions<P>() -> bool { forall|a: Signed<P>, b: Signed<P>| dig(a) == dig(b) ==> a == b }
#[verifier::external_body]
pub proof fn ax_no_collisions<P>() ensures no_collisions::<P>() {}

#[verifier::external_body] pub fn contains_rev(v: &Vec<Arc<Signed<Revocation>>>, r: &Arc<Signed<Revocation>>) -> (b: bool)
    ensures b == exists|i: int| 0 <= i < v@.len() && same(*(#[trigger] v@[i]), **r) { unimplemented!() }

/// std::iter::once(a).chain(b.iter().map(as_ref)).zip(b.iter()), evaluated eagerly
pub fn links<'a>(first: &'a Signed<Delegation>, rest: &'a Vec<Arc<Signed<Delegation>>>) -> (r: Vec<(&'a Signed<Delegation>, &'a Arc<Signed<Delegation>>)>)
    ensures r@.len() == rest@.len(),
            forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == rest@[i] && *r@[i].0 == (if i == 0 { *first } else { *rest@[i - 1] })
{
    let mut out: Vec<(&Signed<Delegation>, &Arc<Signed<Delegation>>)> = Vec::new();
    let mut prev = first;
    let mut k = 0usize;
    while k < rest.len()
        invariant k <= rest@.len(), out@.len() == k,
            *prev == (if k == 0 { *first } else { *rest@[k - 1] }),
            forall|i: int| 0 <= i < k ==> (#[trigger] out@[i]).1 == rest@[i] && *out@[i].0 == (if i == 0 { *first } else { *rest@[i - 1] })
        decreases rest@.len() - k
    { out.push((prev, &rest[k])); prev = &rest[k]; k += 1; }
    out
}

pub proof fn rests_step(d: Delegation, a: Signed<Delegation>)
    ensures d.proof is None ==> !rests_on(d, a),
            d.proof is Some ==> rests_on(d, a) == (same(prf(d), a) || rests_on(prf(d).payload, a))
{
    chain_step(d);
    if d.proof is Some {
        let p = prf(d);
        if same(p, a) { assert(chain(d)[0] == p); }
        if rests_on(p.payload, a) { let i = choose|i: int| 0 <= i < chain(p.payload).len() && same(#[trigger] chain(p.payload)[i], a); assert(chain(d)[i + 1] == chain(p.payload)[i]); }
        if rests_on(d, a) { let i = choose|i: int| 0 <= i < chain(d).len() && same(#[trigger] chain(d)[i], a); if i > 0 { assert(chain(p.payload)[i - 1] == chain(d)[i]); } }
    }
}
pub open spec fn tgt<P>(a: Arc<Signed<P>>) -> Signed<P> { *a }
pub open spec fn size(d: Signed<Delegation>) -> nat { chain(d.payload).len() }
pub open spec fn pay<P>(a: Signed<P>) -> P { a.payload }
pub open spec fn cp<P>(a: Signed<P>) -> Signed<P> { a }
/// nothing rests on itself: signatures don't repeat along a chain
pub open spec fn acyclic(d: Signed<Delegation>) -> bool { !rests_on(d.payload, d) }
pub open spec fn after(d: Delegation, r: Signed<Revocation>) -> bool { exists|i: int| 0 <= i < d.after_revocations@.len() && same(*(#[trigger] d.after_revocations@[i]), r) }
pub enum AddError { InvalidSubject(Box<Identifier>), Escelation { claimed: Access, proof: Access }, InvalidProofChain }
pub struct GroupState { pub id: GroupId, pub delegations: Shared<Delegation>, pub delegation_heads: DelegationStore, pub revocations: Shared<Revocation>, pub revocation_heads: RevocationStore }
impl GroupState {
    pub fn id(&self) -> (r: Identifier) ensures r == self.id.0 { self.id.0 }
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.id.0.0 { self.id.0.0 }
}

/// heads after a delegation was taken in
pub open spec fn heads_after(h0: Set<Signed<Delegation>>, r0: Set<Signed<Revocation>>, d: Signed<Delegation>, h1: Set<Signed<Delegation>>, r1: Set<Signed<Revocation>>) -> bool {
    &&& forall|x: Signed<Delegation>| #[trigger] h1.contains(x) <==>
            (x == d && exists|h: Signed<Delegation>| #[trigger] h0.contains(h) && !rests_on(h.payload, d))
            || (h0.contains(x) && !rests_on(d.payload, x))
    &&& forall|x: Signed<Revocation>| #[trigger] r1.contains(x) <==> r0.contains(x) && !after(d.payload, x)
}

/// one link: no more access than the proof, issued by its holder or by someone who acts through the holder
pub open spec fn link_ok(subject: Identifier, head: Signed<Delegation>, proof: Signed<Delegation>) -> bool {
    lvl(head.payload.can) <= lvl(proof.payload.can)
    && (head.issuer == proof.payload.delegate.the_id.0 || through(subject, proof.payload.delegate, Identifier(head.issuer), head.payload.can))
}
/// the whole chain down to a delegation issued with the key of the group itself
pub open spec fn authorised(subject: Identifier, d: Signed<Delegation>) -> bool decreases d {
    match d.payload.proof { None => d.issuer == subject.0, Some(p) => link_ok(subject, d, *p) && authorised(subject, *p) }
}
pub open spec fn full(d: Signed<Delegation>) -> Seq<Signed<Delegation>> { seq![d] + chain(d.payload) }
pub proof fn authorised_from_links(subject: Identifier, d: Signed<Delegation>)
    requires root_key(d) == subject.0, forall|i: int| 0 <= i < full(d).len() - 1 ==> link_ok(subject, #[trigger] full(d)[i], full(d)[i + 1])
    ensures authorised(subject, d)
    decreases d
{
    match d.payload.proof {
        None => {}
        Some(p) => {
            chain_step(d.payload);
            assert(full(d)[0] == d && full(d)[1] == *p);
            assert(link_ok(subject, full(d)[0], full(d)[1]));
            assert forall|i: int| 0 <= i < full(*p).len() - 1 implies link_ok(subject, #[trigger] full(*p)[i], full(*p)[i + 1]) by {
                assert(full(*p)[i] == full(d)[i + 1]);
                assert(full(*p)[i + 1] == full(d)[i + 2]);
                assert(link_ok(subject, full(d)[i + 1], full(d)[i + 2]));
            }
            authorised_from_links(subject, prf(d.payload));
        }
    }
}
/// every delegation in an authorised chain is bounded by each one it rests on
pub proof fn lemma_no_escalation(subject: Identifier, d: Signed<Delegation>, i: int)
    requires authorised(subject, d), 0 <= i < chain(d.payload).len()
    ensures lvl(d.payload.can) <= lvl(chain(d.payload)[i].payload.can)
    decreases d
{
    chain_step(d.payload);
    let p = prf(d.payload);
    if i > 0 { lemma_no_escalation(subject, p, i - 1); assert(chain(d.payload)[i] == chain(p.payload)[i - 1]); }
}
/// the root of an authorised chain was issued with the group's key
pub proof fn lemma_root(subject: Identifier, d: Signed<Delegation>)
    requires authorised(subject, d)
    ensures root_key(d) == subject.0
    decreases d
{ if d.payload.proof is Some { lemma_root(subject, prf(d.payload)); } }

/// who may revoke `r.revoke`
pub open spec fn may_revoke(subject: Identifier, r: Signed<Revocation>) -> bool {
    root_key(*r.payload.revoke) == subject.0 && match r.payload.proof {
        None => r.issuer == subject.0,
        Some(p) => authorised(subject, *p) && (
            ((same(*r.payload.revoke, *p) || rests_on(r.payload.revoke.payload, *p)) && (r.issuer == p.issuer || r.issuer == p.payload.delegate.the_id.0))
            || (lvl(p.payload.can) >= lvl(r.payload.revoke.payload.can) && through(subject, p.payload.delegate, Identifier(r.issuer), r.payload.revoke.payload.can))),
    }
}
"""
# P06: what is below the heads is what has been received, whatever order it came in
CONVERGE = r"""
pub enum Op { D(Signed<Delegation>), R(Signed<Revocation>) }
/// what an operation names
pub open spec fn names(o: Op, p: Op) -> bool { match o {
    Op::D(d) => (d.payload.proof is Some && p == Op::D(prf(d.payload))) || exists|i: int| 0 <= i < d.payload.after_revocations@.len() && p == Op::R(*(#[trigger] d.payload.after_revocations@[i])),
    Op::R(r) => p == Op::D(*r.payload.revoke) || (r.payload.proof is Some && p == Op::D(rproof(r))) } }
pub open spec fn rproof(r: Signed<Revocation>) -> Signed<Delegation> { *(r.payload.proof->0) }
pub open spec fn closed_down(c: ISet<Op>) -> bool { forall|o: Op, p: Op| c.contains(o) && #[trigger] names(o, p) ==> c.contains(p) }
pub open spec fn holds_heads(h: Set<Signed<Delegation>>, r: Set<Signed<Revocation>>, c: ISet<Op>) -> bool {
    &&& forall|x: Signed<Delegation>| #[trigger] h.contains(x) ==> c.contains(Op::D(x))
    &&& forall|x: Signed<Revocation>| #[trigger] r.contains(x) ==> c.contains(Op::R(x)) }
/// at or below some head
pub open spec fn below(h: Set<Signed<Delegation>>, r: Set<Signed<Revocation>>, o: Op) -> bool { forall|c: ISet<Op>| #[trigger] closed_down(c) && holds_heads(h, r, c) ==> c.contains(o) }
/// `s` is what has been received: with everything it names, all of it at or below the heads
pub open spec fn tracks(s: ISet<Op>, h: Set<Signed<Delegation>>, r: Set<Signed<Revocation>>) -> bool {
    closed_down(s) && holds_heads(h, r, s) && (exists|x: Signed<Delegation>| #[trigger] h.contains(x)) && forall|o: Op| #[trigger] s.contains(o) ==> below(h, r, o) }
/// a signature belongs to one operation
pub open spec fn signed_once() -> bool { (forall|a: Signed<Delegation>, b: Signed<Delegation>| #[trigger] same(a, b) ==> a == b) && (forall|a: Signed<Revocation>, b: Signed<Revocation>| #[trigger] same(a, b) ==> a == b) }
pub open spec fn depth(d: Signed<Delegation>) -> nat { chain(d.payload).len() }
pub proof fn deeper(d: Signed<Delegation>, i: int) requires 0 <= i < chain(d.payload).len() ensures depth(chain(d.payload)[i]) < depth(d) decreases d
{ chain_step(d.payload); let p = prf(d.payload); if i > 0 { assert(chain(d.payload)[i] == chain(p.payload)[i - 1]); deeper(prf(d.payload), i - 1); } else { assert(chain(d.payload)[0] == p); } }
pub proof fn under(c: ISet<Op>, d: Signed<Delegation>, i: int) requires closed_down(c), c.contains(Op::D(d)), 0 <= i < chain(d.payload).len() ensures c.contains(Op::D(chain(d.payload)[i])) decreases d
{ chain_step(d.payload); let p = prf(d.payload); assert(names(Op::D(d), Op::D(p))); if i > 0 { assert(chain(d.payload)[i] == chain(p.payload)[i - 1]); under(c, prf(d.payload), i - 1); } else { assert(chain(d.payload)[0] == p); } }
pub proof fn rests_shallow(a: Signed<Delegation>, b: Signed<Delegation>) requires signed_once(), rests_on(a.payload, b) ensures depth(b) < depth(a)
{ let i = choose|i: int| 0 <= i < chain(a.payload).len() && same(#[trigger] chain(a.payload)[i], b); deeper(a, i); }
/// taking a delegation in keeps everything received at or below the heads
pub proof fn took_delegation(s: ISet<Op>, h0: Set<Signed<Delegation>>, r0: Set<Signed<Revocation>>, d: Signed<Delegation>, h1: Set<Signed<Delegation>>, r1: Set<Signed<Revocation>>)
    requires signed_once(), tracks(s, h0, r0), heads_after(h0, r0, d, h1, r1), forall|p: Op| #[trigger] names(Op::D(d), p) ==> s.contains(p)
    ensures tracks(s.insert(Op::D(d)), h1, r1), acyclic(d)
{
    let s1 = s.insert(Op::D(d));
    if rests_on(d.payload, d) { rests_shallow(d, d); }
    let h = choose|x: Signed<Delegation>| #[trigger] h0.contains(x);
    if forall|x: Signed<Delegation>| #[trigger] h0.contains(x) ==> rests_on(x.payload, d) {
        assert(rests_on(h.payload, d)); rests_shallow(h, d); if rests_on(d.payload, h) { rests_shallow(d, h); } assert(h1.contains(h));
    } else { assert(h1.contains(d)); }
    assert forall|c: ISet<Op>| #[trigger] closed_down(c) && holds_heads(h1, r1, c) implies c.contains(Op::D(d)) && holds_heads(h0, r0, c) by {
        if !h1.contains(d) { assert(h1.contains(h)); assert(rests_on(h.payload, d)); let i = choose|i: int| 0 <= i < chain(h.payload).len() && same(#[trigger] chain(h.payload)[i], d); under(c, h, i); }
        assert forall|x: Signed<Delegation>| #[trigger] h0.contains(x) implies c.contains(Op::D(x)) by { if rests_on(d.payload, x) { let i = choose|i: int| 0 <= i < chain(d.payload).len() && same(#[trigger] chain(d.payload)[i], x); under(c, d, i); } else { assert(h1.contains(x)); } }
        assert forall|x: Signed<Revocation>| #[trigger] r0.contains(x) implies c.contains(Op::R(x)) by { if after(d.payload, x) { let i = choose|i: int| 0 <= i < d.payload.after_revocations@.len() && same(*(#[trigger] d.payload.after_revocations@[i]), x); assert(names(Op::D(d), Op::R(x))); } else { assert(r1.contains(x)); } }
    }
    assert forall|o: Op| #[trigger] s1.contains(o) implies below(h1, r1, o) by { assert forall|c: ISet<Op>| #[trigger] closed_down(c) && holds_heads(h1, r1, c) implies c.contains(o) by { if o != Op::D(d) { assert(below(h0, r0, o)); } } }
    assert(closed_down(s1));
}
/// so does taking a revocation in
pub proof fn took_revocation(s: ISet<Op>, h0: Set<Signed<Delegation>>, r0: Set<Signed<Revocation>>, r: Signed<Revocation>)
    requires tracks(s, h0, r0), forall|p: Op| #[trigger] names(Op::R(r), p) ==> s.contains(p)
    ensures tracks(s.insert(Op::R(r)), h0, r0.insert(r))
{
    let r1 = r0.insert(r); let s1 = s.insert(Op::R(r));
    assert forall|o: Op| #[trigger] s1.contains(o) implies below(h0, r1, o) by { assert forall|c: ISet<Op>| #[trigger] closed_down(c) && holds_heads(h0, r1, c) implies c.contains(o) by {
        assert(r1.contains(r)); assert(holds_heads(h0, r0, c)) by { assert forall|x: Signed<Revocation>| #[trigger] r0.contains(x) implies c.contains(Op::R(x)) by { assert(r1.contains(x)); } }
        if o != Op::R(r) { assert(below(h0, r0, o)); } } }
    assert(closed_down(s1));
}
/// a group starts with the delegation its key issued
pub proof fn at_first(d: Signed<Delegation>, h: Set<Signed<Delegation>>, r: Set<Signed<Revocation>>) requires h == Set::<Signed<Delegation>>::empty().insert(d), r == Set::<Signed<Revocation>>::empty(), forall|p: Op| !#[trigger] names(Op::D(d), p)
    ensures tracks(ISet::<Op>::empty().insert(Op::D(d)), h, r) { assert(h.contains(d)); assert(closed_down(ISet::<Op>::empty().insert(Op::D(d)))); }
/// two replicas that have received the same operations have the same operations below their heads
pub proof fn same_history(s: ISet<Op>, h: Set<Signed<Delegation>>, r: Set<Signed<Revocation>>, g: Set<Signed<Delegation>>, q: Set<Signed<Revocation>>)
    requires tracks(s, h, r), tracks(s, g, q) ensures forall|o: Op| #[trigger] below(h, r, o) <==> below(g, q, o), forall|o: Op| #[trigger] below(h, r, o) <==> s.contains(o)
{ assert forall|o: Op| #[trigger] below(h, r, o) <==> s.contains(o) by {} assert forall|o: Op| #[trigger] below(g, q, o) <==> s.contains(o) by {} }
"""
R = [(".dupe()", ".clone()")]
LINKS = [
    ("let heads = std::iter::once($a.as_ref()).chain($b.iter().map(|p| p.as_ref()));", ""),
    ("for ($h, $p) in heads.zip(lineage.iter())", "for ($h, $p) in links(FIRST, &lineage)"),
]
DP = "keyhive_core/src/principal/group/delegation.rs"
ST = "keyhive_core/src/principal/group/state.rs"
SX = "keyhive_core/src/crypto/signed_ext.rs"

subject_id = Fn(SX, "SignedSubjectId for Signed ~Delegation", "subject_id", "pub fn subject_id(&self) -> (r: Identifier) ensures r.0 == root_key(*self)",
                ["self"], loops=[("while", None, "invariant root_key(*head) == root_key(*self)\n ensures root_key(*head) == root_key(*self), head.payload.proof is None\n decreases *head")],
                wrap="impl Signed<Delegation>")
proof_lineage = Fn(DP, "Delegation", "proof_lineage", "pub fn proof_lineage(&self) -> (r: Vec<Arc<Signed<Delegation>>>) ensures unarc(r@) =~= chain(*self)",
                   ["self"], R, loops=[("while", None, "invariant unarc(lineage@) + chain(*head) =~= chain(*self)\n ensures unarc(lineage@) =~= chain(*self)\n decreases *head")],
                   wrap="impl Delegation")

is_desc = Fn(DP, "Delegation", "is_descendant_of", "pub fn is_descendant_of(&self, maybe_ancestor: &Signed<Delegation>) -> (r: bool) ensures r == rests_on(*self, *maybe_ancestor)",
             ["self", "maybe_ancestor"], R, loops=[("while", None,
             "invariant rests_on(*self, *maybe_ancestor) == rests_on(*head, *maybe_ancestor)\n"
             "ensures !rests_on(*self, *maybe_ancestor)\n decreases *head", "proof { rests_step(*head, *maybe_ancestor); }")],
             post="", wrap="impl Delegation")

OK_D = """
    requires acyclic(*delegation)
    ensures
        r is Ok ==> authorised(old(self).id.0, *delegation) && final(self).delegations.s@ == old(self).delegations.s@.insert(*delegation),
        r is Err ==> final(self).delegations.s@ == old(self).delegations.s@ && final(self).delegation_heads@ == old(self).delegation_heads@ && final(self).revocation_heads@ == old(self).revocation_heads@,
        // refused only with a reason
        r is Err ==> !authorised(old(self).id.0, *delegation),
        // the heads afterwards: the old ones the new delegation does not rest on, and the new one
        r is Ok ==> heads_after(old(self).delegation_heads@, old(self).revocation_heads@, *delegation, final(self).delegation_heads@, final(self).revocation_heads@),
        final(self).id == old(self).id, final(self).revocations == old(self).revocations
"""
transitive = Fn(ST, None, "is_transitive_member_of", """fn is_transitive_member_of(subject_id: Identifier, delegate: &Agent, member_id: Identifier, min_access: Access) -> (r: bool)
    ensures r == through(subject_id, *delegate, member_id, min_access)""", ["subject_id", "delegate", "member_id", "min_access"],
    R + [(".map(|(_, access)| *access >= $m)", ".map(|p: &((), Access)| -> (b: bool) ensures b == (lvl(p.1) >= lvl($m)) { p.1 >= $m })")])
HEADS1 = """invariant acyclic(*delegation), no_collisions::<Delegation>(), self.id == old(self).id, self.delegations == old(self).delegations, self.revocations == old(self).revocations, self.revocation_heads == old(self).revocation_heads,
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == dig(*it.seq()[i].1) && old(self).delegation_heads@.contains(*it.seq()[i].1),
    forall|x: Signed<Delegation>| #[trigger] old(self).delegation_heads@.contains(x) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).1 == x,
    forall|x: Signed<Delegation>| #[trigger] self.delegation_heads@.contains(x) <==>
        (x == *delegation && exists|i: int| 0 <= i < it.index@ && !rests_on((#[trigger] it.seq()[i]).1.payload, *delegation))
        || (old(self).delegation_heads@.contains(x) && !exists|i: int| 0 <= i < it.index@ && *(#[trigger] it.seq()[i]).1 == x && rests_on(delegation.payload, x)),"""
HEADS2 = """invariant no_collisions::<Revocation>(), self.id == old(self).id, self.delegations == old(self).delegations, self.revocations == old(self).revocations,
    forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).0 == dig(*it.seq()[i].1) && old(self).revocation_heads@.contains(*it.seq()[i].1),
    forall|x: Signed<Revocation>| #[trigger] old(self).revocation_heads@.contains(x) ==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).1 == x,
    forall|x: Signed<Revocation>| #[trigger] self.revocation_heads@.contains(x) <==>
        old(self).revocation_heads@.contains(x) && !exists|i: int| 0 <= i < it.index@ && *(#[trigger] it.seq()[i]).1 == x && after(delegation.payload, x),"""
add_delegation = Fn(ST, "GroupState", "add_delegation", "fn add_delegation(&mut self, delegation: Arc<Signed<Delegation>>) -> (r: Result<Digest, AddError>)" + OK_D,
    ["self", "delegation"], R + [
        ("let heads = std::iter::once($a.as_ref()).chain($b.iter().map(|p| p.as_ref()));", ""),
        ("in heads.zip(lineage.iter())", "in links(delegation.as_ref(), &lineage)"),
        ("self.$$f.clone().iter()", "self.$f.entries()"),
        ("delegation.payload.after_revocations.contains(head)", "contains_rev(&delegation.payload.after_revocations, &head)"),
        ("remove_by_hash(head_digest)", "remove_by_hash(&head_digest)"),
        ("is_descendant_of(head)", "is_descendant_of(&head)"),
    ], pre="""proof {
        chain_step(tgt(delegation).payload); ax_no_collisions::<Delegation>(); ax_no_collisions::<Revocation>();
        assert(authorised(self.id.0, *delegation) ==> (root_key(*delegation) == self.id.0.0 && forall|i: int| 0 <= i < full(*delegation).len() - 1 ==> link_ok(self.id.0, #[trigger] full(*delegation)[i], full(*delegation)[i + 1]))) by { if authorised(self.id.0, *delegation) { links_of_authorised(self.id.0, tgt(delegation)); } }
        assert((root_key(*delegation) == self.id.0.0 && forall|i: int| 0 <= i < full(*delegation).len() - 1 ==> link_ok(self.id.0, #[trigger] full(*delegation)[i], full(*delegation)[i + 1])) ==> authorised(self.id.0, *delegation)) by {
          if root_key(*delegation) == self.id.0.0 && forall|i: int| 0 <= i < full(*delegation).len() - 1 ==> link_ok(self.id.0, #[trigger] full(*delegation)[i], full(*delegation)[i + 1]) { authorised_from_links(self.id.0, tgt(delegation)); } }
    }""", loops=[
        ("for", "it", """invariant *self == *old(self), unarc(lineage@) =~= chain(delegation.payload), root_key(*delegation) == self.id.0.0,
            it.seq().len() == lineage@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1 == lineage@[i] && *it.seq()[i].0 == full(*delegation)[i] && **it.seq()[i].1 == full(*delegation)[i + 1],
            forall|i: int| 0 <= i < it.index@ ==> link_ok(self.id.0, #[trigger] full(*delegation)[i], full(*delegation)[i + 1]),
            authorised(self.id.0, *delegation) ==> forall|i: int| 0 <= i < full(*delegation).len() - 1 ==> link_ok(self.id.0, #[trigger] full(*delegation)[i], full(*delegation)[i + 1])""",
            "proof { let k = it.index@ as int; assert(it.seq()[k] == it.seq()[k]); assert(full(*delegation)[k] == *head); assert(full(*delegation)[k + 1] == **proof); assert(full(*delegation).len() == lineage@.len() + 1) by { assert(unarc(lineage@).len() == lineage@.len()); } assert(authorised(self.id.0, *delegation) ==> link_ok(self.id.0, full(*delegation)[k], full(*delegation)[k + 1])); }"),
        ("for", "it", HEADS1, "let ghost pre_heads = self.delegation_heads@; let ghost k = it.index@ as int; proof { assert(*it.seq()[k].1 == *head); }", """proof {
            assert forall|x: Signed<Delegation>| #[trigger] self.delegation_heads@.contains(x) implies
                (x == *delegation && exists|i: int| 0 <= i < k + 1 && !rests_on((#[trigger] it.seq()[i]).1.payload, *delegation))
                || (old(self).delegation_heads@.contains(x) && !exists|i: int| 0 <= i < k + 1 && *(#[trigger] it.seq()[i]).1 == x && rests_on(delegation.payload, x)) by {
                if pre_heads.contains(x) { }
            }
            assert forall|x: Signed<Delegation>|
                ((x == *delegation && exists|i: int| 0 <= i < k + 1 && !rests_on((#[trigger] it.seq()[i]).1.payload, *delegation))
                || (old(self).delegation_heads@.contains(x) && !exists|i: int| 0 <= i < k + 1 && *(#[trigger] it.seq()[i]).1 == x && rests_on(delegation.payload, x))) implies #[trigger] self.delegation_heads@.contains(x) by {
                if x == *delegation && !pre_heads.contains(x) { assert(!rests_on(it.seq()[k].1.payload, *delegation)); }
            }
        }"""), ("for", "it", HEADS2, "let ghost k = it.index@ as int; proof { assert(*it.seq()[k].1 == *head); }")],
    wrap="impl GroupState")

authority = Unit("authority", PRELUDE, [subject_id, proof_lineage, is_desc, transitive, add_delegation], tail="")

PRE_R = """proof {
        ax_no_collisions::<Delegation>();
        if tgt(revocation).payload.proof is Some {
            let p = *(tgt(revocation).payload.proof->0);
            chain_step(pay(p));
            let links = forall|i: int| 0 <= i < full(p).len() - 1 ==> link_ok(self.id.0, #[trigger] full(p)[i], full(p)[i + 1]);
            assert(authorised(self.id.0, p) ==> root_key(p) == self.id.0.0 && links) by { if authorised(self.id.0, p) { links_of_authorised(self.id.0, cp(p)); } }
            assert(root_key(p) == self.id.0.0 && links ==> authorised(self.id.0, p)) by { if root_key(p) == self.id.0.0 && links { authorised_from_links(self.id.0, cp(p)); } }
        }
    }"""
add_revocation = Fn(ST, "GroupState", "add_revocation", """fn add_revocation(&mut self, revocation: Arc<Signed<Revocation>>) -> (r: Result<Digest, AddError>)
    ensures
        r is Ok ==> may_revoke(old(self).id.0, *revocation) && final(self).revocations.s@ == old(self).revocations.s@.insert(*revocation)
            && final(self).revocation_heads@ == old(self).revocation_heads@.insert(*revocation),
        r is Err ==> *final(self) == *old(self),
        r is Err ==> !may_revoke(old(self).id.0, *revocation),
        final(self).id == old(self).id, final(self).delegations == old(self).delegations, final(self).delegation_heads == old(self).delegation_heads""",
    ["self", "revocation"], R + [
        ("let heads = std::iter::once($a.as_ref()).chain($b.iter().map(|p| p.as_ref()));", ""),
        ("in heads.zip(lineage.iter())", "in links(proof.as_ref(), &lineage)"),
        ("*revoke == *proof", "(**revoke == **proof)"),
    ], pre=PRE_R, loops=[
        ("for", "it", """invariant *self == *old(self), revocation.payload.proof == Some(*proof), unarc(lineage@) =~= chain(proof.payload), root_key(**proof) == self.id.0.0,
            it.seq().len() == lineage@.len(),
            forall|i: int| 0 <= i < it.seq().len() ==> (#[trigger] it.seq()[i]).1 == lineage@[i] && *it.seq()[i].0 == full(**proof)[i] && **it.seq()[i].1 == full(**proof)[i + 1],
            forall|i: int| 0 <= i < it.index@ ==> link_ok(self.id.0, #[trigger] full(**proof)[i], full(**proof)[i + 1]),
            authorised(self.id.0, **proof) ==> forall|i: int| 0 <= i < full(**proof).len() - 1 ==> link_ok(self.id.0, #[trigger] full(**proof)[i], full(**proof)[i + 1])""",
            "proof { let k = it.index@ as int; assert(full(**proof)[k] == *head); assert(full(**proof)[k + 1] == **next_proof); assert(full(**proof).len() == lineage@.len() + 1) by { assert(unarc(lineage@).len() == lineage@.len()); } assert(authorised(self.id.0, **proof) ==> link_ok(self.id.0, full(**proof)[k], full(**proof)[k + 1])); }")],
    wrap="impl GroupState")
is_desc_c = Fn(DP, "Delegation", "is_descendant_of", is_desc.sig, is_desc.params, R, loops=is_desc.loops, wrap="impl Delegation")
revoke_authority = Unit("revoke_authority", PRELUDE, [subject_id, proof_lineage, is_desc, transitive, add_revocation])

converge = Unit("converge", PRELUDE + CONVERGE, [subject_id, proof_lineage, is_desc, transitive, add_delegation, add_revocation])
