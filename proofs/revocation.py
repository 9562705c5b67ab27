"""P05: what a group's members are after revocations."""
from vp.verus import Fn, Unit
from . import core

GP = "keyhive_core/src/principal/group.rs"
PRELUDE = core.std("ax_identifier::key_model", "ax_sigbytes::key_model") + core.ACCESS + core.IDS + core.hashkey("SigBytes") + r"""
pub struct Agent { pub the_id: Identifier }
impl Clone for Agent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Agent {
    pub fn id(&self) -> (r: Identifier) ensures r == self.the_id { self.the_id }
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.the_id.0 { self.the_id.0 }
}
pub uninterp spec fn sb(s: Signature) -> SigBytes;
impl Signature { #[verifier::external_body] pub fn to_bytes(&self) -> (r: SigBytes) ensures r == sb(*self) { unimplemented!() } }
""" + core.MEMBERSHIP + r"""
pub type SD = Arc<Signed<Delegation>>;
pub type SR = Arc<Signed<Revocation>>;
impl Delegation { pub fn delegate(&self) -> (r: &Agent) ensures *r == self.delegate { &self.delegate } }
#[verifier::external_body] #[verifier::reject_recursive_types(P)] pub struct Store<P> { x: std::marker::PhantomData<P> }
#[verifier::external_body] pub struct Digest { x: u64 }
pub enum MembershipOperation { Delegation(SD), Revocation(SR) }
/// all operations below the heads, dependencies last (P21): only the list matters here
pub uninterp spec fn sorted(d: Store<Delegation>, r: Store<Revocation>) -> Seq<(Digest, MembershipOperation)>;
impl MembershipOperation { #[verifier::external_body] pub fn reverse_topsort(d: &Store<Delegation>, r: &Store<Revocation>) -> (v: Vec<(Digest, MembershipOperation)>) ensures v@ == sorted(*d, *r) { unimplemented!() } }
/// a signature identifies the delegation it signs
pub open spec fn distinct(ops: Seq<(Digest, MembershipOperation)>) -> bool {
    forall|i: int, j: int| 0 <= i < ops.len() && 0 <= j < ops.len() && (#[trigger] ops[i]).1 is Delegation && (#[trigger] ops[j]).1 is Delegation
        && sb(ops[i].1->Delegation_0.signature) == sb(ops[j].1->Delegation_0.signature) ==> ops[i].1->Delegation_0 == ops[j].1->Delegation_0
}
pub struct State { pub delegation_heads: Store<Delegation>, pub revocation_heads: Store<Revocation> }

/// NonEmpty<Arc<Signed<Delegation>>>
#[verifier::external_body] pub struct NonEmpty { x: u64 }
pub uninterp spec fn ne(n: NonEmpty) -> Seq<SD>;
impl NonEmpty {
    #[verifier::external_body] pub fn push(&mut self, d: SD) ensures ne(*final(self)) == ne(*old(self)).push(d) { unimplemented!() }
    #[verifier::external_body] pub fn one(d: SD) -> (r: NonEmpty) ensures ne(r) == seq![d] { unimplemented!() }
}
#[verifier::external_body] pub struct Members { x: u64 }
impl Members {
    pub uninterp spec fn view(&self) -> Map<Identifier, NonEmpty>;
    #[verifier::external_body] pub fn clear(&mut self) ensures final(self)@ == Map::<Identifier, NonEmpty>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: Identifier, v: NonEmpty) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &Identifier) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &Identifier) -> (r: Option<&mut NonEmpty>)
        ensures r is Some == old(self)@.dom().contains(*k),
            r is None ==> final(self)@ == old(self)@,
            r is Some ==> *(r->0) == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)) { unimplemented!() }
}
pub struct Group { pub the_id: Identifier, pub members: Members, pub state: State, pub active_revocations: HashMap<SigBytes, SR> }
impl Group { pub fn verifying_key(&self) -> (r: Key) ensures r == self.the_id.0 { self.the_id.0 } }
#[verifier::external_body] pub fn any_value<F: Fn(&SD) -> bool>(m: &HashMap<SigBytes, SD>, f: F) -> (r: bool)
    requires forall|x: &SD| #[trigger] f.requires((x,))
    ensures r ==> exists|k: SigBytes| #[trigger] m@.dom().contains(k) && f.ensures((&m@[k],), true),
            !r ==> forall|k: SigBytes| #[trigger] m@.dom().contains(k) ==> f.ensures((&m@[k],), false)
{ m.values().any(f) }

/// ---- what stands ----
/// `x` holds enough for an operation by `issuer` that claims to rest on `proof`
pub open spec fn basis(root: Key, known: Seq<SD>, issuer: Key, proof: Signed<Delegation>, x: ISet<SigBytes>) -> bool {
    issuer == root || x.contains(sb(proof.signature))
    || exists|i: int| 0 <= i < known.len() && x.contains(sb((#[trigger] known[i]).signature)) && known[i].payload.delegate.the_id.0 == issuer && lvl(known[i].payload.can) >= lvl(proof.payload.can)
}
pub open spec fn supported(root: Key, known: Seq<SD>, d: SD, x: ISet<SigBytes>) -> bool {
    match d.payload.proof { Some(p) => basis(root, known, d.issuer, *p, x), None => d.issuer == root }
}
/// one application of the rule adds nothing
pub open spec fn closed(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, x: ISet<SigBytes>) -> bool {
    forall|i: int| 0 <= i < known.len() && !revoked.contains(sb((#[trigger] known[i]).signature)) && supported(root, known, known[i], x) ==> x.contains(sb(known[i].signature))
}
/// least set closed under the rule: nothing stands by leaning on itself
pub open spec fn stands(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, s: SigBytes) -> bool {
    forall|x: ISet<SigBytes>| #[trigger] closed(root, known, revoked, x) ==> x.contains(s)
}
pub open spec fn is_standing(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, m: Map<SigBytes, SD>) -> bool {
    forall|s: SigBytes| #[trigger] m.dom().contains(s) <==> (exists|i: int| 0 <= i < known.len() && sb((#[trigger] known[i]).signature) == s) && !revoked.contains(s) && stands(root, known, revoked, s)
}
pub open spec fn uniq(known: Seq<SD>) -> bool { forall|i: int, j: int| 0 <= i < known.len() && 0 <= j < known.len() && sb((#[trigger] known[i]).signature) == sb((#[trigger] known[j]).signature) ==> known[i] == known[j] }
pub open spec fn from_known(known: Seq<SD>, m: Map<SigBytes, SD>) -> bool {
    forall|s: SigBytes| #[trigger] m.dom().contains(s) ==> sb(m[s].signature) == s && exists|i: int| 0 <= i < known.len() && #[trigger] known[i] == m[s]
}
pub proof fn basis_dom(root: Key, known: Seq<SD>, m: Map<SigBytes, SD>, issuer: Key, proof: Signed<Delegation>)
    requires from_known(known, m), uniq(known)
    ensures basis(root, known, issuer, proof, m.dom().to_iset()) == (issuer == root || m.dom().contains(sb(proof.signature))
        || exists|k: SigBytes| #[trigger] m.dom().contains(k) && m[k].payload.delegate.the_id.0 == issuer && lvl(m[k].payload.can) >= lvl(proof.payload.can))
{
    if exists|k: SigBytes| #[trigger] m.dom().contains(k) && m[k].payload.delegate.the_id.0 == issuer && lvl(m[k].payload.can) >= lvl(proof.payload.can) {
        let k = choose|k: SigBytes| #[trigger] m.dom().contains(k) && m[k].payload.delegate.the_id.0 == issuer && lvl(m[k].payload.can) >= lvl(proof.payload.can);
        let i = choose|i: int| 0 <= i < known.len() && #[trigger] known[i] == m[k];
        assert(m.dom().contains(sb(known[i].signature)));
    }
    if exists|i: int| 0 <= i < known.len() && m.dom().contains(sb((#[trigger] known[i]).signature)) && known[i].payload.delegate.the_id.0 == issuer && lvl(known[i].payload.can) >= lvl(proof.payload.can) {
        let i = choose|i: int| 0 <= i < known.len() && m.dom().contains(sb((#[trigger] known[i]).signature)) && known[i].payload.delegate.the_id.0 == issuer && lvl(known[i].payload.can) >= lvl(proof.payload.can);
        let k = sb(known[i].signature);
        let j = choose|j: int| 0 <= j < known.len() && #[trigger] known[j] == m[k];
        assert(known[i] == known[j]);
        assert(m.dom().contains(k));
    }
}
pub proof fn basis_mono(root: Key, known: Seq<SD>, d: SD, x: ISet<SigBytes>, y: ISet<SigBytes>)
    requires x.subset_of(y), supported(root, known, d, x) ensures supported(root, known, d, y) {}
/// everything found so far stands
pub open spec fn all_stand(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, m: Map<SigBytes, SD>) -> bool {
    forall|s: SigBytes| #[trigger] m.dom().contains(s) ==> !revoked.contains(s) && stands(root, known, revoked, s)
}
pub proof fn adds_standing(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, m: Map<SigBytes, SD>, i: int)
    requires 0 <= i < known.len(), all_stand(root, known, revoked, m), !revoked.contains(sb(known[i].signature)), supported(root, known, known[i], m.dom().to_iset())
    ensures stands(root, known, revoked, sb(known[i].signature))
{
    assert forall|x: ISet<SigBytes>| #[trigger] closed(root, known, revoked, x) implies x.contains(sb(known[i].signature)) by {
        assert(m.dom().to_iset().subset_of(x)) by { assert forall|s: SigBytes| m.dom().contains(s) implies x.contains(s) by { assert(stands(root, known, revoked, s)); } }
        basis_mono(root, known, known[i], m.dom().to_iset(), x);
    }
}
pub proof fn fixpoint(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, m: Map<SigBytes, SD>)
    requires all_stand(root, known, revoked, m), from_known(known, m), closed(root, known, revoked, m.dom().to_iset())
    ensures is_standing(root, known, revoked, m)
{}
/// ---- consequences a user relies on ----
/// an unrevoked delegation whose whole chain is known and unrevoked stands
pub proof fn untouched_stands(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, d: Signed<Delegation>, i: int)
    requires 0 <= i < known.len(), *known[i] == d, root_key(d) == root, !revoked.contains(sb(d.signature)),
        forall|k: int| 0 <= k < chain(d.payload).len() ==> !revoked.contains(sb((#[trigger] chain(d.payload)[k]).signature)) && exists|j: int| 0 <= j < known.len() && *(#[trigger] known[j]) == chain(d.payload)[k]
    ensures stands(root, known, revoked, sb(d.signature))
    decreases d
{
    chain_step(d.payload);
    if d.payload.proof is Some {
        let p = prf(d.payload);
        assert(chain(d.payload)[0] == p);
        let j = choose|j: int| 0 <= j < known.len() && *(#[trigger] known[j]) == p;
        assert forall|k: int| 0 <= k < chain(p.payload).len() implies !revoked.contains(sb((#[trigger] chain(p.payload)[k]).signature)) && exists|j: int| 0 <= j < known.len() && *(#[trigger] known[j]) == chain(p.payload)[k] by { assert(chain(p.payload)[k] == chain(d.payload)[k + 1]); }
        untouched_stands(root, known, revoked, prf(d.payload), j);
        assert forall|x: ISet<SigBytes>| #[trigger] closed(root, known, revoked, x) implies x.contains(sb(d.signature)) by { assert(supported(root, known, known[i], x)); }
    } else {
        assert forall|x: ISet<SigBytes>| #[trigger] closed(root, known, revoked, x) implies x.contains(sb(d.signature)) by { assert(supported(root, known, known[i], x)); }
    }
}
/// what stands is either from the root key or rests on something else that stands
pub proof fn stands_only_with_basis(root: Key, known: Seq<SD>, revoked: Set<SigBytes>, i: int)
    requires 0 <= i < known.len(), uniq(known), stands(root, known, revoked, sb(known[i].signature)), !revoked.contains(sb(known[i].signature))
    ensures supported(root, known, known[i], ISet::new(|s: SigBytes| stands(root, known, revoked, s) && !revoked.contains(s)))
{
    let all = ISet::new(|s: SigBytes| stands(root, known, revoked, s) && !revoked.contains(s));
    let s0 = sb(known[i].signature);
    if !supported(root, known, known[i], all) {
        let x = all.remove(s0);
        assert(closed(root, known, revoked, x)) by {
            assert forall|k: int| 0 <= k < known.len() && !revoked.contains(sb((#[trigger] known[k]).signature)) && supported(root, known, known[k], x) implies x.contains(sb(known[k].signature)) by {
                basis_mono(root, known, known[k], x, all);
                assert(stands(root, known, revoked, sb(known[k].signature))) by {
                    assert forall|y: ISet<SigBytes>| #[trigger] closed(root, known, revoked, y) implies y.contains(sb(known[k].signature)) by {
                        assert(all.subset_of(y)) by { assert forall|s: SigBytes| all.contains(s) implies y.contains(s) by { assert(stands(root, known, revoked, s)); } }
                        basis_mono(root, known, known[k], all, y);
                    }
                }
                if sb(known[k].signature) == s0 { assert(known[k] == known[i]); }
            }
        }
        assert(x.contains(s0));
    }
}
/// ---- the whole materialisation ----
pub struct Acc { pub known: Seq<SD>, pub revoked: Set<SigBytes>, pub active: Map<SigBytes, SR> }
pub open spec fn in_force(root: Key, a: Acc, r: SR) -> bool {
    match r.payload.proof {
        None => r.issuer == root,
        Some(p) => basis(root, a.known, r.issuer, rprf(r), ISet::new(|s: SigBytes| (exists|i: int| 0 <= i < a.known.len() && sb((#[trigger] a.known[i]).signature) == s) && !a.revoked.contains(s) && stands(root, a.known, a.revoked, s))),
    }
}
pub open spec fn step(root: Key, a: Acc, op: MembershipOperation) -> Acc {
    match op {
        MembershipOperation::Delegation(d) => Acc { known: a.known.push(d), ..a },
        MembershipOperation::Revocation(r) => if in_force(root, a, r) { Acc { revoked: a.revoked.insert(sb(r.payload.revoke.signature)), active: a.active.insert(sb(r.signature), r), ..a } } else { a },
    }
}
/// operations are taken from the end of the list
pub open spec fn run(root: Key, ops: Seq<(Digest, MembershipOperation)>, n: int) -> Acc decreases n {
    if n <= 0 { Acc { known: seq![], revoked: Set::empty(), active: Map::empty() } } else { step(root, run(root, ops, n - 1), ops[ops.len() - n].1) }
}
pub open spec fn rprf(r: SR) -> Signed<Delegation> { *(r.payload.proof->0) }
pub open spec fn to_of(d: SD) -> Identifier { d.payload.delegate.the_id }
pub open spec fn in_first(known: Seq<SD>, k: int, d: SD) -> bool { exists|i: int| 0 <= i < k && #[trigger] known[i] == d }
/// `id`'s entry lists delegation `d`
pub open spec fn lists(m: Map<Identifier, NonEmpty>, id: Identifier, d: SD) -> bool { m.dom().contains(id) && ne(m[id]).contains(d) }
pub open spec fn member_iff(g: Key, a: Acc, m: Map<Identifier, NonEmpty>, k: int) -> bool {
    forall|id: Identifier, d: SD| #[trigger] lists(m, id, d) <==> (id == to_of(d) && !a.revoked.contains(sb(d.signature)) && stands(g, a.known, a.revoked, sb(d.signature)) && in_first(a.known, k, d))
}
pub open spec fn from_ops(ops: Seq<(Digest, MembershipOperation)>, n: int, d: SD) -> bool {
    exists|j: int| ops.len() - n <= j < ops.len() && (#[trigger] ops[j]).1 is Delegation && ops[j].1->Delegation_0 == d
}
pub proof fn run_known(root: Key, ops: Seq<(Digest, MembershipOperation)>, n: int)
    requires 0 <= n <= ops.len()
    ensures forall|i: int| 0 <= i < run(root, ops, n).known.len() ==> from_ops(ops, n, #[trigger] run(root, ops, n).known[i])
    decreases n
{ if n > 0 { run_known(root, ops, n - 1);
    let a = run(root, ops, n - 1); let b = run(root, ops, n);
    assert forall|i: int| 0 <= i < b.known.len() implies from_ops(ops, n, #[trigger] b.known[i]) by {
        if i < a.known.len() { assert(b.known[i] == a.known[i]); assert(from_ops(ops, n - 1, a.known[i]));
            let j = choose|j: int| ops.len() - (n - 1) <= j < ops.len() && (#[trigger] ops[j]).1 is Delegation && ops[j].1->Delegation_0 == a.known[i];
            assert(ops[j].1 is Delegation);
        } else { let j = ops.len() - n; assert(ops[j].1 is Delegation); }
    } } }
pub proof fn run_uniq(root: Key, ops: Seq<(Digest, MembershipOperation)>, n: int)
    requires 0 <= n <= ops.len(), distinct(ops) ensures uniq(run(root, ops, n).known)
{ run_known(root, ops, n);
  let kn = run(root, ops, n).known;
  assert forall|i: int, j: int| 0 <= i < kn.len() && 0 <= j < kn.len() && sb((#[trigger] kn[i]).signature) == sb((#[trigger] kn[j]).signature) implies kn[i] == kn[j] by {
    assert(from_ops(ops, n, kn[i])); assert(from_ops(ops, n, kn[j]));
    let a = choose|a: int| ops.len() - n <= a < ops.len() && (#[trigger] ops[a]).1 is Delegation && ops[a].1->Delegation_0 == kn[i];
    let b = choose|b: int| ops.len() - n <= b < ops.len() && (#[trigger] ops[b]).1 is Delegation && ops[b].1->Delegation_0 == kn[j];
    assert(ops[a].1 is Delegation && ops[b].1 is Delegation);
  } }
pub proof fn member_step(g: Key, a: Acc, m0: Map<Identifier, NonEmpty>, m1: Map<Identifier, NonEmpty>, k: int)
    requires 0 <= k < a.known.len(), member_iff(g, a, m0, k),
        !(!a.revoked.contains(sb(a.known[k].signature)) && stands(g, a.known, a.revoked, sb(a.known[k].signature))) ==> m1 == m0,
        (!a.revoked.contains(sb(a.known[k].signature)) && stands(g, a.known, a.revoked, sb(a.known[k].signature))) ==> m1.dom() == m0.dom().insert(to_of(a.known[k])) && (forall|id: Identifier| id != to_of(a.known[k]) && m0.dom().contains(id) ==> m1[id] == m0[id])
            && ne(m1[to_of(a.known[k])]) == (if m0.dom().contains(to_of(a.known[k])) { ne(m0[to_of(a.known[k])]).push(a.known[k]) } else { seq![a.known[k]] })
    ensures member_iff(g, a, m1, k + 1)
{
    let d0 = a.known[k]; let t = to_of(d0);
    assert forall|id: Identifier, d: SD| #[trigger] lists(m1, id, d) <==> (id == to_of(d) && !a.revoked.contains(sb(d.signature)) && stands(g, a.known, a.revoked, sb(d.signature)) && in_first(a.known, k + 1, d)) by {
        assert(lists(m0, id, d) <==> (id == to_of(d) && !a.revoked.contains(sb(d.signature)) && stands(g, a.known, a.revoked, sb(d.signature)) && in_first(a.known, k, d)));
        assert(in_first(a.known, k + 1, d) == (in_first(a.known, k, d) || d == d0)) by { if d == d0 { assert(a.known[k] == d); }
            if in_first(a.known, k, d) { let i = choose|i: int| 0 <= i < k && #[trigger] a.known[i] == d; assert(a.known[i] == d); } }
        if m1.dom().contains(id) && m0.dom().contains(id) && id != t { assert(m1[id] == m0[id]); }
        if !a.revoked.contains(sb(a.known[k].signature)) && stands(g, a.known, a.revoked, sb(a.known[k].signature)) && id == t {
            if m0.dom().contains(t) {
                let s = ne(m0[t]); let s1 = s.push(d0);
                assert(s1.contains(d) == (s.contains(d) || d == d0)) by {
                    if s.contains(d) { let i = choose|i: int| 0 <= i < s.len() && s[i] == d; assert(s1[i] == d); }
                    if d == d0 { assert(s1[s.len() as int] == d); }
                }
            } else {
                assert(seq![d0].contains(d) == (d == d0)) by { assert(seq![d0][0] == d0); }
            }
        }
    }
}
/// the invariant of `rebuild`'s first loop
pub open spec fn has_acc(g: Group, ops: Seq<(Digest, MembershipOperation)>, left: int, known: Seq<SD>, revoked: Set<SigBytes>, active: Map<SigBytes, SR>) -> bool {
    run(g.the_id.0, ops, ops.len() - left) == (Acc { known: known, revoked: revoked, active: active })
}
pub proof fn in_force_iff(root: Key, a: Acc, r: SR, m: Map<SigBytes, SD>)
    requires r.payload.proof is Some, uniq(a.known), is_standing(root, a.known, a.revoked, m), from_known(a.known, m)
    ensures in_force(root, a, r) == (r.issuer == root || m.dom().contains(sb(rprf(r).signature))
        || exists|k: SigBytes| #[trigger] m.dom().contains(k) && m[k].payload.delegate.the_id.0 == r.issuer && lvl(m[k].payload.can) >= lvl(rprf(r).payload.can))
{
    basis_dom(root, a.known, m, r.issuer, rprf(r));
    assert(ISet::new(|s: SigBytes| (exists|i: int| 0 <= i < a.known.len() && sb((#[trigger] a.known[i]).signature) == s) && !a.revoked.contains(s) && stands(root, a.known, a.revoked, s)) =~= m.dom().to_iset());
}
"""
R = [(".dupe()", ".clone()")]
has_basis = Fn(GP, "Group", "has_basis", """fn has_basis(&self, issuer: Key, proof: &Signed<Delegation>, standing: &HashMap<SigBytes, SD>) -> (r: bool)
    ensures r == (issuer == self.the_id.0 || standing@.dom().contains(sb(proof.signature))
        || exists|k: SigBytes| #[trigger] standing@.dom().contains(k) && standing@[k].payload.delegate.the_id.0 == issuer && lvl(standing@[k].payload.can) >= lvl(proof.payload.can))""",
    ["self", "issuer", "proof", "standing"], R + [
    ("standing.values().any(|alt_proof| { $body })", "any_value(standing, |alt_proof: &SD| -> (b: bool) ensures b == (alt_proof.payload.delegate.the_id.0 == issuer && lvl(alt_proof.payload.can) >= lvl(proof.payload.can)) { $body })")],
    wrap="impl Group")
standing = Fn(GP, "Group", "standing_delegations", """fn standing_delegations(&self, known: &[SD], revoked_dlgs: &HashSet<SigBytes>) -> (standing: HashMap<SigBytes, SD>)
    requires uniq(known@)
    ensures is_standing(self.the_id.0, known@, revoked_dlgs@, standing@), from_known(known@, standing@)""",
    ["self", "known", "revoked_dlgs"], R + [("for d in known {", "for d in known.iter() {"), ("has_basis = match &$x {", "has_basis = match $x.as_ref() {")], hints=[("if standing.len() == before {", "proof { fixpoint(self.the_id.0, known@, revoked_dlgs@, standing@); }")],
    attrs="#[verifier::exec_allows_no_decreases_clause]", loops=[
    ("loop", None, """invariant uniq(known@), all_stand(self.the_id.0, known@, revoked_dlgs@, standing@), from_known(known@, standing@)"""),
    ("for", "it", """invariant uniq(known@), it.seq().len() == known@.len(), forall|i: int| 0 <= i < known@.len() ==> *(#[trigger] it.seq()[i]) == known@[i],
        all_stand(self.the_id.0, known@, revoked_dlgs@, standing@), from_known(known@, standing@), before <= standing@.len(),
        // if nothing was added, the rule adds nothing to what was there
        standing@.len() == before ==> forall|i: int| 0 <= i < it.index@ && !revoked_dlgs@.contains(sb((#[trigger] known@[i]).signature)) && supported(self.the_id.0, known@, known@[i], standing@.dom().to_iset()) ==> standing@.dom().contains(sb(known@[i].signature))""",
     """let ghost k = it.index@ as int; let ghost m0 = standing@;
        proof { assert(*d == known@[k]); if dd(d).payload.proof is Some { basis_dom(self.the_id.0, known@, standing@, dd(d).issuer, prf(dd(d).payload)); }
                if !revoked_dlgs@.contains(sb(known@[k].signature)) && supported(self.the_id.0, known@, known@[k], m0.dom().to_iset()) { adds_standing(self.the_id.0, known@, revoked_dlgs@, m0, k); } }""",
     """proof { if standing@.len() == m0.len() { assert(standing@ =~= m0) by { if m0.dom().contains(sb(known@[k].signature)) {} } } }"""),
    ], wrap="impl Group")
PRELUDE += "pub open spec fn dd(d: &SD) -> Signed<Delegation> { **d }\n"
ALL = "sorted(self.state.delegation_heads, self.state.revocation_heads)"
rebuild = Fn(GP, "Group", "rebuild", """fn rebuild(&mut self)
    requires distinct(sorted(old(self).state.delegation_heads, old(self).state.revocation_heads))
    ensures final(self).the_id == old(self).the_id, final(self).state == old(self).state,
        ({ let ops = sorted(old(self).state.delegation_heads, old(self).state.revocation_heads); let a = run(old(self).the_id.0, ops, ops.len() as int);
           &&& final(self).active_revocations@ == a.active
           &&& member_iff(old(self).the_id.0, a, final(self).members@, a.known.len() as int) })""",
    ["self"], R + [("[u8; 64]", "SigBytes"), ("nonempty![$x]", "NonEmpty::one($x)"), ("if let Some(proof) = &$x {", "if let Some(proof) = $x.as_ref() {"),
    ("self.members.get_mut(&d.payload.delegate.id())", "self.members.get_mut(&d.payload.delegate.id())")], pre="let ghost all = sorted(self.state.delegation_heads, self.state.revocation_heads); let ghost g0 = *self; proof { run_uniq(g0.the_id.0, all, all.len() as int); }",
    loops=[
    ("while", None, """invariant distinct(all), all == sorted(self.state.delegation_heads, self.state.revocation_heads), self.the_id == g0.the_id, self.state == g0.state, self.members@ == Map::<Identifier, NonEmpty>::empty(),
        ops@.len() <= all.len(), ops@ == all.take(ops@.len() as int), has_acc(g0, all, ops@.len() as int, known@, revoked_dlgs@, self.active_revocations@)
      ensures has_acc(g0, all, 0, known@, revoked_dlgs@, self.active_revocations@)
      decreases ops@.len()""",
     """proof { let left = ops@.len() as int; let a = run(g0.the_id.0, all, all.len() - left - 1);
        assert(op == all[left].1 && ops@ == all.take(left));
        assert(run(g0.the_id.0, all, all.len() - left) == step(g0.the_id.0, a, all[left].1)); run_uniq(g0.the_id.0, all, all.len() - left - 1); }"""),
    ("for", "it", """invariant distinct(all), self.the_id == g0.the_id, self.state == g0.state,
        self.active_revocations@ == run(g0.the_id.0, all, all.len() as int).active,
        uniq(run(g0.the_id.0, all, all.len() as int).known), it.seq() == run(g0.the_id.0, all, all.len() as int).known,
        is_standing(g0.the_id.0, run(g0.the_id.0, all, all.len() as int).known, run(g0.the_id.0, all, all.len() as int).revoked, standing@),
        member_iff(g0.the_id.0, run(g0.the_id.0, all, all.len() as int), self.members@, it.index@ as int)""",
     """let ghost m0 = self.members@; let ghost k = it.index@ as int; let ghost a = run(g0.the_id.0, all, all.len() as int);
        proof { assert(d == a.known[k]); assert(standing@.dom().contains(sb(d.signature)) == (!a.revoked.contains(sb(d.signature)) && stands(g0.the_id.0, a.known, a.revoked, sb(d.signature)))); }""",
     """proof { member_step(g0.the_id.0, a, m0, self.members@, k); }"""),
    ], hints=[("let standing = self.standing_delegations(&known, &revoked_dlgs); if", "")][:0] + [
      ("Some(proof) = r.payload.proof.as_ref() { let standing = self.standing_delegations(&known, &revoked_dlgs);", "proof { in_force_iff(g0.the_id.0, run(g0.the_id.0, all, all.len() - ops@.len() - 1), r, standing@); }"),
    ], wrap="impl Group")
# P06: what counts is the set of operations
AGREE = r"""
pub open spec fn as_set(k: Seq<SD>, d: SD) -> bool { exists|i: int| 0 <= i < k.len() && #[trigger] k[i] == d }
pub open spec fn same_known(a: Seq<SD>, b: Seq<SD>) -> bool { forall|d: SD| #![trigger as_set(a, d)] #![trigger as_set(b, d)] as_set(a, d) <==> as_set(b, d) }
pub proof fn basis_same(root: Key, a: Seq<SD>, b: Seq<SD>, issuer: Key, proof: Signed<Delegation>, x: ISet<SigBytes>) requires same_known(a, b), basis(root, a, issuer, proof, x) ensures basis(root, b, issuer, proof, x)
{ if !(issuer == root || x.contains(sb(proof.signature))) {
    let i = choose|i: int| 0 <= i < a.len() && x.contains(sb((#[trigger] a[i]).signature)) && a[i].payload.delegate.the_id.0 == issuer && lvl(a[i].payload.can) >= lvl(proof.payload.can);
    assert(as_set(a, a[i])); assert(as_set(b, a[i])); let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j] == a[i]; assert(x.contains(sb(b[j].signature))); } }
pub proof fn closed_same(root: Key, a: Seq<SD>, b: Seq<SD>, v: Set<SigBytes>, x: ISet<SigBytes>) requires same_known(a, b), closed(root, a, v, x) ensures closed(root, b, v, x)
{ assert forall|j: int| 0 <= j < b.len() && !v.contains(sb((#[trigger] b[j]).signature)) && supported(root, b, b[j], x) implies x.contains(sb(b[j].signature)) by {
    assert(as_set(b, b[j])); assert(as_set(a, b[j])); let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i] == b[j];
    if b[j].payload.proof is Some { basis_same(root, b, a, b[j].issuer, prf(b[j].payload), x); }
    assert(supported(root, a, a[i], x)); } }
/// the order in which delegations became known does not matter to what stands
pub proof fn order_does_not_matter(root: Key, a: Seq<SD>, b: Seq<SD>, v: Set<SigBytes>) requires same_known(a, b) ensures forall|s: SigBytes| stands(root, a, v, s) <==> #[trigger] stands(root, b, v, s)
{ assert forall|s: SigBytes| stands(root, a, v, s) <==> #[trigger] stands(root, b, v, s) by {
    if stands(root, a, v, s) { assert forall|x: ISet<SigBytes>| #[trigger] closed(root, b, v, x) implies x.contains(s) by { closed_same(root, b, a, v, x); } }
    if stands(root, b, v, s) { assert forall|x: ISet<SigBytes>| #[trigger] closed(root, a, v, x) implies x.contains(s) by { closed_same(root, a, b, v, x); } } } }
/// two replicas that know the same delegations and hold the same ones revoked list the same members with the same delegations
pub proof fn same_members(root: Key, a: Acc, b: Acc, m: Map<Identifier, NonEmpty>, n: Map<Identifier, NonEmpty>)
    requires same_known(a.known, b.known), a.revoked == b.revoked, member_iff(root, a, m, a.known.len() as int), member_iff(root, b, n, b.known.len() as int)
    ensures forall|id: Identifier, d: SD| #[trigger] lists(m, id, d) <==> lists(n, id, d)
{ order_does_not_matter(root, a.known, b.known, a.revoked);
  assert forall|id: Identifier, d: SD| #[trigger] lists(m, id, d) <==> lists(n, id, d) by {
    assert(stands(root, a.known, a.revoked, sb(d.signature)) <==> stands(root, b.known, b.revoked, sb(d.signature)));
    assert(in_first(a.known, a.known.len() as int, d) == as_set(a.known, d)); assert(in_first(b.known, b.known.len() as int, d) == as_set(b.known, d));
    assert(lists(n, id, d) <==> (id == to_of(d) && !b.revoked.contains(sb(d.signature)) && stands(root, b.known, b.revoked, sb(d.signature)) && in_first(b.known, b.known.len() as int, d))); } }
/// everything a run over the operations knows is each delegation among them: the set does not depend on their order
pub proof fn knows_all(root: Key, ops: Seq<(Digest, MembershipOperation)>, n: int) requires 0 <= n <= ops.len() ensures forall|d: SD| #[trigger] as_set(run(root, ops, n).known, d) <==> from_ops(ops, n, d) decreases n
{ if n > 0 { knows_all(root, ops, n - 1); run_known(root, ops, n); let a = run(root, ops, n - 1); let b = run(root, ops, n); let q = ops.len() - n;
    assert forall|d: SD| #[trigger] as_set(b.known, d) <==> from_ops(ops, n, d) by {
      if as_set(b.known, d) { let i = choose|i: int| 0 <= i < b.known.len() && #[trigger] b.known[i] == d; assert(from_ops(ops, n, b.known[i])); }
      if from_ops(ops, n, d) { let j = choose|j: int| q <= j < ops.len() && (#[trigger] ops[j]).1 is Delegation && ops[j].1->Delegation_0 == d;
        if j == q { assert(b.known == a.known.push(d)); assert(b.known[a.known.len() as int] == d); }
        else { assert(from_ops(ops, n - 1, d)); assert(as_set(a.known, d)); let i = choose|i: int| 0 <= i < a.known.len() && #[trigger] a.known[i] == d; assert(b.known[i] == d); } } } }
  else { assert forall|d: SD| #[trigger] as_set(run(root, ops, n).known, d) <==> from_ops(ops, n, d) by {} } }
pub open spec fn same_ops(p: Seq<(Digest, MembershipOperation)>, q: Seq<(Digest, MembershipOperation)>) -> bool { forall|d: SD| from_ops(p, p.len() as int, d) <==> #[trigger] from_ops(q, q.len() as int, d) }
/// members are a function of the set of operations and of which delegations end up revoked
pub proof fn same_set_same_members(root: Key, p: Seq<(Digest, MembershipOperation)>, q: Seq<(Digest, MembershipOperation)>, m: Map<Identifier, NonEmpty>, n: Map<Identifier, NonEmpty>)
    requires same_ops(p, q), run(root, p, p.len() as int).revoked == run(root, q, q.len() as int).revoked,
        member_iff(root, run(root, p, p.len() as int), m, run(root, p, p.len() as int).known.len() as int), member_iff(root, run(root, q, q.len() as int), n, run(root, q, q.len() as int).known.len() as int)
    ensures forall|id: Identifier, d: SD| #[trigger] lists(m, id, d) <==> lists(n, id, d)
{ let a = run(root, p, p.len() as int); let b = run(root, q, q.len() as int); knows_all(root, p, p.len() as int); knows_all(root, q, q.len() as int);
  assert(same_known(a.known, b.known)) by { assert forall|d: SD| #![trigger as_set(a.known, d)] #![trigger as_set(b.known, d)] as_set(a.known, d) <==> as_set(b.known, d) by { assert(from_ops(p, p.len() as int, d) <==> from_ops(q, q.len() as int, d)); } }
  same_members(root, a, b, m, n); }
"""
standing_unit = Unit("standing", PRELUDE, [has_basis, standing, rebuild])
agree = Unit("agree", PRELUDE + AGREE, [has_basis, standing, rebuild])
