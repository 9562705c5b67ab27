"""P07: what arrives early is kept and applied when it can be; nothing is lost; batches and order do not matter."""
from vp.verus import Fn, Unit
from . import core

KH = "keyhive_core/src/keyhive.rs"

PRE = core.std("ax_dg::key_model") + core.hashkey("Dg") + core.opaque("Event") + core.opaque("Sk") + r"""
pub enum StaticEvent { PrekeysExpanded(Event), PrekeyRotated(Event), CgkaOperation(Event), Delegated(Event), Revoked(Event) }
impl Clone for StaticEvent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// digests of events do not collide
pub uninterp spec fn dg(e: StaticEvent) -> Dg;
pub axiom fn dg_inj() ensures forall|a: StaticEvent, b: StaticEvent| #[trigger] dg(a) == #[trigger] dg(b) ==> a == b;
#[verifier::external_body] pub fn hash_of(e: &StaticEvent) -> (r: Dg) ensures r == dg(*e) { unimplemented!() }
pub struct DecodeError; pub struct PrekeyErr; pub struct OtherErr;
pub enum ReceiveCgkaOpError { CgkaError(OtherErr), VerificationError(OtherErr), UnknownDocument(OtherErr), UnknownInvitePrekey(OtherErr) }
pub enum ReceiveStaticDelegationError { VerificationError(OtherErr), MissingProof(OtherErr), MissingRevocationDependency(OtherErr), CgkaInitError(OtherErr), GroupReceiveError(OtherErr), UnknownAgent(OtherErr) }
pub enum ReceiveStaticEventError { ReceivePrekeyOpError(PrekeyErr), ReceiveCgkaOpError(ReceiveCgkaOpError), ReceiveStaticMembershipError(ReceiveStaticDelegationError) }
impl ReceiveStaticEventError { #[verifier::external_body] pub fn is_missing_dependency(&self) -> bool { unimplemented!() } }
/// the signature does not verify: will not later either
pub open spec fn forged(e: ReceiveStaticEventError) -> bool { match e { ReceiveStaticEventError::ReceivePrekeyOpError(_) => true, ReceiveStaticEventError::ReceiveCgkaOpError(ReceiveCgkaOpError::VerificationError(_)) => true, ReceiveStaticEventError::ReceiveStaticMembershipError(ReceiveStaticDelegationError::VerificationError(_)) => true, _ => false } }

/// what a replica goes by when it judges an event: the events that have taken effect, and the secrets it holds
pub struct Know { pub done: Set<StaticEvent>, pub secrets: Set<Sk> }
pub open spec fn sub(a: Know, b: Know) -> bool { a.done.subset_of(b.done) && a.secrets.subset_of(b.secrets) }
pub open spec fn more(k: Know, e: StaticEvent) -> Know { Know { done: k.done.insert(e), secrets: k.secrets } }
/// receiving the event succeeds
pub uninterp spec fn acceptable(k: Know, e: StaticEvent) -> bool;
/// the three things assumed of it: knowing more never makes an event unacceptable (exceptions: known findings);
pub axiom fn knowing_more() ensures forall|a: Know, b: Know, e: StaticEvent| sub(a, b) && #[trigger] acceptable(a, e) ==> #[trigger] acceptable(b, e);
/// what has taken effect is accepted again;
pub axiom fn again() ensures forall|k: Know, e: StaticEvent| k.done.contains(e) ==> #[trigger] acceptable(k, e);
pub open spec fn hopeless(e: StaticEvent) -> bool { forall|k: Know| !#[trigger] acceptable(k, e) }

pub struct Lk<T>(pub T);
impl<T> Lk<T> { pub fn lock(&mut self) -> (r: &mut T) ensures *r == old(self).0, *final(r) == final(self).0 { &mut self.0 } }
#[verifier::external_body] pub struct Core { x: u64 }
impl Core { pub uninterp spec fn know(&self) -> Know; }
/// held by the ingestion in progress: others wait. (The guard is taken to live until the function returns.)
pub struct Gate(pub bool);
impl Gate { pub fn enter(&mut self) ensures final(self).0 { self.0 = true; } }
pub struct Keyhive { pub core: Core, pub pending_events: Lk<Vec<Arc<StaticEvent>>>, pub ingestion: Gate }
pub open spec fn unarc(s: Seq<Arc<StaticEvent>>) -> Seq<StaticEvent> { s.map_values(|a: Arc<StaticEvent>| *a) }
impl Keyhive {
    pub open spec fn pend(&self) -> Seq<StaticEvent> { unarc(self.pending_events.0@) }
    pub open spec fn know(&self) -> Know { self.core.know() }
    /// what is pending may only be taken over by the one ingestion in progress
    pub fn held_pending(&self) -> (r: &Vec<Arc<StaticEvent>>) requires self.ingestion.0 ensures *r == self.pending_events.0 { &self.pending_events.0 }
    /// what does not verify never becomes acceptable (prekey operations are refused for nothing else)
    #[verifier::external_body] pub fn receive_static_event(&mut self, e: StaticEvent) -> (r: Result<(), ReceiveStaticEventError>)
        requires old(self).ingestion.0
        ensures final(self).ingestion == old(self).ingestion, final(self).pending_events == old(self).pending_events, r is Ok == acceptable(old(self).know(), e), r is Ok ==> final(self).know() == more(old(self).know(), e), r is Err ==> final(self).know() == old(self).know(),
            r is Err && forged(r->Err_0) ==> hopeless(e) { unimplemented!() }
    #[verifier::external_body] pub fn active(&mut self) -> (r: ActiveGuard<'_>) ensures r.k() == *old(self), *final(r.0) == *final(self) { unimplemented!() }
}
pub struct ActiveGuard<'a>(pub &'a mut Keyhive);
impl<'a> ActiveGuard<'a> { pub open spec fn k(&self) -> Keyhive { *self.0 } }
pub uninterp spec fn decoded(b: Seq<u8>) -> Set<Sk>;
/// Active::import_prekey_secrets (its extend is P09's contract): the secrets are added, or nothing happens
impl Keyhive { #[verifier::external_body] pub fn active_import(&mut self, b: &[u8]) -> (r: Result<(), DecodeError>)
    ensures final(self).pending_events == old(self).pending_events, r is Err ==> final(self).know() == old(self).know(),
        r is Ok ==> final(self).know() == (Know { done: old(self).know().done, secrets: old(self).know().secrets.union(decoded(b@)) }) { unimplemented!() } }

// std pieces
#[verifier::external_body] pub fn or_insert(m: &mut HashMap<Dg, StaticEvent>, k: Dg, v: StaticEvent) ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
#[verifier::external_body] pub fn values(m: HashMap<Dg, StaticEvent>) -> (r: Vec<StaticEvent>) ensures forall|v: StaticEvent| #[trigger] r@.contains(v) <==> (exists|k: Dg| #[trigger] m@.dom().contains(k) && m@[k] == v) { unimplemented!() }
#[verifier::external_body] pub fn arcs(v: Vec<StaticEvent>) -> (r: Vec<Arc<StaticEvent>>) ensures unarc(r@) == v@ { unimplemented!() }
#[verifier::external_body] pub fn dup(v: &Vec<StaticEvent>) -> (r: Vec<StaticEvent>) ensures r@ == v@ { unimplemented!() }
#[verifier::external_body] pub fn dup_arcs(v: &Vec<Arc<StaticEvent>>) -> (r: Vec<Arc<StaticEvent>>) ensures r@ == v@ { unimplemented!() }
pub fn replace_with(p: &mut Vec<Arc<StaticEvent>>, v: Vec<Arc<StaticEvent>>) -> (r: Vec<Arc<StaticEvent>>) ensures r@ == old(p)@, final(p)@ == v@ { let mut v = v; std::mem::swap(p, &mut v); v }
/// Vec::retain
#[verifier::external_body] pub fn retain<F: Fn(&Arc<StaticEvent>) -> bool>(v: &mut Vec<Arc<StaticEvent>>, f: F)
    requires forall|e: &Arc<StaticEvent>| f.requires((e,))
    ensures forall|e: Arc<StaticEvent>| #[trigger] final(v)@.contains(e) ==> old(v)@.contains(e) && f.ensures((&e,), true),
        forall|e: Arc<StaticEvent>| old(v)@.contains(e) && !f.ensures((&e,), false) ==> #[trigger] final(v)@.contains(e) { unimplemented!() }
#[verifier::external_body] pub fn map_collect<F: Fn(&Arc<StaticEvent>) -> Dg>(v: &Vec<Arc<StaticEvent>>, f: F) -> (r: HashSet<Dg>)
    requires forall|e: &Arc<StaticEvent>| f.requires((e,))
    ensures forall|d: Dg| #[trigger] r@.contains(d) ==> exists|e: Arc<StaticEvent>| #[trigger] v@.contains(e) && f.ensures((&e,), d),
        forall|e: Arc<StaticEvent>| #[trigger] v@.contains(e) ==> exists|d: Dg| #[trigger] r@.contains(d) && f.ensures((&e,), d) { unimplemented!() }

/// everything there is to take in
pub open spec fn all_of(p: Seq<StaticEvent>, n: Seq<StaticEvent>) -> Set<StaticEvent> { p.to_set().union(n.to_set()) }
/// nothing of `a` could be taken in that has not been
pub open spec fn closed(k: Know, a: Set<StaticEvent>) -> bool { forall|e: StaticEvent| #[trigger] a.contains(e) && acceptable(k, e) ==> k.done.contains(e) }
/// no more than had to be: whatever knows what k0 knew, and is closed, knows all of k
pub open spec fn least(k0: Know, k: Know, a: Set<StaticEvent>) -> bool { forall|x: Know| #[trigger] sub(k0, x) && closed(x, a) ==> sub(k, x) }
pub open spec fn outcome(k0: Know, k: Know, a: Set<StaticEvent>) -> bool { sub(k0, k) && k.secrets == k0.secrets && closed(k, a) && least(k0, k, a) }
/// what is left over
pub open spec fn waiting(k: Know, a: Set<StaticEvent>, w: Seq<StaticEvent>) -> bool {
    &&& forall|e: StaticEvent| #[trigger] w.contains(e) ==> a.contains(e) && !k.done.contains(e) && !acceptable(k, e)
    &&& forall|e: StaticEvent| #[trigger] a.contains(e) ==> k.done.contains(e) || w.contains(e) || hopeless(e)
}
/// P07
pub open spec fn ingested(k0: Know, p0: Seq<StaticEvent>, n: Seq<StaticEvent>, k: Know, p: Seq<StaticEvent>, r: Seq<StaticEvent>) -> bool {
    outcome(k0, k, all_of(p0, n)) && waiting(k, all_of(p0, n), r) && p.to_set() == r.to_set()
}
/// one batch or two, in whatever order: the same events take effect, and the same keep waiting
pub proof fn batches_do_not_matter(k0: Know, p0: Seq<StaticEvent>, a: Seq<StaticEvent>, b: Seq<StaticEvent>, k1: Know, p1: Seq<StaticEvent>, r1: Seq<StaticEvent>, k2: Know, p2: Seq<StaticEvent>, r2: Seq<StaticEvent>, ab: Seq<StaticEvent>, k3: Know, p3: Seq<StaticEvent>, r3: Seq<StaticEvent>)
    requires ingested(k0, p0, a, k1, p1, r1), ingested(k1, p1, b, k2, p2, r2), ab.to_set() == a.to_set().union(b.to_set()), ingested(k0, p0, ab, k3, p3, r3)
    ensures k2.done =~= k3.done, k2.secrets =~= k3.secrets,
        forall|e: StaticEvent| !hopeless(e) ==> (#[trigger] p2.contains(e) <==> p3.contains(e))
{
    knowing_more(); again();
    let s1 = all_of(p0, a); let s2 = all_of(p1, b); let s3 = all_of(p0, ab);
    assert(closed(k3, s1)) by { assert forall|e: StaticEvent| #[trigger] s1.contains(e) && acceptable(k3, e) implies k3.done.contains(e) by { assert(s3.contains(e)); } }
    assert(sub(k0, k3)); assert(sub(k1, k3));
    assert(closed(k3, s2)) by { assert forall|e: StaticEvent| #[trigger] s2.contains(e) && acceptable(k3, e) implies k3.done.contains(e) by { if p1.to_set().contains(e) { assert(r1.to_set().contains(e)); assert(r1.contains(e)); assert(s1.contains(e)); } assert(s3.contains(e)); } }
    assert(sub(k2, k3));
    assert(sub(k0, k2));
    assert(closed(k2, s3)) by { assert forall|e: StaticEvent| #[trigger] s3.contains(e) && acceptable(k2, e) implies k2.done.contains(e) by { if s1.contains(e) { assert(!hopeless(e)); if r1.contains(e) { assert(r1.to_set().contains(e)); assert(s2.contains(e)); } } else { assert(s2.contains(e)); } } }
    assert(sub(k3, k2));
    assert(k2.done =~= k3.done); assert(k2.secrets =~= k3.secrets); assert(k2 == k3);
    assert forall|e: StaticEvent| !hopeless(e) implies (#[trigger] p2.contains(e) <==> p3.contains(e)) by {
        assert(p2.to_set().contains(e) == r2.to_set().contains(e)); assert(p3.to_set().contains(e) == r3.to_set().contains(e));
        assert(p1.to_set().contains(e) == r1.to_set().contains(e));
        if r2.contains(e) { assert(s2.contains(e)); if r1.contains(e) { assert(s1.contains(e)); } assert(s3.contains(e)); }
        if r3.contains(e) { assert(s3.contains(e)); if s1.contains(e) { assert(!k1.done.contains(e)); assert(r1.contains(e)); assert(s2.contains(e)); } else { assert(s2.contains(e)); } }
    }
}
/// nothing is lost: an event that was offered, and could take effect with what is known after all, has taken effect or is still waiting
pub proof fn nothing_lost(k0: Know, p0: Seq<StaticEvent>, n: Seq<StaticEvent>, k: Know, p: Seq<StaticEvent>, r: Seq<StaticEvent>, e: StaticEvent)
    requires ingested(k0, p0, n, k, p, r), p0.contains(e) || n.contains(e), !hopeless(e)
    ensures k.done.contains(e) || p.contains(e), acceptable(k, e) ==> k.done.contains(e), k.done.contains(e) ==> !p.contains(e)
{ assert(all_of(p0, n).contains(e)); assert(p.to_set().contains(e) == r.to_set().contains(e)); }

// steps of the loop
pub open spec fn going(k0: Know, k: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, from: int, next: Seq<StaticEvent>) -> bool {
    &&& sub(k0, k) && k.secrets == k0.secrets && least(k0, k, a)
    &&& forall|i: int| from <= i < todo.len() ==> a.contains(#[trigger] todo[i])
    &&& forall|e: StaticEvent| #[trigger] next.contains(e) ==> a.contains(e)
    &&& forall|e: StaticEvent| #[trigger] a.contains(e) ==> k.done.contains(e) || next.contains(e) || (exists|i: int| from <= i < todo.len() && #[trigger] todo[i] == e) || hopeless(e)
}
pub open spec fn quiet(k1: Know, k: Know, next: Seq<StaticEvent>, n: int) -> bool {
    next.len() <= n && (next.len() == n ==> k == k1) && forall|e: StaticEvent| k == k1 && #[trigger] next.contains(e) ==> !acceptable(k, e)
}
pub proof fn step_ok(k0: Know, k: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, i: int, next: Seq<StaticEvent>)
    requires going(k0, k, a, todo, i, next), 0 <= i < todo.len(), acceptable(k, todo[i])
    ensures going(k0, more(k, todo[i]), a, todo, i + 1, next)
{
    knowing_more();
    let e = todo[i]; let k2 = more(k, e);
    assert(a.contains(e));
    assert(least(k0, k2, a)) by { assert forall|x: Know| #[trigger] sub(k0, x) && closed(x, a) implies sub(k2, x) by { assert(sub(k, x)); assert(acceptable(x, e)); } }
    assert forall|f: StaticEvent| #[trigger] a.contains(f) implies k2.done.contains(f) || next.contains(f) || (exists|j: int| i + 1 <= j < todo.len() && #[trigger] todo[j] == f) || hopeless(f) by {
        if !k.done.contains(f) && !next.contains(f) && !hopeless(f) { let j = choose|j: int| i <= j < todo.len() && #[trigger] todo[j] == f; if j == i {} else { assert(todo[j] == f); } } }
}
pub proof fn step_drop(k0: Know, k: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, i: int, next: Seq<StaticEvent>)
    requires going(k0, k, a, todo, i, next), 0 <= i < todo.len(), hopeless(todo[i])
    ensures going(k0, k, a, todo, i + 1, next)
{
    assert forall|f: StaticEvent| #[trigger] a.contains(f) implies k.done.contains(f) || next.contains(f) || (exists|j: int| i + 1 <= j < todo.len() && #[trigger] todo[j] == f) || hopeless(f) by {
        if !k.done.contains(f) && !next.contains(f) && !hopeless(f) { let j = choose|j: int| i <= j < todo.len() && #[trigger] todo[j] == f; assert(todo[j] == f); } }
}
pub proof fn step_keep(k0: Know, k: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, i: int, next: Seq<StaticEvent>)
    requires going(k0, k, a, todo, i, next), 0 <= i < todo.len()
    ensures going(k0, k, a, todo, i + 1, next.push(todo[i])), forall|e: StaticEvent| #[trigger] next.push(todo[i]).contains(e) <==> next.contains(e) || e == todo[i]
{
    let n2 = next.push(todo[i]);
    assert(n2[next.len() as int] == todo[i]);
    assert forall|e: StaticEvent| #[trigger] n2.contains(e) <==> next.contains(e) || e == todo[i] by { if next.contains(e) { let j = choose|j: int| 0 <= j < next.len() && next[j] == e; assert(n2[j] == e); } if n2.contains(e) { let j = choose|j: int| 0 <= j < n2.len() && n2[j] == e; if j < next.len() { assert(next[j] == e); } } }
    assert forall|f: StaticEvent| #[trigger] a.contains(f) implies k.done.contains(f) || n2.contains(f) || (exists|j: int| i + 1 <= j < todo.len() && #[trigger] todo[j] == f) || hopeless(f) by {
        if !k.done.contains(f) && !next.contains(f) && !hopeless(f) { let j = choose|j: int| i <= j < todo.len() && #[trigger] todo[j] == f; assert(todo[j] == f); } }
}

pub open spec fn unique_ok(m: Map<Dg, StaticEvent>, s: Seq<StaticEvent>, n: int) -> bool {
    &&& 0 <= n <= s.len()
    &&& forall|k: Dg| #[trigger] m.dom().contains(k) ==> dg(m[k]) == k && exists|i: int| 0 <= i < n && #[trigger] s[i] == m[k]
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains(dg(#[trigger] s[i]))
}
pub open spec fn unique_all(m: Map<Dg, StaticEvent>, s: Seq<StaticEvent>) -> bool {
    forall|v: StaticEvent| #[trigger] s.contains(v) <==> (exists|k: Dg| #[trigger] m.dom().contains(k) && m[k] == v)
}
pub proof fn unique_step(m: Map<Dg, StaticEvent>, s: Seq<StaticEvent>, n: int)
    requires unique_ok(m, s, n), n < s.len()
    ensures unique_ok(if m.dom().contains(dg(s[n])) { m } else { m.insert(dg(s[n]), s[n]) }, s, n + 1)
{
    let m2 = if m.dom().contains(dg(s[n])) { m } else { m.insert(dg(s[n]), s[n]) };
    assert forall|k: Dg| #[trigger] m2.dom().contains(k) implies dg(m2[k]) == k && exists|i: int| 0 <= i < n + 1 && #[trigger] s[i] == m2[k] by {
        if m.dom().contains(k) { let i = choose|i: int| 0 <= i < n && #[trigger] s[i] == m[k]; assert(s[i] == m2[k]); } else { assert(s[n] == m2[k]); } }
}
pub proof fn unique_end(m: Map<Dg, StaticEvent>, s: Seq<StaticEvent>)
    ensures unique_ok(m, s, s.len() as int) ==> unique_all(m, s)
{
    dg_inj();
    if unique_ok(m, s, s.len() as int) { assert forall|v: StaticEvent| #[trigger] s.contains(v) <==> (exists|k: Dg| #[trigger] m.dom().contains(k) && m[k] == v) by {
        if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; assert(m.dom().contains(dg(s[i]))); let k = dg(v); assert(m.dom().contains(k) && m[k] == v); } } }
}
pub proof fn first(k0: Know, a: Set<StaticEvent>, ev: Seq<StaticEvent>, todo: Seq<StaticEvent>, p: Seq<StaticEvent>, n: Seq<StaticEvent>)
    requires a == all_of(p, n), ev == n + p, forall|v: StaticEvent| #[trigger] ev.contains(v) <==> todo.contains(v)
    ensures going(k0, k0, a, todo, 0, Seq::empty())
{
    assert forall|v: StaticEvent| #[trigger] a.contains(v) <==> ev.contains(v) by {
        if p.contains(v) { let i = choose|i: int| 0 <= i < p.len() && p[i] == v; assert(ev[n.len() + i] == v); } if n.contains(v) { let i = choose|i: int| 0 <= i < n.len() && n[i] == v; assert(ev[i] == v); }
        if ev.contains(v) { let i = choose|i: int| 0 <= i < ev.len() && ev[i] == v; if i < n.len() { assert(n[i] == v); } else { assert(p[i - n.len()] == v); } } }
    assert forall|i: int| 0 <= i < todo.len() implies a.contains(#[trigger] todo[i]) by { assert(todo.contains(todo[i])); assert(ev.contains(todo[i])); }
    assert forall|e: StaticEvent| #[trigger] a.contains(e) implies (exists|i: int| 0 <= i < todo.len() && #[trigger] todo[i] == e) by { assert(ev.contains(e)); assert(todo.contains(e)); }
}
pub proof fn turn(k0: Know, k: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, next: Seq<StaticEvent>)
    requires going(k0, k, a, todo, todo.len() as int, next) ensures going(k0, k, a, next, 0, Seq::empty())
{
    assert forall|i: int| 0 <= i < next.len() implies a.contains(#[trigger] next[i]) by { assert(next.contains(next[i])); }
    assert forall|f: StaticEvent| #[trigger] a.contains(f) implies k.done.contains(f) || (exists|j: int| 0 <= j < next.len() && #[trigger] next[j] == f) || hopeless(f) by { if next.contains(f) { let j = choose|j: int| 0 <= j < next.len() && next[j] == f; assert(next[j] == f); } }
}
pub proof fn emptied(v: Seq<Arc<StaticEvent>>, p0: Seq<Arc<StaticEvent>>, h: Set<Dg>)
    requires forall|e: Arc<StaticEvent>| #[trigger] v.contains(e) ==> p0.contains(e) && !h.contains(dg(*e)), forall|i: int| 0 <= i < p0.len() ==> h.contains(dg(#[trigger] unarc(p0)[i]))
    ensures unarc(v) =~= Seq::<StaticEvent>::empty()
{ if v.len() > 0 { assert(v.contains(v[0])); let i = choose|i: int| 0 <= i < p0.len() && p0[i] == v[0]; assert(unarc(p0)[i] == *v[0]); } }
pub proof fn finish(k0: Know, k: Know, a: Set<StaticEvent>, next: Seq<StaticEvent>, p: Seq<StaticEvent>, r: Seq<StaticEvent>)
    requires going(k0, k, a, next, 0, Seq::empty()), forall|e: StaticEvent| #[trigger] next.contains(e) ==> !acceptable(k, e), p == r, r == next
    ensures outcome(k0, k, a), waiting(k, a, r), p.to_set() == r.to_set()
{
    again();
    assert forall|e: StaticEvent| #[trigger] a.contains(e) implies k.done.contains(e) || next.contains(e) || hopeless(e) by { if exists|j: int| 0 <= j < next.len() && #[trigger] next[j] == e { let j = choose|j: int| 0 <= j < next.len() && #[trigger] next[j] == e; assert(next.contains(next[j])); } }
    assert forall|e: StaticEvent| #[trigger] next.contains(e) implies a.contains(e) by { let j = choose|j: int| 0 <= j < next.len() && next[j] == e; assert(a.contains(next[j])); }
}
pub proof fn listed(p: Seq<Arc<StaticEvent>>, r: Set<Dg>)
    requires forall|d: Dg| #[trigger] r.contains(d) ==> exists|e: Arc<StaticEvent>| #[trigger] p.contains(e) && d == dg(*e), forall|e: Arc<StaticEvent>| #[trigger] p.contains(e) ==> r.contains(dg(*e))
    ensures forall|e: StaticEvent| #[trigger] r.contains(dg(e)) <==> unarc(p).contains(e)
{
    dg_inj();
    assert forall|e: StaticEvent| #[trigger] r.contains(dg(e)) <==> unarc(p).contains(e) by {
        if r.contains(dg(e)) { let x = choose|x: Arc<StaticEvent>| #[trigger] p.contains(x) && dg(e) == dg(*x); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(unarc(p)[i] == *x); assert(*x == e); }
        if unarc(p).contains(e) { let i = choose|i: int| 0 <= i < p.len() && unarc(p)[i] == e; assert(p.contains(p[i])); } }
}
pub proof fn step(k0: Know, k: Know, k2: Know, a: Set<StaticEvent>, todo: Seq<StaticEvent>, i: int, next: Seq<StaticEvent>, next2: Seq<StaticEvent>, k1: Know)
    requires going(k0, k, a, todo, i, next), 0 <= i < todo.len(), quiet(k1, k, next, i), k1.done.subset_of(k.done), k1.secrets == k.secrets,
        (acceptable(k, todo[i]) && k2 == more(k, todo[i]) && next2 == next) || (!acceptable(k, todo[i]) && k2 == k && (next2 == next.push(todo[i]) || (hopeless(todo[i]) && next2 == next)))
    ensures going(k0, k2, a, todo, i + 1, next2), quiet(k1, k2, next2, i + 1), k1.done.subset_of(k2.done)
{
    if acceptable(k, todo[i]) { step_ok(k0, k, a, todo, i, next); if k2 == k1 { assert(k.done =~= k1.done); assert(k == k1); } }
    else if next2 == next { step_drop(k0, k, a, todo, i, next); } else { step_keep(k0, k, a, todo, i, next); }
}
"""
INV = "self.pending_events == p0, a == all_of(unarc(p0.0@), n0), *old(self) == o0, p0 == o0.pending_events, k0 == o0.know()"
ingest_fns = [
    Fn(KH, "Keyhive", "ingest_unsorted_static_events", "pub fn ingest_unsorted_static_events(&mut self, events0: Vec<StaticEvent>) -> (r: Vec<Arc<StaticEvent>>) ensures ingested(old(self).know(), old(self).pend(), events0@, final(self).know(), final(self).pend(), unarc(r@))", ["self", "events"],
       [("self.pending_events.as_ref().lock().iter()", "self.held_pending().iter()"), ("let _ = self.ingestion.lock();", ""), ("let $$x = self.ingestion.lock();", "self.ingestion.enter(); proof { o1 = *self; }"), ("Digest<StaticEvent<T>>", "Dg"), ("StaticEvent<T>", "StaticEvent"), ("Digest::hash($x)", "hash_of($x)"),
        ("unique_events.entry(hash).or_insert(event)", "or_insert(&mut unique_events, hash, event)"), ("unique_events.into_values().collect()", "values(unique_events)"),
        ("next_epoch.clone().into_iter().map(Arc::new).collect()", "arcs(dup(&next_epoch))"), ("new_pending.clone()", "dup_arcs(&new_pending)"), ("&mut *self.pending_events.lock()", "self.pending_events.lock()"),
        ("mem::replace($x)", "replace_with($x)"), ("drop($x);", "let _ = $x; proof { finish(k0, self.know(), a, next_epoch@, self.pend(), unarc(new_pending@)); }"),
        ("let mut next_epoch = vec![];", "let mut next_epoch: Vec<StaticEvent> = vec![];"), ("let mut err = None;", "let mut err: Option<ReceiveStaticEventError> = None;"),
        ("self.pending_events.lock().retain(|e| $x);", "retain(self.pending_events.lock(), |e: &Arc<StaticEvent>| -> (b: bool) ensures b == !replayed_pending@.contains(dg(**e)) { $x }); proof { emptied(self.pending_events.0@, p0, replayed_pending@); assert(next_epoch@ =~= Seq::<StaticEvent>::empty()); finish(k0, self.know(), a, next_epoch@, self.pend(), Seq::empty()); assert(unarc(Seq::<Arc<StaticEvent>>::empty()) =~= Seq::<StaticEvent>::empty()); }")],
       hints=[("= HashMap::new();", "let ghost ev = events@;"), ("values(unique_events);", "proof { first(k0, a, ev, epoch@, unarc(p0), n0); }"), ("let epoch_len = epoch.len();", "proof { if ep.len() == 0 { assert(ep =~= Seq::<StaticEvent>::empty()); turn(k0, self.know(), a, ep, Seq::empty()); } }")],
       pre="let mut events = events0; let ghost o0 = *self; let ghost mut o1 = *self; let ghost k0 = self.know(); let ghost p0 = self.pending_events.0@; let ghost n0 = events0@; let ghost a = all_of(unarc(p0), n0);",
       loops=[("for", "it", "invariant *self == o1, self.ingestion.0, o1.pending_events == o0.pending_events, o1.know() == o0.know(), o0 == *old(self), it.seq().map_values(|x: &Arc<StaticEvent>| *x) == p0, events@ == n0 + unarc(p0).take(it.index@ as int), forall|d: Dg| #[trigger] replayed_pending@.contains(d) ==> (exists|e: StaticEvent| #[trigger] unarc(p0).contains(e) && dg(e) == d), forall|i: int| 0 <= i < it.index@ ==> replayed_pending@.contains(dg(#[trigger] unarc(p0)[i])), it.index@ == it.seq().len() ==> events@ == n0 + unarc(p0)",
               "let ghost e0 = events@; proof { assert(unarc(p0)[it.index@ as int] == **event); assert(unarc(p0).contains(**event)); }", "proof { let u = unarc(p0); assert(u.len() == it.seq().len()); assert(u.take(it.index@ as int + 1) =~= u.take(it.index@ as int).push(u[it.index@ as int])); assert(events@ =~= n0 + u.take(it.index@ as int + 1)); assert(u.take(u.len() as int) =~= u); }"),
              ("for", "it", "invariant *self == o1, self.ingestion.0, o1.pending_events == o0.pending_events, o1.know() == o0.know(), o0 == *old(self), unique_ok(unique_events@, it.seq(), it.index@ as int), it.seq() == ev, it.index@ == it.seq().len() ==> unique_all(unique_events@, ev)", "let ghost u0 = unique_events@;", "proof { dg_inj(); unique_step(u0, it.seq(), it.index@ as int); unique_end(unique_events@, it.seq()); }"),
              ("loop", "", "invariant self.ingestion.0, o0 == *old(self), self.pending_events == o0.pending_events, k0 == o0.know(), p0 == o0.pending_events.0@, n0 == events0@, a == all_of(unarc(p0), n0), going(k0, self.know(), a, epoch@, 0, Seq::empty()), forall|i: int| 0 <= i < p0.len() ==> replayed_pending@.contains(dg(#[trigger] unarc(p0)[i])) decreases epoch@.len()",
               "let ghost k1 = self.know(); let ghost ep = epoch@; proof { again(); }", ""),
              ("for", "it", "invariant self.ingestion.0, self.pending_events == o0.pending_events, it.seq() == ep, epoch_len == ep.len(), going(k0, self.know(), a, ep, it.index@ as int, next_epoch@), quiet(k1, self.know(), next_epoch@, it.index@ as int), k1.done.subset_of(self.know().done), k1.secrets == k0.secrets, self.know().secrets == k0.secrets, it.index@ == it.seq().len() ==> going(k0, self.know(), a, next_epoch@, 0, Seq::empty())", "let ghost kb = self.know(); let ghost nb = next_epoch@; proof { again(); }",
               "proof { step(k0, kb, self.know(), a, ep, it.index@ as int, nb, next_epoch@, k1); if it.index@ as int + 1 == ep.len() { turn(k0, self.know(), a, ep, next_epoch@); } }")], wrap="impl Keyhive"),
]
ingest_fns += [
    Fn(KH, "Keyhive", "import_prekey_secrets", "pub fn import_prekey_secrets(&mut self, bytes: &[u8]) -> (r: Result<Vec<Arc<StaticEvent>>, DecodeError>) ensures r is Err ==> final(self).know() == old(self).know() && final(self).pend() == old(self).pend(), r is Ok ==> ingested(Know { done: old(self).know().done, secrets: old(self).know().secrets.union(decoded(bytes@)) }, old(self).pend(), Seq::empty(), final(self).know(), final(self).pend(), unarc(r->Ok_0@))", ["self", "bytes"],
       [("let active = self.active.lock();", ""), ("active.import_prekey_secrets($x)", "self.active_import($x)"), ("drop(active);", ""), ("self.ingest_unsorted_static_events(vec![])", "self.ingest_unsorted_static_events(({ let v: Vec<StaticEvent> = vec![]; v }))")], wrap="impl Keyhive"),
    Fn(KH, "Keyhive", "pending_event_hashes", "pub fn pending_event_hashes(&mut self) -> (r: HashSet<Dg>) ensures *final(self) == *old(self), forall|e: StaticEvent| #[trigger] r@.contains(dg(e)) <==> old(self).pend().contains(e)", ["self"],
       [("self.pending_events.lock().iter().map(|event| $x).collect()", "({ let r = map_collect(&self.pending_events.0, |event: &Arc<StaticEvent>| -> (d: Dg) ensures d == dg(**event) { $x }); proof { listed(self.pending_events.0@, r@); } r })"), ("Digest::hash($x)", "hash_of($x)")], wrap="impl Keyhive"),
]
ingest = Unit("ingest", PRE, ingest_fns)
