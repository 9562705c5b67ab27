"""P17: content-addressed maps, delegation/revocation stores, ciphertext store."""
from vp.verus import Fn, Unit
from . import core

MAPS = r"""
pub trait Dupe: Sized { fn dupe(&self) -> (r: Self) ensures r == *self; }
impl<T> Dupe for Arc<T> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
/// std: HashMap::get_mut
#[verifier::external_body] pub fn map_get_mut<'a, K: std::hash::Hash + Eq, V>(m: &'a mut HashMap<K, V>, k: &K) -> (r: Option<&'a mut V>)
    ensures r is Some == old(m)@.dom().contains(*k), r is None ==> final(m)@ == old(m)@,
        r is Some ==> *(r->0) == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(r->0)) { unimplemented!() }
/// std: Option<&T>::cloned, for shared pointers and for sets
pub trait Cloned<T> { fn vcloned(self) -> (r: Option<T>); }
impl<T> Cloned<Arc<T>> for Option<&Arc<T>> { #[verifier::external_body] fn vcloned(self) -> (r: Option<Arc<T>>) ensures r is Some == self is Some, self is Some ==> r->0 == *(self->0) { unimplemented!() } }
impl<V> Cloned<HashSet<V>> for Option<&HashSet<V>> { #[verifier::external_body] fn vcloned(self) -> (r: Option<HashSet<V>>) ensures r is Some == self is Some, self is Some ==> (r->0)@ == (*(self->0))@ { unimplemented!() } }
pub open spec fn at<K, V>(m: Map<K, HashSet<V>>, k: K, v: V) -> bool { m.dom().contains(k) && m[k]@.contains(v) }
/// std: m.entry(k).or_default().insert(v)
#[verifier::external_body] pub fn map_set_add<K: std::hash::Hash + Eq, V: std::hash::Hash + Eq>(m: &mut HashMap<K, HashSet<V>>, k: K, v: V)
    ensures final(m)@.dom() == old(m)@.dom().insert(k), forall|a: K| a != k && old(m)@.dom().contains(a) ==> final(m)@[a] == #[trigger] old(m)@[a],
        final(m)@[k]@ == (if old(m)@.dom().contains(k) { old(m)@[k]@ } else { Set::<V>::empty() }).insert(v) { unimplemented!() }
/// std: m.entry(k).or_insert(v)
#[verifier::external_body] pub fn map_or_insert<K: std::hash::Hash + Eq, V>(m: &mut HashMap<K, V>, k: K, v: V)
    ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
/// std: into_iter of a map, as a list of its pairs
#[verifier::external_body] pub fn map_pairs<K, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1,
        forall|k: K| m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k { unimplemented!() }
pub open spec fn no_empty<K, V>(m: Map<K, HashSet<V>>) -> bool { forall|k: K| #[trigger] m.dom().contains(k) ==> exists|v: V| m[k]@.contains(v) }
pub proof fn emptyset<V>(s: HashSet<V>) ensures s@.len() == 0 <==> s@ =~= Set::<V>::empty(), s@.len() > 0 ==> exists|v: V| s@.contains(v) {
    if s@.len() > 0 { let v = s@.choose(); assert(s@.contains(v)); } else { assert(s@ =~= Set::<V>::empty()) by { if exists|v: V| s@.contains(v) { let v = choose|v: V| s@.contains(v); assert(s@.remove(v).len() < s@.len()); } } }
}
"""

DIGEST = r"""
#[verifier::external_body] #[verifier::reject_recursive_types(T)] pub struct Digest<T> { x: std::marker::PhantomData<T> }
impl<T> Clone for Digest<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T> Copy for Digest<T> {}
impl<T> PartialEqSpecImpl for Digest<T> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<T> PartialEq for Digest<T> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<T> Eq for Digest<T> {}
impl<T> std::hash::Hash for Digest<T> { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub use ax_digest::h;
impl<T> Digest<T> { #[verifier::external_body] pub fn hash(v: &T) -> (r: Digest<T>) ensures r == h(*v) { unimplemented!() } }
/// digests do not collide
pub mod ax_digest { use super::*;
    pub uninterp spec fn h<T>(v: T) -> Digest<T>;
    pub broadcast axiom fn key_model<T>() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Digest<T>>();
    pub broadcast axiom fn injective<T>(a: T, b: T) ensures #[trigger] h(a) == #[trigger] h(b) ==> a == b;
}
"""

CAMAP = r"""
#[verifier::reject_recursive_types(T)] pub struct CaMap<T>(pub HashMap<Digest<T>, Arc<T>>);
/// every key is the digest of its value
pub open spec fn addressed<T>(m: Map<Digest<T>, Arc<T>>) -> bool { forall|k: Digest<T>| #[trigger] m.dom().contains(k) ==> h(*m[k]) == k }
pub open spec fn has_value<T>(m: Map<Digest<T>, Arc<T>>, v: T) -> bool { m.dom().contains(h(v)) }
pub open spec fn union_left<T>(a: Map<Digest<T>, Arc<T>>, b: Map<Digest<T>, Arc<T>>) -> Map<Digest<T>, Arc<T>> { b.union_prefer_right(a) }
impl<T> CaMap<T> {
    pub open spec fn view(&self) -> Map<Digest<T>, Arc<T>> { self.0@ }
}
"""
AX = ("ax_digest::key_model", "ax_digest::injective")


def camap_fns(path, wrap="impl<T> CaMap<T>"):
    F = lambda name, sig, params, **k: Fn(path, "CaMap", name, sig, params, wrap=wrap, **k)
    return [
        F("new", "pub fn new() -> (r: Self) ensures r@ == Map::<Digest<T>, Arc<T>>::empty(), addressed(r@)", [], rewrites=[("Map::new()", "HashMap::new()")]),
        F("insert", """pub fn insert(&mut self, value: Arc<T>) -> (r: Digest<T>) ensures r == h(*value), final(self)@ == old(self)@.insert(h(*value), value), addressed(old(self)@) ==> addressed(final(self)@)""", ["self", "value"]),
        F("insert_checked", """pub fn insert_checked(&mut self, value: Arc<T>) -> (r: (Digest<T>, bool)) ensures r.0 == h(*value), r.1 == !old(self)@.dom().contains(h(*value)), final(self)@ == old(self)@.insert(h(*value), value), addressed(old(self)@) ==> addressed(final(self)@)""", ["self", "value"]),
        F("remove_by_hash", """pub fn remove_by_hash(&mut self, hash: &Digest<T>) -> (r: Option<Arc<T>>) ensures final(self)@ == old(self)@.remove(*hash), r == (if old(self)@.dom().contains(*hash) { Some(old(self)@[*hash]) } else { None }), addressed(old(self)@) ==> addressed(final(self)@)""", ["self", "hash"]),
        F("remove_by_value", """pub fn remove_by_value(&mut self, value: &T) -> (r: Option<Arc<T>>) ensures final(self)@ == old(self)@.remove(h(*value)), r is Some == has_value(old(self)@, *value), addressed(old(self)@) ==> addressed(final(self)@) && (r is Some ==> *(r->0) == *value)""", ["self", "value"]),
        F("get", """pub fn get(&self, hash: &Digest<T>) -> (r: Option<&Arc<T>>) ensures r is Some == self@.dom().contains(*hash), r is Some ==> *(r->0) == self@[*hash]""", ["self", "hash"]),
        F("len", "pub fn len(&self) -> (r: usize) ensures r == self@.len()", ["self"]),
        F("is_empty", "pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0)", ["self"]),
        F("contains_value", "pub fn contains_value(&self, value: &T) -> (r: bool) ensures r == has_value(self@, *value)", ["self", "value"]),
        F("contains_key", "pub fn contains_key(&self, hash: &Digest<T>) -> (r: bool) ensures r == self@.dom().contains(*hash)", ["self", "hash"]),
        Fn(path, "Merge for CaMap", "merge", """pub fn merge(&mut self, other: Self) ensures final(self)@ =~= union_left(old(self)@, other@), addressed(old(self)@) && addressed(other@) ==> addressed(final(self)@)""", ["self", "other"],
           [("for ($k, $v) in other.0 {", "for ($k, $v) in map_pairs(other.0) {", "must"), ("self.0.entry($k).or_insert($v)", "map_or_insert(&mut self.0, $k, $v)")],
           pre="let ghost m0 = self.0@;",
           loops=[("for", "it", """invariant forall|i: int| 0 <= i < it.seq().len() ==> other@.dom().contains((#[trigger] it.seq()[i]).0) && other@[it.seq()[i].0] == it.seq()[i].1,
               forall|k: Digest<T>| other@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
               merged(m0, it.seq(), it.index@ as int, self.0@)""")], wrap=wrap),
    ]


MERGED = r"""
/// `m` is `m0` plus the first `n` pairs that were not there
pub open spec fn merged<T>(m0: Map<Digest<T>, Arc<T>>, s: Seq<(Digest<T>, Arc<T>)>, n: int, m: Map<Digest<T>, Arc<T>>) -> bool {
    &&& forall|k: Digest<T>| #[trigger] m.dom().contains(k) <==> m0.dom().contains(k) || exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k
    &&& forall|k: Digest<T>| #[trigger] m.dom().contains(k) ==> (m0.dom().contains(k) ==> m[k] == m0[k]) && (!m0.dom().contains(k) ==> exists|i: int| 0 <= i < n && (#[trigger] s[i]).0 == k && s[i].1 == m[k])
}
"""
P1 = "keyhive_core/src/util/content_addressed_map.rs"
P2 = "beekem/src/content_addressed_map.rs"
camap_core = Unit("camap_core", core.std(*AX) + MAPS + DIGEST + CAMAP + MERGED, camap_fns(P1))
camap_beekem = Unit("camap_beekem", core.std(*AX) + MAPS + DIGEST + CAMAP + MERGED, camap_fns(P2))

# ---------------------------------------------------------------- delegation and revocation stores
DS, RS = "keyhive_core/src/store/delegation.rs", "keyhive_core/src/store/revocation.rs"
OPS = core.hashkey("AgentId") + core.hashkey("Sd") + r"""
pub struct Agent { pub aid: AgentId }
impl Agent { pub fn agent_id(&self) -> (r: AgentId) ensures r == self.aid { self.aid } }
pub struct Delegation { pub delegate: Agent, pub rest: u64 }
impl Delegation { pub fn delegate(&self) -> (r: &Agent) ensures *r == self.delegate { &self.delegate } }
pub struct Signed<P> { pub payload: P, pub sig: u64 }
pub struct Revocation { pub revoke: Arc<Signed<Delegation>>, pub rest: u64 }
impl<P> PartialEqSpecImpl for Signed<P> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl<P> PartialEq for Signed<P> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<P> Eq for Signed<P> {}
impl<P> std::hash::Hash for Signed<P> { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_signed { use super::*;
    /// Eq and Hash of a signed operation agree (issuer and signature identify it)
    pub broadcast axiom fn key_model<P>() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Arc<Signed<P>>>(); }
pub type R = Signed<Revocation>;
pub type D = Signed<Delegation>;
pub open spec fn agent_of(r: R) -> AgentId { r.payload.revoke.payload.delegate.aid }
pub open spec fn ag(r: Arc<R>) -> AgentId { agent_of(*r) }
pub open spec fn hd(r: Arc<R>) -> Digest<R> { h(*r) }
pub proof fn hd_inj(a: Arc<R>, b: Arc<R>) ensures hd(a) == hd(b) ==> a == b {}
pub struct DelegationStore { pub delegations: CaMap<D> }
pub struct RevocationStore { pub revocations: CaMap<R>, pub agent_to_revocations: HashMap<AgentId, HashSet<Arc<R>>> }
/// the index lists, per agent, exactly the stored revocations of delegations to that agent
pub open spec fn indexed(m: Map<Digest<R>, Arc<R>>, x: Map<AgentId, HashSet<Arc<R>>>) -> bool {
    &&& forall|a: AgentId, r: Arc<R>| #[trigger] at(x, a, r) <==> m.dom().contains(hd(r)) && m[hd(r)] == r && ag(r) == a
    &&& no_empty(x)
}
pub open spec fn rwf(s: RevocationStore) -> bool { addressed(s.revocations@) && indexed(s.revocations@, s.agent_to_revocations@) }
pub proof fn ins_ok(m: Map<Digest<R>, Arc<R>>, x: Map<AgentId, HashSet<Arc<R>>>, y: Map<AgentId, HashSet<Arc<R>>>, r: Arc<R>)
    requires addressed(m), indexed(m, x), y.dom() == x.dom().insert(ag(r)), forall|a: AgentId| a != ag(r) && x.dom().contains(a) ==> y[a] == #[trigger] x[a],
        y[ag(r)]@ == (if x.dom().contains(ag(r)) { x[ag(r)]@ } else { Set::<Arc<R>>::empty() }).insert(r)
    ensures indexed(m.insert(hd(r), r), y)
{
    let n = m.insert(hd(r), r); let ar = ag(r);
    assert forall|a: AgentId, q: Arc<R>| #[trigger] at(y, a, q) <==> n.dom().contains(hd(q)) && n[hd(q)] == q && ag(q) == a by {
        assert(at(x, a, q) <==> m.dom().contains(hd(q)) && m[hd(q)] == q && ag(q) == a);
        hd_inj(q, r);
        if a != ar { assert(at(y, a, q) == at(x, a, q)); } else { assert(at(y, a, q) == (at(x, a, q) || q == r)); }
    }
    assert forall|a: AgentId| #[trigger] y.dom().contains(a) implies exists|v: Arc<R>| y[a]@.contains(v) by {
        if a == ar { assert(y[a]@.contains(r)); } else { assert(x.dom().contains(a)); let v = choose|v: Arc<R>| x[a]@.contains(v); assert(y[a]@.contains(v)); }
    }
}
pub proof fn rem_ok(m: Map<Digest<R>, Arc<R>>, x: Map<AgentId, HashSet<Arc<R>>>, y: Map<AgentId, HashSet<Arc<R>>>, k: Digest<R>)
    requires addressed(m), indexed(m, x), m.dom().contains(k), no_empty(y), forall|a: AgentId, q: Arc<R>| #[trigger] at(y, a, q) <==> at(x, a, q) && !(a == ag(m[k]) && q == m[k])
    ensures indexed(m.remove(k), y)
{
    let n = m.remove(k);
    assert forall|a: AgentId, q: Arc<R>| #[trigger] at(y, a, q) <==> n.dom().contains(hd(q)) && n[hd(q)] == q && ag(q) == a by {
        assert(at(x, a, q) <==> m.dom().contains(hd(q)) && m[hd(q)] == q && ag(q) == a);
        assert(hd(m[k]) == k);
    }
}
"""
SW = core.std(*AX, "ax_agentid::key_model", "ax_signed::key_model") + MAPS + DIGEST + CAMAP + OPS


def contract_only(fns):
    """CaMap contracts, proved in their own unit, as external here"""
    out = []
    for f in fns:
        if f.name == "merge":
            continue
        out.append("impl<T> CaMap<T> { #[verifier::external_body] " + f.sig + " { unimplemented!() } }")
    return "\n".join(out)


SW += contract_only(camap_fns(P1))
DSF = lambda name, sig, params, **k: Fn(DS, "DelegationStore", name, sig, params, wrap="impl DelegationStore", **{"rewrites": [(".cloned()", ".vcloned()")], **k})
RSF = lambda name, sig, params, **k: Fn(RS, "RevocationStore", name, sig, params, wrap="impl RevocationStore", **{"rewrites": [(".cloned()", ".vcloned()")], **k})
CL = [(".cloned()", ".vcloned()")]
membership = Unit("membership_stores", SW, [
    DSF("new", "pub fn new() -> (r: Self) ensures r.delegations@ == Map::<Digest<D>, Arc<D>>::empty()", []),
    DSF("len", "pub fn len(&self) -> (r: usize) ensures r == self.delegations@.len()", ["self"]),
    DSF("is_empty", "pub fn is_empty(&self) -> (r: bool) ensures r == (self.delegations@.len() == 0)", ["self"]),
    DSF("get", "pub fn get(&self, key: &Digest<D>) -> (r: Option<Arc<D>>) ensures r == (if self.delegations@.dom().contains(*key) { Some(self.delegations@[*key]) } else { None })", ["self", "key"]),
    DSF("contains_key", "pub fn contains_key(&self, key: &Digest<D>) -> (r: bool) ensures r == self.delegations@.dom().contains(*key)", ["self", "key"]),
    DSF("contains_value", "pub fn contains_value(&self, value: &D) -> (r: bool) ensures r == has_value(self.delegations@, *value)", ["self", "value"]),
    DSF("insert", "pub fn insert(&mut self, delegation: Arc<D>) -> (r: Digest<D>) ensures r == h(*delegation), final(self).delegations@ == old(self).delegations@.insert(h(*delegation), delegation), addressed(old(self).delegations@) ==> addressed(final(self).delegations@)", ["self", "delegation"]),
    DSF("remove_by_hash", "pub fn remove_by_hash(&mut self, hash: &Digest<D>) -> (r: Option<Arc<D>>) ensures final(self).delegations@ == old(self).delegations@.remove(*hash), r == (if old(self).delegations@.dom().contains(*hash) { Some(old(self).delegations@[*hash]) } else { None }), addressed(old(self).delegations@) ==> addressed(final(self).delegations@)", ["self", "hash"]),
    DSF("from_iter_direct", """pub fn from_iter_direct(iter: Vec<Arc<D>>) -> (r: Self) ensures addressed(r.delegations@), forall|k: Digest<D>| #[trigger] r.delegations@.dom().contains(k) <==> exists|i: int| 0 <= i < iter@.len() && h(*(#[trigger] iter@[i])) == k""", ["iter"],
        loops=[("for", "it", "invariant it.seq() == iter@, addressed(store.delegations@), forall|k: Digest<D>| #[trigger] store.delegations@.dom().contains(k) <==> exists|i: int| 0 <= i < it.index@ && h(*(#[trigger] iter@[i])) == k")]),
    RSF("new", "pub fn new() -> (r: Self) ensures r.revocations@ == Map::<Digest<R>, Arc<R>>::empty(), rwf(r)", [], rewrites=[("HashMap::default()", "HashMap::new()")]),
    RSF("len", "pub fn len(&self) -> (r: usize) ensures r == self.revocations@.len()", ["self"]),
    RSF("is_empty", "pub fn is_empty(&self) -> (r: bool) ensures r == (self.revocations@.len() == 0)", ["self"]),
    RSF("get", "pub fn get(&self, key: &Digest<R>) -> (r: Option<Arc<R>>) ensures r == (if self.revocations@.dom().contains(*key) { Some(self.revocations@[*key]) } else { None })", ["self", "key"]),
    RSF("contains_key", "pub fn contains_key(&self, key: &Digest<R>) -> (r: bool) ensures r == self.revocations@.dom().contains(*key)", ["self", "key"]),
    RSF("contains_value", "pub fn contains_value(&self, value: &R) -> (r: bool) ensures r == has_value(self.revocations@, *value)", ["self", "value"]),
    RSF("insert", "pub fn insert(&mut self, revocation: Arc<R>) -> (r: Digest<R>) requires rwf(*old(self)) ensures r == h(*revocation), final(self).revocations@ == old(self).revocations@.insert(h(*revocation), revocation), rwf(*final(self))", ["self", "revocation"],
        rewrites=[("self.agent_to_revocations.entry($k).or_default().insert($v);", "map_set_add(&mut self.agent_to_revocations, $k, $v);")],
        pre="let ghost g0 = *self; let ghost rv = revocation; proof { assert(h(*rv) == h(*rv)); }",
        hints=[("map_set_add(&mut self.agent_to_revocations, $k, $v);", "proof { ins_ok(g0.revocations@, g0.agent_to_revocations@, self.agent_to_revocations@, rv); }")]),
    RSF("remove_by_hash", "pub fn remove_by_hash(&mut self, hash: &Digest<R>) -> (r: Option<Arc<R>>) requires rwf(*old(self)) ensures final(self).revocations@ == old(self).revocations@.remove(*hash), r == (if old(self).revocations@.dom().contains(*hash) { Some(old(self).revocations@[*hash]) } else { None }), rwf(*final(self))", ["self", "hash"],
        rewrites=[("self.agent_to_revocations.get_mut($k)", "map_get_mut(&mut self.agent_to_revocations, $k)")],
        pre="let ghost g0 = *self; let ghost hk = *hash; proof { assert forall|k: Digest<R>| !g0.revocations@.dom().contains(k) implies g0.revocations@.remove(k) =~= g0.revocations@ by {} }",
        hints=[("revocations_set.remove(&revocation);", "proof { emptyset(*revocations_set); }"),
               ("self.agent_to_revocations.remove(&agent_id);\n}\n}", "proof { rem_end(g0, *self, hk); }")]),
    RSF("get_revocations_for_agent", """pub fn get_revocations_for_agent(&self, agent_id: &AgentId) -> (r: Option<HashSet<Arc<R>>>) requires rwf(*self)
        ensures forall|q: Arc<R>| (r is Some && (#[trigger] (r->0)@.contains(q))) <==> self.revocations@.dom().contains(hd(q)) && self.revocations@[hd(q)] == q && ag(q) == *agent_id,
            r is Some ==> exists|q: Arc<R>| (r->0)@.contains(q)""", ["self", "agent_id"], 
        pre="proof { assert forall|q: Arc<R>| #[trigger] self.revocations@.dom().contains(hd(q)) && self.revocations@[hd(q)] == q && ag(q) == *agent_id <==> at(self.agent_to_revocations@, *agent_id, q) by {} assert forall|q: Arc<R>| at(self.agent_to_revocations@, *agent_id, q) == (self.agent_to_revocations@.dom().contains(*agent_id) && #[trigger] self.agent_to_revocations@[*agent_id]@.contains(q)) by {} }"),
    RSF("from_iter_direct", """pub fn from_iter_direct(iter: Vec<Arc<R>>) -> (r: Self) ensures rwf(r), forall|k: Digest<R>| #[trigger] r.revocations@.dom().contains(k) <==> exists|i: int| 0 <= i < iter@.len() && h(*(#[trigger] iter@[i])) == k""", ["iter"],
        loops=[("for", "it", "invariant it.seq() == iter@, rwf(store), forall|k: Digest<R>| #[trigger] store.revocations@.dom().contains(k) <==> exists|i: int| 0 <= i < it.index@ && h(*(#[trigger] iter@[i])) == k")]),
])
membership.prelude += r"""
pub open spec fn dropped(x: Map<AgentId, HashSet<Arc<R>>>, y: Map<AgentId, HashSet<Arc<R>>>, a: AgentId, r: Arc<R>) -> bool {
    &&& x.dom().contains(a) ==> (y.dom().contains(a) ==> y[a]@ == x[a]@.remove(r) && y[a]@.len() > 0) && (!y.dom().contains(a) ==> x[a]@.remove(r) =~= Set::<Arc<R>>::empty())
    &&& !x.dom().contains(a) ==> !y.dom().contains(a)
    &&& forall|b: AgentId| b != a ==> (y.dom().contains(b) == #[trigger] x.dom().contains(b)) && (x.dom().contains(b) ==> y[b] == x[b])
}
pub proof fn rem_end(g0: RevocationStore, g1: RevocationStore, k: Digest<R>)
    requires rwf(g0), g0.revocations@.dom().contains(k), g1.revocations@ == g0.revocations@.remove(k), dropped(g0.agent_to_revocations@, g1.agent_to_revocations@, ag(g0.revocations@[k]), g0.revocations@[k])
    ensures rwf(g1)
{
    let x = g0.agent_to_revocations@; let y = g1.agent_to_revocations@; let r = g0.revocations@[k]; let a0 = ag(r);
    assert forall|a: AgentId, q: Arc<R>| #[trigger] at(y, a, q) <==> at(x, a, q) && !(a == a0 && q == r) by {
        assert(x.dom().contains(a) == x.dom().contains(a));
        if a == a0 && x.dom().contains(a) && !y.dom().contains(a) { assert(x[a]@.remove(r).contains(q) == (x[a]@.contains(q) && q != r)); }
    }
    assert forall|a: AgentId| #[trigger] y.dom().contains(a) implies exists|v: Arc<R>| y[a]@.contains(v) by {
        assert(x.dom().contains(a)); emptyset(y[a]);
        if a != a0 { let v = choose|v: Arc<R>| x[a]@.contains(v); }
    }
    rem_ok(g0.revocations@, x, y, k);
}
"""

# ---------------------------------------------------------------- ciphertext store
CS = "keyhive_core/src/store/ciphertext/memory.rs"
CT = core.hashkey("Cr") + core.hashkey("OpD") + r"""
impl Dupe for OpD { fn dupe(&self) -> (r: Self) { *self } }
pub struct Bytes { pub b: Vec<u8> }
impl Bytes { pub fn len(&self) -> (r: usize) ensures r == self.b@.len() { self.b.len() } }
pub struct E { pub ciphertext: Bytes, pub content_ref: Cr, pub pcs_update_op_hash: OpD, pub rest: u64 }
pub struct ByteSize(pub usize);
pub type Dg = Digest<E>;
pub type Entry = (ByteSize, Arc<E>);
pub struct Inner { pub ops_to_refs: HashMap<OpD, HashSet<Cr>>, pub refs_to_digests: HashMap<Cr, HashSet<Dg>>, pub store: HashMap<Dg, Entry> }
pub struct Mutex { pub s: Inner }
impl Mutex {
    pub fn new(i: Inner) -> (r: Mutex) ensures r.s == i { Mutex { s: i } }
    pub fn lock(&mut self) -> (r: &mut Inner) ensures *r == old(self).s, final(self).s == *final(r) { &mut self.s }
    pub fn read(&self) -> (r: &Inner) ensures *r == self.s { &self.s }
}
pub struct MemoryCiphertextStore(pub Mutex);
pub type St = Map<Dg, Entry>;
pub open spec fn cr_of(s: St, d: Dg) -> Cr { s[d].1.content_ref }
pub open spec fn op_of(s: St, d: Dg) -> OpD { s[d].1.pcs_update_op_hash }
/// ciphertexts are stored under their own digest, with their own length
pub open spec fn addr(s: St) -> bool { forall|d: Dg| #[trigger] s.dom().contains(d) ==> h(*s[d].1) == d && s[d].0.0 == s[d].1.ciphertext.b@.len() }
/// the content index lists exactly what is stored
pub open spec fn by_ref(s: St, x: Map<Cr, HashSet<Dg>>) -> bool {
    &&& forall|c: Cr, d: Dg| #[trigger] at(x, c, d) <==> s.dom().contains(d) && cr_of(s, d) == c
    &&& no_empty(x)
}
pub open spec fn uses(s: St, o: OpD, c: Cr, d: Dg) -> bool { s.dom().contains(d) && op_of(s, d) == o && cr_of(s, d) == c }
/// the update index lists exactly the contents that a stored ciphertext of that update has
pub open spec fn by_op(s: St, x: Map<OpD, HashSet<Cr>>) -> bool {
    &&& forall|o: OpD, c: Cr| #[trigger] at(x, o, c) <==> exists|d: Dg| uses(s, o, c, d)
    &&& no_empty(x)
}
pub open spec fn wf(i: Inner) -> bool { addr(i.store@) && by_ref(i.store@, i.refs_to_digests@) && by_op(i.store@, i.ops_to_refs@) }
pub open spec fn added<K, V>(x: Map<K, HashSet<V>>, y: Map<K, HashSet<V>>, k: K, v: V) -> bool { (forall|a: K, b: V| #[trigger] at(y, a, b) <==> at(x, a, b) || (a == k && b == v)) && (no_empty(x) ==> no_empty(y)) }
pub open spec fn minus<K, V>(x: Map<K, HashSet<V>>, y: Map<K, HashSet<V>>, k: K, v: V) -> bool { (forall|a: K, b: V| #[trigger] at(y, a, b) <==> at(x, a, b) && !(a == k && b == v)) && (no_empty(x) ==> no_empty(y)) }
pub proof fn is_added<K, V>(x: Map<K, HashSet<V>>, y: Map<K, HashSet<V>>, k: K, v: V)
    requires y.dom() == x.dom().insert(k), forall|a: K| a != k && x.dom().contains(a) ==> y[a] == #[trigger] x[a], y[k]@ == (if x.dom().contains(k) { x[k]@ } else { Set::<V>::empty() }).insert(v)
    ensures added(x, y, k, v)
{
    assert forall|a: K, b: V| #[trigger] at(y, a, b) <==> at(x, a, b) || (a == k && b == v) by { assert(x.dom().contains(a) ==> x[a] == x[a]); }
    if no_empty(x) { assert forall|a: K| #[trigger] y.dom().contains(a) implies exists|b: V| y[a]@.contains(b) by { if a == k { assert(y[k]@.contains(v)); } else { assert(x.dom().contains(a)); let b = choose|b: V| x[a]@.contains(b); assert(y[a]@.contains(b)); } } }
}
pub open spec fn cut<K, V>(x: Map<K, HashSet<V>>, y: Map<K, HashSet<V>>, k: K, v: V) -> bool {
    &&& x.dom().contains(k) ==> (y.dom().contains(k) ==> y[k]@ == x[k]@.remove(v) && y[k]@.len() > 0) && (!y.dom().contains(k) ==> x[k]@.remove(v) =~= Set::<V>::empty())
    &&& !x.dom().contains(k) ==> !y.dom().contains(k)
    &&& forall|b: K| b != k ==> (y.dom().contains(b) == #[trigger] x.dom().contains(b)) && (x.dom().contains(b) ==> y[b] == x[b])
}
pub proof fn is_minus<K, V>(x: Map<K, HashSet<V>>, y: Map<K, HashSet<V>>, k: K, v: V)
    requires cut(x, y, k, v) ensures minus(x, y, k, v)
{
    assert forall|a: K, b: V| #[trigger] at(y, a, b) <==> at(x, a, b) && !(a == k && b == v) by {
        assert(x.dom().contains(a) == x.dom().contains(a));
        if a == k && x.dom().contains(a) && !y.dom().contains(a) { assert(x[a]@.remove(v).contains(b) == (x[a]@.contains(b) && b != v)); }
    }
    if no_empty(x) { assert forall|a: K| #[trigger] y.dom().contains(a) implies exists|b: V| y[a]@.contains(b) by { assert(x.dom().contains(a)); emptyset(y[a]); if a != k { let b = choose|b: V| x[a]@.contains(b); } } }
}
pub proof fn add_ok(a: Inner, b: Inner, e: Arc<E>)
    requires wf(a), e.ciphertext.b@.len() <= usize::MAX, !a.store@.dom().contains(hh(e)), b.store@ == a.store@.insert(hh(e), (ByteSize(clen(e)), e)), added(a.ops_to_refs@, b.ops_to_refs@, e.pcs_update_op_hash, e.content_ref), added(a.refs_to_digests@, b.refs_to_digests@, e.content_ref, hh(e))
    ensures wf(b)
{
    let s = a.store@; let t = b.store@; let k = hh(e);
    assert forall|c: Cr, d: Dg| #[trigger] at(b.refs_to_digests@, c, d) <==> t.dom().contains(d) && cr_of(t, d) == c by { assert(at(a.refs_to_digests@, c, d) <==> s.dom().contains(d) && cr_of(s, d) == c); }
    assert forall|o: OpD, c: Cr| #[trigger] at(b.ops_to_refs@, o, c) <==> exists|d: Dg| uses(t, o, c, d) by {
        assert(at(a.ops_to_refs@, o, c) <==> exists|d: Dg| uses(s, o, c, d));
        if exists|d: Dg| uses(s, o, c, d) { let d = choose|d: Dg| uses(s, o, c, d); assert(uses(t, o, c, d)); }
        if exists|d: Dg| uses(t, o, c, d) { let d = choose|d: Dg| uses(t, o, c, d); if d != k { assert(uses(s, o, c, d)); } }
        if o == e.pcs_update_op_hash && c == e.content_ref { assert(uses(t, o, c, k)); }
    }
}
pub proof fn again_ok(a: Inner, b: Inner, e: Arc<E>)
    requires wf(a), e.ciphertext.b@.len() <= usize::MAX, a.store@.dom().contains(hh(e)), b.store@ == a.store@.insert(hh(e), (ByteSize(clen(e)), e)), b.ops_to_refs@ == a.ops_to_refs@, b.refs_to_digests@ == a.refs_to_digests@
    ensures wf(b), b.store@ =~= a.store@
{ let k = hh(e); assert(h(*a.store@[k].1) == k); assert(*a.store@[k].1 == *e); assert(a.store@[k].1 == e); assert(a.store@[k].0.0 == clen(e)); assert(a.store@[k] == (ByteSize(clen(e)), e)); assert(b.store@ =~= a.store@); }
pub open spec fn hh(e: Arc<E>) -> Dg { h(*e) }
pub open spec fn clen(e: Arc<E>) -> usize { e.ciphertext.b@.len() as usize }
/// the update of a removed ciphertext is still used for the same content
pub open spec fn still(i: Inner, e: E) -> bool { exists|d: Dg| at(i.refs_to_digests@, e.content_ref, d) && #[trigger] i.store@.dom().contains(d) && op_of(i.store@, d) == e.pcs_update_op_hash }
pub proof fn rem_ok(a: Inner, b: Inner, k: Dg)
    requires wf(a), a.store@.dom().contains(k), b.store@ == a.store@.remove(k), minus(a.refs_to_digests@, b.refs_to_digests@, cr_of(a.store@, k), k),
        still(b, *a.store@[k].1) ==> b.ops_to_refs@ == a.ops_to_refs@, !still(b, *a.store@[k].1) ==> minus(a.ops_to_refs@, b.ops_to_refs@, op_of(a.store@, k), cr_of(a.store@, k))
    ensures wf(b)
{
    let s = a.store@; let t = b.store@;
    assert forall|c: Cr, d: Dg| #[trigger] at(b.refs_to_digests@, c, d) <==> t.dom().contains(d) && cr_of(t, d) == c by { assert(at(a.refs_to_digests@, c, d) <==> s.dom().contains(d) && cr_of(s, d) == c); }
    assert forall|o: OpD, c: Cr| #[trigger] at(b.ops_to_refs@, o, c) <==> exists|d: Dg| uses(t, o, c, d) by {
        assert(at(a.ops_to_refs@, o, c) <==> exists|d: Dg| uses(s, o, c, d));
        if exists|d: Dg| uses(t, o, c, d) { let d = choose|d: Dg| uses(t, o, c, d); assert(uses(s, o, c, d)); assert(at(b.refs_to_digests@, c, d)); }
        if exists|d: Dg| uses(s, o, c, d) {
            let d = choose|d: Dg| uses(s, o, c, d);
            if d != k { assert(uses(t, o, c, d)); assert(at(b.refs_to_digests@, c, d)); }
            else if still(b, *s[k].1) { let d2 = choose|d: Dg| at(b.refs_to_digests@, s[k].1.content_ref, d) && #[trigger] t.dom().contains(d) && op_of(t, d) == s[k].1.pcs_update_op_hash; assert(uses(t, o, c, d2)); }
        }
    }
}
/// std: set.iter().map(f).collect::<Option<Vec<_>>>()
#[verifier::external_body] pub fn collect_all<K, V, F: Fn(&K) -> Option<V>>(s: &HashSet<K>, f: F) -> (r: Option<Vec<V>>)
    requires forall|k: &K| #[trigger] f.requires((k,))
    ensures r is Some ==> (forall|k: K| s@.contains(k) ==> exists|i: int| 0 <= i < (r->0)@.len() && #[trigger] f.ensures((&k,), Some((r->0)@[i])))
                && (forall|v: V| (r->0)@.contains(v) ==> exists|k: K| #[trigger] s@.contains(k) && f.ensures((&k,), Some(v))),
            r is None ==> exists|k: K| #[trigger] s@.contains(k) && f.ensures((&k,), None::<V>) { unimplemented!() }
/// std: xs.iter().max_by_key(|(size, _)| size)
#[verifier::external_body] pub fn max_by_size<'a>(xs: &Vec<&'a Entry>) -> (r: Option<&'a Entry>)
    ensures r is None == (xs@.len() == 0), r is Some ==> (exists|i: int| 0 <= i < xs@.len() && #[trigger] xs@[i] == r->0) && forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).0.0 <= (r->0).0.0 { unimplemented!() }
/// std: opt.into_iter().flatten().filter_map(get).any(test)
#[verifier::external_body] pub fn any_entry<K, V, G: Fn(&K) -> Option<V>, F: Fn(V) -> bool>(s: Option<&HashSet<K>>, get: G, test: F) -> (r: bool)
    requires forall|k: &K| #[trigger] get.requires((k,)), forall|v: V| #[trigger] test.requires((v,))
    ensures r ==> s is Some && exists|k: K, v: V| #[trigger] s->0@.contains(k) && get.ensures((&k,), Some(v)) && #[trigger] test.ensures((v,), true),
        !r ==> s is Some ==> forall|k: K| #[trigger] s->0@.contains(k) ==> get.ensures((&k,), None::<V>) || exists|v: V| get.ensures((&k,), Some(v)) && #[trigger] test.ensures((v,), false) { unimplemented!() }
/// the answer to a lookup by update: each matching ciphertext once
pub open spec fn lists(s: St, o: OpD, v: Seq<Arc<E>>, ds: Seq<Dg>) -> bool {
    &&& ds.no_duplicates() && ds.len() == v.len()
    &&& forall|i: int| 0 <= i < ds.len() ==> s.dom().contains(#[trigger] ds[i]) && op_of(s, ds[i]) == o && v[i] == s[ds[i]].1
}
/// `x` is among the first `n`
pub open spec fn first<K>(v: Seq<&K>, n: int, x: K) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] v[i]) == x }
pub proof fn first_step<K>(v: Seq<&K>, n: int, x: K) requires 0 <= n < v.len() ensures first(v, n + 1, x) == (first(v, n, x) || *v[n] == x)
{ if first(v, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] v[i]) == x; if i < n { assert(first(v, n, x)); } }
  if first(v, n, x) { let i = choose|i: int| 0 <= i < n && *(#[trigger] v[i]) == x; assert(0 <= i < n + 1 && *v[i] == x); } if *v[n] == x { assert(0 <= n < n + 1 && *v[n] == x); } }
/// after `n` contents
pub open spec fn upto(s: St, o: OpD, cs: Seq<&Cr>, n: int, ds: Seq<Dg>) -> bool { forall|d: Dg| #[trigger] ds.contains(d) <==> s.dom().contains(d) && op_of(s, d) == o && first(cs, n, cr_of(s, d)) }
/// and, of content `n`, `m` digests
pub open spec fn upto2(s: St, o: OpD, cs: Seq<&Cr>, n: int, js: Seq<&Dg>, m: int, ds: Seq<Dg>) -> bool { forall|d: Dg| #[trigger] ds.contains(d) <==> s.dom().contains(d) && op_of(s, d) == o && (first(cs, n, cr_of(s, d)) || first(js, m, d)) }
pub open spec fn listed<K>(s: Set<K>, v: Seq<&K>) -> bool { forall|k: K| #[trigger] s.contains(k) <==> first(v, v.len() as int, k) }
"""
CSW = core.std(*AX, "ax_cr::key_model", "ax_opd::key_model") + MAPS + DIGEST + CT
CSF = lambda name, sig, params, impl="MemoryCiphertextStore", wrap="impl MemoryCiphertextStore", **k: Fn(CS, impl, name, sig, params, wrap=wrap, **k)
ADD = [("locked.ops_to_refs.entry($k).or_default().insert($v);", "map_set_add(&mut locked.ops_to_refs, $k, $v);"), ("locked.refs_to_digests.entry($k).or_default().insert($v);", "map_set_add(&mut locked.refs_to_digests, $k, $v);")]
ciphertexts = Unit("ciphertext_store", CSW, [
    CSF("new", "pub fn new() -> (r: Self) ensures wf(r.0.s), r.0.s.store@ == Map::<Dg, Entry>::empty()", [], rewrites=[("MemoryCiphertextStoreInner", "Inner"), ("Arc::new(Mutex::new($x))", "Mutex::new($x)")]),
    CSF("insert", """pub fn insert(&mut self, encrypted: Arc<E>) requires wf(old(self).0.s), encrypted.ciphertext.b@.len() <= usize::MAX ensures wf(final(self).0.s), final(self).0.s.store@ =~= old(self).0.s.store@.insert(hh(encrypted), (ByteSize(clen(encrypted)), encrypted))""", ["self", "encrypted"], rewrites=ADD,
        pre="let ghost g0 = self.0.s; let ghost e = encrypted;",
        hints=[(".is_some() {", "proof { again_ok(g0, *locked, e); }"),
               ("map_set_add(&mut locked.ops_to_refs, $k, $v);", "proof { is_added(g0.ops_to_refs@, locked.ops_to_refs@, e.pcs_update_op_hash, e.content_ref); }"),
               ("map_set_add(&mut locked.refs_to_digests, $k, $v);", "proof { is_added(g0.refs_to_digests@, locked.refs_to_digests@, e.content_ref, hh(e)); add_ok(g0, *locked, e); }")]),
    CSF("insert_raw", """pub fn insert_raw(&mut self, encrypted: E) -> (r: Arc<E>) requires wf(old(self).0.s), encrypted.ciphertext.b@.len() <= usize::MAX ensures *r == encrypted, wf(final(self).0.s), final(self).0.s.store@ =~= old(self).0.s.store@.insert(h(encrypted), (ByteSize(clen(r)), r))""", ["self", "encrypted"]),
    CSF("unindex_op", """pub fn unindex_op(&mut self, removed: &E)
        ensures final(self).store@ == old(self).store@, final(self).refs_to_digests@ == old(self).refs_to_digests@,
            still(*old(self), *removed) ==> final(self).ops_to_refs@ == old(self).ops_to_refs@,
            !still(*old(self), *removed) ==> minus(old(self).ops_to_refs@, final(self).ops_to_refs@, removed.pcs_update_op_hash, removed.content_ref)""", ["self", "removed"], impl="MemoryCiphertextStoreInner", wrap="impl Inner",
        rewrites=[("self.refs_to_digests.get($k).into_iter().flatten().filter_map(|$$d| $g).any(|(_, $$o)| $t);",
                   "any_entry(self.refs_to_digests.get($k), |$$d: &Dg| -> (r: Option<&Entry>) ensures r is Some == self.store@.dom().contains(*$$d), r is Some ==> *(r->0) == self.store@[*$$d] { $g }, |e: &Entry| -> (r: bool) ensures r == (e.1.pcs_update_op_hash == removed.pcs_update_op_hash) { let $$o = &e.1; $t });", "must"),
                  ("self.ops_to_refs.get_mut($k)", "map_get_mut(&mut self.ops_to_refs, $k)")],
        pre="let ghost g0 = *self;",
        hints=[("if still_used {", "proof { assert(still(g0, *removed)) by { assert(g0.refs_to_digests@.dom().contains(removed.content_ref)); let k = choose|k: Dg| #[trigger] g0.refs_to_digests@[removed.content_ref]@.contains(k) && g0.store@.dom().contains(k) && op_of(g0.store@, k) == removed.pcs_update_op_hash; assert(g0.refs_to_digests@[removed.content_ref]@.contains(k)); assert(at(g0.refs_to_digests@, removed.content_ref, k)); } }"),
               ("refs.remove($k);", "proof { emptyset(*refs); }")],
        post="proof { is_minus(g0.ops_to_refs@, self.ops_to_refs@, removed.pcs_update_op_hash, removed.content_ref); }"),
    CSF("remove", """pub fn remove(&mut self, digest: &Dg) -> (r: Option<Arc<E>>) requires wf(old(self).0.s)
        ensures wf(final(self).0.s), final(self).0.s.store@ =~= old(self).0.s.store@.remove(*digest), r is Some == old(self).0.s.store@.dom().contains(*digest), r is Some ==> r->0 == old(self).0.s.store@[*digest].1 && hh(r->0) == *digest""", ["self", "digest"],
        rewrites=[("locked.refs_to_digests.get_mut($k)", "map_get_mut(&mut locked.refs_to_digests, $k)")],
        pre="let ghost g0 = self.0.s; let ghost k = *digest; proof { if !g0.store@.dom().contains(k) { assert(g0.store@.remove(k) =~= g0.store@); } }",
        hints=[("digests.remove($k);", "proof { emptyset(*digests); }"),
               ("locked.refs_to_digests.remove($k);\n}\n}", "proof { is_minus(g0.refs_to_digests@, locked.refs_to_digests@, cr_of(g0.store@, k), k); }"),
               ("locked.unindex_op(&encrypted);", "proof { rem_ok(g0, *locked, k); }")]),
    CSF("get_by_content_ref", """pub fn get_by_content_ref(&self, content_ref: &Cr) -> (r: Option<Arc<E>>) requires wf(self.0.s)
        ensures r is Some == (exists|d: Dg| #[trigger] self.0.s.store@.dom().contains(d) && cr_of(self.0.s.store@, d) == *content_ref),
            r is Some ==> exists|d: Dg| #[trigger] self.0.s.store@.dom().contains(d) && self.0.s.store@[d].1 == r->0 && cr_of(self.0.s.store@, d) == *content_ref
                && forall|e: Dg| #[trigger] self.0.s.store@.dom().contains(e) && cr_of(self.0.s.store@, e) == *content_ref ==> self.0.s.store@[e].0.0 <= self.0.s.store@[d].0.0""", ["self", "content_ref"],
        rewrites=[("self.0.lock()", "self.0.read()"),
                  ("locked.refs_to_digests.get($k)?.iter().map(|$$d| $g).collect::<Option<Vec<_>>>()?", "collect_all(locked.refs_to_digests.get($k)?, |$$d: &Dg| -> (r: Option<&Entry>) ensures r is Some == locked.store@.dom().contains(*$$d), r is Some ==> *(r->0) == locked.store@[*$$d] { $g })?", "must"),
                  ("xs.iter().max_by_key(|(size, _)| size)", "max_by_size(&xs)", "must")],
        pre="proof { let s = self.0.s; assert forall|d: Dg| #[trigger] s.store@.dom().contains(d) && cr_of(s.store@, d) == *content_ref implies at(s.refs_to_digests@, *content_ref, d) by {} assert forall|d: Dg| at(s.refs_to_digests@, *content_ref, d) <==> (s.refs_to_digests@.dom().contains(*content_ref) && #[trigger] s.refs_to_digests@[*content_ref]@.contains(d)) by {} }",
        hints=[("max_by_size(&xs)?;", """proof { let s = self.0.s.store@; assert forall|d: Dg| s.dom().contains(d) && cr_of(s, d) == *content_ref implies exists|i: int| 0 <= i < xs@.len() && *(#[trigger] xs@[i]) == s[d] by { assert(at(self.0.s.refs_to_digests@, *content_ref, d)); } assert forall|i: int| 0 <= i < xs@.len() implies exists|d: Dg| #[trigger] s.dom().contains(d) && s[d] == *(#[trigger] xs@[i]) && cr_of(s, d) == *content_ref by { assert(xs@.contains(xs@[i])); let d = choose|d: Dg| #[trigger] self.0.s.refs_to_digests@[*content_ref]@.contains(d) && s.dom().contains(d) && s[d] == *xs@[i]; assert(at(self.0.s.refs_to_digests@, *content_ref, d)); }
            let i = choose|i: int| 0 <= i < xs@.len() && (#[trigger] xs@[i]).1 == *largest; let d = choose|d: Dg| #[trigger] s.dom().contains(d) && s[d] == *xs@[i] && cr_of(s, d) == *content_ref;
            assert(s.dom().contains(d) && s[d].1 == *largest);
            assert forall|e: Dg| #[trigger] s.dom().contains(e) && cr_of(s, e) == *content_ref implies s[e].0.0 <= s[d].0.0 by { let j = choose|j: int| 0 <= j < xs@.len() && *(#[trigger] xs@[j]) == s[e]; assert(xs@[j].0.0 <= s[d].0.0); } }""")]),
    CSF("get_by_pcs_update", """pub fn get_by_pcs_update(&self, pcs_update_op: &OpD) -> (r: Vec<Arc<E>>) requires wf(self.0.s)
        ensures exists|ds: Seq<Dg>| #[trigger] lists(self.0.s.store@, *pcs_update_op, r@, ds) && complete(self.0.s.store@, *pcs_update_op, ds)""", ["self", "pcs_update_op"],
        rewrites=[("self.0.lock()", "self.0.read()"),
                  ("locked.ops_to_refs.get($k).iter().fold(vec![], |mut $$a, $$c| { $b $$z })", "{ let mut $$a: Vec<Arc<E>> = vec![]; if let Some($$c) = locked.ops_to_refs.get($k) { $b } proof { assert(lists(st, o, $$a@, ds)); } $$z }", "must"),
                  ("in $x.iter() {", "in set_list($x) {")],
        pre="let ghost mut ds: Seq<Dg> = seq![]; let ghost st = self.0.s.store@; let ghost o = *pcs_update_op; proof { nothing(self.0.s, o); }",
        hints=[("if let Some($$d) = locked.refs_to_digests.get(content_ref) {", "proof { of_content(self.0.s, *content_ref); }")],
        loops=[("for", "it", """invariant *locked == self.0.s, st == self.0.s.store@, o == *pcs_update_op, wf(self.0.s), it.seq().no_duplicates(), listed(content_refs@, it.seq()),
                self.0.s.ops_to_refs@.dom().contains(o), *content_refs == self.0.s.ops_to_refs@[o],
                lists(st, o, acc@, ds), upto(st, o, it.seq(), it.index@ as int, ds), it.index@ == it.seq().len() ==> complete(st, o, ds)
              """, "", "proof { if !self.0.s.refs_to_digests@.dom().contains(*content_ref) { skip(self.0.s, o, it.seq(), it.index@ as int, *content_ref, ds); } all_done(self.0.s, o, it.seq(), it.index@ as int + 1, ds); }"),
               ("for", "jt", """invariant *locked == self.0.s, st == self.0.s.store@, o == *pcs_update_op, wf(self.0.s), jt.seq().no_duplicates(), listed(digests@, jt.seq()),
                at_all(self.0.s, *content_ref, digests@), it.seq().no_duplicates(),
                lists(st, o, acc@, ds), upto2(st, o, it.seq(), it.index@ as int, jt.seq(), jt.index@ as int, ds), 0 <= it.index@ < it.seq().len(), it.seq()[it.index@ as int] == content_ref,
                jt.index@ == jt.seq().len() ==> upto(st, o, it.seq(), it.index@ + 1, ds)
              """, "let ghost a0 = acc@; proof { assert(first(jt.seq(), jt.seq().len() as int, *digest)); assert(digests@.contains(*digest)); }", "proof { let n = ds; if op_of(st, *digest) == o { ds = ds.push(*digest); } inner(self.0.s, o, it.seq(), it.index@ as int, *content_ref, jt.seq(), jt.index@ as int, a0, n, acc@, ds); close(self.0.s, o, it.seq(), it.index@ as int, *content_ref, jt.seq(), jt.index@ as int + 1, digests@, ds); }")],
        ),
    CSF("remove_all", """pub fn remove_all(&mut self, content_ref: &Cr) -> (r: bool) requires wf(old(self).0.s)
        ensures wf(final(self).0.s), forall|d: Dg| #[trigger] final(self).0.s.store@.dom().contains(d) <==> old(self).0.s.store@.dom().contains(d) && cr_of(old(self).0.s.store@, d) != *content_ref,
            forall|d: Dg| #[trigger] final(self).0.s.store@.dom().contains(d) ==> final(self).0.s.store@[d] == old(self).0.s.store@[d],
            r == (exists|d: Dg| #[trigger] old(self).0.s.store@.dom().contains(d) && cr_of(old(self).0.s.store@, d) == *content_ref)""", ["self", "content_ref"],
        rewrites=[("in $x.iter() {", "in set_list(&$x) {")],
        pre="let ghost g0 = self.0.s; let ghost c = *content_ref; proof { of_content(g0, c); if !g0.refs_to_digests@.dom().contains(c) { assert(g0.refs_to_digests@.remove(c) =~= g0.refs_to_digests@); } }",
        loops=[("for", "it", """invariant wf(g0), g0.refs_to_digests@.dom().contains(c), digests == g0.refs_to_digests@[c], at_all(g0, c, digests@), listed(digests@, it.seq()), it.seq().no_duplicates(), locked.refs_to_digests@ == g0.refs_to_digests@.remove(c), c == *content_ref,
                purged(g0, *locked, c, it.seq(), it.index@ as int), it.index@ == it.seq().len() ==> all_gone(g0, *locked, c)""", "let ghost g1 = *locked; proof { assert(first(it.seq(), it.seq().len() as int, *digest)); assert(digests@.contains(*digest)); }",
                "proof { purge(g0, g1, *locked, c, it.seq(), it.index@ as int); purged_all(g0, *locked, c, it.seq(), it.index@ as int + 1, digests@); }")]),
])
CSW_EXTRA = r"""
/// std: iterating a set
#[verifier::external_body] pub fn set_list<'a, K>(s: &'a HashSet<K>) -> (r: Vec<&'a K>) ensures r@.no_duplicates(), listed(s@, r@) { unimplemented!() }
pub open spec fn at_all(i: Inner, c: Cr, s: Set<Dg>) -> bool { forall|d: Dg| #[trigger] s.contains(d) <==> i.store@.dom().contains(d) && cr_of(i.store@, d) == c }
pub open spec fn complete(s: St, o: OpD, ds: Seq<Dg>) -> bool { forall|d: Dg| #[trigger] s.dom().contains(d) && op_of(s, d) == o ==> ds.contains(d) }
pub proof fn nothing(i: Inner, o: OpD) requires wf(i) ensures lists(i.store@, o, Seq::<Arc<E>>::empty(), Seq::<Dg>::empty()), !i.ops_to_refs@.dom().contains(o) ==> complete(i.store@, o, Seq::<Dg>::empty()),
    i.ops_to_refs@.dom().contains(o) ==> exists|c: Cr| i.ops_to_refs@[o]@.contains(c), forall|cs: Seq<&Cr>| upto(i.store@, o, cs, 0, Seq::<Dg>::empty())
{ if !i.ops_to_refs@.dom().contains(o) { assert forall|d: Dg| #[trigger] i.store@.dom().contains(d) && op_of(i.store@, d) == o implies Seq::<Dg>::empty().contains(d) by { assert(uses(i.store@, o, cr_of(i.store@, d), d)); assert(at(i.ops_to_refs@, o, cr_of(i.store@, d))); } } }
pub proof fn of_content(i: Inner, c: Cr) requires wf(i) ensures i.refs_to_digests@.dom().contains(c) ==> at_all(i, c, i.refs_to_digests@[c]@) && (exists|d: Dg| i.refs_to_digests@[c]@.contains(d)),
    !i.refs_to_digests@.dom().contains(c) ==> forall|d: Dg| #[trigger] i.store@.dom().contains(d) ==> cr_of(i.store@, d) != c
{
    assert forall|d: Dg| #[trigger] i.store@.dom().contains(d) && cr_of(i.store@, d) == c implies at(i.refs_to_digests@, c, d) by {}
    if i.refs_to_digests@.dom().contains(c) { assert forall|d: Dg| #[trigger] i.refs_to_digests@[c]@.contains(d) implies i.store@.dom().contains(d) && cr_of(i.store@, d) == c by { assert(at(i.refs_to_digests@, c, d)); } }
}
pub proof fn inner(i: Inner, o: OpD, cs: Seq<&Cr>, n: int, c: Cr, js: Seq<&Dg>, m: int, a0: Seq<Arc<E>>, d0: Seq<Dg>, a1: Seq<Arc<E>>, d1: Seq<Dg>)
    requires wf(i), cs.no_duplicates(), js.no_duplicates(), 0 <= n < cs.len(), 0 <= m < js.len(), *cs[n] == c, lists(i.store@, o, a0, d0), upto2(i.store@, o, cs, n, js, m, d0),
        i.store@.dom().contains(*js[m]), cr_of(i.store@, *js[m]) == c, op_of(i.store@, *js[m]) == o ==> a1 == a0.push(i.store@[*js[m]].1) && d1 == d0.push(*js[m]), op_of(i.store@, *js[m]) != o ==> a1 == a0 && d1 == d0
    ensures lists(i.store@, o, a1, d1), upto2(i.store@, o, cs, n, js, m + 1, d1)
{
    let d = *js[m]; let s = i.store@;
    assert(!d0.contains(d)) by {
        if first(cs, n, cr_of(s, d)) { let k = choose|k: int| 0 <= k < n && *(#[trigger] cs[k]) == cr_of(s, d); assert(cs[k] == cs[n]); }
        if first(js, m, d) { let k = choose|k: int| 0 <= k < m && *(#[trigger] js[k]) == d; assert(js[k] == js[m]); }
    }
    if op_of(s, d) == o {
        assert forall|x: Dg| d1.contains(x) == (d0.contains(x) || x == d) by { if d0.contains(x) { let q = choose|q: int| 0 <= q < d0.len() && d0[q] == x; assert(d1[q] == x); } assert(d1[d0.len() as int] == d); }
    }
    assert forall|x: Dg| #[trigger] d1.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && (first(cs, n, cr_of(s, x)) || first(js, m + 1, x)) by {
        assert(d0.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && (first(cs, n, cr_of(s, x)) || first(js, m, x)));
        first_step(js, m, x);
    }
}
pub proof fn close(i: Inner, o: OpD, cs: Seq<&Cr>, n: int, c: Cr, js: Seq<&Dg>, m: int, r: Set<Dg>, ds: Seq<Dg>)
    requires wf(i), 0 <= n < cs.len(), *cs[n] == c, upto2(i.store@, o, cs, n, js, m, ds), listed(r, js), at_all(i, c, r)
    ensures m == js.len() ==> upto(i.store@, o, cs, n + 1, ds)
{
    let s = i.store@;
    if m == js.len() { assert forall|x: Dg| #[trigger] ds.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && first(cs, n + 1, cr_of(s, x)) by {
        assert(ds.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && (first(cs, n, cr_of(s, x)) || first(js, m, x)));
        first_step(cs, n, cr_of(s, x)); assert(r.contains(x) <==> first(js, m, x));
    } }
}
pub proof fn skip(i: Inner, o: OpD, cs: Seq<&Cr>, n: int, c: Cr, ds: Seq<Dg>)
    requires wf(i), 0 <= n < cs.len(), *cs[n] == c, upto(i.store@, o, cs, n, ds), !i.refs_to_digests@.dom().contains(c) ensures upto(i.store@, o, cs, n + 1, ds)
{
    of_content(i, c); let s = i.store@;
    assert forall|x: Dg| #[trigger] ds.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && first(cs, n + 1, cr_of(s, x)) by {
        assert(ds.contains(x) <==> s.dom().contains(x) && op_of(s, x) == o && first(cs, n, cr_of(s, x))); first_step(cs, n, cr_of(s, x));
    }
}
pub proof fn all_done(i: Inner, o: OpD, cs: Seq<&Cr>, n: int, ds: Seq<Dg>)
    requires wf(i), i.ops_to_refs@.dom().contains(o), listed(i.ops_to_refs@[o]@, cs), upto(i.store@, o, cs, n, ds) ensures n == cs.len() ==> complete(i.store@, o, ds)
{
    if n == cs.len() { assert forall|d: Dg| #[trigger] i.store@.dom().contains(d) && op_of(i.store@, d) == o implies ds.contains(d) by { assert(uses(i.store@, o, cr_of(i.store@, d), d)); assert(at(i.ops_to_refs@, o, cr_of(i.store@, d))); assert(i.ops_to_refs@[o]@.contains(cr_of(i.store@, d))); } }
}
/// the first `n` of the content's digests are gone, with the update entries they need
pub open spec fn some_op(s: St, js: Seq<&Dg>, n: int, o: OpD) -> bool { exists|j: int| 0 <= j < n && op_of(s, *(#[trigger] js[j])) == o }
pub open spec fn purged(a: Inner, b: Inner, c: Cr, js: Seq<&Dg>, n: int) -> bool {
    &&& forall|d: Dg| #[trigger] b.store@.dom().contains(d) <==> a.store@.dom().contains(d) && !first(js, n, d)
    &&& forall|d: Dg| #[trigger] b.store@.dom().contains(d) ==> b.store@[d] == a.store@[d]
    &&& no_empty(b.ops_to_refs@)
    &&& forall|o: OpD, x: Cr| #[trigger] at(b.ops_to_refs@, o, x) <==> at(a.ops_to_refs@, o, x) && !(x == c && some_op(a.store@, js, n, o))
}
pub proof fn purge(g0: Inner, a: Inner, b: Inner, c: Cr, js: Seq<&Dg>, n: int)
    requires wf(g0), 0 <= n < js.len(), js.no_duplicates(), purged(g0, a, c, js, n), g0.store@.dom().contains(*js[n]), cr_of(g0.store@, *js[n]) == c,
        b.store@ == a.store@.remove(*js[n]), minus(a.ops_to_refs@, b.ops_to_refs@, op_of(g0.store@, *js[n]), c)
    ensures purged(g0, b, c, js, n + 1)
{
    assert forall|d: Dg| #[trigger] b.store@.dom().contains(d) <==> g0.store@.dom().contains(d) && !first(js, n + 1, d) by {
        assert(a.store@.dom().contains(d) <==> g0.store@.dom().contains(d) && !first(js, n, d)); first_step(js, n, d);
    }
    assert forall|d: Dg| #[trigger] b.store@.dom().contains(d) implies b.store@[d] == g0.store@[d] by { assert(a.store@.dom().contains(d)); }
    assert forall|o: OpD, x: Cr| #[trigger] at(b.ops_to_refs@, o, x) <==> at(g0.ops_to_refs@, o, x) && !(x == c && some_op(g0.store@, js, n + 1, o)) by {
        assert(at(a.ops_to_refs@, o, x) <==> at(g0.ops_to_refs@, o, x) && !(x == c && some_op(g0.store@, js, n, o)));
        assert(at(b.ops_to_refs@, o, x) <==> at(a.ops_to_refs@, o, x) && !(o == op_of(g0.store@, *js[n]) && x == c));
        if some_op(g0.store@, js, n, o) { let j = choose|j: int| 0 <= j < n && op_of(g0.store@, *(#[trigger] js[j])) == o; assert(0 <= j < n + 1 && op_of(g0.store@, *js[j]) == o); }
        if op_of(g0.store@, *js[n]) == o { assert(0 <= n < n + 1 && op_of(g0.store@, *js[n]) == o); }
    }
}
pub open spec fn all_gone(g0: Inner, b: Inner, c: Cr) -> bool { wf(b) && forall|d: Dg| #[trigger] b.store@.dom().contains(d) <==> g0.store@.dom().contains(d) && cr_of(g0.store@, d) != c }
pub proof fn purged_all(g0: Inner, b: Inner, c: Cr, js: Seq<&Dg>, n: int, r: Set<Dg>)
    requires wf(g0), purged(g0, b, c, js, n), b.refs_to_digests@ == g0.refs_to_digests@.remove(c), listed(r, js), at_all(g0, c, r)
    ensures n == js.len() ==> all_gone(g0, b, c)
{ if n == js.len() {
    let s = g0.store@; let t = b.store@;
    assert forall|d: Dg| #[trigger] t.dom().contains(d) <==> s.dom().contains(d) && cr_of(s, d) != c by { assert(r.contains(d) <==> s.dom().contains(d) && cr_of(s, d) == c); assert(r.contains(d) <==> first(js, n, d)); }
    assert forall|x: Cr, d: Dg| #[trigger] at(b.refs_to_digests@, x, d) <==> t.dom().contains(d) && cr_of(t, d) == x by { assert(at(g0.refs_to_digests@, x, d) <==> s.dom().contains(d) && cr_of(s, d) == x); assert(t.dom().contains(d) <==> s.dom().contains(d) && cr_of(s, d) != c); }
    assert forall|o: OpD, x: Cr| #[trigger] at(b.ops_to_refs@, o, x) <==> exists|d: Dg| uses(t, o, x, d) by {
        assert(at(g0.ops_to_refs@, o, x) <==> exists|d: Dg| uses(s, o, x, d));
        if x == c {
            if exists|d: Dg| uses(s, o, x, d) { let d = choose|d: Dg| uses(s, o, x, d); assert(r.contains(d)); let j = choose|j: int| 0 <= j < n && *(#[trigger] js[j]) == d; assert(op_of(s, *js[j]) == o); assert(some_op(s, js, n, o)); }
            if exists|d: Dg| uses(t, o, x, d) { let d = choose|d: Dg| uses(t, o, x, d); assert(t.dom().contains(d)); assert(t[d] == s[d]); }
        } else {
            if exists|d: Dg| uses(s, o, x, d) { let d = choose|d: Dg| uses(s, o, x, d); assert(t.dom().contains(d)); assert(t[d] == s[d]); assert(uses(t, o, x, d)); }
            if exists|d: Dg| uses(t, o, x, d) { let d = choose|d: Dg| uses(t, o, x, d); assert(t.dom().contains(d)); assert(t[d] == s[d]); assert(uses(s, o, x, d)); }
        }
    }
    assert forall|x: Cr| #[trigger] b.refs_to_digests@.dom().contains(x) implies exists|d: Dg| b.refs_to_digests@[x]@.contains(d) by { assert(g0.refs_to_digests@.dom().contains(x)); let d = choose|d: Dg| g0.refs_to_digests@[x]@.contains(d); assert(b.refs_to_digests@[x]@.contains(d)); }
    assert(addr(t)) by { assert forall|d: Dg| #[trigger] t.dom().contains(d) implies h(*t[d].1) == d && t[d].0.0 == t[d].1.ciphertext.b@.len() by { assert(t[d] == s[d]); assert(s.dom().contains(d)); } }
} }
"""
ciphertexts.prelude += CSW_EXTRA
