"""Model types shared by the Verus units: what the real types are reduced to."""

_STD = r"""
use std::sync::Arc;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use vstd::std_specs::cmp::*;
use vstd::std_specs::convert::*;
use core::cmp::Ordering;
pub assume_specification<T: ?Sized, A: std::alloc::Allocator> [<std::sync::Arc<T, A> as std::convert::AsRef<T>>::as_ref] (a: &std::sync::Arc<T, A>) -> (r: &T) ensures r == &**a;
"""


def std(*axioms):
    return _STD + "broadcast use {vstd::std_specs::hash::group_hash_axioms" + "".join(", " + a for a in axioms) + "};\n"


def opaque(name, inner="u64", extra=""):
    """an opaque value type with equality; nothing is known of its representation"""
    return f"""
#[verifier::external_body] pub struct {name} {{ x: {inner} }}
impl Clone for {name} {{ #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self {{ unimplemented!() }} }}
impl Copy for {name} {{}}
impl PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}
impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}
impl Eq for {name} {{}}
"""


def hashkey(name):
    """opaque type usable as a HashMap/HashSet key"""
    return opaque(name) + f"""
impl std::hash::Hash for {name} {{ #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) {{ unimplemented!() }} }}
pub mod ax_{name.lower()} {{ use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<{name}>(); }}
"""


def eq_struct(name):
    return f"""
impl PartialEqSpecImpl for {name} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, o: &Self) -> bool {{ *self == *o }} }}
impl PartialEq for {name} {{ #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) {{ unimplemented!() }} }}
impl Eq for {name} {{}}
"""


ACCESS = r"""
#[derive(Clone, Copy)] pub enum Access { Relay, Read, Edit, Admin }
pub open spec fn lvl(a: Access) -> int { match a { Access::Relay => 0, Access::Read => 1, Access::Edit => 2, Access::Admin => 3 } }
pub open spec fn ord_of(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl PartialEqSpecImpl for Access { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o } }
impl PartialEq for Access { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl Eq for Access {}
impl PartialOrdSpecImpl for Access { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(ord_of(lvl(*self), lvl(*o))) } }
impl PartialOrd for Access { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> (r: Option<Ordering>) { unimplemented!() } }
impl OrdSpecImpl for Access { open spec fn obeys_cmp_spec() -> bool { true } open spec fn cmp_spec(&self, o: &Self) -> Ordering { ord_of(lvl(*self), lvl(*o)) } }
impl Ord for Access { #[verifier::external_body] fn cmp(&self, o: &Self) -> (r: Ordering) { unimplemented!() } }
pub proof fn lvl_inj(a: Access, b: Access) ensures lvl(a) == lvl(b) ==> a == b {}
"""

# keys and identifiers
IDS = opaque("Key") + opaque("Signature") + r"""
#[derive(Clone, Copy)] pub struct Identifier(pub Key);
#[derive(Clone, Copy)] pub struct GroupId(pub Identifier);
""" + eq_struct("Identifier") + eq_struct("GroupId") + r"""
impl FromSpecImpl<Key> for Identifier { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: Key) -> Identifier { Identifier(k) } }
impl From<Key> for Identifier { fn from(k: Key) -> Identifier { Identifier(k) } }
impl FromSpecImpl<GroupId> for Identifier { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: GroupId) -> Identifier { k.0 } }
impl From<GroupId> for Identifier { fn from(k: GroupId) -> Identifier { k.0 } }
impl std::hash::Hash for Identifier { #[verifier::external_body] fn hash<H: std::hash::Hasher>(&self, h: &mut H) { unimplemented!() } }
pub mod ax_identifier { use super::*; pub broadcast axiom fn key_model() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<Identifier>(); }
impl Identifier { pub fn verifying_key(&self) -> (r: Key) ensures r == self.0 { self.0 } }
"""

# delegations and revocations, monomorphic: no async flavour, signer, listener or content parameters
MEMBERSHIP = r"""
pub struct Signed<P> { pub payload: P, pub issuer: Key, pub signature: Signature }
pub struct Delegation { pub delegate: Agent, pub can: Access, pub proof: Option<Arc<Signed<Delegation>>>, pub after_revocations: Vec<Arc<Signed<Revocation>>> }
pub struct Revocation { pub revoke: Arc<Signed<Delegation>>, pub proof: Option<Arc<Signed<Delegation>>> }

/// equality of signed operations as implemented: issuer and signature
pub open spec fn same<P>(a: Signed<P>, b: Signed<P>) -> bool { a.issuer == b.issuer && a.signature == b.signature }
impl<P> PartialEqSpecImpl for Signed<P> { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Self) -> bool { same(*self, *o) } }
impl<P> PartialEq for Signed<P> { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }
impl<P> Signed<P> {
    pub fn payload(&self) -> (r: &P) ensures *r == self.payload { &self.payload }
    pub fn issuer(&self) -> (r: &Key) ensures *r == self.issuer { &self.issuer }
    pub fn verifying_key(&self) -> (r: Key) ensures r == self.issuer { self.issuer }
}
/// key at the root of the proof chain: the group or document the operation is about
pub open spec fn root_key(d: Signed<Delegation>) -> Key decreases d { match d.payload.proof { None => d.issuer, Some(p) => root_key(*p) } }
/// the chain of proofs below a delegation, nearest first
pub open spec fn chain(d: Delegation) -> Seq<Signed<Delegation>> decreases d { match d.proof { None => seq![], Some(p) => seq![*p] + chain(p.payload) } }
pub open spec fn prf(d: Delegation) -> Signed<Delegation> { *d.proof->0 }
pub open spec fn unarc<P>(s: Seq<Arc<P>>) -> Seq<P> { s.map_values(|a: Arc<P>| *a) }
pub open spec fn rests_on(d: Delegation, a: Signed<Delegation>) -> bool { exists|i: int| 0 <= i < chain(d).len() && same(#[trigger] chain(d)[i], a) }
pub proof fn chain_step(d: Delegation)
    ensures d.proof is Some ==> chain(d) =~= seq![prf(d)] + chain(prf(d).payload),
            d.proof is None ==> chain(d) =~= Seq::<Signed<Delegation>>::empty(),
{ reveal_with_fuel(chain, 2); }
"""
