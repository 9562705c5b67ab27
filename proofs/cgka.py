"""P14: the graph of key-agreement operations and everything that adds to it."""
from vp.verus import Fn, Unit
from . import core, stores, order

OG, CG = "beekem/src/operation.rs", "beekem/src/cgka.rs"
G0, G1 = order.GRAPH.split("pub struct CgkaOperationGraph", 1)
G1 = "pub struct CgkaOperationGraph" + G1
PRE = core.std("ax_n::key_model", "ax_op::injective") + core.hashkey("N") + core.opaque("MemberId") + core.opaque("ShareKey") + core.opaque("TreeId") + core.opaque("Sig") + stores.MAPS + r"""
#[verifier::external_body] pub struct PathChange { x: u64 }
pub enum CgkaOperation {
    Add { added_id: MemberId, pk: ShareKey, leaf_index: u32, predecessors: Vec<N>, add_predecessors: Vec<N>, doc_id: TreeId },
    Remove { id: MemberId, leaf_idx: u32, removed_keys: Vec<ShareKey>, predecessors: Vec<N>, doc_id: TreeId },
    Update { id: MemberId, new_path: Box<PathChange>, predecessors: Vec<N>, doc_id: TreeId },
}
pub struct Op { pub payload: CgkaOperation, pub signature: Sig }
pub open spec fn dec(p: CgkaOperation) -> Seq<N> { match p { CgkaOperation::Add { predecessors, .. } => predecessors@, CgkaOperation::Remove { predecessors, .. } => predecessors@, CgkaOperation::Update { predecessors, .. } => predecessors@ } }
/// what an operation says it was built on
pub open spec fn declares(o: Op, a: N) -> bool { dec(o.payload).contains(a) }
pub use ax_op::oh;
/// digests do not collide
pub mod ax_op { use super::*;
    pub uninterp spec fn oh(o: Op) -> N;
    pub broadcast axiom fn injective(a: Op, b: Op) ensures #[trigger] oh(a) == #[trigger] oh(b) ==> a == b;
}
#[verifier::external_body] pub fn hash_op(o: &Op) -> (r: N) ensures r == oh(*o) { unimplemented!() }
#[verifier::external_body] pub fn arc_of(o: &Op) -> (r: Arc<Op>) ensures *r == *o { unimplemented!() }
/// std: Set::from_iter(v.iter().cloned())
#[verifier::external_body] pub fn set_of(v: &Vec<N>) -> (r: HashSet<N>) ensures forall|x: N| #[trigger] r@.contains(x) <==> v@.contains(x) { unimplemented!() }
/// std: Vec::from_iter(s.iter().cloned())
#[verifier::external_body] pub fn vec_of(s: &HashSet<N>) -> (r: Vec<N>) ensures forall|x: N| #[trigger] s@.contains(x) <==> r@.contains(x) { unimplemented!() }
pub open spec fn ranked(d: Map<N, HashSet<N>>, rank: spec_fn(N) -> nat) -> bool { forall|b: N, a: N| #[trigger] at(d, b, a) ==> rank(a) < rank(b) }
pub type Deps = Map<N, HashSet<N>>;
pub open spec fn among(s: Seq<N>, n: int, x: N) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub enum CgkaError { OutOfOrderOperation, RemoveLastMember, IdentifierNotFound, ShareKeyNotFound, OperationNotFound, Other }
#[verifier::external_body] pub struct CaMap { x: u64 }
impl CaMap {
    pub uninterp spec fn view(&self) -> Map<N, Arc<Op>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<N, Arc<Op>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &N) -> (r: Option<&Arc<Op>>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &N) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: Arc<Op>) -> (r: N) ensures r == oh(*v), final(self)@ == old(self)@.insert(oh(*v), v) { unimplemented!() }
    #[verifier::external_body] pub fn merge(&mut self, o: CaMap) ensures final(self)@ == o@.union_prefer_right(old(self)@) { unimplemented!() }
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&Arc<Op>>) { unimplemented!() }
}
""" + G1.replace("/// what has been handed out so far", "/// kept for the walk: what has been handed out so far") + r"""
pub type T = Seq<CgkaEpoch>;
/// somebody has built on it
pub open spec fn built(g: G, x: N) -> bool { exists|b: N| #[trigger] pred(g, b, x) }
pub open spec fn known(g: G, x: N) -> bool { g.cgka_ops@.dom().contains(x) }
/// what is recorded is what was declared; the heads are the operations nobody has built on
pub open spec fn cwf(g: G) -> bool {
    &&& gwf(g)
    &&& forall|b: N, a: N| #![trigger pred(g, b, a)] known(g, b) ==> (pred(g, b, a) <==> declares(*g.cgka_ops@[b], a))
    &&& forall|x: N| #[trigger] g.cgka_op_heads@.contains(x) <==> known(g, x) && !built(g, x)
}
/// one more operation, recorded as built on `p`
pub open spec fn grown(g: G, e: G, o: Op, p: Set<N>) -> bool {
    &&& e.cgka_ops@.dom() =~= g.cgka_ops@.dom().insert(oh(o)) && *e.cgka_ops@[oh(o)] == o
    &&& forall|k: N| k != oh(o) && known(g, k) ==> e.cgka_ops@[k] == #[trigger] g.cgka_ops@[k]
    &&& e.cgka_ops_predecessors@.dom() =~= g.cgka_ops_predecessors@.dom().insert(oh(o)) && e.cgka_ops_predecessors@[oh(o)]@ =~= p
    &&& forall|k: N| k != oh(o) && g.cgka_ops_predecessors@.dom().contains(k) ==> e.cgka_ops_predecessors@[k] == #[trigger] g.cgka_ops_predecessors@[k]
    &&& e.cgka_op_heads@ =~= g.cgka_op_heads@.difference(p).insert(oh(o))
}
/// the graph after an operation was taken in: exactly that one more
pub open spec fn plus(g: G, e: G, o: Op) -> bool {
    &&& !known(g, oh(o)) && e.cgka_ops@.dom() =~= g.cgka_ops@.dom().insert(oh(o)) && *e.cgka_ops@[oh(o)] == o
    &&& forall|k: N| #[trigger] known(g, k) ==> e.cgka_ops@[k] == g.cgka_ops@[k]
    &&& forall|k: N, a: N| known(g, k) ==> (#[trigger] pred(e, k, a) <==> pred(g, k, a))
    &&& forall|a: N| #[trigger] pred(e, oh(o), a) <==> declares(o, a)
}
pub open spec fn same_graph(g: G, e: G) -> bool { g == e }
pub open spec fn preds_known(g: G, o: Op) -> bool { forall|a: N| #[trigger] declares(o, a) ==> known(g, a) }
pub open spec fn on_heads(g: G, o: Op) -> bool { forall|a: N| #[trigger] declares(o, a) <==> g.cgka_op_heads@.contains(a) }

pub proof fn top(s: Set<N>, rank: spec_fn(N) -> nat) -> (m: N) requires s.len() > 0 ensures s.contains(m), forall|x: N| #[trigger] s.contains(x) ==> rank(x) <= rank(m) decreases s.len()
{
    let c = s.choose(); assert(s.contains(c)); let t = s.remove(c);
    if t.len() == 0 { assert forall|x: N| #[trigger] s.contains(x) implies rank(x) <= rank(c) by { if x != c { assert(t.contains(x)); assert(t.remove(x).len() < t.len()); } } c }
    else { let m = top(t, rank); let r = if rank(c) <= rank(m) { m } else { c }; assert forall|x: N| #[trigger] s.contains(x) implies rank(x) <= rank(r) by { if x != c { assert(t.contains(x)); } } r }
}
pub proof fn grow(g: G, e: G, o: Op, p: Set<N>)
    requires cwf(g), grown(g, e, o, p), !known(g, oh(o)), forall|a: N| #[trigger] p.contains(a) <==> declares(o, a), forall|a: N| #[trigger] p.contains(a) ==> known(g, a)
    ensures cwf(e), plus(g, e, o)
{
    let x = oh(o); let rank = choose|rank: spec_fn(N) -> nat| ranked(g.cgka_ops_predecessors@, rank);
    assert forall|b: N, a: N| #![trigger pred(e, b, a)] pred(e, b, a) <==> pred(g, b, a) || (b == x && p.contains(a)) by {}
    assert forall|b: N, a: N| #[trigger] pred(e, b, a) implies known(e, a) by { if b != x { assert(pred(g, b, a)); } }
    let big: nat = if g.cgka_ops@.dom().len() == 0 { 0 } else { let m = top(g.cgka_ops@.dom(), rank); rank(m) + 1 };
    let rank2 = |n: N| if n == x { big } else { rank(n) };
    assert(ranked(e.cgka_ops_predecessors@, rank2)) by {
        assert forall|b: N, a: N| #[trigger] at(e.cgka_ops_predecessors@, b, a) implies rank2(a) < rank2(b) by {
            assert(pred(e, b, a));
            if b == x { assert(p.contains(a)); assert(known(g, a)); assert(a != x); if g.cgka_ops@.dom().len() == 0 { assert(g.cgka_ops@.dom().remove(a).len() < g.cgka_ops@.dom().len()); } assert(rank(a) < big); }
            else { assert(pred(g, b, a)); assert(known(g, a)); assert(a != x); assert(at(g.cgka_ops_predecessors@, b, a)); }
        }
    }
    assert forall|k: N| #[trigger] known(e, k) implies oh(*e.cgka_ops@[k]) == k by { if k != x { assert(known(g, k)); } }
    assert(gwf(e));
    assert forall|b: N, a: N| #![trigger pred(e, b, a)] known(e, b) implies (pred(e, b, a) <==> declares(*e.cgka_ops@[b], a)) by { if b != x { assert(known(g, b)); assert(pred(g, b, a) <==> declares(*g.cgka_ops@[b], a)); } else { assert(!pred(g, b, a)); } }
    assert forall|y: N| #[trigger] e.cgka_op_heads@.contains(y) <==> known(e, y) && !built(e, y) by {
        if y == x { if built(e, x) { let b = choose|b: N| #[trigger] pred(e, b, x); if pred(g, b, x) { assert(known(g, x)); } else { assert(p.contains(x)); } } }
        else {
            assert(g.cgka_op_heads@.contains(y) <==> known(g, y) && !built(g, y));
            if p.contains(y) { assert(pred(e, x, y)); assert(built(e, y)); }
            if built(g, y) { let b = choose|b: N| #[trigger] pred(g, b, y); assert(pred(e, b, y)); }
            if built(e, y) && !p.contains(y) { let b = choose|b: N| #[trigger] pred(e, b, y); assert(pred(g, b, y)); }
        }
    }
    assert forall|k: N, a: N| known(g, k) implies (#[trigger] pred(e, k, a) <==> pred(g, k, a)) by {}
    assert forall|a: N| #[trigger] pred(e, x, a) <==> declares(o, a) by { assert(!pred(g, x, a)); }
}
/// an operation built on everything nobody has built on is new
pub proof fn fresh(g: G, o: Op) requires cwf(g), on_heads(g, o) ensures !known(g, oh(o)), g.cgka_ops@.dom().len() > 0 ==> exists|h: N| g.cgka_op_heads@.contains(h)
{
    let x = oh(o); let rank = choose|rank: spec_fn(N) -> nat| ranked(g.cgka_ops_predecessors@, rank);
    if g.cgka_ops@.dom().len() > 0 {
        let m = top(g.cgka_ops@.dom(), rank);
        assert(!built(g, m)) by { if built(g, m) { let b = choose|b: N| #[trigger] pred(g, b, m); assert(at(g.cgka_ops_predecessors@, b, m)); assert(known(g, b)); } }
        assert(g.cgka_op_heads@.contains(m));
        if known(g, x) { let q = *g.cgka_ops@[x]; assert(oh(q) == x); assert(q == o); assert(declares(o, m)); assert(pred(g, x, m)); assert(at(g.cgka_ops_predecessors@, x, m)); assert(rank(m) < rank(x)); }
    } else if known(g, x) { assert(g.cgka_ops@.dom().remove(x).len() < g.cgka_ops@.dom().len()); }
}
/// P06: two replicas that hold the same operations record the same order among them and have the same heads
pub proof fn same_ops_same_graph(g: G, e: G) requires cwf(g), cwf(e), g.cgka_ops@.dom() == e.cgka_ops@.dom()
    ensures forall|k: N| #[trigger] known(g, k) ==> *g.cgka_ops@[k] == *e.cgka_ops@[k], forall|b: N, a: N| #[trigger] pred(g, b, a) <==> pred(e, b, a), g.cgka_op_heads@ =~= e.cgka_op_heads@
{ broadcast use ax_op::injective;
  assert forall|k: N| #[trigger] known(g, k) implies *g.cgka_ops@[k] == *e.cgka_ops@[k] by { assert(known(e, k)); assert(oh(*g.cgka_ops@[k]) == oh(*e.cgka_ops@[k])); }
  assert forall|b: N, a: N| #[trigger] pred(g, b, a) <==> pred(e, b, a) by { if known(g, b) { assert(known(e, b)); assert(*g.cgka_ops@[b] == *e.cgka_ops@[b]); assert(pred(g, b, a) <==> declares(*g.cgka_ops@[b], a)); assert(pred(e, b, a) <==> declares(*e.cgka_ops@[b], a)); } }
  assert forall|x: N| #[trigger] built(g, x) == built(e, x) by { if built(g, x) { let b = choose|b: N| #[trigger] pred(g, b, x); assert(pred(e, b, x)); } if built(e, x) { let b = choose|b: N| #[trigger] pred(e, b, x); assert(pred(g, b, x)); } }
  assert forall|x: N| g.cgka_op_heads@.contains(x) <==> e.cgka_op_heads@.contains(x) by { assert(g.cgka_op_heads@.contains(x) <==> known(g, x) && !built(g, x)); assert(e.cgka_op_heads@.contains(x) <==> known(e, x) && !built(e, x)); } }
pub proof fn empty_wf() ensures forall|g: G| g.cgka_ops@ == Map::<N, Arc<Op>>::empty() && g.cgka_ops_predecessors@ == Map::<N, HashSet<N>>::empty() && g.cgka_op_heads@ == Set::<N>::empty() ==> #[trigger] cwf(g)
{ assert forall|g: G| g.cgka_ops@ == Map::<N, Arc<Op>>::empty() && g.cgka_ops_predecessors@ == Map::<N, HashSet<N>>::empty() && g.cgka_op_heads@ == Set::<N>::empty() implies #[trigger] cwf(g) by { assert(ranked(g.cgka_ops_predecessors@, |n: N| 0)); assert(g.cgka_ops_predecessors@.dom() =~= g.cgka_ops@.dom()); assert(gwf(g)); } }
pub proof fn same_built(g: G, e: G) requires g.cgka_ops_predecessors == e.cgka_ops_predecessors ensures forall|x: N| #[trigger] built(g, x) == built(e, x)
{ assert forall|x: N| #[trigger] built(g, x) == built(e, x) by { if built(g, x) { let b = choose|b: N| #[trigger] pred(g, b, x); assert(pred(e, b, x)); } if built(e, x) { let b = choose|b: N| #[trigger] pred(e, b, x); assert(pred(g, b, x)); } } }
/// both graphs together
pub open spec fn union(g: G, f: G, e: G) -> bool {
    &&& e.cgka_ops@.dom() =~= g.cgka_ops@.dom().union(f.cgka_ops@.dom())
    &&& forall|k: N| #[trigger] known(e, k) ==> *e.cgka_ops@[k] == (if known(g, k) { *g.cgka_ops@[k] } else { *f.cgka_ops@[k] })
    &&& forall|b: N, a: N| #[trigger] pred(e, b, a) <==> pred(g, b, a) || pred(f, b, a)
}
pub open spec fn joined(g: G, f: G, e: G) -> bool {
    &&& e.cgka_ops@ == f.cgka_ops@.union_prefer_right(g.cgka_ops@)
    &&& e.cgka_ops_predecessors@ == g.cgka_ops_predecessors@.union_prefer_right(f.cgka_ops_predecessors@)
}
pub proof fn join(g: G, f: G, e: G) requires cwf(g), cwf(f), joined(g, f, e),
        forall|x: N| #[trigger] e.cgka_op_heads@.contains(x) <==> (g.cgka_op_heads@.contains(x) || f.cgka_op_heads@.contains(x)) && !built(e, x)
    ensures cwf(e), union(g, f, e)
{
    let rg = choose|rank: spec_fn(N) -> nat| ranked(g.cgka_ops_predecessors@, rank); let rf = choose|rank: spec_fn(N) -> nat| ranked(f.cgka_ops_predecessors@, rank);
    let big: nat = if g.cgka_ops@.dom().len() == 0 { 0 } else { let m = top(g.cgka_ops@.dom(), rg); rg(m) + 1 };
    assert forall|k: N| #[trigger] known(g, k) && known(f, k) implies *g.cgka_ops@[k] == *f.cgka_ops@[k] by { assert(oh(*g.cgka_ops@[k]) == k); assert(oh(*f.cgka_ops@[k]) == k); }
    assert forall|b: N, a: N| known(g, b) && known(f, b) implies #[trigger] pred(g, b, a) == #[trigger] pred(f, b, a) by { assert(*g.cgka_ops@[b] == *f.cgka_ops@[b]); }
    assert forall|b: N, a: N| #[trigger] pred(e, b, a) <==> pred(g, b, a) || pred(f, b, a) by { if known(g, b) && known(f, b) { assert(pred(g, b, a) == pred(f, b, a)); } }
    let r = |n: N| if known(g, n) { rg(n) } else { big + rf(n) };
    assert(ranked(e.cgka_ops_predecessors@, r)) by {
        assert forall|b: N, a: N| #[trigger] at(e.cgka_ops_predecessors@, b, a) implies r(a) < r(b) by {
            assert(pred(e, b, a));
            if known(g, b) { assert(pred(g, b, a)) by { if pred(f, b, a) { assert(known(f, b)); assert(pred(g, b, a) == pred(f, b, a)); } } assert(at(g.cgka_ops_predecessors@, b, a)); assert(known(g, a)); }
            else { assert(pred(f, b, a)); assert(at(f.cgka_ops_predecessors@, b, a)); if known(g, a) { assert(rg(a) < big) by { if g.cgka_ops@.dom().len() == 0 { assert(g.cgka_ops@.dom().remove(a).len() < g.cgka_ops@.dom().len()); } } } }
        }
    }
    assert forall|b: N, a: N| #[trigger] pred(e, b, a) implies known(e, a) by {}
    assert(e.cgka_ops_predecessors@.dom() =~= e.cgka_ops@.dom());
    assert forall|k: N| #[trigger] known(e, k) implies oh(*e.cgka_ops@[k]) == k by { if known(g, k) { assert(oh(*g.cgka_ops@[k]) == k); } else { assert(known(f, k)); assert(oh(*f.cgka_ops@[k]) == k); } }
    assert(gwf(e));
    assert forall|b: N, a: N| #![trigger pred(e, b, a)] known(e, b) implies (pred(e, b, a) <==> declares(*e.cgka_ops@[b], a)) by {
        if known(g, b) { assert(pred(g, b, a) <==> declares(*g.cgka_ops@[b], a)); if known(f, b) { assert(pred(g, b, a) == pred(f, b, a)); } else { assert(!pred(f, b, a)); } } else { assert(known(f, b)); assert(!pred(g, b, a)); assert(pred(f, b, a) <==> declares(*f.cgka_ops@[b], a)); }
    }
    assert forall|x: N| #[trigger] e.cgka_op_heads@.contains(x) <==> known(e, x) && !built(e, x) by {
        if known(e, x) && !built(e, x) {
            if known(g, x) { assert(!built(g, x)) by { if built(g, x) { let b = choose|b: N| #[trigger] pred(g, b, x); assert(pred(e, b, x)); } } assert(g.cgka_op_heads@.contains(x)); }
            else { assert(!built(f, x)) by { if built(f, x) { let b = choose|b: N| #[trigger] pred(f, b, x); assert(pred(e, b, x)); } } assert(f.cgka_op_heads@.contains(x)); }
        }
    }
}
/// std: iterating a map
#[verifier::external_body] pub fn map_list<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures forall|k: K| #[trigger] m@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
        forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i]).0) && *r@[i].1 == m@[*r@[i].0] { unimplemented!() }
/// std: m.extend(o)
#[verifier::external_body] pub fn map_extend(m: &mut HashMap<N, HashSet<N>>, o: HashMap<N, HashSet<N>>) ensures final(m)@ == old(m)@.union_prefer_right(o@) { unimplemented!() }
#[verifier::external_body] pub fn set_extend(m: &mut HashSet<N>, o: HashSet<N>) ensures final(m)@ == old(m)@.union(o@) { unimplemented!() }
#[verifier::external_body] pub fn set_len(s: &HashSet<N>) -> (r: usize) ensures r == s@.len() { unimplemented!() }
#[verifier::external_body] pub fn set_is_empty<K>(s: &HashSet<K>) -> (r: bool) ensures r == (s@ =~= Set::<K>::empty()) { unimplemented!() }
pub open spec fn in_list<'a>(l: Seq<&'a N>, n: int, x: N) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] l[i]) == x }
pub proof fn in_step<'a>(l: Seq<&'a N>, n: int) requires 0 <= n < l.len() ensures forall|x: N| #[trigger] in_list(l, n + 1, x) <==> in_list(l, n, x) || x == *l[n]
{ assert forall|x: N| #[trigger] in_list(l, n + 1, x) <==> in_list(l, n, x) || x == *l[n] by { if in_list(l, n, x) { let i = choose|i: int| 0 <= i < n && *(#[trigger] l[i]) == x; assert(0 <= i < n + 1 && *l[i] == x); } if x == *l[n] { assert(*l[n] == x); } if in_list(l, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == x; if i < n { assert(in_list(l, n, x)); } } } }
pub proof fn in_all<'a>(s: Set<N>, l: Seq<&'a N>) requires lists(s, l) ensures forall|x: N| #[trigger] in_list(l, l.len() as int, x) <==> s.contains(x) {}
pub proof fn all_step<'a>(s: Set<N>, l: Seq<&'a N>, n: int) requires lists(s, l), 0 <= n < l.len() ensures forall|a: N| #[trigger] in_list(l, n, a) ==> in_list(l, n + 1, a), in_list(l, n + 1, *l[n]), forall|a: N| #[trigger] in_list(l, n + 1, a) ==> in_list(l, n, a) || a == *l[n], n + 1 == l.len() ==> forall|a: N| #[trigger] s.contains(a) ==> in_list(l, n + 1, a), n + 1 == l.len() ==> forall|a: N| #[trigger] in_list(l, n + 1, a) ==> s.contains(a)
{ in_step(l, n); in_all(s, l); }
/// `p` is the first `n` of the list, and they are gone from the heads
pub open spec fn moved<'a>(h0: Set<N>, h: Set<N>, p: Set<N>, l: Seq<&'a N>, n: int) -> bool { (forall|x: N| #[trigger] p.contains(x) <==> in_list(l, n, x)) && (forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !in_list(l, n, x)) }
pub open spec fn copied<'a>(p: Set<N>, l: Seq<&'a N>, n: int) -> bool { forall|x: N| #[trigger] p.contains(x) <==> in_list(l, n, x) }
pub open spec fn used(p: Map<N, HashSet<N>>, s: Seq<(&N, &HashSet<N>)>, n: int, x: N) -> bool { exists|i: int| 0 <= i < n && (#[trigger] s[i]).1@.contains(x) }
pub open spec fn trimmed(h0: Set<N>, h: Set<N>, p: Map<N, HashSet<N>>, s: Seq<(&N, &HashSet<N>)>, n: int) -> bool { forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !used(p, s, n, x) }
pub open spec fn trimming<'a>(h0: Set<N>, h: Set<N>, l: Seq<&'a N>, n: int) -> bool { forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !in_list(l, n, x) }
pub open spec fn all_used(p: Map<N, HashSet<N>>, s: Seq<(&N, &HashSet<N>)>) -> bool { forall|x: N| #[trigger] used(p, s, s.len() as int, x) <==> exists|b: N| #[trigger] at(p, b, x) }
pub proof fn trim_all(p: Map<N, HashSet<N>>, s: Seq<(&N, &HashSet<N>)>)
    requires forall|k: N| #[trigger] p.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k, forall|i: int| 0 <= i < s.len() ==> p.dom().contains(*(#[trigger] s[i]).0) && *s[i].1 == p[*s[i].0]
    ensures all_used(p, s)
{ assert forall|x: N| #[trigger] used(p, s, s.len() as int, x) <==> exists|b: N| #[trigger] at(p, b, x) by {
    if used(p, s, s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).1@.contains(x); assert(at(p, *s[i].0, x)); }
    if exists|b: N| #[trigger] at(p, b, x) { let b = choose|b: N| #[trigger] at(p, b, x); let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == b; assert(s[i].1@.contains(x)); } } }
pub proof fn trim_step<'a>(h0: Set<N>, h1: Set<N>, h: Set<N>, p: Map<N, HashSet<N>>, s: Seq<(&'a N, &'a HashSet<N>)>, n: int)
    requires 0 <= n < s.len(), trimmed(h0, h1, p, s, n), forall|x: N| #[trigger] h.contains(x) <==> h1.contains(x) && !s[n].1@.contains(x) ensures trimmed(h0, h, p, s, n + 1)
{ assert forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !used(p, s, n + 1, x) by { assert(h1.contains(x) <==> h0.contains(x) && !used(p, s, n, x));
    if used(p, s, n, x) { let i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).1@.contains(x); assert(0 <= i < n + 1 && s[i].1@.contains(x)); } if s[n].1@.contains(x) { assert(used(p, s, n + 1, x)); }
    if used(p, s, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && (#[trigger] s[i]).1@.contains(x); if i < n { assert(used(p, s, n, x)); } } } }
"""
PRE += r"""
pub proof fn trim_done<'a>(h0: Set<N>, h: Set<N>, g: G, s: Seq<(&'a N, &'a HashSet<N>)>, n: int)
    requires n <= s.len(), trimmed(h0, h, g.cgka_ops_predecessors@, s, n), forall|k: N| #[trigger] g.cgka_ops_predecessors@.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k, forall|i: int| 0 <= i < s.len() ==> g.cgka_ops_predecessors@.dom().contains(*(#[trigger] s[i]).0) && *s[i].1 == g.cgka_ops_predecessors@[*s[i].0]
    ensures n == s.len() ==> forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !built(g, x)
{ if n == s.len() { trim_all(g.cgka_ops_predecessors@, s); assert forall|x: N| #[trigger] h.contains(x) <==> h0.contains(x) && !built(g, x) by { assert(used(g.cgka_ops_predecessors@, s, n, x) <==> exists|b: N| #[trigger] at(g.cgka_ops_predecessors@, b, x)); if built(g, x) { let b = choose|b: N| #[trigger] pred(g, b, x); assert(at(g.cgka_ops_predecessors@, b, x)); } if exists|b: N| #[trigger] at(g.cgka_ops_predecessors@, b, x) { let b = choose|b: N| #[trigger] at(g.cgka_ops_predecessors@, b, x); assert(pred(g, b, x)); } } } }
"""
NT = [("Digest<Signed<CgkaOperation>>", "N"), ("Arc<Signed<CgkaOperation>>", "Arc<Op>"), ("Signed<CgkaOperation>", "Op"), ("Set::new()", "HashSet::new()"), ("Map::new()", "HashMap::new()"),
      ("Digest::hash($x)", "hash_op($x)"), ("Set::from_iter($$v.iter().cloned())", "set_of($$v)"), ("op.clone().into()", "arc_of(op)"),
      ("matches!(&$x, &CgkaOperation::Add { .. })", "(match &$x { CgkaOperation::Add { .. } => true, _ => false })"),
      ("matches!($x, CgkaOperation::Add { .. } | CgkaOperation::Remove { .. })", "(match &$x { CgkaOperation::Add { .. } => true, CgkaOperation::Remove { .. } => true, _ => false })"),
      ("matches!($x, CgkaOperation::Update { .. })", "(match &$x { CgkaOperation::Update { .. } => true, _ => false })")]
SETS = [("for $$h in heads {", "for $$h in set_list(heads) {"), ("for $$h in add_predecessors {", "for $$h in add_predecessors.iter() {"), ("for $$h in self.cgka_op_heads.iter() {", "for $$h in set_list(&self.cgka_op_heads) {"),
        ("preds.iter().all(|$$h| $c)", "({ let mut ok = true; for $$h in set_list(preds) { if !($c) { ok = false; } } ok })"),
        ("self.cgka_op_heads.iter().all(|$$h| $c)", "({ let mut ok = true; for $$h in set_list(&self.cgka_op_heads) { if !($c) { ok = false; } } ok })")]
F = lambda name, sig, params, rw=(), **k: Fn(OG, "CgkaOperationGraph", name, sig, params, rewrites=NT + SETS + list(rw), wrap="impl CgkaOperationGraph", **k)
preds_fn = Fn(OG, "CgkaOperation", "predecessors", "pub fn predecessors(&self) -> (r: HashSet<N>) ensures forall|a: N| #[trigger] r@.contains(a) <==> dec(*self).contains(a)", ["self"], NT, wrap="impl CgkaOperation")
graph_fns = [
    preds_fn,
    F("new", "pub fn new() -> (r: Self) ensures cwf(r), r.cgka_ops@ == Map::<N, Arc<Op>>::empty()", [], pre="proof { empty_wf(); }"),
    F("contains_op_hash", "pub fn contains_op_hash(&self, op_hash: &N) -> (r: bool) ensures r == known(*self, *op_hash)", ["self", "op_hash"]),
    F("contains_predecessors", "pub fn contains_predecessors(&self, preds: &HashSet<N>) -> (r: bool) ensures r == (forall|a: N| #[trigger] preds@.contains(a) ==> known(*self, a))", ["self", "preds"],
      loops=[("for", "it", "invariant lists(preds@, it.seq()), ok == (forall|a: N| #[trigger] in_list(it.seq(), it.index@ as int, a) ==> known(*self, a)), it.index@ == it.seq().len() ==> ok == (forall|a: N| #[trigger] preds@.contains(a) ==> known(*self, a))", "", "proof { all_step(preds@, it.seq(), it.index@ as int); }")]),
    F("has_single_head", "pub fn has_single_head(&self) -> (r: bool) ensures r == (self.cgka_op_heads@.len() == 1)", ["self"], [("self.cgka_op_heads.len()", "set_len(&self.cgka_op_heads)")]),
    F("is_add_op", "pub fn is_add_op(&self, hash: &N) -> (r: bool) requires known(*self, *hash) ensures r == (self.cgka_ops@[*hash].payload is Add)", ["self", "hash"]),
    F("heads_contained_in", "pub fn heads_contained_in(&self, heads: &HashSet<N>) -> (r: bool) ensures r == (forall|a: N| #[trigger] self.cgka_op_heads@.contains(a) ==> heads@.contains(a))", ["self", "heads"],
      loops=[("for", "it", "invariant lists(self.cgka_op_heads@, it.seq()), ok == (forall|a: N| #[trigger] in_list(it.seq(), it.index@ as int, a) ==> heads@.contains(a)), it.index@ == it.seq().len() ==> ok == (forall|a: N| #[trigger] self.cgka_op_heads@.contains(a) ==> heads@.contains(a))", "", "proof { all_step(self.cgka_op_heads@, it.seq(), it.index@ as int); }")]),
    F("add_op_and_update_heads", "pub fn add_op_and_update_heads(&mut self, op: &Op, external_heads: Option<&HashSet<N>>) ensures grown(*old(self), *final(self), *op, match external_heads { Some(h) => h@, None => old(self).cgka_op_heads@ })", ["self", "op", "external_heads"],
      pre="let ghost g0 = *self;",
      loops=[("for", "it", "invariant lists(heads@, it.seq()), self.cgka_ops@ == g0.cgka_ops@.insert(op_hash, self.cgka_ops@[op_hash]), *self.cgka_ops@[op_hash] == *op, self.cgka_ops_predecessors == g0.cgka_ops_predecessors, moved(g0.cgka_op_heads@, self.cgka_op_heads@, op_predecessors@, it.seq(), it.index@ as int), it.index@ == it.seq().len() ==> op_predecessors@ =~= heads@ && self.cgka_op_heads@ =~= g0.cgka_op_heads@.difference(heads@)",
              "", "proof { in_step(it.seq(), it.index@ as int); in_all(heads@, it.seq()); }"),
             ("for", "it2", "invariant self.cgka_ops@ == g0.cgka_ops@.insert(op_hash, self.cgka_ops@[op_hash]), *self.cgka_ops@[op_hash] == *op, self.cgka_ops_predecessors == g0.cgka_ops_predecessors, op_predecessors@ =~= heads@, self.cgka_op_heads@ =~= g0.cgka_op_heads@.difference(heads@)", "", ""),
             ("for", "it3", "invariant lists(g0.cgka_op_heads@, it3.seq()), copied(op_predecessors@, it3.seq(), it3.index@ as int), it3.index@ == it3.seq().len() ==> op_predecessors@ =~= g0.cgka_op_heads@", "", "proof { in_step(it3.seq(), it3.index@ as int); in_all(g0.cgka_op_heads@, it3.seq()); }")]),
    F("add_local_op", "pub fn add_local_op(&mut self, op: &Op) ensures grown(*old(self), *final(self), *op, old(self).cgka_op_heads@), cwf(*old(self)) && on_heads(*old(self), *op) ==> cwf(*final(self)) && plus(*old(self), *final(self), *op)", ["self", "op"],
      pre="let ghost g0 = *self;", post="proof { if cwf(g0) && on_heads(g0, *op) { fresh(g0, *op); grow(g0, *self, *op, g0.cgka_op_heads@); } }"),
    F("add_op", "pub fn add_op(&mut self, op: &Op, heads: &HashSet<N>) ensures grown(*old(self), *final(self), *op, heads@), cwf(*old(self)) && !known(*old(self), oh(*op)) && preds_known(*old(self), *op) && (forall|a: N| #[trigger] heads@.contains(a) <==> declares(*op, a)) ==> cwf(*final(self)) && plus(*old(self), *final(self), *op)", ["self", "op", "heads"],
      pre="let ghost g0 = *self;", post="proof { if cwf(g0) && !known(g0, oh(*op)) && preds_known(g0, *op) && (forall|a: N| #[trigger] heads@.contains(a) <==> declares(*op, a)) { grow(g0, *self, *op, heads@); } }"),
    Fn(OG, "Merge for CgkaOperationGraph", "merge", "pub fn merge(&mut self, fork: CgkaOperationGraph) requires cwf(*old(self)), cwf(fork) ensures cwf(*final(self)), union(*old(self), fork, *final(self))", ["self", "fork"],
       NT + [("self.cgka_ops_predecessors.extend($x)", "map_extend(&mut self.cgka_ops_predecessors, $x)"), ("self.cgka_op_heads.extend($x)", "set_extend(&mut self.cgka_op_heads, $x)"), ("self.add_heads.extend($x)", "set_extend(&mut self.add_heads, $x)"),
             ("for $$p in self.cgka_ops_predecessors.values() {", "let ghost h0 = self.cgka_op_heads@; for (_, $$p) in map_list(&self.cgka_ops_predecessors) {", "must"), ("for $$h in preds {", "for $$h in set_list(preds) {", "must"), ("for $$p in self.cgka_ops.values() {", "let ghost g2 = *self; for $$p in self.cgka_ops.values() {", "must"), ("for $$h in add_predecessors {", "for $$h in add_predecessors.iter() {")],
       wrap="impl CgkaOperationGraph", pre="let ghost g0 = *self; let ghost f0 = fork;", post="proof { same_built(g2, *self); join(g0, f0, *self); }",
       loops=[("for", "it", """invariant forall|k: N| #[trigger] self.cgka_ops_predecessors@.dom().contains(k) <==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
                   forall|i: int| 0 <= i < it.seq().len() ==> self.cgka_ops_predecessors@.dom().contains(*(#[trigger] it.seq()[i]).0) && *it.seq()[i].1 == self.cgka_ops_predecessors@[*it.seq()[i].0],
                   joined(g0, f0, *self), h0 == g0.cgka_op_heads@.union(f0.cgka_op_heads@), trimmed(h0, self.cgka_op_heads@, self.cgka_ops_predecessors@, it.seq(), it.index@ as int), it.index@ == it.seq().len() ==> forall|x: N| #[trigger] self.cgka_op_heads@.contains(x) <==> h0.contains(x) && !built(*self, x)""",
               "let ghost h1 = self.cgka_op_heads@; let ghost k = it.index@ as int;", "proof { trim_step(h0, h1, self.cgka_op_heads@, self.cgka_ops_predecessors@, it.seq(), k); trim_done(h0, self.cgka_op_heads@, *self, it.seq(), k + 1); }"),
              ("for", "it2", "invariant lists(preds@, it2.seq()), joined(g0, f0, *self), trimming(h1, self.cgka_op_heads@, it2.seq(), it2.index@ as int), it2.index@ == it2.seq().len() ==> forall|x: N| #[trigger] self.cgka_op_heads@.contains(x) <==> h1.contains(x) && !preds@.contains(x)", "", "proof { in_step(it2.seq(), it2.index@ as int); in_all(preds@, it2.seq()); }"),
              ("for", "it3", "invariant joined(g0, f0, *self), self.cgka_ops_predecessors == g2.cgka_ops_predecessors, forall|x: N| #[trigger] self.cgka_op_heads@.contains(x) <==> (g0.cgka_op_heads@.contains(x) || f0.cgka_op_heads@.contains(x)) && !built(g2, x)", "", ""),
              ("for", "it4", "invariant joined(g0, f0, *self), self.cgka_ops_predecessors == g2.cgka_ops_predecessors, forall|x: N| #[trigger] self.cgka_op_heads@.contains(x) <==> (g0.cgka_op_heads@.contains(x) || f0.cgka_op_heads@.contains(x)) && !built(g2, x)", "", "")]),
]
graph = Unit("cgka_graph", PRE, graph_fns)

# ---------------------------------------------------------------- the group state around the graph
import re
CTRACT = lambda fns: "\n".join((f.wrap + " {" if f.wrap else "") + " #[verifier::external_body] " + f.sig + " { unimplemented!() } " + ("}" if f.wrap else "") for f in fns)
CONTENT = core.opaque("PcsKey") + core.hashkey("PH") + core.opaque("PR") + core.opaque("Cr") + core.opaque("Siv") + core.opaque("SymmetricKey") + r"""
pub uninterp spec fn ph(k: PcsKey) -> PH;
pub uninterp spec fn pr(v: Seq<Cr>) -> PR;
/// the nonce: from the document key, the plaintext and the document
pub uninterp spec fn siv(k: PcsKey, content: Seq<u8>, doc: TreeId) -> Siv;
/// the key of one piece of content: from the document key, its reference and its predecessors
pub uninterp spec fn app_key(k: PcsKey, content_ref: Cr, preds: PR) -> SymmetricKey;
#[verifier::external_body] pub fn siv_new(k: &PcsKey, content: &[u8], doc: &TreeId) -> (r: Siv) ensures r == siv(*k, content@, *doc) { unimplemented!() }
pub struct ApplicationSecret { pub key: SymmetricKey, pub pcs_key_hash: PH, pub pcs_update_op_hash: N, pub nonce: Siv, pub content_ref: Cr, pub pred_refs: PR }
impl ApplicationSecret { pub fn key(&self) -> (r: SymmetricKey) ensures r == self.key { self.key } }
pub struct EncryptedContent { pub nonce: Siv, pub ciphertext: Vec<u8>, pub pcs_key_hash: PH, pub pcs_update_op_hash: N, pub content_ref: Cr, pub pred_refs: PR }
impl PcsKey {
    #[verifier::external_body] pub fn new(k: ShareSecretKey) -> (r: PcsKey) { unimplemented!() }
    #[verifier::external_body] pub fn derive_application_secret(&self, nonce: &Siv, content_ref: &Cr, pred_refs: &PR, op: &N) -> (r: ApplicationSecret)
        ensures r == (ApplicationSecret { key: app_key(*self, *content_ref, *pred_refs), pcs_key_hash: ph(*self), pcs_update_op_hash: *op, nonce: *nonce, content_ref: *content_ref, pred_refs: *pred_refs }) { unimplemented!() }
}
pub trait VHash { type D; spec fn hsp(&self) -> Self::D; fn vh(&self) -> (r: Self::D) ensures r == self.hsp(); }
impl VHash for Op { type D = N; open spec fn hsp(&self) -> N { oh(*self) } #[verifier::external_body] fn vh(&self) -> (r: N) { unimplemented!() } }
impl VHash for Arc<Op> { type D = N; open spec fn hsp(&self) -> N { oh(**self) } #[verifier::external_body] fn vh(&self) -> (r: N) { unimplemented!() } }
impl VHash for PcsKey { type D = PH; open spec fn hsp(&self) -> PH { ph(*self) } #[verifier::external_body] fn vh(&self) -> (r: PH) { unimplemented!() } }
impl VHash for Vec<Cr> { type D = PR; open spec fn hsp(&self) -> PR { pr(self@) } #[verifier::external_body] fn vh(&self) -> (r: PR) { unimplemented!() } }
pub fn vhash<X: VHash>(x: &X) -> (r: X::D) ensures r == x.hsp() { x.vh() }
"""
STATE = core.opaque("ShareSecretKey") + CONTENT + r"""
impl ShareSecretKey { #[verifier::external_body] pub fn generate(r: &mut Rng) -> (k: ShareSecretKey) { unimplemented!() } #[verifier::external_body] pub fn share_key(&self) -> (k: ShareKey) { unimplemented!() } }
#[verifier::external_body] pub struct Rng { x: u64 }
#[verifier::external_body] pub struct Signer { x: u64 }
/// a signature is over the payload it was made for, or there is an error
#[verifier::external_body] pub fn sign(s: &Signer, p: CgkaOperation) -> (r: Result<Op, CgkaError>) ensures r is Ok ==> r->Ok_0.payload == p { unimplemented!() }
pub enum NodeKey { ShareKey(ShareKey), ConflictKeys(u64) }
impl ShareKey { #[verifier::external_body] pub fn into(self) -> NodeKey { unimplemented!() } }
#[verifier::external_body] pub struct ShareKeyMap { x: u64 }
impl Clone for ShareKeyMap { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl ShareKeyMap {
    #[verifier::external_body] pub fn new() -> Self { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &ShareKey) -> (r: Option<&ShareSecretKey>) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: ShareKey, s: ShareSecretKey) { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: &ShareKeyMap) { unimplemented!() }
    #[verifier::external_body] pub fn merge(&mut self, o: ShareKeyMap) { unimplemented!() }
}
impl MemberId { #[verifier::external_body] pub fn public() -> Self { unimplemented!() } }
/// the tree: opaque here, nothing in it touches the graph
#[verifier::external_body] pub struct BeeKem { x: u64 }
#[verifier::external_body] pub struct LeafIdx { x: u32 }
impl LeafIdx { #[verifier::external_body] pub fn u32(&self) -> u32 { unimplemented!() } }
impl Clone for BeeKem { #[verifier::external_body] fn clone(&self) -> Self { unimplemented!() } }
impl BeeKem {
    pub uninterp spec fn has(&self, id: MemberId) -> bool;
    #[verifier::external_body] pub fn new(d: TreeId, o: MemberId, k: ShareKey) -> Result<Self, CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn contains_id(&self, id: &MemberId) -> (r: bool) ensures r == self.has(*id) { unimplemented!() }
    #[verifier::external_body] pub fn push_leaf(&mut self, id: MemberId, k: NodeKey) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn remove_id(&mut self, id: MemberId) -> Result<(u32, Vec<ShareKey>), CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn apply_path(&mut self, p: &PathChange) { unimplemented!() }
    #[verifier::external_body] pub fn member_count(&self) -> u32 { unimplemented!() }
    #[verifier::external_body] pub fn has_root_key(&self) -> bool { unimplemented!() }
    #[verifier::external_body] pub fn node_key_for_id(&self, id: MemberId) -> Result<NodeKey, CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn encrypt_path(&mut self, id: MemberId, k: ShareKey, s: &mut ShareKeyMap, r: &mut Rng) -> Result<Option<(PcsKey, PathChange)>, CgkaError> { unimplemented!() }
    #[verifier::external_body] pub fn decrypt_tree_secret(&mut self, id: MemberId, s: &mut ShareKeyMap) -> Result<ShareSecretKey, CgkaError> { unimplemented!() }
}
#[verifier::external_body] pub struct PcsMap { x: u64 }
impl PcsMap {
    pub uninterp spec fn view(&self) -> Map<PH, Arc<PcsKey>>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<PH, Arc<PcsKey>>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &PH) -> (r: Option<&Arc<PcsKey>>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &PH) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, v: PcsKey) ensures final(self)@.dom() == old(self)@.dom().insert(ph(v)), *final(self)@[ph(v)] == v, forall|k: PH| k != ph(v) && old(self)@.dom().contains(k) ==> final(self)@[k] == #[trigger] old(self)@[k] { unimplemented!() }
    #[verifier::external_body] pub fn extend_from(&mut self, o: &PcsMap) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
    #[verifier::external_body] pub fn merge(&mut self, o: PcsMap) ensures final(self)@ == o@.union_prefer_right(old(self)@) { unimplemented!() }
}
impl Clone for PcsMap { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() } }
pub type PcsOps = HashMap<PH, N>;
#[verifier::external_body] pub fn ops_copy(m: &PcsOps) -> (r: PcsOps) ensures r@ == m@ { unimplemented!() }
#[verifier::external_body] pub fn ops_extend(m: &mut PcsOps, o: &PcsOps) ensures final(m)@ == old(m)@.union_prefer_right(o@) { unimplemented!() }
/// std: iter().next()
#[verifier::external_body] pub fn set_first(s: &HashSet<N>) -> (r: Option<&N>) ensures r is Some == (s@.len() > 0), r is Some ==> s@.contains(*(r->0)) { unimplemented!() }
pub trait OrErr<X> { fn or_err(self, e: CgkaError) -> Result<X, CgkaError>; }
impl<X> OrErr<X> for Result<X, CgkaError> { #[verifier::external_body] fn or_err(self, e: CgkaError) -> (r: Result<X, CgkaError>) ensures r is Ok == self is Ok, self is Ok ==> r->Ok_0 == self->Ok_0 { unimplemented!() } }
pub struct Cgka { pub doc_id: TreeId, pub owner_id: MemberId, pub owner_sks: ShareKeyMap, pub tree: BeeKem, pub ops_graph: CgkaOperationGraph, pub pending_ops_for_structural_change: bool, pub pcs_keys: PcsMap, pub pcs_key_ops: PcsOps, pub original_member: (MemberId, ShareKey), pub init_add_op: Op }
impl Clone for Cgka { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// the keys kept are under their digests, each with the update it came from
pub open spec fn kwf(c: Cgka) -> bool { forall|k: PH| #[trigger] c.pcs_keys@.dom().contains(k) ==> ph(*c.pcs_keys@[k]) == k && c.pcs_key_ops@.dom().contains(k) }
pub open spec fn ok(c: Cgka) -> bool { cwf(c.ops_graph) && kwf(c) && c.ops_graph.cgka_ops@.dom().len() > 0 }
/// a new local operation: built on exactly the operations nobody had built on
pub open spec fn local(g: G, e: G, o: Op) -> bool { on_heads(g, o) && plus(g, e, o) && e.cgka_op_heads@ =~= Set::<N>::empty().insert(oh(o)) }
pub proof fn many(g: G, e: G, o: Op) requires e.cgka_ops@.dom() =~= g.cgka_ops@.dom().insert(oh(o)) ensures e.cgka_ops@.dom().len() > 0 { assert(e.cgka_ops@.dom().contains(oh(o))); assert(e.cgka_ops@.dom().remove(oh(o)).len() < e.cgka_ops@.dom().len()); }
pub proof fn many_a(g: G, e: G, o: Arc<Op>) requires e.cgka_ops@.dom() =~= g.cgka_ops@.dom().insert(oh(*o)) ensures e.cgka_ops@.dom().len() > 0 { assert(e.cgka_ops@.dom().contains(oh(*o))); assert(e.cgka_ops@.dom().remove(oh(*o)).len() < e.cgka_ops@.dom().len()); }
pub proof fn decl(o: Arc<Op>, p: Set<N>) requires forall|a: N| #[trigger] p.contains(a) <==> dec(o.payload).contains(a) ensures forall|a: N| #[trigger] p.contains(a) ==> declares(*o, a), forall|a: N| #[trigger] declares(*o, a) ==> p.contains(a) {}
pub proof fn one_head(g: G) requires cwf(g), g.cgka_ops@.dom().len() > 0 ensures g.cgka_op_heads@.len() > 0, forall|h: N| g.cgka_op_heads@.contains(h) ==> #[trigger] g.cgka_ops@.dom().contains(h)
{
    let rank = choose|rank: spec_fn(N) -> nat| ranked(g.cgka_ops_predecessors@, rank); let m = top(g.cgka_ops@.dom(), rank);
    assert(!built(g, m)) by { if built(g, m) { let b = choose|b: N| #[trigger] pred(g, b, m); assert(at(g.cgka_ops_predecessors@, b, m)); assert(known(g, b)); } }
    assert(g.cgka_op_heads@.contains(m)); assert(g.cgka_op_heads@.remove(m).len() < g.cgka_op_heads@.len());
}
pub proof fn local_is(g: G, e: G, o: Op) requires cwf(g), on_heads(g, o), grown(g, e, o, g.cgka_op_heads@), plus(g, e, o) ensures local(g, e, o) { assert(g.cgka_op_heads@.difference(g.cgka_op_heads@) =~= Set::<N>::empty()); }
/// every operation joined from both sides
pub open spec fn from_both(a: Cgka, b: Cgka, c: Cgka) -> bool { union(a.ops_graph, b.ops_graph, c.ops_graph) }
impl CgkaOperationGraph {
    #[verifier::external_body] pub fn topsort_graph(&self) -> (r: Result<NonEmpty<CgkaEpoch>, CgkaError>) requires gwf(*self), self.cgka_op_heads@.len() > 0, forall|h: N| self.cgka_op_heads@.contains(h) ==> #[trigger] self.cgka_ops@.dom().contains(h) ensures r is Ok, is_history(*self, self.cgka_op_heads@, r->Ok_0@) { unimplemented!() }
    #[verifier::external_body] pub fn topsort_for_heads(&self, heads: &HashSet<N>) -> (r: Result<NonEmpty<CgkaEpoch>, CgkaError>) requires gwf(*self), heads@.len() > 0, forall|h: N| heads@.contains(h) ==> #[trigger] self.cgka_ops@.dom().contains(h) ensures r is Ok, is_history(*self, heads@, r->Ok_0@) { unimplemented!() }
}
impl Cgka { #[verifier::external_body] pub fn apply_epochs(&mut self, e: &NonEmpty<CgkaEpoch>) -> (r: Result<(), CgkaError>) ensures kwf(*old(self)) ==> kwf(*final(self)) { unimplemented!() } }
/// the first operation of the last epoch
#[verifier::external_body] pub fn last_op(e: &NonEmpty<CgkaEpoch>) -> (r: &Arc<Op>) { unimplemented!() }
"""
CT = [r for r in NT if r[0] != "Digest::hash($x)"] + [
    ("Digest::hash(&epochs.last()[0])", "vhash(last_op(&epochs))"), ("Digest::hash($x)", "vhash($x)"),
    ("Vec::from_iter(self.ops_graph.cgka_op_heads.iter().cloned())", "vec_of(&self.ops_graph.cgka_op_heads)"), ("Vec::from_iter(self.ops_graph.add_heads.iter().cloned())", "vec_of(&self.ops_graph.add_heads)"),
    ("async_signer::try_sign_async::<F, _, _>($s, $o)", "sign($s, $o)"), ("self.update::<F, S, R>($a)", "self.update($a)"), ("self.update::<F, S, R>($a, $b, $c, $d)", "self.update($a, $b, $c, $d)"),
    ("alloc::boxed::Box::new($x)", "Box::new($x)"), (".map_err(|_| $e)", ".or_err($e)"),
    ("self.ops_graph.cgka_op_heads.iter().next()", "set_first(&self.ops_graph.cgka_op_heads)"), ("self.ops_graph.cgka_op_heads.is_empty()", "set_is_empty(&self.ops_graph.cgka_op_heads)"), ("self.ops_graph.add_heads.len()", "set_len(&self.ops_graph.add_heads)"),
    ("pcs_keys: CaMap::new()", "pcs_keys: PcsMap::new()"), ("self.pcs_key_ops.clone()", "ops_copy(&self.pcs_key_ops)"),
    ("self.pcs_keys.extend($o.pcs_keys.iter().map($f),)", "self.pcs_keys.extend_from(&$o.pcs_keys)"), ("self.pcs_keys.extend($o.pcs_keys.iter().map($f))", "self.pcs_keys.extend_from(&$o.pcs_keys)"), ("self.pcs_key_ops.extend($o.pcs_key_ops.iter())", "ops_extend(&mut self.pcs_key_ops, &$o.pcs_key_ops)"),
    ("(*pcs_key).into()", "*pcs_key"), ("info!($x, $y);", ""), ("Siv::new(&$k.into(), $c, self.doc_id.as_bytes())", "siv_new(&$k, $c, &self.doc_id)"), (".expect($m)", ".unwrap()"),
]
FRAME = "final(self).ops_graph == old(self).ops_graph && final(self).doc_id == old(self).doc_id"
KEEP = "kwf(*old(self)) ==> kwf(*final(self))"
C = lambda name, sig, params, rw=(), **k: Fn(CG, "Cgka", name, sig, params, rewrites=list(rw) + CT, wrap="impl Cgka", **k)
LOCAL_E = "forall|o: Op| true ==> true"
PRE_L = "let ghost g0 = self.ops_graph;"
cgka_fns = [
    C("new_from_init_add", "pub fn new_from_init_add(doc_id: TreeId, owner_id: MemberId, owner_pk: ShareKey, init_add_op: Op) -> (r: Result<Cgka, CgkaError>) ensures r is Ok ==> kwf(r->Ok_0) && r->Ok_0.ops_graph.cgka_ops@.dom() =~= Set::<N>::empty().insert(oh(init_add_op)) && (dec(init_add_op.payload).len() == 0 ==> ok(r->Ok_0))",
      ["doc_id", "owner_id", "owner_pk", "init_add_op"], [("init_add_op.clone()", "op_copy(&init_add_op)"), ("cgka.ops_graph.add_local_op(&init_add_op);", "let ghost g0 = cgka.ops_graph; cgka.ops_graph.add_local_op(&init_add_op); proof { many(g0, cgka.ops_graph, init_add_op); if dec(init_add_op.payload).len() == 0 { no_heads(g0, init_add_op); } }", "must")]),
    C("with_new_owner", "pub fn with_new_owner(&self, my_id: MemberId, owner_sks: ShareKeyMap) -> (r: Result<Cgka, CgkaError>) ensures r is Ok, r->Ok_0.ops_graph == self.ops_graph, kwf(*self) ==> kwf(r->Ok_0)", ["self", "my_id", "owner_sks"]),
    C("has_pcs_key", "pub fn has_pcs_key(&self) -> (r: bool) ensures r ==> self.ops_graph.cgka_op_heads@.len() == 1", ["self"]),
    C("group_size", "pub fn group_size(&self) -> (r: u32)", ["self"], vac=False),
    C("should_replay", "pub fn should_replay(&self) -> (r: bool)", ["self"], vac=False),
    C("insert_pcs_key", f"pub fn insert_pcs_key(&mut self, pcs_key: &PcsKey, op_hash: N) ensures {FRAME}, {KEEP}, final(self).pcs_key_ops@ == old(self).pcs_key_ops@.insert(ph(*pcs_key), op_hash), final(self).pcs_keys@.dom().contains(ph(*pcs_key))", ["self", "pcs_key", "op_hash"]),
    C("update_cgka_from", f"pub fn update_cgka_from(&mut self, other: &Cgka) ensures {FRAME}, kwf(*old(self)) && kwf(*other) ==> kwf(*final(self))", ["self", "other"]),
    C("pcs_key_from_tree_root", f"pub fn pcs_key_from_tree_root(&mut self) -> (r: Result<PcsKey, CgkaError>) ensures {FRAME}, {KEEP}, final(self).pcs_keys == old(self).pcs_keys, final(self).pcs_key_ops == old(self).pcs_key_ops, final(self).doc_id == old(self).doc_id", ["self"]),
    C("rebuild_cgka", f"pub fn rebuild_cgka(&mut self, epochs: NonEmpty<CgkaEpoch>) -> (r: Result<Cgka, CgkaError>) ensures *final(self) == *old(self), r is Ok ==> kwf(r->Ok_0)", ["self", "epochs"], [("self.init_add_op.clone()", "op_copy(&self.init_add_op)")]),
    C("rebuild_pcs_key", f"pub fn rebuild_pcs_key(&mut self, epochs: NonEmpty<CgkaEpoch>) -> (r: Result<PcsKey, CgkaError>) ensures {FRAME}, {KEEP}", ["self", "epochs"], [("self.init_add_op.clone()", "op_copy(&self.init_add_op)")]),
    C("replay_ops_graph", f"pub fn replay_ops_graph(&mut self) -> (r: Result<(), CgkaError>) requires ok(*old(self)) ensures {FRAME}, ok(*final(self))", ["self"], pre="proof { one_head(self.ops_graph); }"),
    C("derive_pcs_key_for_op", f"pub fn derive_pcs_key_for_op(&mut self, op_hash: &N) -> (r: Result<PcsKey, CgkaError>) requires ok(*old(self)) ensures {FRAME}, ok(*final(self)), !known(old(self).ops_graph, *op_hash) ==> r is Err && *final(self) == *old(self)", ["self", "op_hash"],
      [("match self.ops_graph.cgka_ops.get(op_hash) { Some($$o) if $c => {} _ => $e, }", "let is_update = match self.ops_graph.cgka_ops.get(op_hash) { Some($$o) => $c, _ => false }; if !is_update { $e; }"), ("CgkaError::UnknownPcsKey", "CgkaError::Other"),
       ("heads.insert(*op_hash);", "heads.insert(*op_hash); proof { assert(heads@.contains(*op_hash)); assert(heads@.remove(*op_hash).len() < heads@.len()); }")]),
    C("pcs_key_from_hashes", f"pub fn pcs_key_from_hashes(&mut self, pcs_key_hash: &PH, update_op_hash: &N) -> (r: Result<PcsKey, CgkaError>) requires ok(*old(self)) ensures {FRAME}, ok(*final(self)), old(self).pcs_keys@.dom().contains(*pcs_key_hash) ==> r is Ok && ph(r->Ok_0) == *pcs_key_hash", ["self", "pcs_key_hash", "update_op_hash"],
      [("return Ok(*pcs_key.clone())", "return Ok(**pcs_key)"), ("&Digest::hash(&pcs_key) == pcs_key_hash", "Digest::hash(&pcs_key) == *pcs_key_hash")]),
    C("decryption_key_for", f"pub fn decryption_key_for(&mut self, encrypted: &EncryptedContent) -> (r: Result<SymmetricKey, CgkaError>) requires ok(*old(self)) ensures {FRAME}, ok(*final(self)), r is Ok ==> exists|k: PcsKey| r->Ok_0 == #[trigger] app_key(k, encrypted.content_ref, encrypted.pred_refs) && (old(self).pcs_keys@.dom().contains(encrypted.pcs_key_hash) ==> ph(k) == encrypted.pcs_key_hash), old(self).pcs_keys@.dom().contains(encrypted.pcs_key_hash) ==> r is Ok", ["self", "encrypted"]),
    C("new_app_secret_for", f"""pub fn new_app_secret_for(&mut self, content_ref: &Cr, content: &[u8], pred_refs: &Vec<Cr>, signer: &Signer, csprng: &mut Rng) -> (r: Result<(ApplicationSecret, Option<Op>), CgkaError>) requires ok(*old(self))
      ensures ok(*final(self)), r is Ok && r->Ok_0.1 is Some ==> local(old(self).ops_graph, final(self).ops_graph, r->Ok_0.1->0), r is Err || r->Ok_0.1 is None ==> {FRAME},
        r is Ok ==> exists|k: PcsKey| (r->Ok_0).0 == (ApplicationSecret {{ key: #[trigger] app_key(k, *content_ref, pr(pred_refs@)), pcs_key_hash: ph(k), pcs_update_op_hash: final(self).pcs_key_ops@[ph(k)], nonce: siv(k, content@, old(self).doc_id), content_ref: *content_ref, pred_refs: pr(pred_refs@) }}) && final(self).pcs_keys@.dom().contains(ph(k))""", ["self", "content_ref", "content", "pred_refs", "signer", "csprng"],
      [("let mut op = None;", "let mut op: Option<Op> = None;")]),
    C("add", f"""pub fn add(&mut self, id: MemberId, pk: ShareKey, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) requires ok(*old(self)) ensures ok(*final(self)),
        r is Ok && r->Ok_0 is Some ==> local(old(self).ops_graph, final(self).ops_graph, r->Ok_0->0), r is Err || r->Ok_0 is None ==> {FRAME}""", ["self", "id", "pk", "signer"], pre=PRE_L,
      rw=[("self.ops_graph.add_local_op(&signed_op);", "let ghost g0 = self.ops_graph; self.ops_graph.add_local_op(&signed_op); proof { local_is(g0, self.ops_graph, signed_op); many(g0, self.ops_graph, signed_op); }", "must")]),
    C("remove", f"""pub fn remove(&mut self, id: MemberId, signer: &Signer) -> (r: Result<Option<Op>, CgkaError>) requires ok(*old(self)) ensures ok(*final(self)),
        r is Ok && r->Ok_0 is Some ==> local(old(self).ops_graph, final(self).ops_graph, r->Ok_0->0), r is Err || r->Ok_0 is None ==> {FRAME}""", ["self", "id", "signer"],
      rw=[("self.ops_graph.add_local_op(&signed_op);", "let ghost g0 = self.ops_graph; self.ops_graph.add_local_op(&signed_op); proof { local_is(g0, self.ops_graph, signed_op); many(g0, self.ops_graph, signed_op); }", "must")]),
    C("update", f"""pub fn update(&mut self, new_pk: ShareKey, new_sk: ShareSecretKey, signer: &Signer, csprng: &mut Rng) -> (r: Result<(PcsKey, Op), CgkaError>) requires ok(*old(self)) ensures ok(*final(self)), final(self).doc_id == old(self).doc_id,
        r is Ok ==> local(old(self).ops_graph, final(self).ops_graph, (r->Ok_0).1) && final(self).pcs_key_ops@.dom().contains(ph((r->Ok_0).0)), r is Err ==> {FRAME}""", ["self", "new_pk", "new_sk", "signer", "csprng"],
      rw=[("self.ops_graph.add_local_op(&signed_op);", "let ghost g0 = self.ops_graph; self.ops_graph.add_local_op(&signed_op); proof { local_is(g0, self.ops_graph, signed_op); many(g0, self.ops_graph, signed_op); }", "must")]),
    C("apply_operation", f"""pub fn apply_operation(&mut self, op: Arc<Op>) -> (r: Result<(), CgkaError>) ensures {KEEP}, known(old(self).ops_graph, oh(*op)) ==> r is Ok && *final(self) == *old(self),
        r is Err ==> {FRAME}, r is Ok && cwf(old(self).ops_graph) && !known(old(self).ops_graph, oh(*op)) && preds_known(old(self).ops_graph, *op) ==> cwf(final(self).ops_graph) && plus(old(self).ops_graph, final(self).ops_graph, *op)""", ["self", "op"],
      [("match op.payload {", "match &op.payload {"), ("ref new_path", "new_path"), ("contains_id(&$$i)", "contains_id($$i)"), ("push_leaf($$i, $$p.into())", "push_leaf(*$$i, (*$$p).into())"), ("remove_id($$i)", "remove_id(*$$i)")]),
    C("merge_concurrent_operation", f"""pub fn merge_concurrent_operation(&mut self, op: Arc<Op>) -> (r: Result<bool, CgkaError>) requires ok(*old(self)) ensures ok(*final(self)),
        known(old(self).ops_graph, oh(*op)) ==> r == Ok::<bool, CgkaError>(false) && *final(self) == *old(self),
        !known(old(self).ops_graph, oh(*op)) && !preds_known(old(self).ops_graph, *op) ==> r == Err::<bool, CgkaError>(CgkaError::OutOfOrderOperation) && *final(self) == *old(self),
        !known(old(self).ops_graph, oh(*op)) && preds_known(old(self).ops_graph, *op) && r is Ok ==> r->Ok_0 && plus(old(self).ops_graph, final(self).ops_graph, *op),
        r is Err ==> {FRAME}""", ["self", "op"], pre="let ghost g0 = self.ops_graph; let ghost o = op;", rw=[("let $$p = op.payload.predecessors();", "let $$p = op.payload.predecessors(); proof { decl(op, $$p@); }"), ("Ok(true)", "({ proof { many_a(g0, self.ops_graph, o); } Ok(true) })", "must")]),
    C("ops", "pub fn ops(&self) -> (r: Result<NonEmpty<CgkaEpoch>, CgkaError>) requires ok(*self) ensures r is Ok, is_history(self.ops_graph, self.ops_graph.cgka_op_heads@, r->Ok_0@)", ["self"], pre="proof { one_head(self.ops_graph); }"),
    C("contains_predecessors", "pub fn contains_predecessors(&self, preds: &HashSet<N>) -> (r: bool) ensures r == (forall|a: N| #[trigger] preds@.contains(a) ==> known(self.ops_graph, a))", ["self", "preds"]),
    Fn(CG, "Merge for Cgka", "merge", "pub fn merge(&mut self, fork: Cgka) requires ok(*old(self)), ok(fork) ensures ok(*final(self)), from_both(*old(self), fork, *final(self))", ["self", "fork"],
       [("self.replay_ops_graph().expect($m);", "proof { more(g0, f0, self.ops_graph); } let _ = self.replay_ops_graph();", "must")] + CT, wrap="impl Cgka", pre="let ghost g0 = self.ops_graph; let ghost f0 = fork.ops_graph;"),
]
cgka = Unit("cgka_state", PRE.replace("ax_op::injective}", "ax_op::injective, ax_ph::key_model}") + STATE + r"""
#[verifier::external_body] pub fn op_copy(o: &Op) -> (r: Op) ensures r == *o { unimplemented!() }
pub proof fn no_heads(g: G, o: Op) requires g.cgka_ops@ == Map::<N, Arc<Op>>::empty(), cwf(g), dec(o.payload).len() == 0 ensures on_heads(g, o) { assert forall|a: N| #[trigger] declares(o, a) <==> g.cgka_op_heads@.contains(a) by { if g.cgka_op_heads@.contains(a) { assert(known(g, a)); } } }
pub proof fn more(g: G, f: G, e: G) requires union(g, f, e), g.cgka_ops@.dom().len() > 0 ensures e.cgka_ops@.dom().len() > 0 { let x = g.cgka_ops@.dom().choose(); assert(g.cgka_ops@.dom().contains(x)); assert(e.cgka_ops@.dom().contains(x)); assert(e.cgka_ops@.dom().remove(x).len() < e.cgka_ops@.dom().len()); }
""" + CTRACT(graph_fns), cgka_fns)
