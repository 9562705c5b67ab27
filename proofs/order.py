"""P21 (and P10, P14): everything that is put in dependency order."""
from vp.verus import Fn, Unit
from . import core, stores

UT, BT = "keyhive_core/src/util/topsort.rs", "beekem/src/topsort.rs"
PRE = core.std("ax_n::key_model") + core.hashkey("N") + stores.MAPS + r"""
/// some total order on nodes
pub uninterp spec fn le(a: N, b: N) -> bool;
pub open spec fn sorted(s: Seq<N>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> le(#[trigger] s[i], #[trigger] s[j]) }
/// std: sorting a list rearranges it
#[verifier::external_body] pub fn sort(v: &mut Vec<N>) ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.no_duplicates() == old(v)@.no_duplicates(), final(v)@.len() == old(v)@.len(), forall|x: N| #[trigger] final(v)@.contains(x) == old(v)@.contains(x) { unimplemented!() }
/// std: m.entry(k).or_default(), for a map of sets
#[verifier::external_body] pub fn map_set_touch<K: std::hash::Hash + Eq, V: std::hash::Hash + Eq>(m: &mut HashMap<K, HashSet<V>>, k: K)
    ensures final(m)@.dom() == old(m)@.dom().insert(k), forall|a: K| old(m)@.dom().contains(a) ==> final(m)@[a] == #[trigger] old(m)@[a], !old(m)@.dom().contains(k) ==> final(m)@[k]@ == Set::<V>::empty() { unimplemented!() }
/// std: iterating a map
#[verifier::external_body] pub fn map_list<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures forall|k: K| #[trigger] m@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k,
        forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i]).0) && *r@[i].1 == m@[*r@[i].0],
        forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && *(#[trigger] r@[i]).0 == *(#[trigger] r@[j]).0 ==> i == j { unimplemented!() }
/// std: into_iter of a set
#[verifier::external_body] pub fn set_vec<K>(s: HashSet<K>) -> (r: Vec<K>) ensures forall|k: K| #[trigger] s@.contains(k) <==> r@.contains(k) { unimplemented!() }
#[verifier::external_body] pub fn set_is_empty<K>(s: &HashSet<K>) -> (r: bool) ensures r == (s@ =~= Set::<K>::empty()) { unimplemented!() }

pub type Deps = Map<N, HashSet<N>>;
/// `b` waits for `a`
pub open spec fn waits(d: Deps, b: N, a: N) -> bool { at(d, b, a) }
/// every dependency is known and listed backwards
pub open spec fn wf(d: Deps, r: Deps) -> bool {
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) ==> d.dom().contains(a) && at(r, a, b)
}
pub open spec fn free(d: Deps, n: N) -> bool { d.dom().contains(n) && d[n]@ =~= Set::<N>::empty() }
/// `e` is `d` without the first `n` of `s`
pub open spec fn without(d: Deps, e: Deps, s: Seq<N>, n: int) -> bool {
    &&& forall|x: N| #[trigger] e.dom().contains(x) <==> d.dom().contains(x) && !among(s, n, x)
    &&& forall|b: N, a: N| #[trigger] at(e, b, a) <==> e.dom().contains(b) && at(d, b, a) && !among(s, n, a)
}
pub open spec fn among(s: Seq<N>, n: int, x: N) -> bool { exists|i: int| 0 <= i < n && #[trigger] s[i] == x }
pub proof fn among_all(s: Seq<N>, x: N) ensures among(s, s.len() as int, x) == s.contains(x)
{ if among(s, s.len() as int, x) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] s[i] == x; assert(s.contains(x)); } if s.contains(x) { let i = s.index_of(x); assert(s[i] == x); } }
pub proof fn among_step(s: Seq<N>, n: int) requires 0 <= n < s.len() ensures forall|x: N| #[trigger] among(s, n + 1, x) <==> among(s, n, x) || x == s[n]
{ assert forall|x: N| #[trigger] among(s, n + 1, x) <==> among(s, n, x) || x == s[n] by { if among(s, n, x) { let i = choose|i: int| 0 <= i < n && #[trigger] s[i] == x; assert(0 <= i < n + 1 && s[i] == x); } assert(0 <= n < n + 1 && s[n] == s[n]); if among(s, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && #[trigger] s[i] == x; if i < n { assert(0 <= i < n && s[i] == x); } } } }
"""
TS = r"""
pub struct Topsort { pub deps: HashMap<N, HashSet<N>>, pub rdeps: HashMap<N, HashSet<N>> }
pub open spec fn twf(t: Topsort) -> bool { wf(t.deps@, t.rdeps@) }
/// one more dependency, both ends known
pub open spec fn with_edge(d: Deps, e: Deps, before: N, after: N) -> bool {
    &&& e.dom() =~= d.dom().insert(before).insert(after)
    &&& forall|b: N, a: N| #[trigger] at(e, b, a) <==> at(d, b, a) || (b == after && a == before)
}
pub open spec fn with_node(d: Deps, e: Deps, n: N) -> bool { e.dom() =~= d.dom().insert(n) && forall|b: N, a: N| #[trigger] at(e, b, a) <==> at(d, b, a) }
/// what a pop returns: exactly the nodes nothing has to come before, each once
pub open spec fn frontier(d: Deps, r: Seq<N>) -> bool { r.no_duplicates() && forall|x: N| #[trigger] r.contains(x) <==> free(d, x) }
"""
POP_SPEC = lambda n: f"pub fn {n}(&mut self) -> (r: Vec<N>) requires twf(*old(self)) ensures twf(*final(self)), frontier(old(self).deps@, r@), without(old(self).deps@, final(self).deps@, r@, r@.len() as int)"
SPECS = {
    "new": "pub fn new() -> (r: Self) ensures twf(r), r.deps@ == Map::<N, HashSet<N>>::empty()",
    "add_dependency": "pub fn add_dependency(&mut self, before: N, after: N) ensures with_edge(old(self).deps@, final(self).deps@, before, after), twf(*old(self)) ==> twf(*final(self))",
    "add_node": "pub fn add_node(&mut self, node: N) ensures with_node(old(self).deps@, final(self).deps@, node), twf(*old(self)) ==> twf(*final(self))",
    "is_empty": "pub fn is_empty(&self) -> (r: bool) ensures r == (self.deps@.dom() =~= Set::<N>::empty())",
}
ENTRY = [("$$m.$$f.entry($k).or_default().insert($v)", "map_set_add(&mut $$m.$$f, $k, $v)"), ("$$m.$$f.entry($k).or_default()", "map_set_touch(&mut $$m.$$f, $k)"),
         ("Map::new()", "HashMap::new()")]
NODE = [("Vec<T>", "Vec<N>")]
POP = [("$$s.deps.iter().filter(|(_, $$p)| $$p.is_empty()).map(|($$n, _)| $$n.clone()).collect()", "({ let mut out: Vec<N> = Vec::new(); for ($$n, $$p) in map_list(&$$s.deps) { if set_is_empty($$p) { out.push(*$$n); } } out })", "must"),
       ("ready.sort()", "sort(&mut ready)"),
       ("for $x in successors {", "for $x in set_vec(successors) {"), ("for $x in dependents {", "for $x in set_vec(dependents) {"),
       ("self.deps.get_mut($k)", "map_get_mut(&mut self.deps, $k)")]


def topsort_fns(path, ty, pop):
    F = lambda name, sig, params, rw=(), **k: Fn(path, ty, name, sig, params, rewrites=list(rw), wrap="impl Topsort", **k)
    a, b = ("before", "after") if pop == "pop_frontier" else ("dependency", "dependent")
    return [
        F("new", SPECS["new"], [], ENTRY, post=""),
        F("add_dependency", SPECS["add_dependency"], ["self", "before", "after"], ENTRY, pre="let ghost d0 = self.deps@; let ghost r0 = self.rdeps@;",
          post="proof { edge_ok(d0, self.deps@, r0, self.rdeps@, before, after); }"),
        F("add_node", SPECS["add_node"], ["self", "node"], ENTRY, pre="let ghost d0 = self.deps@; let ghost r0 = self.rdeps@;", post="proof { node_ok(d0, self.deps@, r0, self.rdeps@, node); }"),
        F("is_empty", SPECS["is_empty"], ["self"], [("self.deps.is_empty()", "map_is_empty(&self.deps)")]),
        F(pop, POP_SPEC(pop), ["self"], NODE + POP, pre="let ghost d0 = self.deps@; let ghost r0 = self.rdeps@;",
          loops=[("for", "it", """invariant d0 == self.deps@, r0 == self.rdeps@, forall|k: N| #[trigger] d0.dom().contains(k) <==> exists|i: int| 0 <= i < it.seq().len() && *(#[trigger] it.seq()[i]).0 == k,
                   forall|i: int| 0 <= i < it.seq().len() ==> d0.dom().contains(*(#[trigger] it.seq()[i]).0) && *it.seq()[i].1 == d0[*it.seq()[i].0],
                   forall|i: int, j: int| 0 <= i < it.seq().len() && 0 <= j < it.seq().len() && *(#[trigger] it.seq()[i]).0 == *(#[trigger] it.seq()[j]).0 ==> i == j,
                   out@.no_duplicates(), forall|x: N| #[trigger] out@.contains(x) <==> free(d0, x) && exists|i: int| 0 <= i < it.index@ && *(#[trigger] it.seq()[i]).0 == x""", "let ghost out0 = out@;", "proof { picked(d0, it.seq(), it.index@ as int, out0, out@); }"),
                 ("for", "it", """invariant frontier(d0, ready@), it.seq().len() == ready@.len(), forall|i: int| 0 <= i < ready@.len() ==> *(#[trigger] it.seq()[i]) == ready@[i], wf(d0, r0), without(d0, self.deps@, ready@, it.index@ as int), back(self.deps@, self.rdeps@)""",
                  "let ghost d1 = self.deps@; let ghost r1 = self.rdeps@; let ghost k = it.index@ as int; proof { assert(d0.dom().contains(ready@[k])) by { assert(ready@.contains(ready@[k])); } }",
                  "proof { clear_done(d0, d1, r1, self.deps@, self.rdeps@, ready@, k); }"),
                 ("for", "it2", """invariant self.rdeps@ == r1.remove(ready@[k]), *node == ready@[k], r1.dom().contains(ready@[k]), forall|x: N| #[trigger] r1[ready@[k]]@.contains(x) <==> it2.seq().contains(x), unlisting(d1, self.deps@, ready@[k], it2.seq(), it2.index@ as int), it2.index@ == it2.seq().len() ==> cleared(d1, r1, self.deps@, ready@[k])""",
                  "let ghost d2 = self.deps@; let ghost j = it2.index@ as int;", "proof { unlist(d1, r1, d2, self.deps@, ready@[k], it2.seq(), j); }")])]


LEM = r"""
pub proof fn node_ok(d: Deps, e: Deps, r: Deps, q: Deps, n: N) requires with_node(d, e, n), with_node(r, q, n) ensures wf(d, r) ==> wf(e, q)
{ if wf(d, r) { assert forall|b: N, a: N| #[trigger] at(e, b, a) implies e.dom().contains(a) && at(q, a, b) by { if at(d, b, a) { assert(at(r, a, b)); } } } }
pub open spec fn back(d: Deps, r: Deps) -> bool { forall|b: N, a: N| #[trigger] at(d, b, a) ==> at(r, a, b) }
/// `node` is gone, and out of the dependencies of the first `j` of `s`
pub open spec fn unlisting(d1: Deps, d: Deps, node: N, s: Seq<N>, j: int) -> bool {
    &&& d.dom() =~= d1.dom().remove(node)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> b != node && at(d1, b, a) && !(a == node && among(s, j, b))
}
pub open spec fn cleared(d1: Deps, r1: Deps, d: Deps, node: N) -> bool {
    &&& d.dom() =~= d1.dom().remove(node)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> b != node && at(d1, b, a) && !(a == node && at(r1, node, b))
}
pub proof fn unlist(d1: Deps, r1: Deps, d2: Deps, d3: Deps, node: N, s: Seq<N>, j: int)
    requires unlisting(d1, d2, node, s, j), 0 <= j < s.len(), r1.dom().contains(node), forall|x: N| #[trigger] r1[node]@.contains(x) <==> s.contains(x),
        !d2.dom().contains(s[j]) ==> d3 == d2, d2.dom().contains(s[j]) ==> d3 == d2.insert(s[j], d3[s[j]]) && d3[s[j]]@ == d2[s[j]]@.remove(node)
    ensures unlisting(d1, d3, node, s, j + 1), j + 1 == s.len() ==> cleared(d1, r1, d3, node)
{
    among_step(s, j);
    assert forall|b: N, a: N| #[trigger] at(d3, b, a) <==> b != node && at(d1, b, a) && !(a == node && among(s, j + 1, b)) by {
        assert(at(d2, b, a) <==> b != node && at(d1, b, a) && !(a == node && among(s, j, b)));
        assert(among(s, j + 1, b) <==> among(s, j, b) || b == s[j]);
    }
    if j + 1 == s.len() { assert forall|b: N, a: N| #[trigger] at(d3, b, a) <==> b != node && at(d1, b, a) && !(a == node && at(r1, node, b)) by { among_all(s, b); } }
}
pub proof fn clear_done(d0: Deps, d1: Deps, r1: Deps, d: Deps, r: Deps, ready: Seq<N>, k: int)
    requires without(d0, d1, ready, k), back(d1, r1), 0 <= k < ready.len(), r == r1.remove(ready[k]), cleared(d1, r1, d, ready[k])
    ensures without(d0, d, ready, k + 1), back(d, r)
{
    among_step(ready, k); let n = ready[k];
    assert forall|b: N, a: N| #[trigger] at(d, b, a) implies at(r, a, b) by { assert(at(d1, b, a)); assert(at(r1, a, b)); }
    assert forall|b: N, a: N| #[trigger] at(d, b, a) <==> d.dom().contains(b) && at(d0, b, a) && !among(ready, k + 1, a) by {
        assert(at(d1, b, a) <==> d1.dom().contains(b) && at(d0, b, a) && !among(ready, k, a));
        if at(d1, b, a) && a == n { assert(at(r1, a, b)); }
    }
    assert forall|x: N| #[trigger] d.dom().contains(x) <==> d0.dom().contains(x) && !among(ready, k + 1, x) by { assert(d1.dom().contains(x) <==> d0.dom().contains(x) && !among(ready, k, x)); }
}
pub proof fn picked(d0: Deps, s: Seq<(&N, &HashSet<N>)>, k: int, out0: Seq<N>, out: Seq<N>)
    requires 0 <= k < s.len(), d0.dom().contains(*s[k].0), *s[k].1 == d0[*s[k].0], out0.no_duplicates(), forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && *(#[trigger] s[i]).0 == *(#[trigger] s[j]).0 ==> i == j,
        forall|x: N| #[trigger] out0.contains(x) <==> free(d0, x) && exists|i: int| 0 <= i < k && *(#[trigger] s[i]).0 == x,
        out == (if s[k].1@ =~= Set::<N>::empty() { out0.push(*s[k].0) } else { out0 })
    ensures out.no_duplicates(), forall|x: N| #[trigger] out.contains(x) <==> free(d0, x) && exists|i: int| 0 <= i < k + 1 && *(#[trigger] s[i]).0 == x
{
    let n = *s[k].0;
    assert(!out0.contains(n)) by { if out0.contains(n) { let i = choose|i: int| 0 <= i < k && *(#[trigger] s[i]).0 == n; assert(i == k); } }
    assert forall|x: N| #[trigger] out.contains(x) <==> free(d0, x) && exists|i: int| 0 <= i < k + 1 && *(#[trigger] s[i]).0 == x by {
        if out0.contains(x) { let i = choose|i: int| 0 <= i < k && *(#[trigger] s[i]).0 == x; assert(*s[i].0 == x); let q = out0.index_of(x); assert(out[q] == x); }
        if free(d0, n) { assert(out[out0.len() as int] == n); }
        if out.contains(x) && !out0.contains(x) { let q = out.index_of(x); if q < out0.len() { assert(out0[q] == x); } assert(x == n); assert(*s[k].0 == x); }
        if free(d0, x) && (exists|i: int| 0 <= i < k + 1 && *(#[trigger] s[i]).0 == x) { let i = choose|i: int| 0 <= i < k + 1 && *(#[trigger] s[i]).0 == x; if i < k { assert(out0.contains(x)); } }
    }
}

#[verifier::external_body] pub fn map_is_empty<K, V>(m: &HashMap<K, V>) -> (r: bool) ensures r == (m@.dom() =~= Set::<K>::empty()) { unimplemented!() }
pub proof fn edge_ok(d: Deps, e: Deps, r: Deps, q: Deps, before: N, after: N)
    requires with_edge(d, e, before, after), with_edge(r, q, after, before) ensures wf(d, r) ==> wf(e, q)
{ if wf(d, r) { assert forall|b: N, a: N| #[trigger] at(e, b, a) implies e.dom().contains(a) && at(q, a, b) by { if at(d, b, a) { assert(at(r, a, b)); } } } }
"""
core_sort = Unit("topsort_core", PRE + TS + LEM, topsort_fns(UT, "Topsort", "pop_frontier"))
beekem_sort = Unit("topsort_beekem", PRE + TS + LEM, topsort_fns(BT, "TopologicalSort", "pop_all"))

# ---------------------------------------------------------------- draining a sorter
DRAIN = r"""
pub open spec fn closed(d: Deps) -> bool { forall|b: N, a: N| #[trigger] at(d, b, a) ==> d.dom().contains(a) }
/// every node once, after everything it waits for
pub open spec fn ordered(d: Deps, out: Seq<N>) -> bool {
    &&& out.no_duplicates()
    &&& forall|i: int| 0 <= i < out.len() ==> d.dom().contains(#[trigger] out[i])
    &&& forall|i: int, a: N| 0 <= i < out.len() && #[trigger] at(d, out[i], a) ==> among(out, i, a)
}
/// `d` is what is left of `d0` after `out` has been returned
pub open spec fn drained(d0: Deps, d: Deps, out: Seq<N>) -> bool {
    &&& forall|x: N| #[trigger] d.dom().contains(x) <==> d0.dom().contains(x) && !out.contains(x)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> d.dom().contains(b) && at(d0, b, a) && !out.contains(a)
}
/// no circles
pub open spec fn ranked(d: Deps, rank: spec_fn(N) -> nat) -> bool { forall|b: N, a: N| #[trigger] at(d, b, a) ==> rank(a) < rank(b) }
pub proof fn cat(a: Seq<N>, b: Seq<N>) ensures forall|x: N| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x), forall|x: N, i: int| 0 <= i <= a.len() && among(a, i, x) ==> #[trigger] among(a + b, i, x), forall|x: N, i: int| a.contains(x) && a.len() <= i ==> #[trigger] among(a + b, i, x)
{
    let c = a + b;
    assert forall|x: N| #[trigger] c.contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = a.index_of(x); assert(c[i] == x); }
        if b.contains(x) { let i = b.index_of(x); assert(c[a.len() + i] == x); }
        if c.contains(x) { let i = c.index_of(x); if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
    assert forall|x: N, i: int| 0 <= i <= a.len() && among(a, i, x) implies #[trigger] among(c, i, x) by { let j = choose|j: int| 0 <= j < i && #[trigger] a[j] == x; assert(c[j] == x); }
    assert forall|x: N, i: int| a.contains(x) && a.len() <= i implies #[trigger] among(c, i, x) by { let j = a.index_of(x); assert(c[j] == x); }
}
pub proof fn drain_step(d0: Deps, d: Deps, e: Deps, out: Seq<N>, r: Seq<N>, r2: Seq<N>)
    requires closed(d0), drained(d0, d, out), ordered(d0, out), frontier(d, r), without(d, e, r, r.len() as int), r2.no_duplicates(), forall|x: N| #[trigger] r2.contains(x) <==> r.contains(x)
    ensures drained(d0, e, out + r2), ordered(d0, out + r2)
{
    let o = out + r2; cat(out, r2);
    assert forall|x: N| #[trigger] e.dom().contains(x) <==> d0.dom().contains(x) && !o.contains(x) by { among_all(r, x); assert(d.dom().contains(x) <==> d0.dom().contains(x) && !out.contains(x)); }
    assert forall|b: N, a: N| #[trigger] at(e, b, a) <==> e.dom().contains(b) && at(d0, b, a) && !o.contains(a) by { among_all(r, a); assert(e.dom().contains(b) ==> d.dom().contains(b)); assert(at(d, b, a) <==> d.dom().contains(b) && at(d0, b, a) && !out.contains(a)); }
    assert forall|i: int| 0 <= i < o.len() implies d0.dom().contains(#[trigger] o[i]) && (i >= out.len() ==> free(d, o[i])) by { if i >= out.len() { assert(r2.contains(r2[i - out.len()])); assert(free(d, o[i])); } else { assert(out[i] == o[i]); } }
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by {
        if i < out.len() && j >= out.len() { assert(out.contains(o[i])); assert(free(d, o[j])); }
        if j < out.len() && i >= out.len() { assert(out.contains(o[j])); assert(free(d, o[i])); }
    }
    assert forall|i: int, a: N| 0 <= i < o.len() && #[trigger] at(d0, o[i], a) implies among(o, i, a) by {
        if i < out.len() { assert(at(d0, out[i], a)); assert(among(out, i, a)); }
        else { assert(free(d, o[i])); assert(!at(d, o[i], a)); assert(out.contains(a)); }
    }
}
/// while something is left of a graph without circles, something can be returned
pub proof fn progress(d0: Deps, d: Deps, out: Seq<N>, rank: spec_fn(N) -> nat, x: N)
    requires closed(d0), ranked(d0, rank), drained(d0, d, out), d.dom().contains(x) ensures exists|y: N| free(d, y)
    decreases rank(x)
{
    if !free(d, x) {
        let a = choose|a: N| d[x]@.contains(a);
        assert(d[x]@.contains(a)) by { if forall|a: N| !d[x]@.contains(a) { assert(d[x]@ =~= Set::<N>::empty()); } }
        assert(at(d, x, a)); assert(d0.dom().contains(a)) by { assert(at(d0, x, a)); }
        progress(d0, d, out, rank, a);
    }
}
/// what waits on itself, directly or through a chain, is never returned
pub proof fn circle(d0: Deps, out: Seq<N>, c: ISet<N>)
    requires ordered(d0, out), forall|x: N| #[trigger] c.contains(x) ==> exists|a: N| c.contains(a) && at(d0, x, a) ensures forall|x: N| #[trigger] c.contains(x) ==> !out.contains(x)
{
    assert forall|x: N| #[trigger] c.contains(x) implies !out.contains(x) by { if out.contains(x) { no_circle(d0, out, c, out.index_of(x)); } }
}
proof fn no_circle(d0: Deps, out: Seq<N>, c: ISet<N>, i: int)
    requires ordered(d0, out), forall|x: N| #[trigger] c.contains(x) ==> exists|a: N| c.contains(a) && at(d0, x, a), 0 <= i < out.len(), c.contains(out[i]) ensures false decreases i
{ let a = choose|a: N| c.contains(a) && at(d0, out[i], a); assert(at(d0, out[i], a)); let j = choose|j: int| 0 <= j < i && #[trigger] out[j] == a; no_circle(d0, out, c, j); }
"""
for u in (core_sort, beekem_sort):
    u.prelude += DRAIN

# ---------------------------------------------------------------- key-agreement operations
OG = "beekem/src/operation.rs"
GRAPH = r"""
#[verifier::external_body] pub struct Op { x: u64 }
pub uninterp spec fn oh(o: Op) -> N;
pub enum CgkaError { OperationNotFound, Other }
#[verifier::external_body] pub struct CaMap { x: u64 }
impl CaMap {
    pub uninterp spec fn view(&self) -> Map<N, Arc<Op>>;
    #[verifier::external_body] pub fn get(&self, k: &N) -> (r: Option<&Arc<Op>>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *(r->0) == self@[*k] { unimplemented!() }
}
pub struct CgkaOperationGraph { pub cgka_ops: CaMap, pub cgka_ops_predecessors: HashMap<N, HashSet<N>>, pub cgka_op_heads: HashSet<N>, pub add_heads: HashSet<N> }
pub type G = CgkaOperationGraph;
pub open spec fn pred(g: G, b: N, a: N) -> bool { at(g.cgka_ops_predecessors@, b, a) }
/// every operation is kept under its digest with its predecessors, which are all there; no circles
pub open spec fn gwf(g: G) -> bool {
    &&& g.cgka_ops_predecessors@.dom() == g.cgka_ops@.dom()
    &&& forall|b: N, a: N| #[trigger] pred(g, b, a) ==> g.cgka_ops@.dom().contains(a)
    &&& forall|k: N| #[trigger] g.cgka_ops@.dom().contains(k) ==> oh(*g.cgka_ops@[k]) == k
    &&& exists|rank: spec_fn(N) -> nat| ranked(g.cgka_ops_predecessors@, rank)
}
pub open spec fn downward(g: G, heads: Set<N>, x: ISet<N>) -> bool { (forall|h: N| heads.contains(h) ==> #[trigger] x.contains(h)) && forall|b: N, a: N| x.contains(b) && #[trigger] pred(g, b, a) ==> x.contains(a) }
/// an operation of the history of the heads
pub open spec fn below(g: G, heads: Set<N>, n: N) -> bool { forall|x: ISet<N>| #[trigger] downward(g, heads, x) ==> x.contains(n) }
#[verifier::reject_recursive_types(T)] #[verifier::external_body] pub struct NonEmpty<T> { x: Vec<T> }
impl<T> NonEmpty<T> { pub uninterp spec fn view(&self) -> Seq<T>; }
pub type CgkaEpoch = NonEmpty<Arc<Op>>;
/// NonEmpty::from_vec(v).expect(..): panics when empty
#[verifier::external_body] pub fn nonempty<T>(v: Vec<T>) -> (r: NonEmpty<T>) requires v@.len() > 0 ensures r@ == v@ { unimplemented!() }
pub open spec fn flat(e: Seq<CgkaEpoch>) -> Seq<Arc<Op>> decreases e.len() { if e.len() == 0 { seq![] } else { flat(e.drop_last()) + e.last()@ } }
pub open spec fn listing(g: G, v: Seq<Arc<Op>>, out: Seq<N>) -> bool { v.len() == out.len() && forall|i: int| 0 <= i < v.len() ==> g.cgka_ops@.dom().contains(out[i]) && #[trigger] v[i] == g.cgka_ops@[out[i]] }
/// what has been handed out so far: the finished epochs and the one in the making
pub open spec fn handed(g: G, e: Seq<CgkaEpoch>, next: Seq<Arc<Op>>, out: Seq<N>) -> bool { listing(g, flat(e) + next, out) }
/// the history of the heads: every operation once, after all of its predecessors
pub open spec fn history(g: G, heads: Set<N>, out: Seq<N>) -> bool {
    &&& out.no_duplicates()
    &&& forall|x: N| #[trigger] out.contains(x) <==> below(g, heads, x)
    &&& forall|i: int, a: N| 0 <= i < out.len() && #[trigger] pred(g, out[i], a) ==> among(out, i, a)
}
pub open spec fn is_history(g: G, heads: Set<N>, e: Seq<CgkaEpoch>) -> bool { exists|out: Seq<N>| #[trigger] history(g, heads, out) && listing(g, flat(e), out) }
pub open spec fn lists<'a>(s: Set<N>, v: Seq<&'a N>) -> bool { v.len() == s.len() && v.no_duplicates() && forall|x: N| #[trigger] s.contains(x) <==> exists|i: int| 0 <= i < v.len() && *(#[trigger] v[i]) == x }
/// std: iterating a set
#[verifier::external_body] pub fn set_list<'a>(s: &'a HashSet<N>) -> (r: Vec<&'a N>) ensures lists(s@, r@) { unimplemented!() }
pub type Succ = Map<N, HashSet<N>>;
/// state of the walk down from the heads; `part` of the predecessors of `cur` have been looked at
pub open spec fn walk(g: G, heads: Set<N>, seen: Set<N>, queue: Seq<N>, done: Set<N>, d: Deps, cur: Option<N>, part: ISet<N>) -> bool {
    &&& forall|h: N| #[trigger] heads.contains(h) ==> seen.contains(h)
    &&& forall|x: N| #[trigger] seen.contains(x) ==> below(g, heads, x) && g.cgka_ops@.dom().contains(x)
    &&& queue.no_duplicates() && forall|x: N| #[trigger] queue.contains(x) ==> seen.contains(x) && !done.contains(x) && cur != Some(x)
    &&& forall|x: N| #[trigger] done.contains(x) ==> seen.contains(x) && cur != Some(x)
    &&& forall|x: N| #[trigger] seen.contains(x) ==> done.contains(x) || queue.contains(x) || cur == Some(x)
    &&& cur is Some ==> seen.contains(cur->0)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> pred(g, b, a) && (done.contains(b) || (cur == Some(b) && part.contains(a)))
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) ==> seen.contains(a)
    &&& forall|x: N| #[trigger] d.dom().contains(x) ==> seen.contains(x)
    &&& forall|x: N| #[trigger] seen.contains(x) ==> heads.contains(x) || d.dom().contains(x)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) ==> d.dom().contains(a)
}
"""
NT = [("Digest<Signed<CgkaOperation>>", "N"), ("Map<N, Set<N>>", "HashMap<N, HashSet<N>>"), ("Arc<Signed<CgkaOperation>>", "Arc<Op>"),
      ("Set::new()", "HashSet::new()"), ("Map::new()", "HashMap::new()")]
TOP = NT + [
    ("TopologicalSort::<N>::new()", "Topsort::new()"),
    ("alloc::collections::VecDeque::new()", "VecDeque::new()"),
    ("for $$h in heads {", "for $$h in set_list(heads) {", "must"),
    ("for $$h in preds {", "for $$h in set_list(preds) {", "must"),
    ("successors.entry($k).or_default().insert($v)", "map_set_add(&mut successors, $k, $v)"),
    ("heads.iter().map(|$$h| { self.cgka_ops.get($$h).ok_or(CgkaError::OperationNotFound).expect($m).clone() }).collect::<Vec<_>>()",
     "({ let mut v: Vec<Arc<Op>> = Vec::new(); for $$h in set_list(heads) { v.push(self.cgka_ops.get($$h).unwrap().clone()); } v })"),
    ("op_hashes.push(NonEmpty::from_vec(next).expect($m).into(),)", "let ghost hx = op_hashes@; push_epoch(&mut op_hashes, next); proof { shift(hx, next@, op_hashes@, next_epoch@); }"),
    ("op_hashes.push(NonEmpty::from_vec($v).expect($m).into(),)", "push_epoch(&mut op_hashes, $v)"),
    ("NonEmpty::from_vec($v).expect($m).into()", "nonempty($v)"),
    ("if !next_epoch.is_empty() {", "proof { finished(*self, heads@, d0, dependencies.deps@, out, op_hashes@, next_epoch@); } if !next_epoch.is_empty() {"),
    ("for $$x in next_set {", "proof { re_cut(*self, h1, x1, out, op_hashes@, next_epoch@); assert(out + next_set@.take(0) =~= out); } for $$x in next_set {"),
    ("NonEmpty::from_vec($v).expect($m)", "nonempty($v)"),
    ("successors.get($k).expect($m).is_empty()", "set_is_empty(successors.get($k).unwrap())"),
    ("successors.get_mut($k).expect($m).insert($v)", "map_get_mut(&mut successors, $k).unwrap().insert($v)"),
    ("successors.get_mut($k).expect($m).remove($v)", "map_get_mut(&mut successors, $k).unwrap().remove($v)"),
    ("epoch_heads.iter().cloned().collect::<Vec<_>>()", "set_copy(&epoch_heads)"),
    ("epoch_heads.iter().filter(|$$h| !successors.get_mut($$k).expect($m).is_empty()).copied().collect::<Set<_>>()",
     "({ let mut kept: HashSet<N> = HashSet::new(); for $$h in set_list(&epoch_heads) { if !set_is_empty(successors.get($$k).unwrap()) { kept.insert(*$$h); } } kept })"),
    ("frontier.pop_front()", "pop_first(&mut frontier)", "must"),
    ("mem::swap($a, $b);", "std::mem::swap($a, $b); proof { both_empty(next@, next_epoch@); }"),
    ("next_epoch.clone()", "next_epoch"),
    ("epoch_heads.len()", "set_len(&epoch_heads)"),
    ("next_set.sort();", "sort(&mut next_set); proof { popped(d0, e1, out, r1, next_set@); }"),
    ("if dependencies.is_empty() {", "proof { over(*self, heads@, seen@, frontier@, done, dependencies.deps@); } let ghost e0 = dependencies.deps@; if dependencies.is_empty() {"),
    ("let mut epoch_heads = HashSet::new();", "proof { d0 = dependencies.deps@; ranks(*self, heads@, d0, rank); all_known(*self, heads@); assert forall|x: N| #[trigger] d0.dom().contains(x) implies successors@.dom().contains(x) by { assert(seen@.contains(x)); } assert(flat(op_hashes@) + Seq::<Arc<Op>>::empty() =~= seq![]); } let mut epoch_heads: HashSet<N> = HashSet::new();"),
    ("let mut next_set = dependencies.pop_all();", "let mut next_set = dependencies.pop_all(); let ghost r1 = next_set@; proof { fewer(d0, e1, dependencies.deps@, out, rank, r1); }"),
]

WALK = r"""
use std::collections::VecDeque;
pub fn pop_first(v: &mut VecDeque<N>) -> (r: Option<N>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r is Some && old(v)@ == seq![r->0] + final(v)@
{ let ghost s = v@; let r = v.pop_front(); proof { if s.len() > 0 { assert(seq![r->0] + v@ =~= s); } } r }
pub fn push_epoch(e: &mut Vec<CgkaEpoch>, v: Vec<Arc<Op>>) requires v@.len() > 0 ensures flat(final(e)@) == flat(old(e)@) + v@, old(e)@.len() == 0 ==> flat(final(e)@) == v@, final(e)@.len() > 0
{ let ghost s = e@; e.push(nonempty(v)); proof { assert(e@.drop_last() =~= s); if s.len() == 0 { assert(flat(s) + v@ =~= v@); } } }
#[verifier::external_body] pub fn set_copy(s: &HashSet<N>) -> (r: Vec<N>) ensures forall|x: N| #[trigger] s@.contains(x) <==> r@.contains(x), forall|i: int| 0 <= i < r@.len() ==> s@.contains(#[trigger] r@[i]) { unimplemented!() }
#[verifier::external_body] pub fn set_len(s: &HashSet<N>) -> (r: usize) ensures r == s@.len() { unimplemented!() }
pub open spec fn in_list<'a>(l: Seq<&'a N>, n: int, x: N) -> bool { exists|i: int| 0 <= i < n && *(#[trigger] l[i]) == x }
pub open spec fn starting<'a>(l: Seq<&'a N>, n: int, seen: Set<N>, q: Seq<N>, u: Succ) -> bool {
    &&& q.len() == n && forall|i: int| 0 <= i < n ==> q[i] == *(#[trigger] l[i])
    &&& forall|x: N| #[trigger] seen.contains(x) <==> in_list(l, n, x)
    &&& forall|x: N| #[trigger] seen.contains(x) ==> u.dom().contains(x)
}
pub proof fn below_head(g: G, heads: Set<N>, h: N) requires heads.contains(h) ensures below(g, heads, h) {}
pub proof fn below_pred(g: G, heads: Set<N>, b: N, a: N) requires below(g, heads, b), pred(g, b, a) ensures below(g, heads, a)
{ assert forall|x: ISet<N>| #[trigger] downward(g, heads, x) implies x.contains(a) by { assert(x.contains(b)); } }
pub proof fn started<'a>(g: G, heads: Set<N>, l: Seq<&'a N>, n: int, s0: Set<N>, s1: Set<N>, q0: Seq<N>, q1: Seq<N>, u0: Succ, u1: Succ, d: Deps)
    requires lists(heads, l), 0 <= n < l.len(), starting(l, n, s0, q0, u0), s1 == s0.insert(*l[n]), q1 == q0.push(*l[n]), u1.dom() == u0.dom().insert(*l[n]), forall|h: N| heads.contains(h) ==> #[trigger] g.cgka_ops@.dom().contains(h), d == Map::<N, HashSet<N>>::empty()
    ensures starting(l, n + 1, s1, q1, u1), n + 1 == l.len() ==> walk(g, heads, s1, q1, Set::empty(), d, None, ISet::empty())
{
    assert forall|x: N| #[trigger] s1.contains(x) <==> in_list(l, n + 1, x) by {
        if in_list(l, n, x) { let i = choose|i: int| 0 <= i < n && *(#[trigger] l[i]) == x; assert(0 <= i < n + 1 && *l[i] == x); }
        if x == *l[n] { assert(*l[n] == x); }
        if in_list(l, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == x; if i < n { assert(in_list(l, n, x)); } }
    }
    assert forall|i: int| 0 <= i < n + 1 implies q1[i] == *(#[trigger] l[i]) by { if i < n { assert(q0[i] == *l[i]); } }
    if n + 1 == l.len() {
        assert forall|x: N| #[trigger] q1.contains(x) <==> s1.contains(x) by {
            if q1.contains(x) { let i = q1.index_of(x); assert(*l[i] == x); }
            if s1.contains(x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == x; assert(q1[i] == x); }
        }
        assert forall|x: N| #[trigger] s1.contains(x) implies below(g, heads, x) && heads.contains(x) && g.cgka_ops@.dom().contains(x) by { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == x; assert(heads.contains(x)); below_head(g, heads, x); }
        assert forall|h: N| #[trigger] heads.contains(h) implies s1.contains(h) by { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == h; assert(in_list(l, n + 1, h)); }
        assert(q1.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < q1.len() && 0 <= j < q1.len() && i != j implies q1[i] != q1[j] by { assert(q1[i] == *l[i]); assert(q1[j] == *l[j]); assert(l[i] != l[j]); } }
    }
}
pub proof fn take(g: G, heads: Set<N>, seen: Set<N>, x: N, q: Seq<N>, done: Set<N>, d: Deps)
    requires walk(g, heads, seen, seq![x] + q, done, d, None, ISet::empty()) ensures walk(g, heads, seen, q, done, d, Some(x), ISet::empty()), g.cgka_ops@.dom().contains(x), !done.contains(x)
{
    let p = seq![x] + q; cat(seq![x], q); assert(p[0] == x); assert(p.contains(x)); assert(seen.contains(x));
    assert forall|y: N| #[trigger] p.contains(y) <==> y == x || q.contains(y) by { assert(seq![x][0] == x); if q.contains(y) { let i = q.index_of(y); assert(p[i + 1] == y); } if p.contains(y) { let i = p.index_of(y); if i > 0 { assert(q[i - 1] == y); } } }
    assert forall|y: N| #[trigger] q.contains(y) implies seen.contains(y) && !done.contains(y) by { assert(p.contains(y)); }
    assert(q.no_duplicates() && !q.contains(x)) by {
        assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { assert(p[i + 1] == q[i]); assert(p[j + 1] == q[j]); }
        if q.contains(x) { let i = q.index_of(x); assert(p[i + 1] == x); }
    }
}
pub open spec fn covers(g: G, x: N, part: ISet<N>) -> bool { forall|a: N| #[trigger] pred(g, x, a) ==> part.contains(a) }
pub proof fn leave(g: G, heads: Set<N>, seen: Set<N>, q: Seq<N>, done: Set<N>, d: Deps, x: N, part: ISet<N>)
    requires walk(g, heads, seen, q, done, d, Some(x), part), covers(g, x, part) ensures walk(g, heads, seen, q, done.insert(x), d, None, ISet::empty())
{ assert forall|b: N, a: N| #[trigger] at(d, b, a) <==> pred(g, b, a) && done.insert(x).contains(b) by {} }
pub proof fn shrink(u: Set<N>, s: Set<N>, a: N) requires u.contains(a), !s.contains(a) ensures u.difference(s.insert(a)).len() < u.difference(s).len()
{ assert(u.difference(s.insert(a)) =~= u.difference(s).remove(a)); }
pub open spec fn part_of<'a>(l: Seq<&'a N>, n: int, part: ISet<N>) -> bool { forall|a: N| in_list(l, n, a) ==> #[trigger] part.contains(a) }
pub proof fn look<'a>(g: G, heads: Set<N>, s0: Set<N>, s1: Set<N>, q0: Seq<N>, q1: Seq<N>, done: Set<N>, d0: Deps, d1: Deps, x: N, l: Seq<&'a N>, n: int, part: ISet<N>, a: N)
    requires gwf(g), walk(g, heads, s0, q0, done, d0, Some(x), part), pred(g, x, a), with_edge(d0, d1, a, x), part_of(l, n, part), 0 <= n < l.len(), *l[n] == a, lists(g.cgka_ops_predecessors@[x]@, l),
        s0.contains(a) ==> s1 == s0 && q1 == q0, !s0.contains(a) ==> s1 == s0.insert(a) && q1 == q0.push(a)
    ensures walk(g, heads, s1, q1, done, d1, Some(x), part.insert(a)), part_of(l, n + 1, part.insert(a)), n + 1 == l.len() ==> covers(g, x, part.insert(a))
{
    below_pred(g, heads, x, a); let p1 = part.insert(a);
    if !s0.contains(a) {
        assert(!q0.contains(a)) by { if q0.contains(a) { assert(s0.contains(a)); } }
        assert forall|y: N| #[trigger] q1.contains(y) <==> q0.contains(y) || y == a by { if q0.contains(y) { let i = q0.index_of(y); assert(q1[i] == y); } assert(q1[q0.len() as int] == a); if q1.contains(y) { let i = q1.index_of(y); if i < q0.len() { assert(q0[i] == y); } } }
        assert(q1.no_duplicates());
    }
    assert forall|b: N, c: N| #[trigger] at(d1, b, c) <==> pred(g, b, c) && (done.contains(b) || (x == b && p1.contains(c))) by { assert(at(d1, b, c) <==> at(d0, b, c) || (b == x && c == a)); }
    assert forall|b: N, c: N| #[trigger] at(d1, b, c) implies s1.contains(c) && d1.dom().contains(c) by { if at(d0, b, c) { } }
    assert forall|c: N| in_list(l, n + 1, c) implies #[trigger] p1.contains(c) by { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == c; if i < n { assert(in_list(l, n, c)); assert(part.contains(c)); } }
    if n + 1 == l.len() { assert forall|c: N| #[trigger] pred(g, x, c) implies p1.contains(c) by { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == c; assert(in_list(l, n + 1, c)); } }
}
/// the whole history of the heads, with all its dependencies
pub open spec fn full(g: G, heads: Set<N>, d: Deps) -> bool {
    &&& forall|x: N| #[trigger] d.dom().contains(x) <==> below(g, heads, x)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> pred(g, b, a) && below(g, heads, b)
    &&& closed(d)
}
/// the walk is over
pub open spec fn walked(g: G, heads: Set<N>, seen: Set<N>, d: Deps) -> bool {
    &&& forall|x: N| #[trigger] seen.contains(x) <==> below(g, heads, x)
    &&& forall|x: N| #[trigger] seen.contains(x) ==> heads.contains(x) || d.dom().contains(x)
    &&& forall|x: N| #[trigger] d.dom().contains(x) ==> seen.contains(x)
    &&& forall|b: N, a: N| #[trigger] at(d, b, a) <==> pred(g, b, a) && seen.contains(b)
    &&& closed(d)
}
pub proof fn over(g: G, heads: Set<N>, seen: Set<N>, q: Seq<N>, done: Set<N>, d: Deps)
    requires walk(g, heads, seen, q, done, d, None, ISet::empty()), q.len() == 0 ensures walked(g, heads, seen, d)
{
    assert forall|x: N| #[trigger] seen.contains(x) implies done.contains(x) by { assert(!q.contains(x)); }
    let s: ISet<N> = ISet::new(|x: N| seen.contains(x));
    assert(downward(g, heads, s)) by { assert forall|b: N, a: N| s.contains(b) && #[trigger] pred(g, b, a) implies s.contains(a) by { assert(done.contains(b)); assert(at(d, b, a)); } }
    assert forall|x: N| below(g, heads, x) implies #[trigger] seen.contains(x) by { assert(s.contains(x)); }
}
pub proof fn heads_only<'a>(g: G, heads: Set<N>, seen: Set<N>, d: Deps, l: Seq<&'a N>, v: Seq<Arc<Op>>, n: int)
    requires walked(g, heads, seen, d), d.dom() =~= Set::<N>::empty(), lists(heads, l), heads.len() > 0, v.len() == n, 0 <= n <= l.len(), forall|i: int| 0 <= i < n ==> #[trigger] v[i] == g.cgka_ops@[*l[i]], forall|h: N| heads.contains(h) ==> #[trigger] g.cgka_ops@.dom().contains(h)
    ensures n == l.len() ==> v.len() > 0 && exists|out: Seq<N>| #[trigger] history(g, heads, out) && listing(g, v, out)
{
    if n == l.len() {
        let out = Seq::new(l.len(), |i: int| *l[i]);
        let h = heads.choose(); assert(heads.contains(h)); let k = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == h;
        assert forall|x: N| #[trigger] out.contains(x) <==> below(g, heads, x) by {
            if out.contains(x) { let i = out.index_of(x); assert(*l[i] == x); assert(heads.contains(x)); below_head(g, heads, x); }
            if below(g, heads, x) { assert(seen.contains(x)); assert(heads.contains(x)); let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == x; assert(out[i] == x); }
        }
        assert(out.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < out.len() && 0 <= j < out.len() && i != j implies out[i] != out[j] by { assert(l[i] != l[j]); } }
        assert forall|i: int, a: N| 0 <= i < out.len() && #[trigger] pred(g, out[i], a) implies among(out, i, a) by { assert(out.contains(out[i])); assert(seen.contains(out[i])); assert(at(d, out[i], a)); }
        assert forall|i: int| 0 <= i < v.len() implies g.cgka_ops@.dom().contains(out[i]) && #[trigger] v[i] == g.cgka_ops@[out[i]] by { assert(v[i] == g.cgka_ops@[*l[i]]); assert(heads.contains(*l[i])); }
        assert(history(g, heads, out) && listing(g, v, out));
    }
}
/// the heads are known to the sorter, too
pub open spec fn added<'a>(d0: Deps, d: Deps, l: Seq<&'a N>, n: int) -> bool { (forall|x: N| #[trigger] d.dom().contains(x) <==> d0.dom().contains(x) || in_list(l, n, x)) && forall|b: N, a: N| #[trigger] at(d, b, a) <==> at(d0, b, a) }
pub proof fn add_step<'a>(g: G, heads: Set<N>, seen: Set<N>, d0: Deps, d1: Deps, d2: Deps, l: Seq<&'a N>, n: int)
    requires walked(g, heads, seen, d0), lists(heads, l), 0 <= n < l.len(), added(d0, d1, l, n), with_node(d1, d2, *l[n]) ensures added(d0, d2, l, n + 1), n + 1 == l.len() ==> full(g, heads, d2)
{
    assert forall|x: N| #[trigger] d2.dom().contains(x) <==> d0.dom().contains(x) || in_list(l, n + 1, x) by {
        assert(d1.dom().contains(x) <==> d0.dom().contains(x) || in_list(l, n, x));
        if in_list(l, n, x) { let i = choose|i: int| 0 <= i < n && *(#[trigger] l[i]) == x; assert(0 <= i < n + 1 && *l[i] == x); }
        assert(*l[n] == *l[n]);
        if in_list(l, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == x; if i < n { assert(in_list(l, n, x)); } }
    }
    assert forall|b: N, a: N| #[trigger] at(d2, b, a) <==> at(d0, b, a) by { assert(at(d1, b, a) <==> at(d0, b, a)); }
    if n + 1 == l.len() {
        assert forall|x: N| #[trigger] d2.dom().contains(x) <==> below(g, heads, x) by {
            if in_list(l, n + 1, x) { let i = choose|i: int| 0 <= i < n + 1 && *(#[trigger] l[i]) == x; assert(heads.contains(x)); below_head(g, heads, x); }
            if below(g, heads, x) { assert(seen.contains(x)); if heads.contains(x) { let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == x; assert(in_list(l, n + 1, x)); } }
            if d0.dom().contains(x) { assert(seen.contains(x)); }
        }
        assert forall|b: N, a: N| #[trigger] at(d2, b, a) <==> pred(g, b, a) && below(g, heads, b) by { assert(at(d2, b, a) <==> at(d0, b, a)); if pred(g, b, a) && below(g, heads, b) { assert(seen.contains(b)); } }
        assert forall|b: N, a: N| #[trigger] at(d2, b, a) implies d2.dom().contains(a) by { assert(at(d0, b, a)); }
    }
}
pub proof fn ranks(g: G, heads: Set<N>, d: Deps, rank: spec_fn(N) -> nat) requires full(g, heads, d), ranked(g.cgka_ops_predecessors@, rank) ensures ranked(d, rank), drained(d, d, Seq::empty()), ordered(d, Seq::empty())
{ assert forall|b: N, a: N| #[trigger] at(d, b, a) implies rank(a) < rank(b) by { assert(pred(g, b, a)); } }
pub proof fn fewer(d0: Deps, d: Deps, e: Deps, out: Seq<N>, rank: spec_fn(N) -> nat, r: Seq<N>)
    requires closed(d0), ranked(d0, rank), drained(d0, d, out), frontier(d, r), without(d, e, r, r.len() as int), !(d.dom() =~= Set::<N>::empty()) ensures e.dom().len() < d.dom().len()
{
    let x = choose|x: N| d.dom().contains(x); progress(d0, d, out, rank, x); let y = choose|y: N| free(d, y); assert(r.contains(y)); among_all(r, y);
    assert(e.dom().subset_of(d.dom().remove(y))) by { assert forall|z: N| #[trigger] e.dom().contains(z) implies d.dom().remove(y).contains(z) by {} }
    vstd::set_lib::lemma_len_subset(e.dom(), d.dom().remove(y));
}
pub proof fn finished(g: G, heads: Set<N>, d0: Deps, d: Deps, out: Seq<N>, e: Seq<CgkaEpoch>, next: Seq<Arc<Op>>)
    requires full(g, heads, d0), drained(d0, d, out), ordered(d0, out), d.dom() =~= Set::<N>::empty(), handed(g, e, next, out), heads.len() > 0
    ensures history(g, heads, out), flat(e) + next == flat(e) || next.len() > 0, next.len() == 0 ==> e.len() > 0 && is_history(g, heads, e), forall|e1: Seq<CgkaEpoch>| #[trigger] flat(e1) == flat(e) + next ==> is_history(g, heads, e1)
{
    let h = heads.choose(); assert(heads.contains(h)); below_head(g, heads, h); assert(d0.dom().contains(h)); assert(!d.dom().contains(h)); assert(out.contains(h));
    assert forall|x: N| #[trigger] out.contains(x) <==> below(g, heads, x) by { assert(!d.dom().contains(x)); if out.contains(x) { let i = out.index_of(x); assert(d0.dom().contains(out[i])); } if below(g, heads, x) { assert(d0.dom().contains(x)); } }
    assert forall|i: int, a: N| 0 <= i < out.len() && #[trigger] pred(g, out[i], a) implies among(out, i, a) by { assert(out.contains(out[i])); assert(at(d0, out[i], a)); }
    assert forall|e1: Seq<CgkaEpoch>| #[trigger] flat(e1) == flat(e) + next implies is_history(g, heads, e1) by { assert(history(g, heads, out) && listing(g, flat(e1), out)); }
    if next.len() == 0 { assert(flat(e) + next =~= flat(e)); let k = out.index_of(h); if e.len() == 0 { assert(flat(e).len() == 0); } assert(history(g, heads, out) && listing(g, flat(e), out)); }
}
pub proof fn closing(g: G, heads: Set<N>, e0: Seq<CgkaEpoch>, next: Seq<Arc<Op>>, out: Seq<N>, e1: Seq<CgkaEpoch>)
    requires history(g, heads, out), handed(g, e0, next, out), flat(e1) == flat(e0) + next ensures is_history(g, heads, e1)
{ assert(history(g, heads, out) && listing(g, flat(e1), out)); }
pub proof fn hand_out(g: G, e: Seq<CgkaEpoch>, n0: Seq<Arc<Op>>, n1: Seq<Arc<Op>>, out: Seq<N>, r: Seq<N>, k: int)
    requires handed(g, e, n0, out + r.take(k)), 0 <= k < r.len(), g.cgka_ops@.dom().contains(r[k]), n1 == n0.push(g.cgka_ops@[r[k]]) ensures handed(g, e, n1, out + r.take(k + 1))
{
    let o = out + r.take(k); let o1 = out + r.take(k + 1); let f = flat(e) + n0; let f1 = flat(e) + n1;
    assert(o1 =~= o.push(r[k])); assert(f1 =~= f.push(g.cgka_ops@[r[k]]));
    assert forall|i: int| 0 <= i < f1.len() implies g.cgka_ops@.dom().contains(o1[i]) && #[trigger] f1[i] == g.cgka_ops@[o1[i]] by { if i < f.len() { assert(f[i] == g.cgka_ops@[o[i]]); } }
    assert(f1.len() == o1.len());
    assert forall|i: int| 0 <= i < f1.len() implies g.cgka_ops@.dom().contains(o1[i]) by { if i < f.len() { assert(f[i] == g.cgka_ops@[o[i]]); assert(o1[i] == o[i]); } else { assert(o1[i] == r[k]); } }
    assert(listing(g, f1, o1));
}
pub proof fn shift(h: Seq<CgkaEpoch>, n: Seq<Arc<Op>>, e: Seq<CgkaEpoch>, next: Seq<Arc<Op>>) requires flat(e) == flat(h) + n, next.len() == 0 ensures flat(e) + next == flat(h) + n { assert(flat(e) + next =~= flat(h) + n); }
pub proof fn both_empty(a: Seq<Arc<Op>>, b: Seq<Arc<Op>>) ensures a.len() == 0 && b.len() == 0 ==> a == b { if a.len() == 0 && b.len() == 0 { assert(a =~= b); } }
pub proof fn popped(d0: Deps, d: Deps, out: Seq<N>, r: Seq<N>, r2: Seq<N>) requires drained(d0, d, out), frontier(d, r), forall|x: N| #[trigger] r2.contains(x) == r.contains(x) ensures forall|i: int| 0 <= i < r2.len() ==> d0.dom().contains(#[trigger] r2[i])
{ assert forall|i: int| 0 <= i < r2.len() implies d0.dom().contains(#[trigger] r2[i]) by { assert(r2.contains(r2[i])); assert(free(d, r2[i])); } }
pub proof fn all_known(g: G, heads: Set<N>) requires gwf(g), forall|h: N| heads.contains(h) ==> #[trigger] g.cgka_ops@.dom().contains(h) ensures forall|x: N| below(g, heads, x) ==> #[trigger] g.cgka_ops@.dom().contains(x)
{ let s: ISet<N> = ISet::new(|x: N| g.cgka_ops@.dom().contains(x)); assert(downward(g, heads, s)); assert forall|x: N| below(g, heads, x) implies #[trigger] g.cgka_ops@.dom().contains(x) by { assert(s.contains(x)); } }
pub proof fn flat_one(e: Seq<CgkaEpoch>) requires e.len() == 1 ensures flat(e) == e[0]@ { reveal_with_fuel(flat, 2); assert(e.drop_last() =~= seq![]); assert(flat(e) =~= e[0]@); }
pub proof fn re_cut(g: G, e0: Seq<CgkaEpoch>, n0: Seq<Arc<Op>>, out: Seq<N>, e1: Seq<CgkaEpoch>, n1: Seq<Arc<Op>>) requires handed(g, e0, n0, out), flat(e1) + n1 =~= flat(e0) + n0 ensures handed(g, e1, n1, out) {}
"""
G_INV = "gwf(*self), heads@.len() > 0, forall|h: N| heads@.contains(h) ==> #[trigger] self.cgka_ops@.dom().contains(h), ranked(self.cgka_ops_predecessors@, rank)"
EPB = f"""{G_INV}, full(*self, heads@, d0), forall|x: N| below(*self, heads@, x) ==> #[trigger] self.cgka_ops@.dom().contains(x), closed(d0), ranked(d0, rank), forall|x: N| #[trigger] d0.dom().contains(x) ==> successors@.dom().contains(x), forall|x: N| #[trigger] epoch_heads@.contains(x) ==> d0.dom().contains(x)"""
IN_EP = EPB + """, forall|i: int| 0 <= i < next_set@.len() ==> d0.dom().contains(#[trigger] next_set@[i])"""
W = "walk(*self, heads@, seen@, frontier@, done, dependencies.deps@, {}, {})"
SUCC = "twf(dependencies), forall|x: N| #[trigger] seen@.contains(x) ==> successors@.dom().contains(x)"
epochs_fn = Fn(OG, "CgkaOperationGraph", "topsort_for_heads",
    """pub fn topsort_for_heads(&self, heads: &HashSet<N>) -> (r: Result<NonEmpty<CgkaEpoch>, CgkaError>)
  requires gwf(*self), heads@.len() > 0, forall|h: N| heads@.contains(h) ==> #[trigger] self.cgka_ops@.dom().contains(h)
  ensures r is Ok, is_history(*self, heads@, r->Ok_0@)""",
    ["self", "heads"], TOP, wrap="impl CgkaOperationGraph",
    pre="let ghost rank = choose|rank: spec_fn(N) -> nat| ranked(self.cgka_ops_predecessors@, rank); let ghost mut done: Set<N> = Set::empty(); let ghost mut d0: Deps = Map::empty(); let ghost mut out: Seq<N> = seq![];",
    loops=[
        ("for", "it", f"invariant {G_INV}, lists(heads@, it.seq()), starting(it.seq(), it.index@ as int, seen@, frontier@, successors@), done == Set::<N>::empty(), twf(dependencies), dependencies.deps@ == Map::<N, HashSet<N>>::empty(), op_hashes@.len() == 0, out.len() == 0, it.index@ == it.seq().len() ==> {W.format('None', 'ISet::empty()')}",
         "let ghost q0 = frontier@; let ghost s0 = seen@; let ghost u0 = successors@;", "proof { started(*self, heads@, it.seq(), it.index@ as int, s0, seen@, q0, frontier@, u0, successors@, dependencies.deps@); }"),
        ("while", None, f"invariant {G_INV}, {W.format('None', 'ISet::empty()')}, {SUCC}, op_hashes@.len() == 0, out.len() == 0 ensures frontier@.len() == 0 decreases self.cgka_ops@.dom().difference(done).len()",
         "let ghost mut part: ISet<N> = ISet::empty(); proof { take(*self, heads@, seen@, op_hash, frontier@, done, dependencies.deps@); }",
         "proof { leave(*self, heads@, seen@, frontier@, done, dependencies.deps@, op_hash, part); shrink(self.cgka_ops@.dom(), done, op_hash); done = done.insert(op_hash); }"),
        ("for", "it2", f"invariant {G_INV}, lists(preds@, it2.seq()), preds@ == self.cgka_ops_predecessors@[op_hash]@, self.cgka_ops_predecessors@.dom().contains(op_hash), {W.format('Some(op_hash)', 'part')}, part_of(it2.seq(), it2.index@ as int, part), {SUCC}, it2.index@ == it2.seq().len() ==> covers(*self, op_hash, part)",
         "let ghost q1 = frontier@; let ghost s1 = seen@; let ghost e1 = dependencies.deps@; let ghost j = it2.index@ as int; proof { assert(preds@.contains(*it2.seq()[j])); assert(pred(*self, op_hash, *update_pred)); }",
         "proof { look(*self, heads@, s1, seen@, q1, frontier@, done, e1, dependencies.deps@, op_hash, it2.seq(), j, part, *update_pred); part = part.insert(*update_pred); }"),
        ("for", "it3", f"invariant {G_INV}, walked(*self, heads@, seen@, dependencies.deps@), dependencies.deps@.dom() =~= Set::<N>::empty(), lists(heads@, it3.seq()), v@.len() == it3.index@, forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == self.cgka_ops@[*it3.seq()[i]], it3.index@ == it3.seq().len() ==> v@.len() > 0 && exists|o: Seq<N>| #[trigger] history(*self, heads@, o) && listing(*self, v@, o)",
         "proof { assert(heads@.contains(*it3.seq()[it3.index@ as int])); }", "proof { heads_only(*self, heads@, seen@, dependencies.deps@, it3.seq(), v@, it3.index@ as int + 1); }"),
        ("for", "it4", f"invariant {G_INV}, walked(*self, heads@, seen@, e0), op_hashes@.len() == 0, out.len() == 0, {SUCC}, lists(heads@, it4.seq()), added(e0, dependencies.deps@, it4.seq(), it4.index@ as int), it4.index@ == it4.seq().len() ==> full(*self, heads@, dependencies.deps@)",
         "let ghost e1 = dependencies.deps@;", "proof { add_step(*self, heads@, seen@, e0, e1, dependencies.deps@, it4.seq(), it4.index@ as int); }"),
        ("while", None, f"invariant {EPB}, twf(dependencies), out.len() + 1 > 0, drained(d0, dependencies.deps@, out), ordered(d0, out), handed(*self, op_hashes@, next_epoch@, out) decreases dependencies.deps@.dom().len()",
         "let ghost e1 = dependencies.deps@; let ghost h1 = op_hashes@; let ghost x1 = next_epoch@;", "proof { assert(next_set@.take(next_set@.len() as int) =~= next_set@); drain_step(d0, e1, dependencies.deps@, out, r1, next_set@); out = out + next_set@; }"),
        ("for", "it5", f"invariant {IN_EP}", "", ""),
        ("for", "it6", f"invariant {IN_EP}", "", ""),
        ("for", "it7", f"invariant {IN_EP}, forall|i: int| 0 <= i < it7.seq().len() ==> d0.dom().contains(#[trigger] it7.seq()[i])", "", ""),
        ("for", "it8", f"invariant {IN_EP}, lists(epoch_heads@, it8.seq()), forall|x: N| #[trigger] kept@.contains(x) ==> d0.dom().contains(x)", "proof { assert(epoch_heads@.contains(*it8.seq()[it8.index@ as int])); }", ""),
        ("for", "it9", f"invariant {IN_EP}, it9.seq() == next_set@, handed(*self, op_hashes@, next_epoch@, out + next_set@.take(it9.index@ as int))", "let ghost x0 = next_epoch@; proof { assert(d0.dom().contains(next_set@[it9.index@ as int])); }",
         "proof { hand_out(*self, op_hashes@, x0, next_epoch@, out, next_set@, it9.index@ as int); }"),
    ],
    hints=[])
SORT_EXT = "\n".join("impl Topsort { #[verifier::external_body] " + x + " { unimplemented!() } }" for x in list(SPECS.values()) + [POP_SPEC("pop_all")])
pred_for = Fn(OG, "CgkaOperationGraph", "predecessors_for", "pub fn predecessors_for(&self, op_hash: &N) -> (r: Option<&HashSet<N>>) ensures r is Some == self.cgka_ops_predecessors@.dom().contains(*op_hash), r is Some ==> *(r->0) == self.cgka_ops_predecessors@[*op_hash]", ["self", "op_hash"], wrap="impl CgkaOperationGraph")
whole_fn = Fn(OG, "CgkaOperationGraph", "topsort_graph", "pub fn topsort_graph(&self) -> (r: Result<NonEmpty<CgkaEpoch>, CgkaError>) requires gwf(*self), self.cgka_op_heads@.len() > 0, forall|h: N| self.cgka_op_heads@.contains(h) ==> #[trigger] self.cgka_ops@.dom().contains(h) ensures r is Ok, is_history(*self, self.cgka_op_heads@, r->Ok_0@)", ["self"], wrap="impl CgkaOperationGraph")
epochs = Unit("epochs", PRE + TS + DRAIN + GRAPH + SORT_EXT + WALK, [pred_for, epochs_fn, whole_fn])
