"""P16: causal decryption."""
from vp.verus import Fn, Unit
from . import core, stores

CP = "keyhive_core/src/store/ciphertext.rs"
PRE = core.std("ax_cr::key_model") + core.hashkey("Cr") + core.opaque("Key") + core.opaque("T") + r"""
pub trait Dupe: Sized { fn dupe(&self) -> (r: Self) ensures r == *self; }
impl<T> Dupe for Arc<T> { #[verifier::external_body] fn dupe(&self) -> (r: Self) { unimplemented!() } }
#[verifier::external_body] pub struct AeadErr { x: u64 }
#[verifier::external_body] pub struct BincodeErr { x: u64 }
#[verifier::external_body] pub struct GetErr { x: u64 }
#[verifier::external_body] pub struct MarkErr { x: u64 }
pub struct EncryptedContent { pub content_ref: Cr, pub rest: u64 }
pub type E = Arc<EncryptedContent>;
pub type Job = (E, Key);
pub struct Envelope { pub plaintext: T, pub ancestors: HashMap<Cr, Key> }
/// the bytes a ciphertext opens to under a key (P15), and what the bytes say
pub uninterp spec fn opened(e: EncryptedContent, k: Key) -> Option<Seq<u8>>;
pub uninterp spec fn parsed(b: Seq<u8>) -> Option<Envelope>;
pub open spec fn env_of(j: Job) -> Option<Envelope> { match opened(*j.0, j.1) { Some(b) => parsed(b), None => None } }
impl EncryptedContent { #[verifier::external_body] pub fn try_decrypt(&self, key: Key) -> (r: Result<Vec<u8>, AeadErr>)
    ensures r is Ok == opened(*self, key) is Some, r is Ok ==> r->Ok_0@ == opened(*self, key)->0 { unimplemented!() } }
#[verifier::external_body] pub fn bincode_deserialize(b: &Vec<u8>) -> (r: Result<Envelope, BincodeErr>)
    ensures r is Ok == parsed(b@) is Some, r is Ok ==> r->Ok_0 == parsed(b@)->0 { unimplemented!() }
pub struct CausalDecryptionState { pub complete: Vec<(Cr, T)>, pub keys: HashMap<Cr, Key>, pub next: HashMap<Cr, Key> }
pub enum ErrorReason { DecryptionFailed(Key), DeserializationFailed(BincodeErr), GetCiphertextError(GetErr), MarkDecryptedError(MarkErr) }
pub struct CausalDecryptionError { pub cannot: HashMap<Cr, ErrorReason>, pub progress: CausalDecryptionState }
/// the store as seen through its trait
#[verifier::external_body] pub struct Store { x: u64 }
pub enum Ans { Fails, Missing, Has(E) }
impl Store {
    pub uninterp spec fn answer(&self, id: Cr) -> Ans;
    /// finitely many references are stored
    pub uninterp spec fn refs(&self) -> Set<Cr>;
    #[verifier::external_body] pub fn get_ciphertext(&self, id: &Cr) -> (r: Result<Option<E>, GetErr>)
        ensures match self.answer(*id) { Ans::Fails => r is Err, Ans::Missing => r == Ok::<Option<E>, GetErr>(None), Ans::Has(e) => r == Ok::<Option<E>, GetErr>(Some(e)) && cref(e) == *id && self.refs().contains(*id) } { unimplemented!() }
    #[verifier::external_body] pub fn mark_decrypted(&self, id: &Cr) -> (r: Result<(), MarkErr>) { unimplemented!() }
}
pub open spec fn cref(e: E) -> Cr { e.content_ref }
pub open spec fn pt(en: Envelope) -> T { en.plaintext }
/// std: iterating a map
#[verifier::external_body] pub fn map_list<'a, K, V>(m: &'a HashMap<K, V>) -> (r: Vec<(&'a K, &'a V)>)
    ensures r@.no_duplicates(), forall|k: K| #[trigger] m@.dom().contains(k) <==> exists|i: int| 0 <= i < r@.len() && *(#[trigger] r@[i]).0 == k, forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains(*(#[trigger] r@[i]).0) && *r@[i].1 == m@[*r@[i].0] { unimplemented!() }
#[verifier::external_body] pub fn map_is_empty<V>(m: &HashMap<Cr, V>) -> (r: bool) ensures r == (m@.dom() =~= Set::<Cr>::empty()) { unimplemented!() }

/// `j` names ancestor `a` with key `k`
pub open spec fn names(j: Job, a: Cr, k: Key) -> bool { env_of(j) is Some && env_of(j)->0.ancestors@.dom().contains(a) && env_of(j)->0.ancestors@[a] == k }
/// a set of ciphertext/key pairs closed under "opens, and names an ancestor that the store has"
pub open spec fn closed(st: Store, init: Seq<Job>, x: ISet<Job>) -> bool {
    &&& forall|i: int| 0 <= i < init.len() ==> x.contains(#[trigger] init[i])
    &&& forall|j: Job, a: Cr, k: Key, e: E| x.contains(j) && #[trigger] names(j, a, k) && st.answer(a) == Ans::Has(e) ==> #[trigger] x.contains((e, k))
}
/// reachable from the given entries through opened envelopes, with the key the descendant carries
pub open spec fn reach(st: Store, init: Seq<Job>, j: Job) -> bool { forall|x: ISet<Job>| #[trigger] closed(st, init, x) ==> x.contains(j) }
pub open spec fn is_done(done: Seq<Job>, a: Cr) -> bool { exists|i: int| 0 <= i < done.len() && cref((#[trigger] done[i]).0) == a }
/// a pair that was offered has been dealt with: its content is decrypted, or it is waiting, or it does not open and that is reported
pub open spec fn handled(j: Job, done: Seq<Job>, stack: Seq<Job>, cannot: Set<Cr>) -> bool { is_done(done, cref(j.0)) || stack.contains(j) || (env_of(j) is None && cannot.contains(cref(j.0))) }
pub open spec fn settled(st: Store, a: Cr, k: Key, done: Seq<Job>, stack: Seq<Job>, cannot: Set<Cr>, next: Set<Cr>) -> bool {
    match st.answer(a) { Ans::Fails => cannot.contains(a) || is_done(done, a), Ans::Missing => next.contains(a), Ans::Has(e) => handled((e, k), done, stack, cannot) }
}
/// what is reported so far: each decrypted content once, with its own key and plaintext
pub open spec fn reports(p: CausalDecryptionState, done: Seq<Job>) -> bool {
    &&& listed_out(p.complete@, done)
    &&& once(done) && keyed(p.keys@, done)
}
pub open spec fn listed_out(c: Seq<(Cr, T)>, done: Seq<Job>) -> bool { c.len() == done.len() && forall|i: int| 0 <= i < done.len() ==> (#[trigger] c[i]).0 == cref(done[i].0) && c[i].1 == pt(env_of(done[i])->0) }
pub open spec fn once(done: Seq<Job>) -> bool {
    &&& forall|i: int| 0 <= i < done.len() ==> env_of(#[trigger] done[i]) is Some
    &&& forall|i: int, k: int| 0 <= i < done.len() && 0 <= k < done.len() && cref((#[trigger] done[i]).0) == cref((#[trigger] done[k]).0) ==> i == k
}
pub open spec fn keyed(keys: Map<Cr, Key>, done: Seq<Job>) -> bool {
    &&& forall|a: Cr| #[trigger] keys.dom().contains(a) <==> is_done(done, a)
    &&& forall|i: int| 0 <= i < done.len() ==> keys[cref((#[trigger] done[i]).0)] == done[i].1
}
pub open spec fn all_reach(st: Store, init: Seq<Job>, s: Seq<Job>) -> bool { forall|i: int| 0 <= i < s.len() ==> reach(st, init, #[trigger] s[i]) }
/// missing ancestors are reported with the key a decrypted descendant carries for them
pub open spec fn next_ok(st: Store, done: Seq<Job>, next: Map<Cr, Key>) -> bool { forall|a: Cr| #[trigger] next.dom().contains(a) ==> st.answer(a) == Ans::Missing && exists|i: int| 0 <= i < done.len() && names(#[trigger] done[i], a, next[a]) }
pub open spec fn complete_upto(st: Store, init: Seq<Job>, done: Seq<Job>, n: int, stack: Seq<Job>, cannot: Set<Cr>, next: Set<Cr>) -> bool {
    &&& forall|i: int| 0 <= i < init.len() ==> handled(#[trigger] init[i], done, stack, cannot)
    &&& forall|i: int, a: Cr, k: Key| 0 <= i < n && #[trigger] names(done[i], a, k) ==> settled(st, a, k, done, stack, cannot, next)
}
pub open spec fn result_ok(st: Store, init: Seq<Job>, done: Seq<Job>, p: CausalDecryptionState, cannot: Set<Cr>) -> bool {
    reports(p, done) && all_reach(st, init, done) && next_ok(st, done, p.next@) && complete_upto(st, init, done, done.len() as int, Seq::<Job>::empty(), cannot, p.next@.dom())
}
pub proof fn reach_next(st: Store, init: Seq<Job>, j: Job, a: Cr, e: E)
    requires reach(st, init, j), env_of(j) is Some, env_of(j)->0.ancestors@.dom().contains(a), st.answer(a) == Ans::Has(e) ensures reach(st, init, (e, env_of(j)->0.ancestors@[a]))
{ let k = env_of(j)->0.ancestors@[a]; assert(names(j, a, k)); assert forall|x: ISet<Job>| #[trigger] closed(st, init, x) implies x.contains((e, k)) by { assert(x.contains(j)); } }
pub proof fn mono(st: Store, init: Seq<Job>, d0: Seq<Job>, d1: Seq<Job>, n: int, s0: Seq<Job>, s1: Seq<Job>, c0: Set<Cr>, c1: Set<Cr>, n0: Set<Cr>, n1: Set<Cr>)
    requires complete_upto(st, init, d0, n, s0, c0, n0), n <= d0.len() <= d1.len(), forall|i: int| 0 <= i < d0.len() ==> d0[i] == #[trigger] d1[i], n0.subset_of(n1),
        forall|j: Job| #[trigger] s0.contains(j) ==> s1.contains(j) || is_done(d1, cref(j.0)) || (env_of(j) is None && c1.contains(cref(j.0))),
        forall|a: Cr| #[trigger] c0.contains(a) ==> c1.contains(a) || is_done(d1, a)
    ensures complete_upto(st, init, d1, n, s1, c1, n1)
{
    assert forall|a: Cr| #[trigger] is_done(d0, a) implies is_done(d1, a) by { let i = choose|i: int| 0 <= i < d0.len() && cref((#[trigger] d0[i]).0) == a; assert(cref(d1[i].0) == a); }
    assert forall|i: int| 0 <= i < init.len() implies handled(#[trigger] init[i], d1, s1, c1) by { assert(handled(init[i], d0, s0, c0)); }
    assert forall|i: int, a: Cr, k: Key| 0 <= i < n && #[trigger] names(d1[i], a, k) implies settled(st, a, k, d1, s1, c1, n1) by { assert(d0[i] == d1[i]); assert(names(d0[i], a, k)); assert(settled(st, a, k, d0, s0, c0, n0)); }
}
"""
INV = """invariant init == old(to_decrypt)@, st == *self, universe == self.refs().union(init_refs(init)),
        reports(progress, done), forall|a: Cr| #[trigger] seen@.contains(a) <==> is_done(done, a), all_reach(st, init, done), all_reach(st, init, to_decrypt@), next_ok(st, done, progress.next@),
        in_universe(universe, done), in_universe(universe, to_decrypt@),
        complete_upto(st, init, done, done.len() as int, to_decrypt@, cannot@.dom(), progress.next@.dom())
      ensures to_decrypt@.len() == 0
      decreases universe.difference(seen@).len(), to_decrypt@.len()"""
FOR = """invariant init == old(to_decrypt)@, st == *self, universe == self.refs().union(init_refs(init)), env_of(job) == Some(envelope), done == done0.push(job), seen@ == seen0.insert(cref(job.0)),
        same_list(it.seq(), listed), map_listed(envelope.ancestors@, listed), reach(st, init, job), all_reach(st, init, to_decrypt@), in_universe(universe, to_decrypt@), next_ok(st, done, progress.next@),
        keyed(progress.keys@, done), once(done), progress.complete@ == complete0, listed_out(complete0, done0),
        complete_upto(st, init, done, done0.len() as int, to_decrypt@, cannot@.dom(), progress.next@.dom()),
        some_settled(st, listed, it.index@ as int, done, to_decrypt@, cannot@.dom(), progress.next@.dom())"""
causal_fn = Fn(CP, "CiphertextStoreExt for S", "try_causal_decrypt", """fn try_causal_decrypt(&self, to_decrypt: &mut Vec<Job>) -> (r: Result<CausalDecryptionState, CausalDecryptionError>)
    ensures match r { Ok(p) => all_found(*self, old(to_decrypt)@, p), Err(x) => part_found(*self, old(to_decrypt)@, x) }""",
    ["self", "to_decrypt"],
    [("Err(CausalDecryptionError { $x })", "({ let failure = CausalDecryptionError { $x }; proof { assert(result_ok(*self, old(to_decrypt)@, done, failure.progress, cannot_end)); assert(cannot_end.subset_of(failure.cannot@.dom())); assert(part_found(*self, old(to_decrypt)@, failure)); } Err(failure) })", "must"), ("to_decrypt.pop()", "pop_job(to_decrypt)", "must"), ("cannot.is_empty()", "({ proof { if cannot@.dom() =~= Set::<Cr>::empty() { assert(cannot_end =~= Set::<Cr>::empty()); assert(result_ok(*self, old(to_decrypt)@, done, progress, Set::empty())); assert(all_found(*self, old(to_decrypt)@, progress)); } else { assert(exists|a: Cr| cannot@.dom().contains(a)); assert(result_ok(*self, old(to_decrypt)@, done, progress, cannot_end)); } } map_is_empty(&cannot) })", "must"), ("ErrorReason<F, Cr, T, Self>", "ErrorReason"), ("Result<Envelope<Cr, T>, _>", "Result<Envelope, BincodeErr>"), ("bincode::deserialize($x.as_slice())", "bincode_deserialize(&$x)", "must"),
     ("envelope.ancestors.iter()", "({ let l = map_list(&envelope.ancestors); proof { listed = plain(l@); list_plain(envelope.ancestors@, l@); } l })", "must"), ("for $$i in progress.complete.iter().map(|($$x, _)| $$y) {", "let ghost cannot_end = cannot@.dom(); proof { assert(to_decrypt@ =~= Seq::<Job>::empty()); assert(result_ok(*self, init, done, progress, cannot_end)); } let ghost end = progress; for pair in progress.complete.iter() { let $$i = &pair.0;", "must")],
    loops=[("while", None, INV, """let ghost job = (ciphertext, key); let ghost done0 = done; let ghost seen0 = seen@; let ghost cannot0 = cannot@.dom(); let ghost complete0 = progress.complete@; let ghost keys0 = progress.keys@; let ghost next0 = progress.next@; let ghost stack0 = to_decrypt@.push(job); let ghost stack1 = to_decrypt@; let ghost ref0 = cref(ciphertext);
        proof { popped(st, init, done, to_decrypt@, job, universe); assert(universe.contains(ref0)); if seen0.contains(ref0) { assert(seen0.insert(ref0) =~= seen0); } if !seen0.contains(ref0) { shrink(universe, seen0, ref0); } dropped(st, init, done, job, stack1, cannot0, next0.dom()); }"""),
           ("for", "it", FOR, "let ghost s0 = to_decrypt@; let ghost c0 = cannot@.dom(); let ghost n0 = progress.next@; let ghost k = it.index@ as int; proof { assert(it.seq()[k] == (ancestor_ref, ancestor_key)); assert(listed[k] == (*ancestor_ref, *ancestor_key)); }",
            "proof { ancestor_step(st, init, universe, job, envelope, *ancestor_ref, *ancestor_key, done, done0.len() as int, s0, to_decrypt@, c0, cannot@.dom(), n0, progress.next@); some_step(st, listed, k, done, s0, to_decrypt@, c0, cannot@.dom(), n0.dom(), progress.next@.dom()); }"),
           ("for", None, "invariant cannot_end.subset_of(cannot@.dom()), end == progress, result_ok(*self, old(to_decrypt)@, done, end, cannot_end)")],
    pre="let ghost init = to_decrypt@; let ghost st = *self; let ghost mut done: Seq<Job> = seq![]; let ghost mut listed: Seq<(Cr, Key)> = seq![]; let ghost universe = self.refs().union(init_refs(init)); proof { start(st, init); }",
    hints=[("progress.keys.insert(content_ref.clone(), key);\ncannot.remove(&content_ref);", "proof { done = done.push(job); opened_step(st, init, done0, done, job, keys0, progress.keys@, stack0, stack1, cannot0, cannot@.dom(), next0); }"),
           ("progress.complete.push($x);", "proof { all_done(st, init, listed, envelope, done0, done, job, to_decrypt@, cannot@.dom(), progress.next@.dom()); all_in(st, init, universe, done0, done, job); }")], block=("body", "F::from_future(async move {"), wrap="impl Store")
EXTRA = r"""
pub open spec fn init_refs(init: Seq<Job>) -> Set<Cr> { init.map_values(|j: Job| cref(j.0)).to_set() }
pub open spec fn in_universe(u: Set<Cr>, s: Seq<Job>) -> bool { forall|i: int| 0 <= i < s.len() ==> u.contains(cref((#[trigger] s[i]).0)) }
pub fn pop_job(v: &mut Vec<Job>) -> (r: Option<Job>)
    ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> r is Some && final(v)@.push(r->0) == old(v)@
{ let ghost s = v@; let r = v.pop(); proof { if s.len() > 0 { assert(v@.push(r->0) =~= s); } } r }
/// everything reachable has been decrypted, or is reported missing
pub open spec fn all_found(st: Store, init: Seq<Job>, p: CausalDecryptionState) -> bool { exists|done: Seq<Job>| #[trigger] result_ok(st, init, done, p, Set::empty()) }
/// some failure is reported, and everything reachable has been decrypted, or is reported missing or failed
pub open spec fn part_found(st: Store, init: Seq<Job>, x: CausalDecryptionError) -> bool { (exists|a: Cr| x.cannot@.dom().contains(a)) && exists|done: Seq<Job>, c: Set<Cr>| #[trigger] result_ok(st, init, done, x.progress, c) && c.subset_of(x.cannot@.dom()) }
pub open spec fn plain(s: Seq<(&Cr, &Key)>) -> Seq<(Cr, Key)> { s.map_values(|p: (&Cr, &Key)| (*p.0, *p.1)) }
pub open spec fn same_list(s: Seq<(&Cr, &Key)>, l: Seq<(Cr, Key)>) -> bool { s.len() == l.len() && forall|i: int| 0 <= i < s.len() ==> (*(#[trigger] s[i]).0, *s[i].1) == l[i] }
pub open spec fn map_listed(m: Map<Cr, Key>, s: Seq<(Cr, Key)>) -> bool {
    &&& forall|k: Cr| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && s[i].1 == m[s[i].0]
}
pub proof fn list_plain(m: Map<Cr, Key>, s: Seq<(&Cr, &Key)>)
    requires forall|k: Cr| #[trigger] m.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k, forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && *s[i].1 == m[*s[i].0]
    ensures map_listed(m, plain(s)), same_list(s, plain(s))
{
    let l = plain(s);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] l[i] == (*s[i].0, *s[i].1) by {}
    assert forall|k: Cr| #[trigger] m.dom().contains(k) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k by { let i = choose|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == k; assert(l[i].0 == k); }
}
pub open spec fn some_settled(st: Store, s: Seq<(Cr, Key)>, n: int, done: Seq<Job>, stack: Seq<Job>, cannot: Set<Cr>, next: Set<Cr>) -> bool { forall|i: int| 0 <= i < n ==> settled(st, (#[trigger] s[i]).0, s[i].1, done, stack, cannot, next) }
pub proof fn push_done(d: Seq<Job>, j: Job) ensures forall|a: Cr| #[trigger] is_done(d.push(j), a) <==> is_done(d, a) || a == cref(j.0)
{
    assert forall|a: Cr| #[trigger] is_done(d.push(j), a) <==> is_done(d, a) || a == cref(j.0) by {
        if is_done(d, a) { let i = choose|i: int| 0 <= i < d.len() && cref((#[trigger] d[i]).0) == a; assert(d.push(j)[i] == d[i]); }
        assert(d.push(j)[d.len() as int] == j);
        if is_done(d.push(j), a) { let i = choose|i: int| 0 <= i < d.push(j).len() && cref((#[trigger] d.push(j)[i]).0) == a; if i < d.len() { assert(d[i] == d.push(j)[i]); } }
    }
}
/// taking a pair off the stack that is decrypted already, or that does not open and is reported, loses nothing
pub proof fn dropped(st: Store, init: Seq<Job>, done: Seq<Job>, job: Job, rest: Seq<Job>, c0: Set<Cr>, n: Set<Cr>)
    requires complete_upto(st, init, done, done.len() as int, rest.push(job), c0, n)
    ensures is_done(done, cref(job.0)) ==> complete_upto(st, init, done, done.len() as int, rest, c0, n), env_of(job) is None ==> complete_upto(st, init, done, done.len() as int, rest, c0.insert(cref(job.0)), n)
{
    pushed_in(rest, job);
    if is_done(done, cref(job.0)) { mono(st, init, done, done, done.len() as int, rest.push(job), rest, c0, c0, n, n); }
    if env_of(job) is None { mono(st, init, done, done, done.len() as int, rest.push(job), rest, c0, c0.insert(cref(job.0)), n, n); }
}
pub proof fn pushed_in(s: Seq<Job>, job: Job) ensures forall|j: Job| #[trigger] s.push(job).contains(j) ==> s.contains(j) || j == job, forall|j: Job| #[trigger] s.contains(j) ==> s.push(job).contains(j), s.push(job).contains(job)
{
    assert(s.push(job)[s.len() as int] == job);
    assert forall|j: Job| #[trigger] s.contains(j) implies s.push(job).contains(j) by { let i = choose|i: int| 0 <= i < s.len() && s[i] == j; assert(s.push(job)[i] == j); }
    assert forall|j: Job| #[trigger] s.push(job).contains(j) implies s.contains(j) || j == job by { let i = choose|i: int| 0 <= i < s.push(job).len() && s.push(job)[i] == j; if i < s.len() { assert(s[i] == j); } }
}
pub proof fn opened_step(st: Store, init: Seq<Job>, done0: Seq<Job>, done: Seq<Job>, job: Job, keys0: Map<Cr, Key>, keys1: Map<Cr, Key>, stack0: Seq<Job>, stack1: Seq<Job>, c0: Set<Cr>, c1: Set<Cr>, next0: Map<Cr, Key>)
    requires once(done0), keyed(keys0, done0), !is_done(done0, cref(job.0)), env_of(job) is Some, done == done0.push(job), keys1 == keys0.insert(cref(job.0), job.1), c1 =~= c0.remove(cref(job.0)), stack0 == stack1.push(job),
        complete_upto(st, init, done0, done0.len() as int, stack0, c0, next0.dom()), next_ok(st, done0, next0)
    ensures once(done), keyed(keys1, done), next_ok(st, done, next0), complete_upto(st, init, done, done0.len() as int, stack1, c1, next0.dom())
{
    push_done(done0, job); pushed_in(stack1, job);
    assert forall|i: int| 0 <= i < done0.len() implies done0[i] == #[trigger] done[i] by {}
    assert(done[done0.len() as int] == job);
    assert forall|i: int| 0 <= i < done0.len() implies cref((#[trigger] done0[i]).0) != cref(job.0) by { if cref(done0[i].0) == cref(job.0) { assert(is_done(done0, cref(job.0))); } }
    assert forall|i: int, k: int| 0 <= i < done.len() && 0 <= k < done.len() && cref((#[trigger] done[i]).0) == cref((#[trigger] done[k]).0) implies i == k by {
        if i < done0.len() { assert(done0[i] == done[i]); } if k < done0.len() { assert(done0[k] == done[k]); }
    }
    assert forall|i: int| 0 <= i < done.len() implies env_of(#[trigger] done[i]) is Some by { if i < done0.len() { assert(env_of(done0[i]) is Some); } }
    assert forall|i: int| 0 <= i < done.len() implies keys1[cref((#[trigger] done[i]).0)] == done[i].1 by { if i < done0.len() { assert(keys0[cref(done0[i].0)] == done0[i].1); } }
    assert forall|a: Cr| #[trigger] next0.dom().contains(a) implies st.answer(a) == Ans::Missing && exists|i: int| 0 <= i < done.len() && names(#[trigger] done[i], a, next0[a]) by {
        let i = choose|i: int| 0 <= i < done0.len() && names(#[trigger] done0[i], a, next0[a]); assert(done[i] == done0[i]);
    }
    mono(st, init, done0, done, done0.len() as int, stack0, stack1, c0, c1, next0.dom(), next0.dom());
}
pub proof fn ancestor_step(st: Store, init: Seq<Job>, u: Set<Cr>, job: Job, env: Envelope, a: Cr, k: Key, done: Seq<Job>, n: int, s0: Seq<Job>, s1: Seq<Job>, c0: Set<Cr>, c1: Set<Cr>, n0: Map<Cr, Key>, n1: Map<Cr, Key>)
    requires env_of(job) == Some(env), env.ancestors@.dom().contains(a), env.ancestors@[a] == k, reach(st, init, job), n < done.len(), done[n] == job, 0 <= n, st.refs().subset_of(u),
        all_reach(st, init, s0), in_universe(u, s0), next_ok(st, done, n0), complete_upto(st, init, done, n, s0, c0, n0.dom()),
        match st.answer(a) { Ans::Fails => s1 == s0 && c1 == c0.insert(a) && n1 == n0, Ans::Missing => s1 == s0 && c1 == c0 && n1 == n0.insert(a, k), Ans::Has(e) => s1 == s0.push((e, k)) && c1 == c0 && n1 == n0 && st.refs().contains(cref(e)) }
    ensures all_reach(st, init, s1), in_universe(u, s1), next_ok(st, done, n1), complete_upto(st, init, done, n, s1, c1, n1.dom()), settled(st, a, k, done, s1, c1, n1.dom()), n0.dom().subset_of(n1.dom()), forall|j: Job| #[trigger] s0.contains(j) ==> s1.contains(j), c0.subset_of(c1)
{
    if let Ans::Has(e) = st.answer(a) {
        reach_next(st, init, job, a, e); pushed_in(s0, (e, k));
        assert forall|i: int| 0 <= i < s1.len() implies reach(st, init, #[trigger] s1[i]) && u.contains(cref(s1[i].0)) by { if i < s0.len() { assert(s1[i] == s0[i]); } }
    }
    assert(names(job, a, k));
    assert forall|b: Cr| #[trigger] n1.dom().contains(b) implies st.answer(b) == Ans::Missing && exists|i: int| 0 <= i < done.len() && names(#[trigger] done[i], b, n1[b]) by { if b == a && st.answer(a) == Ans::Missing { assert(names(done[n], a, n1[b])); } else { assert(n0.dom().contains(b)); assert(n1[b] == n0[b]); } }
    mono(st, init, done, done, n, s0, s1, c0, c1, n0.dom(), n1.dom());
}
pub proof fn some_step(st: Store, s: Seq<(Cr, Key)>, k: int, done: Seq<Job>, s0: Seq<Job>, s1: Seq<Job>, c0: Set<Cr>, c1: Set<Cr>, n0: Set<Cr>, n1: Set<Cr>)
    requires some_settled(st, s, k, done, s0, c0, n0), 0 <= k < s.len(), settled(st, s[k].0, s[k].1, done, s1, c1, n1), forall|j: Job| #[trigger] s0.contains(j) ==> s1.contains(j), c0.subset_of(c1), n0.subset_of(n1)
    ensures some_settled(st, s, k + 1, done, s1, c1, n1)
{ assert forall|i: int| 0 <= i < k + 1 implies settled(st, (#[trigger] s[i]).0, s[i].1, done, s1, c1, n1) by { if i < k { assert(settled(st, s[i].0, s[i].1, done, s0, c0, n0)); } } }
pub proof fn all_done(st: Store, init: Seq<Job>, l: Seq<(Cr, Key)>, env: Envelope, d0: Seq<Job>, d: Seq<Job>, job: Job, s: Seq<Job>, c: Set<Cr>, n: Set<Cr>)
    requires complete_upto(st, init, d, d0.len() as int, s, c, n), d == d0.push(job), env_of(job) == Some(env), map_listed(env.ancestors@, l), some_settled(st, l, l.len() as int, d, s, c, n)
    ensures complete_upto(st, init, d, d.len() as int, s, c, n)
{
    assert forall|i: int, a: Cr, k: Key| 0 <= i < d.len() && #[trigger] names(d[i], a, k) implies settled(st, a, k, d, s, c, n) by {
        if i == d0.len() { let x = choose|x: int| 0 <= x < l.len() && (#[trigger] l[x]).0 == a; assert(settled(st, l[x].0, l[x].1, d, s, c, n)); }
    }
}
pub proof fn all_in(st: Store, init: Seq<Job>, u: Set<Cr>, d0: Seq<Job>, d: Seq<Job>, job: Job)
    requires all_reach(st, init, d0), in_universe(u, d0), reach(st, init, job), u.contains(cref(job.0)), d == d0.push(job) ensures all_reach(st, init, d), in_universe(u, d), forall|a: Cr| #[trigger] is_done(d, a) <==> is_done(d0, a) || a == cref(job.0)
{ push_done(d0, job); assert forall|i: int| 0 <= i < d.len() implies reach(st, init, #[trigger] d[i]) && u.contains(cref(d[i].0)) by { if i < d0.len() { assert(d[i] == d0[i]); } } }
pub proof fn start(st: Store, init: Seq<Job>) ensures all_reach(st, init, init), in_universe(st.refs().union(init_refs(init)), init), once(Seq::<Job>::empty()), keyed(Map::<Cr, Key>::empty(), Seq::<Job>::empty()),
    forall|c: Set<Cr>, n: Set<Cr>| complete_upto(st, init, Seq::<Job>::empty(), 0, init, c, n)
{
    assert forall|i: int| 0 <= i < init.len() implies st.refs().union(init_refs(init)).contains(cref((#[trigger] init[i]).0)) by { let v = init.map_values(|j: Job| cref(j.0)); assert(v[i] == cref(init[i].0)); assert(v.contains(cref(init[i].0))); }
}
pub proof fn shrink(u: Set<Cr>, s: Set<Cr>, a: Cr) requires u.contains(a), !s.contains(a) ensures u.difference(s.insert(a)).len() < u.difference(s).len(), s.insert(a).remove(a) =~= s
{ assert(u.difference(s.insert(a)) =~= u.difference(s).remove(a)); }
pub proof fn popped(st: Store, init: Seq<Job>, done: Seq<Job>, rest: Seq<Job>, job: Job, u: Set<Cr>)
    requires all_reach(st, init, rest.push(job)), in_universe(u, rest.push(job)) ensures all_reach(st, init, rest), in_universe(u, rest), reach(st, init, job), u.contains(cref(job.0))
{ let s = rest.push(job); assert(s[rest.len() as int] == job); assert forall|i: int| 0 <= i < rest.len() implies reach(st, init, #[trigger] rest[i]) && u.contains(cref(rest[i].0)) by { assert(s[i] == rest[i]); } }
"""
causal = Unit("causal", PRE + EXTRA, [
    Fn(CP, "CausalDecryptionState", "new", "fn new() -> (r: Self) ensures r.complete@.len() == 0, r.keys@ == Map::<Cr, Key>::empty(), r.next@ == Map::<Cr, Key>::empty()", [], wrap="impl CausalDecryptionState"),
    causal_fn])

# ---- the entry point on a document ----
DOCP = "keyhive_core/src/principal/document.rs"
DOC = r"""
#[verifier::external_body] pub struct DecryptError { x: u64 }
#[verifier::external_body] pub struct Document { x: u64 }
/// what the document's key agreement makes of the ciphertext (P15, P11)
pub uninterp spec fn doc_opens(d: Document, e: EncryptedContent) -> Option<Seq<u8>>;
impl Document { #[verifier::external_body] pub fn try_decrypt_content(&mut self, e: &EncryptedContent) -> (r: Result<Vec<u8>, DecryptError>)
    ensures r is Ok == doc_opens(*old(self), *e) is Some, r is Ok ==> r->Ok_0@ == doc_opens(*old(self), *e)->0 { unimplemented!() } }
pub enum DocCausalDecryptionError { CausalDecryptionError(CausalDecryptionError), GetCiphertextError(GetErr), EntrypointDecryptError(DecryptError) }
macro_rules! conv { ($a:ty, $b:ty, $x:ident, $e:expr) => { verus!{ impl FromSpecImpl<$a> for $b { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec($x: $a) -> $b { $e } } impl From<$a> for $b { fn from($x: $a) -> (r: $b) ensures r == $e { $e } } } } }
conv!(CausalDecryptionError, DocCausalDecryptionError, e, DocCausalDecryptionError::CausalDecryptionError(e));
conv!(DecryptError, DocCausalDecryptionError, e, DocCausalDecryptionError::EntrypointDecryptError(e));
/// core: `?` converts the error with `From`
pub axiom fn q_c(a: CausalDecryptionError, b: DocCausalDecryptionError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == DocCausalDecryptionError::CausalDecryptionError(a);
pub axiom fn q_d(a: DecryptError, b: DocCausalDecryptionError) ensures vstd::std_specs::control_flow::spec_from(a, b) ==> b == DocCausalDecryptionError::EntrypointDecryptError(a);
pub open spec fn q_ok() -> bool { (forall|a: CausalDecryptionError, b: DocCausalDecryptionError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == DocCausalDecryptionError::CausalDecryptionError(a)) && (forall|a: DecryptError, b: DocCausalDecryptionError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) ==> b == DocCausalDecryptionError::EntrypointDecryptError(a)) }
pub proof fn q_all() ensures q_ok() {
  assert forall|a: CausalDecryptionError, b: DocCausalDecryptionError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == DocCausalDecryptionError::CausalDecryptionError(a) by { q_c(a, b); }
  assert forall|a: DecryptError, b: DocCausalDecryptionError| #[trigger] vstd::std_specs::control_flow::spec_from(a, b) implies b == DocCausalDecryptionError::EntrypointDecryptError(a) by { q_d(a, b); } }
impl Clone for CausalDecryptionState { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
/// std
#[verifier::external_body] pub fn map_err<A, X, Y, F: Fn(X) -> Y>(r: Result<A, X>, f: F) -> (o: Result<A, Y>) requires r is Err ==> call_requires(f, (r->Err_0,))
    ensures r is Ok ==> o == Ok::<A, Y>(r->Ok_0), r is Err ==> o is Err && call_ensures(f, (r->Err_0,), o->Err_0) { unimplemented!() }
#[verifier::external_body] pub fn single<K, V>(p: (K, V)) -> (r: HashMap<K, V>) ensures r@ == Map::<K, V>::empty().insert(p.0, p.1) { unimplemented!() }
#[verifier::external_body] pub fn extend_map(m: &mut HashMap<Cr, Key>, o: HashMap<Cr, Key>) ensures final(m)@ == old(m)@.union_prefer_right(o@) { unimplemented!() }
/// the ancestors the entry names: those stored are followed, with the key it carries for them
pub open spec fn followed(st: Store, env: Envelope, init: Seq<Job>) -> bool {
    &&& forall|a: Cr| env.ancestors@.dom().contains(a) && (#[trigger] st.answer(a)) is Has ==> init.contains((st.answer(a)->Has_0, env.ancestors@[a]))
    &&& forall|i: int| 0 <= i < init.len() ==> env.ancestors@.dom().contains(cref((#[trigger] init[i]).0)) && st.answer(cref(init[i].0)) == Ans::Has(init[i].0) && env.ancestors@[cref(init[i].0)] == init[i].1
}
/// and those not stored are reported with it
pub open spec fn lacking(st: Store, env: Envelope, m: Map<Cr, Key>) -> bool {
    &&& forall|a: Cr| #[trigger] m.dom().contains(a) <==> env.ancestors@.dom().contains(a) && st.answer(a) == Ans::Missing
    &&& forall|a: Cr| #[trigger] m.dom().contains(a) ==> m[a] == env.ancestors@[a] }
pub open spec fn with_next(p: CausalDecryptionState, q: CausalDecryptionState, m: Map<Cr, Key>) -> bool { q.complete == p.complete && q.keys == p.keys && q.next@ == p.next@.union_prefer_right(m) }
pub open spec fn entry_found(st: Store, env: Envelope, q: CausalDecryptionState) -> bool {
    exists|init: Seq<Job>, m: Map<Cr, Key>, p: CausalDecryptionState| #[trigger] followed(st, env, init) && #[trigger] lacking(st, env, m) && #[trigger] with_next(p, q, m) && all_found(st, init, p) }
pub open spec fn entry_part(st: Store, env: Envelope, x: CausalDecryptionError) -> bool {
    exists|init: Seq<Job>, m: Map<Cr, Key>, p: CausalDecryptionState, x0: CausalDecryptionError| #[trigger] followed(st, env, init) && #[trigger] lacking(st, env, m) && #[trigger] with_next(p, x.progress, m) && x0.progress == p && x0.cannot == x.cannot && #[trigger] part_found(st, init, x0) }
pub open spec fn nothing(p: CausalDecryptionState) -> bool { p.complete@.len() == 0 && p.keys@ == Map::<Cr, Key>::empty() && p.next@ == Map::<Cr, Key>::empty() }
/// the first k ancestors have been sorted out
pub open spec fn sorted_upto(st: Store, l: Seq<(Cr, Key)>, k: int, init: Seq<Job>, m: Map<Cr, Key>) -> bool {
    &&& forall|i: int| 0 <= i < k && st.answer((#[trigger] l[i]).0) is Has ==> init.contains((st.answer(l[i].0)->Has_0, l[i].1))
    &&& forall|i: int| 0 <= i < k && st.answer((#[trigger] l[i]).0) == Ans::Missing ==> m.dom().contains(l[i].0)
}
pub proof fn all_sorted(st: Store, env: Envelope, l: Seq<(Cr, Key)>, init: Seq<Job>, m: Map<Cr, Key>)
    requires map_listed(env.ancestors@, l), sorted_upto(st, l, l.len() as int, init, m),
        forall|i: int| 0 <= i < init.len() ==> env.ancestors@.dom().contains(cref((#[trigger] init[i]).0)) && st.answer(cref(init[i].0)) == Ans::Has(init[i].0) && env.ancestors@[cref(init[i].0)] == init[i].1,
        forall|a: Cr| #[trigger] m.dom().contains(a) ==> env.ancestors@.dom().contains(a) && st.answer(a) == Ans::Missing && m[a] == env.ancestors@[a]
    ensures followed(st, env, init), lacking(st, env, m)
{
    assert forall|a: Cr| env.ancestors@.dom().contains(a) && (#[trigger] st.answer(a)) is Has implies init.contains((st.answer(a)->Has_0, env.ancestors@[a])) by { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == a; assert(st.answer(l[i].0) is Has); }
    assert forall|a: Cr| #[trigger] m.dom().contains(a) <==> env.ancestors@.dom().contains(a) && st.answer(a) == Ans::Missing by { if env.ancestors@.dom().contains(a) && st.answer(a) == Ans::Missing { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == a; assert(st.answer(l[i].0) == Ans::Missing); } }
}
"""
doc_entry = Fn(DOCP, "Document", "try_causal_decrypt_content", """pub fn try_causal_decrypt_content(&mut self, encrypted_content: &EncryptedContent, store: Store) -> (r: Result<CausalDecryptionState, DocCausalDecryptionError>)
    ensures match r {
        Ok(q) => doc_opens(*old(self), *encrypted_content) is Some && parsed(doc_opens(*old(self), *encrypted_content)->0) is Some && entry_found(store, parsed(doc_opens(*old(self), *encrypted_content)->0)->0, q),
        Err(x) => match x {
            DocCausalDecryptionError::EntrypointDecryptError(_) => doc_opens(*old(self), *encrypted_content) is None,
            DocCausalDecryptionError::GetCiphertextError(_) => exists|a: Cr| #[trigger] store.answer(a) == Ans::Fails,
            DocCausalDecryptionError::CausalDecryptionError(y) => doc_opens(*old(self), *encrypted_content) is Some && (match parsed(doc_opens(*old(self), *encrypted_content)->0) {
                None => nothing(y.progress) && y.cannot@.dom() == set![encrypted_content.content_ref],
                Some(env) => entry_part(store, env, y) }) } }""",
    ["self", "encrypted_content", "store"], [
    ("let entrypoint_envelope: Envelope<T, Vec<u8>> =", "let entrypoint_envelope: Envelope ="),
    ("bincode::deserialize($a).map_err(|$$e| CausalDecryptionError::<F, T, P, C> { $x })?", "map_err(bincode_deserialize(&raw_entrypoint), |$$e: BincodeErr| -> (y: CausalDecryptionError) ensures nothing(y.progress), y.cannot@.dom() =~= set![encrypted_content.content_ref] { CausalDecryptionError { $x } })?", "must"),
    ("HashMap::from_iter([$x])", "single($x)"),
    ("let mut to_decrypt: $x = vec![];", "let mut to_decrypt: Vec<Job> = vec![]; let ghost env = entrypoint_envelope;", "must"),
    ("for ($$a, $$b) in entrypoint_envelope.ancestors.iter()", "let el = map_list(&entrypoint_envelope.ancestors); let ghost l = plain(el@); proof { list_plain(env.ancestors@, el@); } for ($$a, $$b) in el", "must"),
    ("store.get_ciphertext(digest).map_err(DocCausalDecryptionError::GetCiphertextError)?", "map_err(store.get_ciphertext(digest), |e: GetErr| -> (y: DocCausalDecryptionError) ensures y is GetCiphertextError { DocCausalDecryptionError::GetCiphertextError(e) })?", "must"),
    ("e.progress.next.extend(acc.next)", "extend_map(&mut e.progress.next, acc.next)"), ("progress.next.extend(acc.next)", "extend_map(&mut progress.next, acc.next)"),
    ("let mut result = $x;", "let ghost init = to_decrypt@; let ghost m = acc.next@; proof { all_sorted(store, env, l, init, m); } let mut result = $x; let ghost r0 = result;", "must"),
    ("Ok(result?)", "({ proof { match r0 { Ok(p) => { assert(with_next(p, result->Ok_0, m)); assert(entry_found(store, env, result->Ok_0)); }, Err(y) => { let z = result->Err_0; assert(with_next(y.progress, z.progress, m)); assert(part_found(store, init, y)); assert(entry_part(store, env, z)); } } } Ok(result?) })", "must"),
    ], wrap="impl Document", pre="proof { q_all(); }",
    loops=[("for", "it", """invariant q_ok(), same_list(it.seq(), l), map_listed(env.ancestors@, l), sorted_upto(store, l, it.index@ as int, to_decrypt@, acc.next@), acc.complete@.len() == 0, acc.keys@ == Map::<Cr, Key>::empty(),
        forall|i: int| 0 <= i < to_decrypt@.len() ==> env.ancestors@.dom().contains(cref((#[trigger] to_decrypt@[i]).0)) && store.answer(cref(to_decrypt@[i].0)) == Ans::Has(to_decrypt@[i].0) && env.ancestors@[cref(to_decrypt@[i].0)] == to_decrypt@[i].1,
        forall|a: Cr| #[trigger] acc.next@.dom().contains(a) ==> env.ancestors@.dom().contains(a) && store.answer(a) == Ans::Missing && acc.next@[a] == env.ancestors@[a]""",
        "let ghost k = it.index@ as int; let ghost s0 = to_decrypt@; proof { assert(it.seq()[k] == (digest, symm_key)); assert(l[k] == (*digest, *symm_key)); }",
        "proof { if to_decrypt@.len() > s0.len() { assert(to_decrypt@ =~= s0.push(to_decrypt@.last())); pushed_in(s0, to_decrypt@.last()); } }")])
entry = Unit("causal_entry", PRE + EXTRA + DOC, causal.fns + [doc_entry])
