"""P22: a transaction that fails leaves no trace; one that succeeds is merged into what is there by then."""
from vp.verus import Fn, Unit
from . import core, archive

TR = "keyhive_core/src/transact.rs"
FK = "keyhive_core/src/transact/fork.rs"
MG = "keyhive_core/src/transact/merge.rs"
KH = archive.KH

PRE = core.std() + r"""
pub trait Fork: Sized { type Forked;
    /// what a fork of this is
    spec fn forks(self, f: Self::Forked) -> bool;
    fn fork(&self) -> (r: Self::Forked) ensures self.forks(r); }
pub trait Merge: Fork {
    spec fn merged(before: Self, fork: Self::Forked, after: Self) -> bool;
    fn merge(&mut self, fork: Self::Forked) ensures Self::merged(*old(self), fork, *final(self)); }
pub trait ForkAsync: Sized { type AsyncForked;
    spec fn forks_async(self, f: Self::AsyncForked) -> bool;
    fn fork_async(&self) -> (r: Self::AsyncForked) ensures self.forks_async(r); }
/// a handle's `&self` gives access to the value behind it, hence &mut
pub trait MergeAsync: ForkAsync {
    spec fn merged_async(before: Self, fork: Self::AsyncForked, after: Self) -> bool;
    /// what else may happen to the value while a task waits
    spec fn others(before: Self, after: Self) -> bool;
    fn merge_async(&mut self, fork: Self::AsyncForked) ensures Self::merged_async(*old(self), fork, *final(self)); }
/// the caller's transaction: it gets the fork and nothing else
pub trait Tx<A, E>: Sized {
    spec fn did(a: A, b: A, r: Result<(), E>) -> bool;
    fn run(&mut self, a: &mut A) -> (r: Result<(), E>) ensures Self::did(*old(a), *final(a), r); }
pub trait TxAsync<T: MergeAsync, E>: Sized {
    spec fn made(a: T::AsyncForked, r: Result<T::AsyncForked, E>) -> bool;
    /// while it runs, others may use the trunk; it cannot
    fn run(&mut self, trunk: &mut T, a: T::AsyncForked) -> (r: Result<T::AsyncForked, E>) ensures Self::made(a, r), T::others(*old(trunk), *final(trunk)); }

/// Rc<RefCell<T>>, Arc<Mutex<T>>: the value behind the handle
pub struct Cell<T> { pub v: T }
impl<T> Cell<T> {
    pub fn borrow(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn lock(&self) -> (r: &T) ensures *r == self.v { &self.v }
    pub fn borrow_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v }
    pub fn lock_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v } }
#[verifier::external_body] pub fn clone_set<T: std::hash::Hash + Eq>(s: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn clone_map<K: std::hash::Hash + Eq, V>(s: &HashMap<K, V>) -> (r: HashMap<K, V>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body] pub fn extend_set<T: std::hash::Hash + Eq>(s: &mut HashSet<T>, o: HashSet<T>) ensures final(s)@ == old(s)@.union(o@) { unimplemented!() }
/// std: entry(k).or_insert(v)
#[verifier::external_body] pub fn or_insert<K: std::hash::Hash + Eq, V>(m: &mut HashMap<K, V>, k: K, v: V) ensures final(m)@ == (if old(m)@.dom().contains(k) { old(m)@ } else { old(m)@.insert(k, v) }) { unimplemented!() }
#[verifier::external_body] pub fn insert<K: std::hash::Hash + Eq, V>(m: &mut HashMap<K, V>, k: K, v: V) -> (r: Option<V>) ensures final(m)@ == old(m)@.insert(k, v) { unimplemented!() }
#[verifier::external_body] pub fn owned<K: std::hash::Hash + Eq, V>(m: HashMap<K, V>) -> (r: Vec<(K, V)>)
    ensures forall|i: int| 0 <= i < r@.len() ==> m@.dom().contains((#[trigger] r@[i]).0) && m@[r@[i].0] == r@[i].1, forall|k: K| #[trigger] m@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k, r@.len() == 0 ==> m@ == Map::<K, V>::empty(),
        forall|i: int, j: int| 0 <= i < r@.len() && 0 <= j < r@.len() && (#[trigger] r@[i]).0 == (#[trigger] r@[j]).0 ==> i == j { unimplemented!() }
/// what was there stays as it is, the rest comes from the fork
pub open spec fn filled<K, V>(a: Map<K, V>, f: Map<K, V>, b: Map<K, V>) -> bool { b.dom() == a.dom().union(f.dom()) && forall|k: K| #[trigger] b.dom().contains(k) ==> b[k] == (if a.dom().contains(k) { a[k] } else { f[k] }) }

impl<T: std::hash::Hash + Eq> Fork for HashSet<T> { type Forked = Self; open spec fn forks(self, f: Self) -> bool { f@ == self@ } fn fork(&self) -> (r: Self) { fork_set(self) } }
impl<K: std::hash::Hash + Eq, V> Fork for HashMap<K, V> { type Forked = Self; open spec fn forks(self, f: Self) -> bool { f@ == self@ } fn fork(&self) -> (r: Self) { fork_map(self) } }
impl<T: Fork> Fork for Cell<T> { type Forked = T::Forked; open spec fn forks(self, f: T::Forked) -> bool { self.v.forks(f) } fn fork(&self) -> (r: T::Forked) { self.fork_cell() } }
impl<T: std::hash::Hash + Eq> Merge for HashSet<T> { open spec fn merged(a: Self, f: Self, b: Self) -> bool { b@ == a@.union(f@) } fn merge(&mut self, fork: Self) { merge_set(self, fork) } }
impl<K: std::hash::Hash + Eq, V> Merge for HashMap<K, V> { open spec fn merged(a: Self, f: Self, b: Self) -> bool { filled(a@, f@, b@) } fn merge(&mut self, fork: Self) { merge_map(self, fork) } }
impl<T: Merge> Merge for Cell<T> { open spec fn merged(a: Self, f: T::Forked, b: Self) -> bool { T::merged(a.v, f, b.v) } fn merge(&mut self, fork: T::Forked) { self.merge_cell(fork) } }
/// the shared handle of the asynchronous form
pub struct Shared<T> { pub v: T }
impl<T> Shared<T> { pub fn lock(&self) -> (r: &T) ensures *r == self.v { &self.v } pub fn lock_mut(&mut self) -> (r: &mut T) ensures *r == old(self).v, final(self).v == *final(r) { &mut self.v } }
impl<T: Fork> ForkAsync for Shared<T> { type AsyncForked = T::Forked; open spec fn forks_async(self, f: T::Forked) -> bool { self.v.forks(f) } fn fork_async(&self) -> (r: T::Forked) { self.fork_shared() } }
impl<T: Merge> MergeAsync for Shared<T> { open spec fn merged_async(a: Self, f: T::Forked, b: Self) -> bool { T::merged(a.v, f, b.v) } open spec fn others(a: Self, b: Self) -> bool { true } fn merge_async(&mut self, fork: T::Forked) { self.merge_shared(fork) } }
/// `?` between the same error types
pub fn same_err<E>(e: E) -> (r: E) ensures r == e { e }
"""
FL = """invariant filled_so_far(m0, fork0, self@, it.seq(), it.index@ as int), %s"""
fns = [
    Fn(TR, None, "transact_blocking", """pub fn transact_blocking<T: Merge, Error, F: Tx<T::Forked, Error>>(trunk: &mut T, tx: F) -> (res: Result<(), Error>)
        ensures exists|a: T::Forked, b: T::Forked, r: Result<(), Error>| (*old(trunk)).forks(a) && #[trigger] F::did(a, b, r) && res is Ok == r is Ok && (r is Err ==> res->Err_0 == r->Err_0) && (if r is Err { *final(trunk) == *old(trunk) } else { T::merged(*old(trunk), b, *final(trunk)) })""",
       ["trunk", "tx"],
       [("let mut forked = trunk.fork();", "let mut tx = tx; let mut forked = trunk.fork(); let ghost a0 = forked;", "must"),
        ("$$e = info_span!($y)", "$$e = ()"),
        ("info_span!($y).in_scope(|| tx(&mut $$x))?;", "let r = tx.run(&mut $$x); proof { assert(F::did(a0, $$x, r)); } match r { Ok(_) => { }, Err(e) => { return Err(e); } }", "must")]),
    Fn(TR, None, "transact_async", """pub fn transact_async<T: MergeAsync, Error, F: TxAsync<T, Error>>(trunk: &mut T, tx: F) -> (res: Result<(), Error>)
        ensures exists|a: T::AsyncForked, r: Result<T::AsyncForked, Error>, t: T| (*old(trunk)).forks_async(a) && #[trigger] F::made(a, r) && #[trigger] T::others(*old(trunk), t) && res is Ok == r is Ok && (if r is Err { res == Err::<(), Error>(r->Err_0) && *final(trunk) == t } else { T::merged_async(t, r->Ok_0, *final(trunk)) })""",
       ["trunk", "tx"],
       [("let fork = trunk.fork_async();", "let fork = trunk.fork_async(); proof { a0 = Some(fork); }", "must"),
        ("tx(fork)", "({ let mut tx = tx; tx.run(trunk, fork) })", "must"),
        ("info_span!($y).in_scope(|| async {", "({ let ghost t0 = *trunk; let ghost mut a0 = None; let r = ({", "must"),
        ("})?;", "}); proof { assert(F::made(a0->0, r)); assert(T::others(t0, *trunk)); } match r { Ok(x) => x, Err(e) => { return Err(e); } } });", "must"),
        ("trunk.clone()", "trunk")]),
    Fn(FK, "Fork for HashSet", "fork", "pub fn fork_set<T: std::hash::Hash + Eq>(this: &HashSet<T>) -> (r: HashSet<T>) ensures r@ == this@", ["self"], [("self.clone()", "clone_set(this)")], vname="fork_set"),
    Fn(FK, "Fork for HashMap", "fork", "pub fn fork_map<K: std::hash::Hash + Eq, V>(this: &HashMap<K, V>) -> (r: HashMap<K, V>) ensures r@ == this@", ["self"], [("self.clone()", "clone_map(this)")], vname="fork_map"),
    Fn(FK, "Fork for Rc", "fork", "pub fn fork_cell(&self) -> (r: T::Forked) ensures self.v.forks(r)", ["self"], wrap="impl<T: Fork> Cell<T>", vname="fork_cell"),
    Fn(FK, "ForkAsync for T", "fork_async", "pub fn fork_plain<T: Fork>(this: &T) -> (r: T::Forked) ensures this.forks(r)", ["self"], [("self", "this")], vname="fork_plain"),
    Fn(FK, "ForkAsync for Arc", "fork_async", "pub fn fork_shared(&self) -> (r: T::Forked) ensures self.v.forks(r)", ["self"], [("$$x.fork_async()", "fork_plain($$x)")], wrap="impl<T: Fork> Shared<T>", vname="fork_shared"),
    Fn(MG, "MergeAsync for Arc", "merge_async", "pub fn merge_shared(&mut self, fork: T::Forked) ensures T::merged(old(self).v, fork, final(self).v)", ["self", "fork"], [("self.lock()", "self.lock_mut()")], wrap="impl<T: Merge> Shared<T>", vname="merge_shared"),
    Fn(MG, "Merge for HashSet", "merge", "pub fn merge_set<T: std::hash::Hash + Eq>(this: &mut HashSet<T>, fork: HashSet<T>) ensures final(this)@ == old(this)@.union(fork@)", ["self", "fork"], [("self.extend(fork)", "extend_set(this, fork)")], vname="merge_set"),
    Fn(MG, "Merge for HashMap", "merge", "pub fn merge_map<K: std::hash::Hash + Eq, V>(this: &mut HashMap<K, V>, fork: HashMap<K, V>) ensures filled(old(this)@, fork@, final(this)@)", ["self", "fork"],
       [("in fork", "in owned(fork)"), ("self.entry(k).or_insert(v)", "or_insert(this, k, v)"), ("self.insert(k, v)", "insert(this, k, v)"), ("self", "this")],
       loops=[("for", "it", """invariant forall|i: int| 0 <= i < it.seq().len() ==> fork@.dom().contains((#[trigger] it.seq()[i]).0) && fork@[it.seq()[i].0] == it.seq()[i].1, forall|k: K| #[trigger] fork@.dom().contains(k) ==> exists|i: int| 0 <= i < it.seq().len() && (#[trigger] it.seq()[i]).0 == k,
            forall|i: int, j: int| 0 <= i < it.seq().len() && 0 <= j < it.seq().len() && (#[trigger] it.seq()[i]).0 == (#[trigger] it.seq()[j]).0 ==> i == j,
            forall|k: K| #[trigger] this@.dom().contains(k) ==> (m0.dom().contains(k) || fork@.dom().contains(k)) && this@[k] == (if m0.dom().contains(k) { m0[k] } else { fork@[k] }),
            forall|k: K| #[trigger] m0.dom().contains(k) ==> this@.dom().contains(k), forall|i: int| 0 <= i < it.index@ ==> this@.dom().contains((#[trigger] it.seq()[i]).0),
            it.index@ == it.seq().len() ==> this@.dom() == m0.dom().union(fork@.dom())""", "", "assert(it.index@ + 1 == it.seq().len() ==> this@.dom() =~= m0.dom().union(fork@.dom()));")],
       pre="let ghost m0 = this@; proof { assert(fork@.dom().len() == 0 ==> this@.dom() =~= m0.dom().union(fork@.dom())); }", vname="merge_map"),
    Fn(MG, "Merge for Rc", "merge", "pub fn merge_cell(&mut self, fork: T::Forked) ensures T::merged(old(self).v, fork, final(self).v)", ["self", "fork"], wrap="impl<T: Merge> Cell<T>", vname="merge_cell"),
]
core_unit = Unit("transact", PRE, fns)

# ---- a whole replica: fork and merge go through archives ----
FORK = archive.PRE + archive.TYPES2 + archive.TYPES3 + r"""
/// Result::expect: never on an error
pub fn ok<T, E>(r: Result<T, E>) -> (v: T) requires r is Ok ensures v == r->Ok_0 { match r { Ok(v) => v, Err(_) => { vstd::pervasive::unreached() } } }
impl Keyhive {
    /// P08 (archive.archive)
    #[verifier::external_body] pub fn into_archive(&self) -> (r: Archive) requires whole(*self) ensures kept(*self, r), members_all(*self, r), restorable(r) { unimplemented!() }
    /// P08 (archive.restore)
    #[verifier::external_body] pub fn try_from_archive(archive: &Archive, signer: Signer) -> (res: Result<Keyhive, TryFromArchiveError>) requires restorable(*archive) ensures res is Ok, kept(res->Ok_0, *archive), all_settled(res->Ok_0) { unimplemented!() } }
"""
fork_fns = [
    Fn(KH, "ForkAsync for Keyhive", "fork_async", "pub fn fork_async(&self) -> (r: Keyhive) requires whole(*self), all_settled(*self) ensures alike(*self, r)", ["self"],
       [("self.active.lock()", "self.active"), ("Keyhive::try_from_archive(&self.into_archive(), signer, $x).expect($y)", "({ let a = self.into_archive(); let r = ok(Keyhive::try_from_archive(&a, signer)); proof { round_trip(*self, a, r); } r })", "must")], wrap="impl Keyhive")]
fork = Unit("fork", FORK, fork_fns)
MERGE = archive.MPRE + r"""
/// Result::expect: never on an error
pub fn ok<T, E>(r: Result<T, E>) -> (v: T) requires r is Ok ensures v == r->Ok_0 { match r { Ok(v) => v, Err(_) => { vstd::pervasive::unreached() } } }
/// the archive of a replica (P08, archive.archive)
pub uninterp spec fn archive_of(k: Keyhive, a: Archive) -> bool;
impl Keyhive {
    #[verifier::external_body] pub fn into_archive(&self) -> (r: Archive) ensures archive_of(*self, r) { unimplemented!() }
    /// P08 (archive.merge)
    #[verifier::external_body] pub fn ingest_archive(&mut self, archive: Archive) -> (r: Result<Vec<Arc<StaticEvent>>, ReceiveStaticEventError>) ensures r is Ok, grown(*old(self), *final(self)), absorbed(archive, *final(self)) { unimplemented!() } }
"""
merge_fns = [
    Fn(KH, "MergeAsync for Arc", "merge_async", "pub fn merge_async(&mut self, fork: Keyhive) ensures grown(*old(self), *final(self)), exists|a: Archive| archive_of(fork, a) && #[trigger] absorbed(a, *final(self))", ["self", "fork"],
       [("self.lock().ingest_archive($a).expect($x);", "({ let a = $a; let r = self.ingest_archive(a); proof { assert(absorbed(a, *self)); } ok(r); });", "must")], wrap="impl Keyhive")]
merge = Unit("merge_fork", MERGE, merge_fns)
