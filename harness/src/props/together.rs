//! P07: batches ingested at the same time by several tasks, in any interleaving.
use super::api::key_for;
use crate::rec::Rec;
use crate::world::*;
use beekem::operation::CgkaOperation;
use future_form::{FutureForm, Sendable};
use futures::executor::block_on;
use keyhive_core::keyhive::Keyhive;
use keyhive_core::listener::{cgka::CgkaListener, membership::MembershipListener, prekey::PrekeyListener};
use keyhive_core::principal::group::{delegation::Delegation, revocation::Revocation};
use keyhive_core::principal::individual::op::{add_key::AddKeyOp, rotate_key::RotateKeyOp};
use keyhive_core::store::ciphertext::memory::MemoryCiphertextStore;
use keyhive_crypto::{signed::Signed, signer::memory::MemorySigner};
use rand::{rngs::StdRng, Rng};
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;
use std::task::{Context, Poll};

/// A listener that takes its time, as one that writes to disk would.
#[derive(Clone, Debug)]
pub struct Slow(Arc<AtomicU64>);
struct Naps(u64);
impl Future for Naps {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            return Poll::Ready(());
        }
        self.0 -= 1;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
type Fut<'a> = <Sendable as FutureForm>::Future<'a, ()>;
impl Slow {
    fn nap<'a>(&'a self) -> Fut<'a> {
        let x = self.0.load(Ordering::Relaxed).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        self.0.store(x, Ordering::Relaxed);
        <Sendable as FutureForm>::from_future(Naps((x >> 33) % 3))
    }
}
impl PrekeyListener<Sendable> for Slow {
    fn on_prekeys_expanded<'a>(&'a self, _: &'a Arc<Signed<AddKeyOp>>) -> Fut<'a> {
        self.nap()
    }
    fn on_prekey_rotated<'a>(&'a self, _: &'a Arc<Signed<RotateKeyOp>>) -> Fut<'a> {
        self.nap()
    }
}
impl MembershipListener<Sendable, MemorySigner, T> for Slow {
    fn on_delegation<'a>(&'a self, _: &'a Arc<Signed<Delegation<Sendable, MemorySigner, T, Slow>>>) -> Fut<'a> {
        self.nap()
    }
    fn on_revocation<'a>(&'a self, _: &'a Arc<Signed<Revocation<Sendable, MemorySigner, T, Slow>>>) -> Fut<'a> {
        self.nap()
    }
}
impl CgkaListener<Sendable> for Slow {
    fn on_cgka_op<'a>(&'a self, _: &'a Arc<Signed<CgkaOperation>>) -> Fut<'a> {
        self.nap()
    }
}
type Task = Pin<Box<dyn Future<Output = ()>>>;
type SlowKh = Keyhive<Sendable, MemorySigner, T, Vec<u8>, St, Slow, StdRng>;

fn slow_kh(rng: &mut StdRng, rep: &Rep) -> SlowKh {
    let slow = Slow(Arc::new(AtomicU64::new(rng.gen())));
    let kh: SlowKh = block_on(SlowKh::generate(rep.s.clone(), MemoryCiphertextStore::new(), slow, sub_rng(rng))).unwrap();
    let secrets = block_on(rep.kh.export_prekey_secrets()).unwrap();
    block_on(kh.import_prekey_secrets(&secrets)).unwrap();
    kh
}
/// runs the tasks in a random interleaving
fn finish(r: &mut Rec, rng: &mut StdRng, tasks: &mut [Option<Task>]) -> bool {
    let waker = futures::task::noop_waker();
    let mut cx = Context::from_waker(&waker);
    let mut polls = 0u64;
    while tasks.iter().any(|t| t.is_some()) {
        let k = rng.gen_range(0..tasks.len());
        if let Some(t) = tasks[k].as_mut() {
            if t.as_mut().poll(&mut cx).is_ready() {
                tasks[k] = None;
            }
        }
        polls += 1;
        if polls > 1_000_000 {
            r.fail("stuck-together", "what runs at the same time never finishes");
            return false;
        }
    }
    true
}

/// `one` was given all of `evs` in one batch; a replica of the same person that is given them in
/// several batches at the same time ends in the same state.
pub fn together(r: &mut Rec, rng: &mut StdRng, rep: &Rep, evs: &[Ev], one: &Kh) {
    let kh = slow_kh(rng, rep);
    let n = rng.gen_range(2..5);
    let mut parts: Vec<Vec<Ev>> = vec![vec![]; n];
    let often = *pick(rng, &[0.0, 0.2, 0.6]);
    for e in evs {
        let first = rng.gen_range(0..n);
        for (k, p) in parts.iter_mut().enumerate() {
            if k == first || rng.gen_bool(often) {
                p.push(e.clone());
            }
        }
    }
    let mut tasks: Vec<Option<Task>> = vec![];
    for mut p in parts {
        shuffle(rng, &mut p);
        let kh = kh.clone();
        tasks.push(Some(Box::pin(async move {
            kh.ingest_unsorted_static_events(p).await;
        })));
    }
    if !finish(r, rng, &mut tasks) {
        return;
    }
    drop(tasks);
    r.count("ingested_together");
    let a = block_on(kh.into_archive());
    let kh = restore(rng, &a, rep.s.clone(), MemoryCiphertextStore::new());
    let Ok(kh) = kh else {
        r.fail(key_for(evs, "together"), "what was ingested at the same time cannot be restored");
        return;
    };
    let ab = block_on(one.into_archive());
    let Ok(one) = restore(rng, &ab, rep.s.clone(), MemoryCiphertextStore::new()) else { return };
    let (a, b) = (view(&one), view(&kh));
    r.check(a == b, key_for(evs, "together"), || format!("batches at the same time vs one batch: {}", diff(&a, &b)));
}

/// a long history that arrives before its first operation
pub fn crowd(r: &mut Rec, rng: &mut StdRng) {
    let kh = new_kh(rng);
    let (g, a) = (signer(rng), signer(rng));
    know(&kh, rng, &a);
    let root = sd(&g, sid(&a), keyhive_core::access::Access::Admin, None, &[], Default::default());
    let n = 1 << rng.gen_range(4..12);
    let mut evs: Vec<Ev> = vec![];
    for _ in 0..n {
        let p = signer(rng);
        let k = intro(rng, &p);
        evs.push(key_event(&k));
        evs.push(Ev::Delegated(sd(&a, sid(&p), keyhive_core::access::Access::Read, Some(&root), &[], Default::default())));
    }
    shuffle(rng, &mut evs);
    let cut = rng.gen_range(0..evs.len());
    let rest = evs.split_off(cut);
    let first = evs.iter().filter(|e| matches!(e, Ev::Delegated(_))).count();
    let got = ingest(&kh, evs);
    r.check(got == first, "many-waiting", || format!("{first} operations wait for the first one, {got} are kept"));
    let got = ingest(&kh, rest);
    r.check(got == n, "many-waiting", || format!("{n} operations wait for the first one, {got} are kept"));
    r.count("crowds");
    if n > 128 {
        return; // rebuilding the group for each of them takes long
    }
    let got = ingest(&kh, vec![Ev::Delegated(root)]);
    let there = members(&kh, sid(&g)).len();
    r.check(got == 0 && there == n + 1, "many-waiting", || format!("of {n} operations that waited, {got} still do, and there are {there} members"));
}

/// ingestion finishes whatever else the replica does at the same time
pub fn meanwhile(r: &mut Rec, rng: &mut StdRng, rep: &Rep, evs: &[Ev]) {
    use keyhive_core::{access::Access, principal::membered::Membered, principal::public::Public};
    let kh = slow_kh(rng, rep);
    let mut evs = evs.to_vec();
    shuffle(rng, &mut evs);
    let late = evs.split_off(evs.len() / 2);
    block_on(kh.ingest_unsorted_static_events(evs));
    let me = sid(&rep.s);
    let mut tasks: Vec<Option<Task>> = vec![];
    let k = kh.clone();
    tasks.push(Some(Box::pin(async move {
        k.ingest_unsorted_static_events(late).await;
    })));
    let mut what = vec![];
    for _ in 0..rng.gen_range(1..4) {
        let (kh, n) = (kh.clone(), rng.gen_range(0..13));
        what.push(n);
        tasks.push(Some(Box::pin(async move {
            let docs: Vec<_> = kh.documents().lock().await.iter().map(|(i, d)| (*i, d.clone())).collect();
            let groups: Vec<_> = kh.groups().lock().await.iter().map(|(i, g)| (*i, g.clone())).collect();
            let all = docs.iter().cloned().map(|(i, d)| Membered::Document(i, d)).chain(groups.into_iter().map(|(i, g)| Membered::Group(i, g)));
            let public = kh.get_agent(Public.id()).await;
            match n {
                0 => drop(kh.expand_prekeys().await),
                1 => drop(kh.contact_card().await),
                2 => drop(kh.generate_group(vec![]).await),
                3 => drop(kh.generate_doc(vec![], nonempty::nonempty![[3u8; 32]]).await),
                4 => drop(kh.into_archive().await),
                5 => drop(kh.stats().await),
                6 => drop(kh.reachable_docs().await),
                7 => {
                    if let Some(a) = kh.get_agent(me).await {
                        kh.static_events_for_agent(&a).await;
                    }
                }
                8 => {
                    for (_, d) in docs {
                        let _ = kh.force_pcs_update(d).await;
                    }
                }
                9 => {
                    for (_, d) in docs {
                        let _ = kh.try_encrypt_content(d, &[7; 32], &vec![], b"x").await;
                    }
                }
                10 => {
                    for m in all {
                        let _ = kh.revoke_member(me, true, &m).await;
                        kh.reachable_members(m).await;
                    }
                }
                11 => {
                    let secrets = kh.export_prekey_secrets().await.unwrap();
                    let _ = kh.import_prekey_secrets(&secrets).await;
                }
                _ => {
                    for m in all {
                        if let Some(p) = public.clone() {
                            let _ = kh.add_member(p, &m, Access::Read, &[]).await;
                        }
                    }
                }
            }
        })));
    }
    r.count("meanwhile");
    if !finish(r, rng, &mut tasks) {
        let left: Vec<usize> = (0..tasks.len()).filter(|i| tasks[*i].is_some()).collect();
        r.t(format!("an ingestion (0) and the calls {what:?} at the same time; unfinished: {left:?}"));
    }
}
