//! A replica as a whole: unverifiable operations (P01), saving and restoring (P08), forks (P22).
use super::api::{describe, script, Cipher, Mix, FULL, W};
use keyhive_core::principal::public::Public;
use crate::rec::Rec;
use crate::world::*;
use beekem::operation::CgkaOperation;
use future_form::Sendable;
use futures::{executor::block_on, lock::Mutex};
use keyhive_core::archive::Archive;
use keyhive_core::contact_card::ContactCard;
use keyhive_core::event::static_event::StaticEvent;
use keyhive_core::keyhive::Keyhive;
use keyhive_core::listener::{log::Log, membership::MembershipListener};
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::op::KeyOp;
use keyhive_crypto::signed::Signed;
use keyhive_crypto::signer::memory::MemorySigner;
use nonempty::NonEmpty;
use rand::{rngs::StdRng, Rng};
use serde::{de::DeserializeOwned, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::sync::Arc;

/// as it comes over the wire: nothing remembered about the original
fn wire<X: Serialize + DeserializeOwned>(x: &X) -> X {
    bincode::deserialize(&bincode::serialize(x).unwrap()).unwrap()
}
fn sig(rng: &mut StdRng, s: &ed25519_dalek::Signature) -> ed25519_dalek::Signature {
    let mut b = s.to_bytes();
    let i = rng.gen_range(0..64);
    b[i] ^= 1 << rng.gen_range(0..8);
    ed25519_dalek::Signature::from_bytes(&b)
}
/// a copy of `op` that nobody signed: signature, issuer or content changed
fn forge<X: Serialize + DeserializeOwned + Debug + Clone>(r: &mut Rec, op: &Signed<X>, others: &[MemorySigner], same: Option<&Signed<X>>, change: impl FnOnce(&mut X, &mut StdRng)) -> (Signed<X>, &'static str) {
    let mut f: Signed<X> = wire(op);
    let k = r.rng.gen_range(0..6);
    let how = match k {
        0 => {
            f.signature = sig(&mut r.rng, &op.signature);
            "signature damaged"
        }
        1 => {
            f.issuer = pick(&mut r.rng, others).try_sign_sync(0u8).unwrap().issuer;
            "issuer replaced"
        }
        2 => {
            let mut rng = sub_rng(&mut r.rng);
            change(&mut f.payload, &mut rng);
            "content changed"
        }
        3 => {
            f.signature = pick(&mut r.rng, others).try_sign_sync(f.payload.clone()).unwrap().signature;
            "signed by somebody else"
        }
        4 if same.is_some() => {
            f.signature = same.unwrap().signature;
            "signature of another operation"
        }
        _ => {
            f.signature = ed25519_dalek::Signature::from_bytes(&[0; 64]);
            "no signature"
        }
    };
    (wire(&f), how)
}
#[derive(Clone)]
enum Op {
    D(SD),
    R(SR),
    K(KeyOp),
    Card(KeyOp),
    C(Signed<CgkaOperation>),
}
/// does the signature hold for exactly this content and issuer?
fn verifies(o: &Op) -> bool {
    use ed25519_dalek::Verifier;
    fn v<X: Serialize + Debug>(s: &Signed<X>) -> bool {
        s.issuer.verify(&bincode::serialize(&s.payload).unwrap(), &s.signature).is_ok()
    }
    match o {
        Op::D(x) => v(x),
        Op::R(x) => v(x),
        Op::C(x) => v(x),
        Op::K(x) | Op::Card(x) => match x {
            KeyOp::Add(a) => v(a.as_ref()),
            KeyOp::Rotate(a) => v(a.as_ref()),
        },
    }
}
fn event(o: &Op) -> Ev {
    match o {
        Op::D(x) => StaticEvent::Delegated(x.clone()),
        Op::R(x) => StaticEvent::Revoked(x.clone()),
        Op::K(x) | Op::Card(x) => key_event(x),
        Op::C(x) => StaticEvent::CgkaOperation(Box::new(x.clone())),
    }
}
fn give(kh: &Kh, o: &Op) -> Result<(), String> {
    block_on(async {
        match o {
            Op::D(x) => kh.receive_delegation(x).await.map_err(|e| format!("{e:?}")),
            Op::R(x) => kh.receive_revocation(x).await.map_err(|e| format!("{e:?}")),
            Op::K(x) => kh.receive_prekey_op(x).await.map_err(|e| format!("{e:?}")),
            Op::Card(x) => kh.receive_contact_card(&ContactCard::from(x.clone())).await.map(|_| ()).map_err(|e| format!("{e:?}")),
            Op::C(x) => kh.receive_cgka_op(x.clone()).await.map_err(|e| format!("{e:?}")),
        }
    })
}
fn rand_id(rng: &mut StdRng, ids: &[Identifier]) -> Identifier {
    *pick(rng, ids)
}
/// everything in the archive, everything offered to anybody
fn state(kh: &Kh, ids: &[Identifier]) -> (Archive<T>, BTreeMap<String, BTreeSet<String>>) {
    let mut o = BTreeMap::new();
    for id in ids {
        if let Some(a) = block_on(kh.get_agent(*id)) {
            o.insert(sh(id), block_on(kh.static_events_for_agent(&a)).values().map(hx).collect());
        }
    }
    (block_on(kh.into_archive()), o)
}
pub fn unverifiable(r: &mut Rec, _c: u64) {
    let w = script(r, &FULL);
    r.eval(&w.shape);
    let mut rng = sub_rng(&mut r.rng);
    let mut ids: Vec<Identifier> = w.reps.iter().map(|x| x.id()).chain(w.groups.iter().cloned()).chain(w.docs.iter().cloned()).collect();
    // everything anybody holds
    let mut ops: Vec<Op> = vec![];
    for rep in &w.reps {
        for e in all_events(&rep.kh) {
            ops.push(match e {
                StaticEvent::Delegated(x) => Op::D(x),
                StaticEvent::Revoked(x) => Op::R(x),
                StaticEvent::CgkaOperation(x) => Op::C(*x),
                StaticEvent::PrekeysExpanded(x) => Op::K(KeyOp::Add(Arc::new(*x))),
                StaticEvent::PrekeyRotated(x) => Op::K(KeyOp::Rotate(Arc::new(*x))),
            });
        }
    }
    let others: Vec<MemorySigner> = w.reps.iter().map(|x| x.s.clone()).chain((0..2).map(|_| signer(&mut rng))).collect();
    // first operations of people, groups and documents nobody has heard of, or known in another role
    let stranger = signer(&mut rng);
    ids.push(sid(&stranger));
    for s in others.iter().chain([&stranger]) {
        ops.push(Op::K(intro(&mut rng, s)));
        let k = intro(&mut rng, s);
        ops.push(Op::K(rotate(&mut rng, s, *k.new_key())));
        let root = sd(s, rand_id(&mut rng, &ids), *pick(&mut rng, &LEVELS), None, &[], BTreeMap::new());
        ops.push(Op::R(sr(s, &root, None)));
        ops.push(Op::D(root));
    }
    let nobody = new_kh(&mut rng);
    for _ in 0..14 {
        let kh = if r.rng.gen_bool(0.12) { &nobody } else { &pick(&mut r.rng, &w.reps).kh };
        let op = pick(&mut r.rng, &ops).clone();
        let mut crng = sub_rng(&mut r.rng);
        let someone = rand_id(&mut crng, &ids);
        let level = *pick(&mut crng, &LEVELS);
        let (bad, how): (Op, &str) = match &op {
            Op::D(x) => {
                let twin = ops.iter().rev().find_map(|o| match o { Op::D(y) if y.issuer == x.issuer && y.signature != x.signature => Some(y), _ => None });
                let (f, how) = forge(r, x, &others, twin, |p, g| match g.gen_range(0..4) {
                    0 => p.can = level,
                    1 => p.delegate = someone,
                    2 => p.proof = None,
                    _ => p.after_revocations = vec![],
                });
                (Op::D(f), how)
            }
            Op::R(x) => {
                let other = ops.iter().find_map(|o| match o { Op::D(y) => Some(keyhive_crypto::digest::Digest::hash(y)), _ => None });
                let twin = ops.iter().rev().find_map(|o| match o { Op::R(y) if y.issuer == x.issuer && y.signature != x.signature => Some(y), _ => None });
                let (f, how) = forge(r, x, &others, twin, |p, g| match g.gen_range(0..2) {
                    0 => p.proof = None,
                    _ => p.revoke = other.unwrap_or(p.revoke),
                });
                (Op::R(f), how)
            }
            Op::K(x) | Op::Card(x) => {
                let k = keyhive_crypto::share_key::ShareSecretKey::generate(&mut crng).share_key();
                let (f, how) = match x {
                    KeyOp::Add(a) => {
                        let (f, how) = forge(r, a.as_ref(), &others, None, |p, _| p.share_key = k);
                        (KeyOp::Add(Arc::new(f)), how)
                    }
                    KeyOp::Rotate(a) => {
                        let (f, how) = forge(r, a.as_ref(), &others, None, |p, g| if g.gen() { p.old = k } else { p.new = k });
                        (KeyOp::Rotate(Arc::new(f)), how)
                    }
                };
                (if r.rng.gen_bool(0.4) { Op::Card(f) } else { Op::K(f) }, how)
            }
            Op::C(x) => {
                let twin = ops.iter().rev().find_map(|o| match o { Op::C(y) if y.issuer == x.issuer && y.signature != x.signature => Some(y), _ => None });
                let (f, how) = forge(r, x, &others, twin, |p, g| match p {
                    CgkaOperation::Add { added_id, pk, predecessors, .. } => match g.gen_range(0..3) {
                        0 => *added_id = beekem::id::MemberId(someone.0),
                        1 => *pk = keyhive_crypto::share_key::ShareSecretKey::generate(g).share_key(),
                        _ => predecessors.clear(),
                    },
                    CgkaOperation::Remove { id, removed_keys, .. } => if g.gen() { *id = beekem::id::MemberId(someone.0) } else { removed_keys.clear() },
                    CgkaOperation::Update { id, predecessors, .. } => if g.gen() { *id = beekem::id::MemberId(someone.0) } else { predecessors.clear() },
                });
                (Op::C(f), how)
            }
        };
        if verifies(&bad) {
            continue; // nothing was changed after all
        }
        if !(matches!(op, Op::K(_)) || verifies(&op)) {
            r.fail("harness", "an original operation does not verify");
        }
        r.count(how);
        let what = format!("{} ({how})", describe(&w, &event(&bad)));
        if r.rng.gen_bool(0.3) {
            let _ = give(kh, &op); // a replay of something genuine
        }
        let before = state(kh, &ids);
        let res = give(kh, &bad);
        let after = state(kh, &ids);
        r.check(res.is_err(), "accepted", || format!("accepted: {what}"));
        r.check(before.0 == after.0, "state", || format!("the archive changed although refused ({:?}): {what}", res));
        r.check(before.1 == after.1, "offers", || format!("what is offered changed although refused ({:?}): {what}", res));
        if r.rng.gen_bool(0.25) {
            let (a, p) = (view(kh), people_view(kh, &ids));
            let st = block_on(kh.get_agent(ids[0])).is_some();
            ingest(kh, vec![event(&bad)]);
            let (mut b, q) = (view(kh), people_view(kh, &ids));
            b.insert("pending".into(), a["pending"].clone());
            r.check(a == b && p == q && st == block_on(kh.get_agent(ids[0])).is_some(), "ingest", || w.text(&format!("ingesting changed something: {what}: {} {}", diff(&a, &b), diff(&p, &q))));
            r.check(after.1 == state(kh, &ids).1, "ingest-offers", || format!("ingesting changed what is offered: {what}"));
        }
    }
}

// ---------------------------------------------------------------- P08
pub type K<Li> = Keyhive<Sendable, MemorySigner, T, Vec<u8>, St, Li, StdRng>;
/// the same bytes layout as `Archive`, with its fields open
#[derive(serde::Deserialize)]
struct Open {
    #[allow(dead_code)]
    active: keyhive_core::principal::active::archive::ActiveArchive,
    ops: Vec<(keyhive_crypto::digest::Digest<u8>, keyhive_core::principal::group::membership_operation::StaticMembershipOperation<T>)>,
    #[allow(dead_code)]
    people: HashMap<keyhive_core::principal::individual::id::IndividualId, keyhive_core::principal::individual::Individual>,
    #[allow(dead_code)]
    groups: HashMap<Identifier, keyhive_core::principal::group::GroupArchive<T>>,
    docs: HashMap<Identifier, OpenDoc>,
    pending: Vec<Ev>,
}
#[derive(serde::Deserialize)]
struct OpenDoc(#[allow(dead_code)] keyhive_core::principal::group::GroupArchive<T>, HashSet<T>, HashSet<T>, #[allow(dead_code)] Option<keyhive_core::cgka::Cgka>);
fn open(a: &Archive<T>) -> Open {
    bincode::deserialize(&bincode::serialize(a).unwrap()).unwrap()
}
fn content(a: &Archive<T>) -> BTreeMap<Identifier, BTreeSet<T>> {
    open(a).docs.into_iter().map(|(k, d)| (k, d.1.into_iter().chain(d.2).collect())).collect()
}
fn held_ops(a: &Archive<T>) -> BTreeSet<String> {
    open(a).ops.iter().map(|(_, x)| hx(x)).collect()
}
fn secrets(kh: &Kh) -> BTreeSet<String> {
    use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
    let b = block_on(kh.export_prekey_secrets()).unwrap();
    let m: BTreeMap<ShareKey, ShareSecretKey> = bincode::deserialize(&b).unwrap();
    m.iter().map(|x| hx(&x)).collect()
}
fn everyone(w: &W) -> Vec<Identifier> {
    let mut v: Vec<Identifier> = w.reps.iter().map(|x| x.id()).chain(w.groups.iter().cloned()).chain(w.docs.iter().cloned()).collect();
    v.sort();
    v.dedup();
    v
}
/// everything the replica answers
fn answers(kh: &Kh, ids: &[Identifier], ciphers: &[Cipher]) -> View {
    let mut v = view(kh);
    v.extend(people_view(kh, ids));
    v.insert("identity".into(), format!("{:?}", kh.id()));
    v.insert("secrets".into(), format!("{:?}", secrets(kh)));
    for id in ids {
        let Some(a) = block_on(kh.get_agent(*id)) else { continue };
        let evs: BTreeSet<String> = block_on(kh.static_events_for_agent(&a)).values().map(hx).collect();
        v.insert(format!("offered to {}", sh(id)), format!("{evs:?}"));
        let docs: BTreeMap<String, String> = block_on(kh.docs_reachable_by_agent(&a)).into_iter().map(|(d, x)| (format!("{d:?}"), format!("{:?}", x.can()))).collect();
        v.insert(format!("docs of {}", sh(id)), format!("{docs:?}"));
        if let Some(d) = doc(kh, *id) {
            let h = block_on(kh.try_pcs_key_hash(d)).map(|h| hx(&h));
            v.insert(format!("key of {}", sh(id)), format!("{h:?}"));
        }
    }
    for (n, c) in ciphers.iter().enumerate() {
        if let Some(d) = doc(kh, c.doc) {
            let x = block_on(kh.try_decrypt_content(d, &c.enc));
            v.insert(format!("content {n}"), match x { Ok(p) => format!("{}", p == c.plain), Err(e) => if std::env::var("VP_WHY").is_ok() { format!("{e:?}") } else { "no".into() } });
        }
    }
    v
}
fn opens(kh: &Kh, c: &Cipher) -> bool {
    doc(kh, c.doc).is_some_and(|d| block_on(kh.try_decrypt_content(d, &c.enc)).is_ok_and(|p| p == c.plain))
}
/// parts of a view that are sets of things held: what is missing from `b`
fn lost(a: &Kh, b: &Kh, ids: &[Identifier], ciphers: &[Cipher]) -> Vec<String> {
    let mut out = vec![];
    let (x, y) = (block_on(a.into_archive()), block_on(b.into_archive()));
    let (p, q) = (held_ops(&x), held_ops(&y));
    if !p.is_subset(&q) {
        out.push(format!("{} membership operations", p.difference(&q).count()));
    }
    if !secrets(a).is_subset(&secrets(b)) {
        out.push("prekey secrets".into());
    }
    let mut va = people_view(a, ids);
    va.extend(view(a));
    let mut vb = people_view(b, ids);
    vb.extend(view(b));
    for (k, t) in &va {
        let sets = k.ends_with("key ops") || k.ends_with("cgka ops");
        if sets {
            let have: BTreeSet<&str> = vb.get(k).map(|s| s.split(' ').collect()).unwrap_or_default();
            if t.as_str() != "none" && !t.is_empty() && !t.split(' ').all(|o| have.contains(o)) {
                out.push(format!("{k}: {t} vs {have:?}"));
            }
        } else if !vb.contains_key(k) || (t != "unknown" && vb[k] == "unknown") {
            out.push(k.clone());
        }
    }
    let all: HashSet<String> = all_events(b).iter().map(hx).collect();
    let pend: HashSet<String> = open(&y).pending.iter().map(hx).collect();
    for e in open(&x).pending.iter().map(hx) {
        if !pend.contains(&e) && !all.contains(&e) {
            out.push("an event that was waiting".into());
        }
    }
    let (x, y) = (content(&x), content(&y));
    for (id, h) in &x {
        if !y.get(id).is_some_and(|e| h.is_subset(e)) {
            out.push(format!("content heads of {}", sh(id)));
        }
    }
    for (n, c) in ciphers.iter().enumerate() {
        if opens(a, c) && !opens(b, c) {
            out.push(format!("content {n}"));
        }
    }
    out
}
fn parts(a: &Archive<T>, b: &Archive<T>) -> Vec<&'static str> {
    let (x, y) = (open(a), open(b));
    let mut v = vec![];
    if x.active != y.active { v.push("active"); }
    let sets = |z: &Open| -> HashSet<String> { z.pending.iter().map(hx).collect() };
    if sets(&x) != sets(&y) { v.push("waiting events"); }
    if x.ops != y.ops { v.push(if x.ops.len() == y.ops.len() { "order of operations" } else { "operations" }); }
    if x.people != y.people { v.push("people"); }
    if x.groups != y.groups { v.push("groups"); }
    if x.docs.keys().collect::<HashSet<_>>() != y.docs.keys().collect() { v.push("docs"); }
    for (k, d) in &x.docs {
        if let Some(e) = y.docs.get(k) {
            if d.0 != e.0 { v.push("doc group"); }
            if d.1 != e.1 { v.push("content heads"); }
            if d.2 != e.2 { v.push("content state"); }
            if d.3 != e.3 { v.push("key agreement"); }
        }
    }
    v
}
fn store_copy() -> St {
    St::new()
}
/// The maker of a document holds the secret of the document's own place in the key tree, but only
/// until its own invitation is delivered to it again. When it has removed itself from the document,
/// copies of it differ in what they can read (known finding, see DESIGN.md).
fn left_by_its_maker(evs: &[Ev]) -> bool {
    let roots: HashMap<Vec<u8>, Identifier> = evs.iter().filter_map(|e| match e {
        StaticEvent::Delegated(d) if d.payload.proof.is_none() => Some((keyhive_crypto::digest::Digest::hash(d).as_slice().to_vec(), d.payload.delegate)),
        _ => None,
    }).collect();
    evs.iter().any(|e| matches!(e, StaticEvent::Revoked(x) if roots.get(x.payload.revoke.as_slice()) == Some(&Identifier(x.issuer))))
}
fn merge_key(evs: &[Ev], k: &'static str) -> &'static str {
    match super::api::key_for(evs, k) {
        x if x == k && left_by_its_maker(evs) => "left-by-its-maker",
        x => x,
    }
}
pub fn saved(r: &mut Rec, _c: u64) {
    let mut w = script(r, &FULL);
    r.eval(&w.shape);
    let mut rng = sub_rng(&mut r.rng);
    let i = r.rng.gen_range(0..w.reps.len());
    if r.rng.gen_bool(0.4) {
        // something arrives before what it needs
        let j = r.rng.gen_range(0..w.reps.len());
        let mut evs = w.offered(j, w.reps[i].id());
        shuffle(&mut rng, &mut evs);
        evs.truncate(r.rng.gen_range(0..6));
        ingest(&w.reps[i].kh, evs);
    }
    let ids = everyone(&w);
    let a = block_on(w.reps[i].kh.into_archive());
    let bytes = bincode::serialize(&a).unwrap();
    let b: Archive<T> = match bincode::deserialize(&bytes) {
        Ok(b) => b,
        Err(e) => return r.fail("bytes", format!("an archive cannot be read back: {e:?}")),
    };
    r.check(a == b, "bytes", || "an archive read back from bytes differs".into());
    let copy = match restore(&mut rng, if r.rng.gen() { &a } else { &b }, w.reps[i].s.clone(), store_copy()) {
        Ok(k) => k,
        Err(e) => return r.fail("refused", format!("a replica's own archive is refused: {e}")),
    };
    let c = block_on(copy.into_archive());
    r.check(c == a, "archive", || format!("the archive of the restored replica differs: {:?}", parts(&a, &c)));
    let (x, y) = (answers(&w.reps[i].kh, &ids, &w.ciphers), answers(&copy, &ids, &w.ciphers));
    r.check(x == y, "restored", || w.text(&format!("restored: {}", diff(&x, &y))));
    // both go on hearing from others
    for _ in 0..3 {
        let j = r.rng.gen_range(0..w.reps.len());
        if j == i {
            continue;
        }
        w.step(r, &FULL);
        let a0 = block_on(w.reps[i].kh.into_archive());
        let twin = restore(&mut rng, &a0, w.reps[i].s.clone(), store_copy());
        let Ok(twin) = twin else { return r.fail("refused", "a replica's own archive is refused".to_string()) };
        let evs = w.offered(j, w.reps[i].id());
        let key = super::api::key_for(&evs, "later");
        ingest(&w.reps[i].kh, evs.clone());
        ingest(&twin, evs);
        let ids = everyone(&w);
        let (x, y) = (answers(&w.reps[i].kh, &ids, &w.ciphers), answers(&twin, &ids, &w.ciphers));
        r.check(x == y, key, || w.text(&format!("after hearing the same: {}", diff(&x, &y))));
    }
    if !r.violations.is_empty() {
        return;
    }
    // the copy lives on elsewhere and is merged
    let s = w.reps[i].s.clone();
    w.reps.push(Rep { kh: copy, s, name: format!("R{i}'") });
    let c = w.reps.len() - 1;
    for _ in 0..r.rng.gen_range(1..8) {
        w.step(r, &FULL);
    }
    if r.rng.gen_bool(0.5) {
        // something arrives at the copy before what it needs
        let j = r.rng.gen_range(0..w.reps.len());
        let mut evs = w.offered(j, w.reps[c].id());
        shuffle(&mut rng, &mut evs);
        evs.truncate(r.rng.gen_range(0..6));
        ingest(&w.reps[c].kh, evs);
    }
    let ids = everyone(&w);
    let (aa, bb) = (block_on(w.reps[i].kh.into_archive()), block_on(w.reps[c].kh.into_archive()));
    let keep = |a: &Archive<T>, rng: &mut StdRng, s: &MemorySigner| restore(rng, a, s.clone(), store_copy());
    let (Ok(a0), Ok(b0)) = (keep(&aa, &mut rng, &w.reps[i].s), keep(&bb, &mut rng, &w.reps[i].s)) else { return r.fail("refused", "a replica's own archive is refused".to_string()) };
    let evs: Vec<Ev> = all_events(&a0).into_iter().chain(all_events(&b0)).collect();
    let key = |k: &'static str| merge_key(&evs, k);
    let (ra, rb) = (block_on(w.reps[i].kh.ingest_archive(bb.clone())), block_on(w.reps[c].kh.ingest_archive(aa.clone())));
    r.check(ra.is_ok() && rb.is_ok(), "ingest", || format!("an archive is refused: {:?} {:?}", ra.as_ref().err(), rb.as_ref().err()));
    for (m, from, name) in [(&w.reps[i].kh, &a0, "own"), (&w.reps[i].kh, &b0, "other"), (&w.reps[c].kh, &a0, "other"), (&w.reps[c].kh, &b0, "own")] {
        let l = lost(from, m, &ids, &w.ciphers);
        r.check(l.is_empty(), key("merge-lost"), || w.text(&format!("merging loses what the {name} side had: {l:?}")));
    }
    // which key is current is settled when the history is next replayed
    let settled = |kh: &Kh| -> View { answers(kh, &ids, &w.ciphers).into_iter().filter(|(k, _)| !k.starts_with("key of")).collect() };
    let (x, y) = (settled(&w.reps[i].kh), settled(&w.reps[c].kh));
    r.check(x == y, key("merge-differs"), || w.text(&format!("merged either way: {}", diff(&x, &y))));
    let before = block_on(w.reps[i].kh.into_archive());
    let _ = block_on(w.reps[i].kh.ingest_archive(bb));
    let x2 = settled(&w.reps[i].kh);
    r.check(x == x2, key("merge-again"), || w.text(&format!("merging again changed something: {}", diff(&x, &x2))));
    let _ = (before, rb);
}

// ---------------------------------------------------------------- P22
use keyhive_core::access::Access;
use keyhive_core::principal::{agent::Agent, document::id::DocumentId, group::id::GroupId, membered::Membered};
use keyhive_core::transact::{fork::ForkAsync, merge::MergeAsync, transact_async};

/// what a transaction can use: people known, batches of events to hear
struct Pool {
    batches: Vec<Vec<Ev>>,
    cards: Vec<ContactCard>,
}
#[derive(Default)]
struct Did {
    text: Vec<String>,
    made: Vec<Identifier>,
    ciphers: Vec<Cipher>,
}
async fn known<Li: MembershipListener<Sendable, MemorySigner, T>>(kh: &K<Li>) -> Vec<(Identifier, bool)> {
    let mut v: Vec<(Identifier, bool)> = kh.groups().lock().await.keys().map(|g| (ident(g.to_bytes()), false)).collect();
    v.extend(kh.documents().lock().await.keys().map(|g| (ident(*g.as_bytes()), true)));
    v.sort();
    v
}
fn ident(b: [u8; 32]) -> Identifier {
    Identifier(ed25519_dalek::VerifyingKey::from_bytes(&b).unwrap())
}
async fn mem<Li: MembershipListener<Sendable, MemorySigner, T>>(kh: &K<Li>, x: (Identifier, bool)) -> Option<Membered<Sendable, MemorySigner, T, Li>> {
    if x.1 {
        kh.get_document(x.0.into()).await.map(|d| Membered::Document(x.0.into(), d))
    } else {
        kh.get_group(GroupId::new(x.0)).await.map(|d| Membered::Group(GroupId::new(x.0), d))
    }
}
/// one random action on a replica, whatever its listener
async fn act<Li: MembershipListener<Sendable, MemorySigner, T>>(kh: &K<Li>, rng: &mut StdRng, ids: &[Identifier], pool: &Pool, tag: u8, did: &mut Did) {
    let places = known(kh).await;
    let res: Result<String, String> = match rng.gen_range(0..12) {
        0 | 1 => {
            let mut with = vec![];
            for x in ids {
                if rng.gen_bool(0.3) {
                    with.extend(kh.get_peer(*x).await);
                }
            }
            if rng.gen() {
                match kh.generate_group(with).await {
                    Ok(g) => {
                        let id = g.lock().await.id();
                        did.made.push(id);
                        Ok(format!("makes group {}", sh(&id)))
                    }
                    Err(e) => Err(format!("group {e:?}")),
                }
            } else {
                let mut h = [tag; 32];
                h[1] = did.text.len() as u8;
                match kh.generate_doc(with, NonEmpty::new(h)).await {
                    Ok(d) => {
                        let id = d.lock().await.id();
                        did.made.push(id);
                        Ok(format!("makes document {}", sh(&id)))
                    }
                    Err(e) => Err(format!("document {e:?}")),
                }
            }
        }
        2 | 3 if !places.is_empty() => {
            let p = *pick(rng, &places);
            let all: Vec<Identifier> = ids.iter().cloned().chain(places.iter().map(|x| x.0)).filter(|x| *x != p.0).collect();
            let who = *pick(rng, &all);
            let can = *pick(rng, &LEVELS);
            match (kh.get_agent(who).await, mem(kh, p).await) {
                (Some(a), Some(m)) => kh.add_member(a, &m, can, &[]).await.map(|_| ()).map_err(|e| format!("{e:?}")).map(|_| format!("adds {} to {} as {can:?}", sh(&who), sh(&p.0))),
                _ => Err("unknown".into()),
            }
        }
        4 if !places.is_empty() => {
            let p = *pick(rng, &places);
            let m = mem(kh, p).await.unwrap();
            let mut who: Vec<Identifier> = m.members().await.keys().cloned().collect();
            who.sort();
            who.retain(|x| *x != kh.id().into());
            if who.is_empty() {
                return;
            }
            let w = *pick(rng, &who);
            let keep = rng.gen();
            kh.revoke_member(w, keep, &m).await.map(|_| ()).map_err(|e| format!("{e:?}")).map(|_| format!("removes {} from {}", sh(&w), sh(&p.0)))
        }
        5 => kh.expand_prekeys().await.map(|_| "expands".to_string()).map_err(|e| format!("{e:?}")),
        6 => {
            let old = kh.active().lock().await.pick_prekey(DocumentId::from(ids[0])).await;
            kh.rotate_prekey(old).await.map(|_| "rotates".to_string()).map_err(|e| format!("{e:?}"))
        }
        7 | 8 => {
            let ds: Vec<Identifier> = places.iter().filter(|x| x.1).map(|x| x.0).collect();
            if ds.is_empty() {
                return;
            }
            let d = *pick(rng, &ds);
            let dc = kh.get_document(d.into()).await.unwrap();
            let mut cref = [tag; 32];
            cref[1] = did.text.len() as u8;
            cref[2] = 9;
            let plain: Vec<u8> = (0..rng.gen_range(0..30)).map(|_| rng.gen()).collect();
            let preds: Vec<T> = did.ciphers.iter().filter(|c| c.doc == d).rev().take(1).map(|c| c.cref).collect();
            match kh.try_encrypt_content(dc, &cref, &preds, &plain).await {
                Ok(e) => {
                    did.ciphers.push(Cipher { doc: d, cref, preds, plain, enc: e.encrypted_content().clone(), by: 0 });
                    Ok(format!("encrypts in {}", sh(&d)))
                }
                Err(e) => Err(format!("encrypt {e:?}")),
            }
        }
        9 => {
            let ds: Vec<Identifier> = places.iter().filter(|x| x.1).map(|x| x.0).collect();
            if ds.is_empty() {
                return;
            }
            let d = *pick(rng, &ds);
            let dc = kh.get_document(d.into()).await.unwrap();
            kh.force_pcs_update(dc).await.map(|_| format!("updates {}", sh(&d))).map_err(|e| format!("update {e:?}"))
        }
        10 if !pool.cards.is_empty() => kh.receive_contact_card(pick(rng, &pool.cards)).await.map(|_| "card".to_string()).map_err(|e| format!("{e:?}")),
        _ if !pool.batches.is_empty() => {
            let mut evs = pick(rng, &pool.batches).clone();
            shuffle(rng, &mut evs);
            if rng.gen_bool(0.4) {
                evs.truncate(rng.gen_range(0..=evs.len()));
            }
            let n = evs.len();
            let p = kh.ingest_unsorted_static_events(evs).await.len();
            Ok(format!("hears {n} events, {p} pending"))
        }
        _ => return,
    };
    did.text.push(match res {
        Ok(s) => s,
        Err(e) => format!("refused: {}", e.chars().take(60).collect::<String>()),
    });
}
pub fn forked(r: &mut Rec, _c: u64) {
    let mix = Mix { steps: 8, ..FULL };
    let mut w = script(r, &mix);
    r.eval(&w.shape);
    let mut rng = sub_rng(&mut r.rng);
    let i = r.rng.gen_range(0..w.reps.len());
    let s = w.reps[i].s.clone();
    // what others have to tell
    let mut pool = Pool { batches: vec![], cards: vec![] };
    for _ in 0..3 {
        let j = r.rng.gen_range(0..w.reps.len());
        let Some(_) = (j != i).then_some(()) else { continue };
        for _ in 0..3 {
            let places = w.known_membered(j);
            if !places.is_empty() && r.rng.gen() {
                let (to, me) = (*pick(&mut rng, &places), w.reps[i].id());
                w.add(r, j, me, to, *pick(&mut rng, &LEVELS));
            }
            for d in w.docs.clone() {
                if r.rng.gen_bool(0.3) {
                    w.encrypt(r, j, d);
                }
            }
        }
        pool.batches.push(w.offered(j, w.reps[i].id()));
        if r.rng.gen_bool(0.3) {
            pool.cards.push(block_on(w.reps[j].kh.contact_card()).unwrap());
        }
        let st = signer(&mut rng);
        pool.cards.push(ContactCard::from(intro(&mut rng, &st)));
        w.names.insert(sid(&st), format!("P{}", pool.cards.len()));
        if r.rng.gen_bool(0.3) {
            know(&w.reps[i].kh, &mut rng, &st);
        }
    }
    let mut ids = everyone(&w);
    ids.extend(w.names.keys().filter(|x| x.0.as_bytes()[..] != Public.id().0.as_bytes()[..]));
    ids.sort();
    ids.dedup();
    let a0 = block_on(w.reps[i].kh.into_archive());
    let mk = |a: &Archive<T>, rng: &mut StdRng| restore(rng, a, s.clone(), St::new());
    let Ok(kh) = mk(&a0, &mut rng) else { return r.fail("refused", "a replica's own archive is refused".to_string()) };
    let trunk = Arc::new(Mutex::new(kh));
    let arc = |t: &Arc<Mutex<Kh>>| block_on(async { t.lock().await.into_archive().await });

    // a failed transaction
    if r.rng.gen_bool(0.5) {
        let before = arc(&trunk);
        let n = r.rng.gen_range(1..6);
        let (mut g, ids2, p) = (sub_rng(&mut r.rng), ids.clone(), &pool);
        let mut did = Did::default();
        let res: Result<(), String> = block_on(transact_async(&trunk, async |f| {
            for _ in 0..n {
                act(&f, &mut g, &ids2, p, 200, &mut did).await;
            }
            Err("no".to_string())
        }));
        for t in &did.text {
            r.t(format!("failing transaction {t}"));
        }
        r.check(res.is_err(), "harness", || "the transaction succeeded".into());
        r.check(arc(&trunk) == before, "failed-transaction", || w.text(&format!("a failed transaction changed the original: {:?}", parts(&before, &arc(&trunk)))));
    }
    // a fork and its original live on
    let fork: K<Log<Sendable, MemorySigner, T>> = block_on(trunk.fork_async());
    let fa = block_on(fork.into_archive());
    r.check(fa == arc(&trunk), "fork-differs", || format!("the fork differs from the original: {:?}", parts(&fa, &arc(&trunk))));
    let (mut df, mut dt) = (Did::default(), Did::default());
    let mut hear = 0;
    for _ in 0..r.rng.gen_range(1..9) {
        let on_fork = r.rng.gen_bool(0.6);
        let (tb, fb) = (arc(&trunk), block_on(fork.into_archive()));
        let mut g = sub_rng(&mut r.rng);
        if on_fork {
            let k = df.text.len();
            block_on(act(&fork, &mut g, &ids, &pool, 100, &mut df));
            for t in &df.text[k..] {
                r.t(format!("fork {t}"));
            }
            r.check(arc(&trunk) == tb, "leak", || w.text(&format!("acting on the fork changed the original: {:?}", parts(&tb, &arc(&trunk)))));
        } else {
            let k = dt.text.len();
            block_on(async { act(&*trunk.lock().await, &mut g, &ids, &pool, 101, &mut dt).await });
            for t in &dt.text[k..] {
                r.t(format!("trunk {t}"));
            }
            r.check(block_on(fork.into_archive()) == fb, "leak-to-fork", || w.text(&format!("acting on the original changed the fork: {:?}", parts(&fb, &block_on(fork.into_archive())))));
        }
        hear += 1;
    }
    let _ = hear;
    for (n, m) in df.made.iter().enumerate() {
        w.names.insert(*m, format!("F{n}"));
    }
    for (n, m) in dt.made.iter().enumerate() {
        w.names.insert(*m, format!("T{n}"));
    }
    ids.extend(df.made.iter().chain(&dt.made));
    ids.sort();
    ids.dedup();
    let mut ciphers: Vec<Cipher> = vec![];
    ciphers.extend(w.ciphers.drain(..));
    ciphers.extend(df.ciphers);
    ciphers.extend(dt.ciphers);
    let (ta, fa) = (arc(&trunk), block_on(fork.into_archive()));
    let (Ok(t0), Ok(f0)) = (mk(&ta, &mut rng), mk(&fa, &mut rng)) else { return r.fail("refused", "a replica's own archive is refused".to_string()) };
    let again: K<Log<Sendable, MemorySigner, T>> = block_on(Keyhive::try_from_archive(&fa, s.clone(), St::new(), Log::new(), Arc::new(Mutex::new(sub_rng(&mut rng))))).unwrap();
    block_on(async { again.event_listener().0.lock().await.extend(fork.event_listener().0.lock().await.iter().cloned()) });
    let evs: Vec<Ev> = all_events(&t0).into_iter().chain(all_events(&f0)).collect();
    let key = |k: &'static str| merge_key(&evs, k);
    let merged = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(trunk.clone().merge_async(fork))));
    if merged.is_err() {
        return r.fail(key("merge-panics"), w.text("merging a fork panics"));
    }
    let guard = block_on(trunk.lock());
    let m: &Kh = &guard;
    for (from, name) in [(&t0, "the original"), (&f0, "the fork")] {
        let l = lost(from, m, &ids, &ciphers);
        r.check(l.is_empty(), key("merge-lost"), || w.text(&format!("merging loses what {name} had: {l:?}")));
    }
    let settled = |kh: &Kh| -> View { answers(kh, &ids, &ciphers).into_iter().filter(|(k, _)| !k.starts_with("key of")).collect() };
    let x = settled(m);
    let Ok(t1) = mk(&ta, &mut rng) else { return };
    block_on(t1.ingest_archive(fa.clone())).unwrap();
    let y = settled(&t1);
    r.check(x == y, key("merge-differs"), || w.text(&format!("merging the fork differs from merging its archive: {}", diff(&x, &y))));
    drop(guard);
    let merged = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| block_on(trunk.clone().merge_async(again))));
    if merged.is_err() {
        return r.fail(key("merge-panics"), w.text("merging a fork again panics"));
    }
    let guard = block_on(trunk.lock());
    let z = settled(&guard);
    r.check(x == z, key("merge-again"), || w.text(&format!("merging again changed something: {}", diff(&x, &z))));
}
