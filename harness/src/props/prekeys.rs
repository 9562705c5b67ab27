//! Prekeys: what is advertised, chosen (P09) and exported (P10); dependency orders (P21).
use super::api::{script, FULL, W};
use crate::rec::Rec;
use crate::world::*;
use futures::executor::block_on;
use future_form::Sendable;
use keyhive_core::principal::agent::Agent;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::{id::IndividualId, op::KeyOp, Individual};
use keyhive_core::util::content_addressed_map::CaMap;
use keyhive_crypto::share_key::{ShareKey, ShareSecretKey};
use keyhive_crypto::signer::memory::MemorySigner;
use rand::rngs::StdRng;
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

fn sk(rng: &mut StdRng) -> ShareKey {
    ShareSecretKey::generate(rng).share_key()
}
fn add_of(s: &MemorySigner, k: ShareKey) -> KeyOp {
    use keyhive_core::principal::individual::op::add_key::AddKeyOp;
    KeyOp::Add(Arc::new(s.try_sign_sync(AddKeyOp { share_key: k }).unwrap()))
}
fn old_of(o: &KeyOp) -> Option<ShareKey> {
    match o {
        KeyOp::Rotate(x) => Some(x.payload().old),
        KeyOp::Add(_) => None,
    }
}
/// introduced minus rotated away; everything if nothing would be left
pub fn model<'a>(ops: impl Iterator<Item = &'a KeyOp> + Clone) -> BTreeSet<ShareKey> {
    let all: BTreeSet<ShareKey> = ops.clone().map(|o| *o.new_key()).collect();
    let gone: BTreeSet<ShareKey> = ops.filter_map(old_of).collect();
    let left: BTreeSet<ShareKey> = all.difference(&gone).cloned().collect();
    if left.is_empty() {
        all
    } else {
        left
    }
}
/// a random set of prekey operations of one signer
fn history(r: &mut Rec, s: &MemorySigner, max: usize, odd: bool) -> Vec<KeyOp> {
    let mut rng = sub_rng(&mut r.rng);
    let mut keys: Vec<ShareKey> = vec![sk(&mut rng)];
    let mut ops = vec![add_of(s, keys[0])];
    let n = r.rng.gen_range(0..max);
    for _ in 0..n {
        let old = *pick(&mut r.rng, &keys);
        match r.rng.gen_range(0..10) {
            0..=2 => {
                let k = sk(&mut rng);
                keys.push(k);
                ops.push(add_of(s, k));
            }
            3..=6 => {
                let k = sk(&mut rng);
                keys.push(k);
                ops.push(rotate_to(s, old, k));
            }
            // rotated by something not (yet) known
            7 => {
                let (a, b) = (sk(&mut rng), sk(&mut rng));
                keys.push(b);
                ops.push(rotate_to(s, a, b));
            }
            // the same key introduced again
            8 => ops.push(add_of(s, old)),
            _ if odd => {
                let other = *pick(&mut r.rng, &keys);
                ops.push(rotate_to(s, old, other));
            }
            _ => {}
        }
    }
    ops
}
pub fn advertised(r: &mut Rec, case: u64) {
    if case % 4 == 3 {
        return owner(r);
    }
    let mut rng = sub_rng(&mut r.rng);
    let s = signer(&mut rng);
    let id = sid(&s);
    let max = *pick(&mut r.rng, &[4, 10, 10, 40]);
    let odd = r.rng.gen_bool(0.3);
    let ops = history(r, &s, max, odd);
    for o in &ops {
        r.t(match old_of(o) {
            None => format!("add {}", short(o.new_key().as_bytes())),
            Some(k) => format!("rotate {} to {}", short(k.as_bytes()), short(o.new_key().as_bytes())),
        });
    }
    let want = model(ops.iter());
    let docs: Vec<DocumentId> = (0..4).map(|_| sid(&signer(&mut rng)).into()).collect();
    let mut picks: Option<Vec<ShareKey>> = None;
    r.eval(&(ops.len(), ops.iter().map(|o| old_of(o).is_some()).collect::<Vec<_>>(), odd));
    let n = if max > 10 { 2 } else { 3 };
    for d in 0..n {
        let mut v = ops.clone();
        shuffle(&mut r.rng, &mut v);
        if r.rng.gen() {
            let again = v[r.rng.gen_range(0..v.len())].clone();
            v.push(again);
        }
        let ind: Individual = match d {
            0 => {
                let mut i = Individual::new(v[0].clone());
                for (k, o) in v.iter().enumerate().skip(1) {
                    if i.receive_prekey_op(o.clone()).is_err() {
                        r.fail("prekey-refused", format!("a valid prekey operation of the individual is refused (number {k})"));
                    }
                    if k < 8 {
                        let m = model(v[..=k].iter());
                        r.check(prekeys_of(&i) == m, "prekeys-step", || format!("after {} operations {} keys are advertised, the operations leave {}", k + 1, prekeys_of(&i).len(), m.len()));
                        for doc in &docs {
                            let p = *i.pick_prekey(*doc);
                            r.check(m.contains(&p), "pick-advertised", || "the chosen prekey is not an advertised one".into());
                        }
                    }
                }
                // someone else's operation is not accepted
                let other = signer(&mut rng);
                let before = prekeys_of(&i);
                let got = i.receive_prekey_op(intro(&mut rng, &other));
                r.check(got.is_err() && prekeys_of(&i) == before && i.prekey_ops().len() == ops.iter().collect::<HashSet<_>>().len(), "prekey-foreign", || "an operation signed by somebody else is accepted for this individual".into());
                i
            }
            _ => {
                let kh = new_kh(&mut rng);
                if r.rng.gen() {
                    let p = ingest(&kh, v.iter().map(key_event).collect());
                    r.check(p == 0, "prekey-pending", || format!("{p} prekey operations stay pending"));
                } else {
                    for o in &v {
                        if block_on(kh.receive_prekey_op(o)).is_err() {
                            r.fail("prekey-refused", "a valid prekey operation is refused");
                        }
                    }
                }
                match individual_of(&kh, id) {
                    Some(i) => i,
                    None => {
                        r.fail("prekey-unknown", "the individual is not known after its prekey operations were received");
                        continue;
                    }
                }
            }
        };
        let got = prekeys_of(&ind);
        r.check(got == want && !got.is_empty(), "prekeys-exact", || format!("{} keys are advertised, the operations leave {}; missing {}, extra {}", got.len(), want.len(), want.difference(&got).count(), got.difference(&want).count()));
        let ps: Vec<ShareKey> = docs.iter().map(|d| *ind.pick_prekey(*d)).collect();
        r.check(ps.iter().all(|p| want.contains(p)), "pick-advertised", || format!("a prekey is chosen that is not advertised (of {})", want.len()));
        match &picks {
            None => picks = Some(ps),
            Some(q) => {
                r.check(*q == ps, "pick-deterministic", || format!("two replicas choose different prekeys of {} for the same document", want.len()));
            }
        }
        let again = bincode::deserialize::<Individual>(&bincode::serialize(&ind).unwrap()).unwrap();
        r.check(docs.iter().all(|d| again.pick_prekey(*d) == ind.pick_prekey(*d)), "pick-deterministic", || "another copy of the individual chooses another prekey".into());
    }
    r.count(&format!("sets of {}", match want.len() { 1 => "1", 2..=4 => "2-4", 5..=16 => "5-16", _ => "17+" }));
}
fn secrets(kh: &Kh) -> BTreeMap<ShareKey, ShareSecretKey> {
    bincode::deserialize(&block_on(kh.export_prekey_secrets()).unwrap()).unwrap()
}
fn owner(r: &mut Rec) {
    let mut rng = sub_rng(&mut r.rng);
    let a = Rep::new(&mut rng, "A");
    let b = Rep::new(&mut rng, "B");
    let mut shape = vec![];
    let mut seen: Vec<ShareKey> = vec![];
    let check = |r: &mut Rec, when: &str| {
        let mine = block_on(async { a.kh.individual().await.lock().await.clone() });
        let ops: Vec<KeyOp> = mine.prekey_ops().values().map(|o| o.as_ref().clone()).collect();
        let (ks, sec, want) = (prekeys_of(&mine), secrets(&a.kh), model(ops.iter()));
        r.check(ks == want, "owner-prekeys", || format!("{when}: {} keys advertised, own operations leave {}", ks.len(), want.len()));
        r.check(ks.iter().all(|k| sec.contains_key(k)), "owner-secret", || format!("{when}: a prekey is advertised without its secret"));
        r.check(sec.iter().all(|(k, s)| s.share_key() == *k), "owner-secret", || format!("{when}: a stored secret does not belong to its prekey"));
        r.check(ops.iter().all(|o| sec.contains_key(o.new_key())), "owner-secret", || format!("{when}: the secret of a prekey that was once advertised is gone"));
        ks
    };
    check(r, "at the start");
    for _ in 0..r.rng.gen_range(1..10) {
        let op = r.rng.gen_range(0..5);
        shape.push(op);
        let before = check(r, "before");
        match op {
            0 => {
                let o = block_on(a.kh.expand_prekeys()).unwrap();
                let after = check(r, "after expanding");
                r.check(after.len() == before.len() + 1 && after.contains(&o.payload().share_key) && before.is_subset(&after), "owner-expand", || "expanding does not add exactly one key".into());
            }
            1 | 2 => {
                let k = if op == 2 && !seen.is_empty() { *pick(&mut r.rng, &seen) } else { *before.iter().nth(r.rng.gen_range(0..before.len())).unwrap() };
                let o = block_on(a.kh.rotate_prekey(k)).unwrap();
                seen.push(k);
                let after = check(r, "after rotating");
                let mut want = before.clone();
                want.remove(&k);
                want.insert(o.payload().new);
                r.check(after == want && o.payload().old == k, "owner-rotate", || "rotating does not replace exactly the given key".into());
            }
            3 => {
                let c = block_on(a.kh.contact_card()).unwrap();
                let got = block_on(b.kh.receive_contact_card(&c));
                r.check(got.is_ok(), "contact-card", || "a fresh contact card is refused".into());
                check(r, "after a contact card");
            }
            _ => {
                // somebody adds us to a document with one of our keys: we can use it
                let c = block_on(a.kh.get_existing_contact_card());
                r.check(block_on(b.kh.receive_contact_card(&c)).is_ok(), "contact-card", || "an existing contact card is refused".into());
                for o in my_prekey_ops(&a.kh) {
                    block_on(b.kh.receive_prekey_op(&o)).unwrap();
                }
                let (x, y) = (individual_of(&b.kh, a.id()).unwrap(), block_on(async { a.kh.individual().await.lock().await.clone() }));
                r.check(prekeys_of(&x) == prekeys_of(&y), "prekeys-exact", || "a peer with all prekey operations sees other prekeys than the owner".into());
                let d: DocumentId = sid(&signer(&mut rng)).into();
                r.check(x.pick_prekey(d) == y.pick_prekey(d), "pick-deterministic", || "a peer chooses another prekey than the owner".into());
                r.check(secrets(&a.kh).contains_key(x.pick_prekey(d)), "owner-secret", || "a peer chooses a prekey whose secret the owner lacks".into());
            }
        }
    }
    // secrets survive an export to another replica of the same person
    let e = block_on(a.kh.export_prekey_secrets()).unwrap();
    let a2 = new_kh_with(&mut rng, a.s.clone());
    let had = secrets(&a2);
    r.check(block_on(a2.import_prekey_secrets(&e)).is_ok(), "owner-import", || "exported secrets are refused".into());
    let got = secrets(&a2);
    r.check(secrets(&a.kh).iter().chain(had.iter()).all(|(k, v)| got.get(k).is_some_and(|x| x.to_bytes() == v.to_bytes())), "owner-import", || "importing secrets loses some".into());
    r.eval(&shape);
    r.count("owners");
}

// ---------------------------------------------------------------- P10
/// every operation once, introductions before rotations of the same key (circles excepted)
fn check_export(r: &mut Rec, what: &str, all: &[KeyOp], out: &[Arc<KeyOp>]) {
    let want: HashSet<&KeyOp> = all.iter().collect();
    let got: HashSet<&KeyOp> = out.iter().map(|o| o.as_ref()).collect();
    r.check(got == want, "export-complete", || format!("{what}: {} of {} operations exported, {} foreign", got.intersection(&want).count(), want.len(), got.difference(&want).count()));
    r.check(out.len() == got.len(), "export-once", || format!("{what}: {} entries for {} operations", out.len(), got.len()));
    let on_circle = below_circle(all);
    for (i, o) in out.iter().enumerate() {
        if let Some(old) = old_of(o) {
            if on_circle.contains(&old) {
                continue;
            }
            if let Some(j) = out.iter().rposition(|p| *p.new_key() == old) {
                r.check(j < i, "export-order", || format!("{what}: the rotation at {i} comes before an introduction of the rotated key at {j}"));
            }
        }
    }
}
/// keys that can be reached from a circle of rotations
fn below_circle(all: &[KeyOp]) -> HashSet<ShareKey> {
    let mut next: HashMap<ShareKey, Vec<ShareKey>> = HashMap::new();
    for o in all {
        if let Some(k) = old_of(o) {
            next.entry(k).or_default().push(*o.new_key());
        }
    }
    let reach = |k: &ShareKey| {
        let mut seen = HashSet::new();
        let mut todo: Vec<ShareKey> = next.get(k).cloned().unwrap_or_default();
        while let Some(x) = todo.pop() {
            if seen.insert(x) {
                todo.extend(next.get(&x).cloned().unwrap_or_default());
            }
        }
        seen
    };
    let mut out = HashSet::new();
    for k in next.keys() {
        let s = reach(k);
        if s.contains(k) {
            out.extend(s);
        }
    }
    out
}
pub fn export(r: &mut Rec, case: u64) {
    if case % 3 == 2 {
        return export_of_replicas(r);
    }
    sorted(r)
}
pub fn sorted(r: &mut Rec) {
    let mut rng = sub_rng(&mut r.rng);
    let s = signer(&mut rng);
    let odd = r.rng.gen_bool(0.5);
    let max = *pick(&mut r.rng, &[4, 8, 20]);
    let ops = history(r, &s, max, odd);
    for o in &ops {
        r.t(match old_of(o) {
            None => format!("add {}", short(o.new_key().as_bytes())),
            Some(k) => format!("rotate {} to {}", short(k.as_bytes()), short(o.new_key().as_bytes())),
        });
    }
    let mut m = CaMap::new();
    for o in &ops {
        m.insert(Arc::new(o.clone()));
    }
    r.eval(&(ops.len(), ops.iter().map(|o| old_of(o).is_some()).collect::<Vec<_>>(), odd));
    for _ in 0..3 {
        // other insertion orders iterate differently
        let mut v = ops.clone();
        shuffle(&mut r.rng, &mut v);
        let m2 = CaMap::from_iter_direct(v.into_iter().map(Arc::new));
        let out = KeyOp::topsort(&m2);
        check_export(r, "sorting", &ops, &out);
    }
    let out = KeyOp::topsort(&m);
    check_export(r, "sorting", &ops, &out);
    // replay
    let mut i = Individual::new(out[0].as_ref().clone());
    for o in &out[1..] {
        let _ = i.receive_prekey_op(o.as_ref().clone());
    }
    r.check(prekeys_of(&i) == model(ops.iter()), "export-replay", || "replaying the export gives other prekeys".into());
    r.count(if below_circle(&ops).is_empty() { "without circles" } else { "with circles" });
}
fn key_ops_of(kh: &Kh, id: Identifier) -> Option<Vec<KeyOp>> {
    let i = if id == Identifier::from(kh.id()) { block_on(async { kh.individual().await.lock().await.clone() }) } else { individual_of(kh, id)? };
    Some(i.prekey_ops().values().map(|o| o.as_ref().clone()).collect())
}
fn export_of_replicas(r: &mut Rec) {
    let mut mix = FULL;
    mix.steps = 8;
    let w: W = script(r, &mix);
    r.eval(&w.shape);
    for i in 0..w.reps.len() {
        let kh = &w.reps[i].kh;
        let all = block_on(kh.reachable_prekey_ops_for_all_agents());
        for j in 0..w.reps.len() {
            let id = w.reps[j].id();
            let Some(a) = w.reps[i].agent(id) else { continue };
            let out = block_on(kh.reachable_prekey_ops_for_agent(&a));
            for (who, ops) in &out {
                if let Some(known) = key_ops_of(kh, *who) {
                    check_export(r, &format!("{} for {}: {}", w.reps[i].name, w.reps[j].name, w.nm(who)), &known, ops);
                }
            }
            r.check(key_ops_of(kh, id).is_none_or(|k| k.is_empty() || out.contains_key(&id)), "export-complete", || format!("{} does not export {}'s own operations to it", w.reps[i].name, w.reps[j].name));
            let me = w.reps[i].id();
            r.check(out.contains_key(&me), "export-complete", || format!("{} does not export its own prekeys to {}", w.reps[i].name, w.reps[j].name));
            // everyone it shares a group or document with
            for m in w.known_membered(i) {
                let ms = transitive(kh, m);
                if ms.contains_key(&id) {
                    for p in ms.keys() {
                        if key_ops_of(kh, *p).is_some_and(|k| !k.is_empty()) {
                            r.check(out.contains_key(p), "export-complete", || format!("{} does not export the prekeys of {} (a member of {}) to {}", w.reps[i].name, w.nm(p), w.nm(&m), w.reps[j].name));
                        }
                    }
                }
            }
            let bulk: BTreeSet<String> = all.ops_for_agent(&id).map(|it| it.map(|o| hx(o.as_ref())).collect()).unwrap_or_default();
            let single: BTreeSet<String> = out.values().flatten().map(|o| hx(o.as_ref())).collect();
            r.check(bulk == single, "export-bulk", || format!("{} for {}: the bulk export has {} operations, the single one {}", w.reps[i].name, w.reps[j].name, bulk.len(), single.len()));
            // a fresh peer replaying the export
            let mut rng = sub_rng(&mut r.rng);
            let f = new_kh(&mut rng);
            let mut ok = true;
            for ops in out.values() {
                for o in ops {
                    ok &= block_on(f.receive_prekey_op(o)).is_ok();
                }
            }
            r.check(ok, "export-replay", || "replaying the export fails".into());
            for who in out.keys() {
                if let Some(k) = key_ops_of(kh, *who) {
                    if !k.is_empty() {
                        let got = individual_of(&f, *who).map(|i| prekeys_of(&i));
                        r.check(got.as_ref() == Some(&model(k.iter())), "export-replay", || format!("a fresh peer has other prekeys for {}", w.nm(who)));
                    }
                }
            }
        }
        for (who, ops) in &all.ops {
            if let Some(known) = key_ops_of(kh, *who) {
                check_export(r, &format!("{} in bulk: {}", w.reps[i].name, w.nm(who)), &known, ops);
            }
        }
    }
    r.count("replicas");
}
