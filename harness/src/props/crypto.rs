//! Ciphertexts (P15), causal decryption (P16), stores (P17).
use super::api::W;
use crate::rec::Rec;
use crate::world::*;
use beekem::{encrypted::EncryptedContent, operation::CgkaOperation};
use futures::executor::block_on;
use future_form::Sendable;
use keyhive_core::access::Access;
use keyhive_core::crypto::envelope::Envelope;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::store::ciphertext::{memory::MemoryCiphertextStore, CausalDecryptionState, CiphertextStore, CiphertextStoreExt};
use keyhive_core::store::{delegation::DelegationStore, revocation::RevocationStore};
use keyhive_core::util::content_addressed_map::CaMap;
use keyhive_crypto::{digest::Digest, share_key::ShareSecretKey, signed::Signed, siv::Siv, symmetric_key::SymmetricKey};
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub type Enc = EncryptedContent<Vec<u8>, T>;

fn op_digest(n: u8) -> Digest<Signed<CgkaOperation>> {
    Digest::<u8>::hash(&n).coerce()
}
fn flip(rng: &mut rand::rngs::StdRng, v: &mut [u8]) {
    if v.is_empty() {
        return;
    }
    let i = rng.gen_range(0..v.len());
    v[i] ^= 1 << rng.gen_range(0..8);
}

/// P15: what is encrypted opens to itself, and to nothing else when anything about it changes
pub fn binding(r: &mut Rec, case: u64) {
    keys_and_nonces(r);
    if case % 3 == 0 {
        documents(r);
    }
}

fn bytes(r: &mut Rec, max: usize) -> Vec<u8> {
    let n = match r.rng.gen_range(0..6) {
        0 => 0,
        1 => r.rng.gen_range(0..3),
        2 => 64 * r.rng.gen_range(1usize..4) + r.rng.gen_range(0usize..3) - 1,
        _ => r.rng.gen_range(0..max),
    };
    (0..n).map(|_| r.rng.gen()).collect()
}

fn keys_and_nonces(r: &mut Rec) {
    let mut rng = sub_rng(&mut r.rng);
    let key = SymmetricKey::generate(&mut rng);
    let doc: [u8; 32] = rng.gen();
    let mut plain = bytes(r, 300);
    if r.rng.gen_ratio(1, 300) {
        plain.resize(1 << r.rng.gen_range(10..20), 7);
        r.count("large");
    }
    r.eval(&(plain.len(), doc[0]));
    // nonces
    let n = Siv::new(&key, &plain, &doc);
    r.check(n == Siv::new(&key, &plain, &doc), "nonce-deterministic", || "the nonce of the same plaintext, key and document differs between two computations".into());
    let mut variants: Vec<(&str, SymmetricKey, Vec<u8>, [u8; 32])> = vec![];
    for _ in 0..3 {
        if !plain.is_empty() {
            let mut p = plain.clone();
            flip(&mut rng, &mut p);
            variants.push(("a changed plaintext", key, p, doc));
        }
        let mut d = doc;
        flip(&mut rng, &mut d);
        variants.push(("another document", key, plain.clone(), d));
        let mut k: [u8; 32] = key.into();
        flip(&mut rng, &mut k);
        variants.push(("another key", k.into(), plain.clone(), doc));
    }
    let mut longer = plain.clone();
    longer.push(rng.gen());
    variants.push(("a longer plaintext", key, longer, doc));
    longer = plain.clone();
    longer.push(0);
    variants.push(("a plaintext with a trailing zero", key, longer, doc));
    if let Some((_, init)) = plain.split_last() {
        variants.push(("a shorter plaintext", key, init.to_vec(), doc));
    }
    for (what, k, p, d) in variants {
        r.check(Siv::new(&k, &p, &d) != n, "nonce-distinct", || format!("{what} gets the same nonce (plaintext of {} bytes)", plain.len()));
    }
    // raw encryption
    let mut c = plain.clone();
    let ok = key.try_encrypt(n, &mut c).is_ok();
    r.check(ok && c.len() == plain.len() + 16, "encrypt", || format!("encrypting {} bytes gives {} bytes", plain.len(), c.len()));
    r.check(plain.len() < 8 || !c.windows(plain.len()).any(|w| w == plain), "encrypt-hides", || "the ciphertext contains the plaintext".into());
    let open = |k: &SymmetricKey, n: Siv, c: &[u8]| {
        let mut b = c.to_vec();
        k.try_decrypt(n, &mut b).ok().map(|_| b)
    };
    r.check(open(&key, n, &c) == Some(plain.clone()), "decrypt-roundtrip", || format!("{} bytes do not come back", plain.len()));
    let sealed = key.try_seal(&plain, &doc).unwrap();
    r.check(key.try_seal(&plain, &doc).unwrap() == sealed, "seal-deterministic", || "sealing twice gives different blobs".into());
    r.check(key.try_open(&sealed).ok() == Some(plain.clone()), "seal-roundtrip", || format!("{} sealed bytes do not come back", plain.len()));
    for _ in 0..8 {
        let (mut c2, mut n2, mut k2) = (c.clone(), <[u8; 24]>::from(n), <[u8; 32]>::from(key));
        let what = match rng.gen_range(0..6) {
            0 | 1 => {
                flip(&mut rng, &mut c2);
                "ciphertext"
            }
            2 => {
                flip(&mut rng, &mut n2);
                "nonce"
            }
            3 => {
                flip(&mut rng, &mut k2);
                "key"
            }
            4 => {
                let l = rng.gen_range(0..c2.len());
                c2.truncate(l);
                "length"
            }
            _ => {
                c2.push(rng.gen());
                "length"
            }
        };
        r.check(open(&k2.into(), n2.into(), &c2).is_none(), "tamper-raw", || format!("a ciphertext with a changed {what} opens"));
        let mut s = sealed.clone();
        match rng.gen_range(0..3) {
            0 => flip(&mut rng, &mut s),
            1 => {
                let l = rng.gen_range(0..s.len());
                s.truncate(l)
            }
            _ => s.push(rng.gen()),
        }
        r.check(key.try_open(&s).is_err(), "tamper-sealed", || "a changed sealed blob opens".into());
        let k3: SymmetricKey = k2.into();
        r.check(k3 == key || k3.try_open(&sealed).is_err(), "tamper-sealed", || "a sealed blob opens under another key".into());
    }
    // secrets for tree nodes
    let (a, b, s, x) = (ShareSecretKey::generate(&mut rng), ShareSecretKey::generate(&mut rng), ShareSecretKey::generate(&mut rng), ShareSecretKey::generate(&mut rng));
    let es = beekem::encrypted::encrypt_secret(&doc, s, &a, &b.share_key()).unwrap();
    let want: Vec<u8> = (&s).into();
    r.check(es.try_encrypter_decrypt(&a).ok() == Some(want.clone()), "secret-roundtrip", || "the encrypter cannot read back a node secret".into());
    r.check(open(&b.derive_symmetric_key(&a.share_key()), es.nonce, &es.ciphertext) == Some(want), "secret-roundtrip", || "the recipient cannot read a node secret".into());
    r.check(es.try_encrypter_decrypt(&x).is_err() && open(&x.derive_symmetric_key(&a.share_key()), es.nonce, &es.ciphertext).is_none(), "secret-bound", || "a node secret opens for a third key".into());
    let mut t = es.clone();
    flip(&mut rng, &mut t.ciphertext);
    r.check(t.try_encrypter_decrypt(&a).is_err(), "secret-bound", || "a changed node secret opens".into());
    r.count("key cases");
}

fn documents(r: &mut Rec) {
    let mut rng = sub_rng(&mut r.rng);
    let mut w = W::new(&mut rng, 3);
    let (other, late) = (w.reps[1].id(), w.reps[2].id());
    let Some(d1) = w.gen_doc(r, 0, &[other, late]) else { return };
    let Some(d2) = w.gen_doc(r, 0, &[other, late]) else { return };
    let meet = |w: &W| for _ in 0..2 {
        w.sync(0, 1);
        w.sync(1, 0);
    };
    for _ in 0..r.rng.gen_range(2..6) {
        let d = if r.rng.gen() { d1 } else { d2 };
        w.encrypt(r, 0, d);
        if r.rng.gen_bool(0.3) {
            if let Some(dc) = doc(&w.reps[0].kh, d) {
                let _ = block_on(w.reps[0].kh.force_pcs_update(dc));
                r.t("update");
            }
        }
    }
    meet(&w);
    if r.rng.gen() {
        w.encrypt(r, 1, d1);
        meet(&w);
    }
    let n = w.ciphers.len();
    r.eval(&w.shape);
    if r.rng.gen() {
        // the first thing a reader sees names the wrong update
        for c in &w.ciphers {
            let mut e = c.enc.clone();
            e.pcs_update_op_hash = op_digest(9);
            if let Some(dc) = doc(&w.reps[1].kh, c.doc) {
                let got = block_on(w.reps[1].kh.try_decrypt_content(dc, &e)); 
                r.check(!matches!(&got, Ok(p) if *p != c.plain), "tamper-key-reference", || format!("an entry naming another update decrypts to {got:?} instead of {:?}", c.plain));
            }
        }
    }
    for k in 0..n {
        for i in 0..2 {
            let c = &w.ciphers[k];
            let got = w.decrypt(i, c);
            r.check(matches!(&got, Some(Ok(p)) if *p == c.plain), "document-roundtrip", || format!("{} reading what {} wrote: {got:?}", w.reps[i].name, w.reps[c.by].name));
        }
    }
    // encrypting again gives the same ciphertext; another plaintext another nonce
    for k in 0..n {
        let c = &w.ciphers[k];
        let dc = doc(&w.reps[c.by].kh, c.doc).unwrap();
        let e1 = block_on(w.reps[c.by].kh.try_encrypt_content(dc.clone(), &c.cref, &c.preds, &c.plain));
        let e2 = block_on(w.reps[c.by].kh.try_encrypt_content(dc.clone(), &c.cref, &c.preds, &c.plain));
        if let (Ok(a), Ok(b)) = (&e1, &e2) {
            r.check(a.encrypted_content() == b.encrypted_content(), "encrypt-deterministic", || "the same plaintext, content reference and predecessors encrypt differently under one document key".into());
            let mut p = c.plain.clone();
            p.push(1);
            if let Ok(x) = block_on(w.reps[c.by].kh.try_encrypt_content(dc, &c.cref, &c.preds, &p)) {
                r.check(x.encrypted_content().nonce != a.encrypted_content().nonce, "nonce-distinct", || "two plaintexts encrypted in one document share a nonce".into());
            }
        }
    }
    // entries that name another key or another update: no other data, no lasting effect
    for _ in 0..3 {
        let c = &w.ciphers[r.rng.gen_range(0..n)];
        let i = r.rng.gen_range(0..2);
        let Some(dc) = doc(&w.reps[i].kh, c.doc) else { continue };
        let ops: Vec<Digest<Signed<CgkaOperation>>> = block_on(async { dc.lock().await.cgka_ops().map(|es| es.iter().flat_map(|e| e.iter().map(|o| Digest::hash(o.as_ref())).collect::<Vec<_>>()).collect()).unwrap_or_default() });
        let mut e = c.enc.clone();
        if !ops.is_empty() && r.rng.gen_bool(0.7) {
            e.pcs_update_op_hash = *pick(&mut r.rng, &ops);
        } else {
            e.pcs_update_op_hash = op_digest(r.rng.gen());
        }
        if r.rng.gen_bool(0.5) {
            e.pcs_key_hash = Digest::<u8>::hash(&r.rng.gen()).coerce();
        }
        let got = block_on(w.reps[i].kh.try_decrypt_content(dc, &e));
        r.check(!matches!(&got, Ok(p) if *p != c.plain), "tamper-key-reference", || format!("an entry naming another update decrypts to {got:?} instead of {:?}", c.plain));
        r.count("changed key reference");
    }
    {
        let i = r.rng.gen_range(0..2);
        for d in [d1, d2] {
            let k = w.ciphers.len();
            if w.encrypt(r, i, d) {
                meet(&w);
                if let Some(dc) = doc(&w.reps[i].kh, d) {
                    let _ = block_on(w.reps[i].kh.force_pcs_update(dc));
                }
                let got = w.decrypt(1 - i, &w.ciphers[k]);
                r.check(matches!(&got, Some(Ok(p)) if *p == w.ciphers[k].plain), "tamper-harmless", || format!("after entries naming another update were tried, what {} encrypts no longer decrypts at {}: {got:?}", w.reps[i].name, w.reps[1 - i].name));
            }
        }
    }
    // a reader that hears of all this only now
    w.sync_all();
    for c in w.ciphers.iter().rev() {
        let got = w.decrypt(2, c);
        r.check(matches!(&got, Some(Ok(p)) if *p == c.plain), "late-reader", || format!("a member that learns of everything late cannot read what {} wrote: {got:?}", w.reps[c.by].name));
    }
    for _ in 0..12 {
        let k = r.rng.gen_range(0..n);
        let o = r.rng.gen_range(0..n);
        let (c, oc) = (&w.ciphers[k], &w.ciphers[o]);
        let i = r.rng.gen_range(0..2);
        let mut e = c.enc.clone();
        let mut d = c.doc;
        let what = match r.rng.gen_range(0..9) {
            0 => {
                flip(&mut r.rng, &mut e.ciphertext);
                "ciphertext"
            }
            1 => {
                let mut b = <[u8; 24]>::from(e.nonce);
                flip(&mut r.rng, &mut b);
                e.nonce = b.into();
                "nonce"
            }
            2 => {
                let l = r.rng.gen_range(0..e.ciphertext.len());
                e.ciphertext.truncate(l);
                "ciphertext (truncated)"
            }
            3 => {
                flip(&mut r.rng, &mut e.content_ref);
                "content reference"
            }
            4 => {
                let mut p = c.preds.clone();
                match r.rng.gen_range(0..3) {
                    0 => p.push(r.rng.gen()),
                    1 if !p.is_empty() => {
                        p.pop();
                    }
                    _ if p.len() > 1 && p[0] != p[1] => p.swap(0, 1),
                    _ => p.push([0; 32]),
                }
                e.pred_refs = Digest::hash(&p);
                "predecessors"
            }
            5 => {
                d = if c.doc == d1 { d2 } else { d1 };
                "document"
            }
            6 if oc.enc.content_ref != e.content_ref => {
                e.content_ref = oc.enc.content_ref;
                "content reference (of another entry)"
            }
            7 if oc.enc.pcs_key_hash != e.pcs_key_hash => {
                e.pcs_key_hash = oc.enc.pcs_key_hash;
                e.pcs_update_op_hash = oc.enc.pcs_update_op_hash;
                "document key"
            }
            _ => {
                if oc.enc.ciphertext == e.ciphertext {
                    continue;
                }
                e.ciphertext = oc.enc.ciphertext.clone();
                "ciphertext (of another entry)"
            }
        };
        let Some(dc) = doc(&w.reps[i].kh, d) else { continue };
        r.count(&format!("changed {}", what.split(' ').next().unwrap()));
        let got = block_on(w.reps[i].kh.try_decrypt_content(dc, &e));
        r.check(got.is_err(), "tamper-document", || format!("an entry with a changed {what} decrypts at {} to {got:?} (written: {:?})", w.reps[i].name, c.plain));
        let again = w.decrypt(i, c);
        r.check(matches!(&again, Some(Ok(p)) if *p == c.plain), "tamper-harmless", || format!("after a changed {what} was refused, the original no longer decrypts: {again:?}"));
    }
}

// ---------------------------------------------------------------- P16
/// a store that fails for some references, on top of the in-memory one
#[derive(Clone)]
pub struct Flaky {
    pub inner: St,
    pub bad: Arc<HashSet<T>>,
    pub bad_mark: Arc<HashSet<T>>,
}
#[derive(Debug, Clone)]
pub struct Down;
impl std::fmt::Display for Down {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "down")
    }
}
type Fut<'a, X> = <Sendable as future_form::FutureForm>::Future<'a, X>;
impl CiphertextStore<Sendable, T, Vec<u8>> for Flaky {
    type GetCiphertextError = Down;
    type MarkDecryptedError = Down;
    fn get_ciphertext<'a>(&'a self, id: &'a T) -> Fut<'a, Result<Option<Arc<Enc>>, Down>> {
        Box::pin(async move {
            if self.bad.contains(id) {
                return Err(Down);
            }
            Ok(self.inner.get_by_content_ref(id).await)
        })
    }
    fn get_ciphertext_by_pcs_update<'a>(&'a self, u: &'a Digest<Signed<CgkaOperation>>) -> Fut<'a, Result<Vec<Arc<Enc>>, Down>> {
        Box::pin(async move { Ok(self.inner.get_by_pcs_update(u).await) })
    }
    fn mark_decrypted<'a>(&'a self, id: &'a T) -> Fut<'a, Result<(), Down>> {
        Box::pin(async move {
            if self.bad_mark.contains(id) {
                return Err(Down);
            }
            self.inner.remove_all(id).await;
            Ok(())
        })
    }
}
fn cref(n: usize) -> T {
    let mut c = [0u8; 32];
    c[0] = n as u8;
    c[9] = 7;
    c
}
struct Node {
    key: SymmetricKey,
    plain: Vec<u8>,
    /// ancestors with the key carried for each
    anc: BTreeMap<usize, SymmetricKey>,
    stored: bool,
    /// opens with `key`, and the bytes are an envelope
    good: bool,
    enc: Arc<Enc>,
}
fn nodes(r: &mut Rec, n: usize) -> Vec<Node> {
    let mut rng = sub_rng(&mut r.rng);
    let keys: Vec<SymmetricKey> = (0..n).map(|_| SymmetricKey::generate(&mut rng)).collect();
    let cyc = r.rng.gen_bool(0.3);
    let dense = r.rng.gen_range(1..4);
    let (p_wrong, p_missing, p_bad) = *pick(&mut r.rng, &[(0.0, 0.0, 0.0), (0.25, 0.1, 0.0), (0.0, 0.3, 0.15), (0.15, 0.15, 0.15)]);
    (0..n)
        .map(|i| {
            let mut anc = BTreeMap::new();
            for _ in 0..dense {
                let a = if cyc && r.rng.gen_bool(0.4) { r.rng.gen_range(0..n) } else if i + 1 < n { r.rng.gen_range(i + 1..n) } else { continue };
                let k = if r.rng.gen_bool(p_wrong) { SymmetricKey::generate(&mut rng) } else { keys[a] };
                anc.insert(a, k);
            }
            let plain = vec![i as u8; r.rng.gen_range(0..6)];
            let kind = if r.rng.gen_bool(p_bad) { r.rng.gen_range(0..2) } else { 2 };
            let mut b = bincode::serialize(&Envelope { plaintext: plain.clone(), ancestors: anc.iter().map(|(a, k)| (cref(*a), *k)).collect() }).unwrap();
            if kind == 0 {
                b = vec![255; 5];
            }
            let nonce = Siv::new(&keys[i], &b, &[0; 32]);
            keys[i].try_encrypt(nonce, &mut b).unwrap();
            if kind == 1 {
                let l = b.len();
                b[l - 1] ^= 1;
            }
            let sk = ShareSecretKey::generate(&mut rng);
            let enc = Arc::new(Enc::new(nonce, b, Digest::hash(&beekem::pcs_key::PcsKey::new(sk)), op_digest(i as u8 % 3), cref(i), Digest::hash(&vec![])));
            Node { key: keys[i], plain, anc, stored: !r.rng.gen_bool(p_missing), good: kind == 2, enc }
        })
        .collect()
}
pub fn causal(r: &mut Rec, case: u64) {
    if case % 6 == 5 {
        return causal_document(r);
    }
    let n = r.rng.gen_range(1..10);
    let ns = nodes(r, n);
    let store = Flaky {
        inner: MemoryCiphertextStore::new(),
        bad: Arc::new((0..n).filter(|_| r.rng.gen_bool(0.05)).map(cref).collect()),
        bad_mark: Arc::new((0..n).filter(|_| r.rng.gen_bool(0.03)).map(cref).collect()),
    };
    for x in &ns {
        if x.stored {
            block_on(store.inner.insert(x.enc.clone()));
        }
    }
    let heads: Vec<(usize, SymmetricKey)> = (0..r.rng.gen_range(1..4))
        .map(|_| {
            let h = r.rng.gen_range(0..n.min(3));
            (h, if r.rng.gen_bool(0.1) { SymmetricKey::from([9; 32]) } else { ns[h].key })
        })
        .collect();
    let shape: Vec<(Vec<usize>, bool, bool)> = ns.iter().map(|x| (x.anc.keys().cloned().collect(), x.stored, x.good)).collect();
    r.eval(&(shape, heads.iter().map(|h| h.0).collect::<Vec<_>>()));
    for (i, x) in ns.iter().enumerate() {
        r.t(format!("{i}: ancestors {:?} stored {} good {}", x.anc.iter().map(|(a, k)| format!("{a}{}", if *k == ns[*a].key { "" } else { "(wrong key)" })).collect::<Vec<_>>(), x.stored, x.good));
    }
    r.t(format!("from {:?}", heads.iter().map(|h| h.0).collect::<Vec<_>>()));
    let mut todo: Vec<(Arc<Enc>, SymmetricKey)> = heads.iter().map(|(h, k)| (ns[*h].enc.clone(), *k)).collect();
    let res = block_on(CiphertextStoreExt::<Sendable, T, Vec<u8>>::try_causal_decrypt(&store, &mut todo));
    let (progress, cannot): (CausalDecryptionState<T, Vec<u8>>, BTreeSet<T>) = match res {
        Ok(p) => (p, BTreeSet::new()),
        Err(e) => (e.progress, e.cannot.into_keys().collect()),
    };
    // least fixed point over (node, key) pairs
    let opens = |i: usize, k: &SymmetricKey| ns[i].good && *k == ns[i].key;
    let mut pairs: BTreeSet<(usize, [u8; 32])> = BTreeSet::new();
    let mut work: Vec<(usize, SymmetricKey)> = heads.clone();
    let mut done: BTreeSet<usize> = BTreeSet::new();
    let (mut missing, mut failing) = (BTreeSet::new(), BTreeSet::new());
    while let Some((i, k)) = work.pop() {
        if !pairs.insert((i, k.into())) {
            continue;
        }
        if opens(i, &k) && done.insert(i) {
            for (a, ak) in &ns[i].anc {
                if store.bad.contains(&cref(*a)) {
                    failing.insert(*a);
                } else if ns[*a].stored {
                    work.push((*a, *ak));
                } else {
                    missing.insert(*a);
                }
            }
        }
    }
    let got: Vec<usize> = progress.complete.iter().map(|(c, _)| c[0] as usize).collect();
    let set: BTreeSet<usize> = got.iter().cloned().collect();
    r.check(set.len() == got.len(), "causal-once", || format!("an entry is returned twice: {got:?}"));
    r.check(set == done, "causal-exact", || format!("returned {set:?}, reachable and readable {done:?}"));
    for (c, p) in &progress.complete {
        let i = c[0] as usize;
        r.check(*p == ns[i].plain, "causal-plaintext", || format!("entry {i} returned with {p:?} instead of {:?}", ns[i].plain));
        r.check(progress.keys.get(c) == Some(&ns[i].key), "causal-key", || format!("entry {i} is not reported with the key that opens it"));
    }
    r.check(progress.keys.len() == progress.complete.len(), "causal-key", || "keys are reported for entries that were not decrypted".into());
    let next: BTreeSet<usize> = progress.next.keys().map(|c| c[0] as usize).collect();
    r.check(next == missing, "causal-missing", || format!("reported missing {next:?}, actually missing {missing:?}"));
    for (c, k) in &progress.next {
        let a = c[0] as usize;
        r.check(done.iter().any(|i| ns[*i].anc.get(&a) == Some(k)), "causal-missing-key", || format!("missing entry {a} is reported with a key nobody carries"));
    }
    let mut must: BTreeSet<T> = pairs.iter().filter(|(i, k)| !opens(*i, &(*k).into()) && !done.contains(i)).map(|(i, _)| cref(*i)).collect();
    must.extend(failing.iter().filter(|i| !done.contains(i)).map(|i| cref(*i)));
    must.extend(done.iter().map(|i| cref(*i)).filter(|c| store.bad_mark.contains(c)));
    r.check(must.is_subset(&cannot), "causal-unreported", || format!("not reported as failed: {:?}", must.difference(&cannot).map(|c| c[0]).collect::<Vec<_>>()));
    let may: BTreeSet<T> = pairs.iter().filter(|(i, k)| !opens(*i, &(*k).into())).map(|(i, _)| cref(*i)).chain(failing.iter().map(|i| cref(*i))).chain(done.iter().map(|i| cref(*i)).filter(|c| store.bad_mark.contains(c))).collect();
    r.check(cannot.is_subset(&may), "causal-misreported", || format!("reported as failed though nothing failed: {:?}", cannot.difference(&may).map(|c| c[0]).collect::<Vec<_>>()));
    // what was decrypted is marked so
    for i in &done {
        let c = cref(*i);
        if !store.bad_mark.contains(&c) {
            r.check(block_on(store.inner.get_by_content_ref(&c)).is_none(), "causal-marked", || format!("entry {i} was decrypted but not marked"));
        }
    }
    for (i, x) in ns.iter().enumerate() {
        if x.stored && !done.contains(&i) {
            r.check(block_on(store.inner.get_by_content_ref(&cref(i))).is_some(), "causal-marked", || format!("entry {i} was not decrypted but is gone from the store"));
        }
    }
    r.count(if done.len() > 2 { "long" } else { "short" });
}
/// a document whose entries carry the keys of their predecessors
fn causal_document(r: &mut Rec) {
    let mut rng = sub_rng(&mut r.rng);
    let store: St = MemoryCiphertextStore::new();
    let s = signer(&mut rng);
    let kh = block_on(Kh::generate(s, store.clone(), keyhive_core::listener::no_listener::NoListener, sub_rng(&mut rng))).unwrap();
    let d = block_on(kh.generate_doc(vec![], nonempty::NonEmpty::new([3u8; 32]))).unwrap();
    let n = r.rng.gen_range(2..7);
    let mut made: Vec<(Arc<Enc>, SymmetricKey, Vec<usize>, Vec<u8>, bool)> = vec![];
    for i in 0..n {
        let anc: Vec<usize> = (0..i).filter(|_| r.rng.gen_bool(0.5)).collect();
        let plain = vec![i as u8; r.rng.gen_range(0..5)];
        let env = Envelope { plaintext: plain.clone(), ancestors: anc.iter().map(|a| (cref(*a), made[*a].1)).collect() };
        let preds: Vec<T> = anc.iter().map(|a| cref(*a)).collect();
        let (e, k) = block_on(kh.try_encrypt_content_keyed(d.clone(), &cref(i), &preds, &bincode::serialize(&env).unwrap())).unwrap();
        if r.rng.gen_bool(0.2) {
            let _ = block_on(kh.force_pcs_update(d.clone()));
        }
        let stored = r.rng.gen_bool(0.8);
        let enc = Arc::new(e.encrypted_content().clone());
        if stored {
            block_on(store.insert(enc.clone()));
        }
        made.push((enc, k, anc, plain, stored));
    }
    let entry = n - 1;
    r.eval(&made.iter().map(|m| (m.2.clone(), m.4)).collect::<Vec<_>>());
    r.t(format!("{:?}", made.iter().map(|m| (m.2.clone(), m.4)).collect::<Vec<_>>()));
    let res = block_on(kh.try_causal_decrypt_content(d.clone(), &made[entry].0));
    let p = match res {
        Ok(p) => p,
        Err(e) => {
            r.fail("causal-document", format!("causal decryption of a readable document fails: {e:?}"));
            return;
        }
    };
    let (mut done, mut miss, mut work) = (BTreeSet::new(), BTreeSet::new(), made[entry].2.clone());
    while let Some(a) = work.pop() {
        if !made[a].4 {
            miss.insert(a);
        } else if done.insert(a) {
            work.extend(made[a].2.iter());
        }
    }
    let got: Vec<usize> = p.complete.iter().map(|(c, _)| c[0] as usize).collect();
    r.check(got.len() == done.len() && got.iter().cloned().collect::<BTreeSet<_>>() == done, "causal-document", || format!("returned {got:?}, readable ancestors {done:?}"));
    for (c, x) in &p.complete {
        r.check(*x == made[c[0] as usize].3, "causal-plaintext", || format!("entry {} has the wrong plaintext", c[0]));
        r.check(p.keys.get(c) == Some(&made[c[0] as usize].1), "causal-key", || format!("entry {} has the wrong key", c[0]));
    }
    let next: BTreeSet<usize> = p.next.keys().map(|c| c[0] as usize).collect();
    r.check(next == miss, "causal-missing", || format!("reported missing {next:?}, actually missing {miss:?}"));
    r.count("documents");
}

// ---------------------------------------------------------------- P17
pub fn stores(r: &mut Rec, case: u64) {
    match case % 4 {
        0 => camaps(r),
        1 => memberships(r),
        _ => ciphertexts(r),
    }
}
macro_rules! camap {
    ($r:expr, $map:ty) => {{
        let r: &mut Rec = $r;
        let mut m = <$map>::new();
        let mut model: BTreeMap<u8, Arc<(u8, u8)>> = BTreeMap::new();
        let n = r.rng.gen_range(1..30);
        let mut shape = vec![];
        if r.rng.gen_bool(0.3) {
            let vs: Vec<u8> = (0..r.rng.gen_range(0..6)).map(|_| r.rng.gen_range(0..8)).collect();
            m = <$map>::from_iter_direct(vs.iter().map(|v| Arc::new((*v, 1))));
            for v in vs {
                model.insert(v, Arc::new((v, 1)));
            }
        }
        for _ in 0..n {
            let v: u8 = r.rng.gen_range(0..8);
            let val = (v, 1u8);
            let dg = Digest::hash(&val);
            let op = r.rng.gen_range(0..5);
            shape.push((op, v));
            match op {
                0 => {
                    let got = m.insert(Arc::new(val));
                    r.check(got == dg, "camap-insert", || "insert returns something else than the hash of the value".into());
                    model.insert(v, Arc::new(val));
                }
                1 => {
                    let (got, fresh) = m.insert_checked(Arc::new(val));
                    let had = model.insert(v, Arc::new(val)).is_some();
                    r.check(got == dg, "camap-insert", || "insert_checked returns something else than the hash of the value".into());
                    r.check(fresh != had, "camap-fresh", || format!("insert_checked says new={fresh} for a value that was {}", if had { "present" } else { "absent" }));
                }
                2 => {
                    let got = m.remove_by_hash(&dg);
                    let want = model.remove(&v);
                    r.check(got == want, "camap-remove", || format!("remove_by_hash gives {got:?}, was {want:?}"));
                }
                3 => {
                    let got = m.remove_by_value(&val);
                    let want = model.remove(&v);
                    r.check(got == want, "camap-remove", || format!("remove_by_value gives {got:?}, was {want:?}"));
                }
                _ => {}
            }
            for v in 0..8u8 {
                let val = (v, 1u8);
                let d = Digest::hash(&val);
                let want = model.get(&v);
                r.check(m.get(&d) == want, "camap-get", || format!("get of {v} gives {:?}, was {want:?}", m.get(&d)));
                r.check(m.contains_key(&d) == want.is_some() && m.contains_value(&val) == want.is_some(), "camap-contains", || format!("contains of {v} is wrong"));
            }
            r.check(m.len() == model.len() && m.is_empty() == model.is_empty(), "camap-len", || format!("len {} for {} values", m.len(), model.len()));
            let ks: HashSet<_> = m.keys().cloned().collect();
            let vs: BTreeSet<_> = m.values().map(|x| **x).collect();
            let want: BTreeSet<_> = model.values().map(|x| **x).collect();
            r.check(vs == want && m.values().count() == model.len() && ks.len() == model.len(), "camap-values", || format!("values {vs:?}, were {want:?}"));
            r.check(m.iter().all(|(k, v)| *k == Digest::hash(v.as_ref())), "camap-keys", || "a key is not the hash of its value".into());
        }
        let want: BTreeSet<_> = model.values().map(|x| **x).collect();
        r.check(m.clone().into_values().map(|x| *x).collect::<BTreeSet<_>>() == want, "camap-values", || "into_values differs".into());
        r.check(m.clone().into_keys().collect::<HashSet<_>>() == m.keys().cloned().collect::<HashSet<_>>(), "camap-keys", || "into_keys differs".into());
        let back: $map = bincode::deserialize(&bincode::serialize(&m).unwrap()).unwrap();
        r.check(back == m, "camap-serde", || "a map does not survive serialization".into());
        r.eval(&shape);
    }};
}
fn camaps(r: &mut Rec) {
    camap!(r, CaMap<(u8, u8)>);
    camap!(r, beekem::content_addressed_map::CaMap<(u8, u8)>);
    r.count("camaps");
}
fn ciphertexts(r: &mut Rec) {
    let s: MemoryCiphertextStore<T, Vec<u8>> = MemoryCiphertextStore::new();
    let mk = |c: usize, u: u8, v: u8| Arc::new(Enc::new(Siv::from([v; 24]), vec![v; 10 + 3 * (v as usize % 3)], Digest::<u8>::hash(&u).coerce(), op_digest(u), cref(c), Digest::hash(&vec![])));
    let mut model: Vec<Arc<Enc>> = vec![];
    let mut shape = vec![];
    let check = |r: &mut Rec, s: &MemoryCiphertextStore<T, Vec<u8>>, model: &Vec<Arc<Enc>>| {
        for c in 0..4 {
            let got = block_on(s.get_by_content_ref(&cref(c)));
            let of: Vec<&Arc<Enc>> = model.iter().filter(|e| e.content_ref == cref(c)).collect();
            let max = of.iter().map(|e| e.ciphertext.len()).max();
            r.check(got.as_ref().map(|g| g.ciphertext.len()) == max && got.as_ref().is_none_or(|g| of.iter().any(|e| **e == *g)), "ciphertext-by-ref", || {
                format!("lookup of content {c} gives {:?}, stored lengths {:?}", got.as_ref().map(|g| g.ciphertext.len()), of.iter().map(|e| e.ciphertext.len()).collect::<Vec<_>>())
            });
        }
        for u in 0..3 {
            let got = block_on(s.get_by_pcs_update(&op_digest(u)));
            let want: Vec<&Arc<Enc>> = model.iter().filter(|e| e.pcs_update_op_hash == op_digest(u)).collect();
            r.check(got.len() == want.len() && want.iter().all(|w| got.contains(w)), "ciphertext-by-update", || format!("lookup by update {u} gives {} entries, {} match", got.len(), want.len()));
        }
    };
    for _ in 0..r.rng.gen_range(1..25) {
        let e = mk(r.rng.gen_range(0..4), r.rng.gen_range(0..3), r.rng.gen_range(0..5));
        let dg = Digest::hash(e.as_ref());
        let op = r.rng.gen_range(0..10);
        shape.push((op, e.content_ref[0], e.ciphertext.len(), e.pcs_update_op_hash.as_slice()[0]));
        match op {
            0..=5 => {
                if op == 0 {
                    let got = block_on(s.insert_raw(e.as_ref().clone()));
                    r.check(got == e, "ciphertext-insert", || "insert_raw returns something else".into());
                } else {
                    block_on(s.insert(e.clone()));
                }
                if !model.contains(&e) {
                    model.push(e);
                }
            }
            6..=8 => {
                let got = block_on(s.remove(&dg));
                let want = model.iter().position(|x| *x == e).map(|i| model.remove(i));
                r.check(got == want, "ciphertext-remove", || format!("remove gives {:?}, present {}", got.is_some(), want.is_some()));
            }
            _ => {
                let had = model.iter().any(|x| x.content_ref == e.content_ref);
                let got = block_on(s.remove_all(&e.content_ref));
                model.retain(|x| x.content_ref != e.content_ref);
                r.check(got == had, "ciphertext-remove-all", || format!("remove_all says {got}, had {had}"));
            }
        }
        check(r, &s, &model);
    }
    r.eval(&shape);
    r.count("ciphertext stores");
}
fn memberships(r: &mut Rec) {
    // a real group supplies delegations and revocations
    let mut rng = sub_rng(&mut r.rng);
    let kh = new_kh(&mut rng);
    let g = signer(&mut rng);
    let ps: Vec<_> = (0..4).map(|_| signer(&mut rng)).collect();
    for p in &ps {
        know(&kh, &mut rng, p);
    }
    let root = sd(&g, sid(&ps[0]), Access::Admin, None, &[], BTreeMap::new());
    let _ = recv_d(&kh, &root);
    let mut all = vec![root.clone()];
    for _ in 0..5 {
        let to = sid(pick(&mut r.rng, &ps));
        let d = sd(&ps[0], to, *pick(&mut r.rng, &LEVELS), Some(&root), &[], BTreeMap::new());
        if recv_d(&kh, &d).is_ok() {
            all.push(d);
        }
    }
    for _ in 0..4 {
        let d = all[r.rng.gen_range(1..all.len().max(2)) % all.len()].clone();
        let by = if r.rng.gen() { &g } else { &ps[0] };
        let _ = recv_r(&kh, &sr(by, &d, if std::ptr::eq(by, &g) { None } else { Some(&root) }));
    }
    let (mut ds, mut rs): (Vec<Arc<Dlg>>, Vec<Arc<Rev>>) = (vec![], vec![]);
    let ops = block_on(kh.membership_ops_for_all_agents());
    for (_, m) in &ops.ops {
        for (_, op) in m {
            match op {
                MOp::Delegation(d) if !ds.contains(d) => ds.push(d.clone()),
                MOp::Revocation(x) if !rs.contains(x) => rs.push(x.clone()),
                _ => {}
            }
        }
    }
    ds.sort_by_key(|d| hx(&to_sd(d)));
    rs.sort_by_key(|d| hx(&to_sr(d)));
    if ds.is_empty() {
        return;
    }
    let mut dst: DelegationStore<Sendable, keyhive_crypto::signer::memory::MemorySigner, T, L> = DelegationStore::new();
    let mut rst: RevocationStore<Sendable, keyhive_crypto::signer::memory::MemorySigner, T, L> = RevocationStore::new();
    let (mut md, mut mr): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut shape = vec![];
    for _ in 0..r.rng.gen_range(1..30) {
        let (i, op) = (r.rng.gen_range(0..ds.len()), r.rng.gen_range(0..5));
        if op < 3 {
            let got = dst.insert(ds[i].clone());
            r.check(got == Digest::hash(ds[i].as_ref()), "delegation-insert", || "insert returns another hash".into());
            if !md.contains(&i) {
                md.push(i);
            }
        } else {
            let got = dst.remove_by_hash(&Digest::hash(ds[i].as_ref()));
            let had = md.contains(&i);
            md.retain(|x| *x != i);
            r.check(got.is_some() == had && got.is_none_or(|g| g == ds[i]), "delegation-remove", || "remove_by_hash returns something else than what was there".into());
        }
        shape.push((0, i, op));
        if !rs.is_empty() {
            let (i, op) = (r.rng.gen_range(0..rs.len()), r.rng.gen_range(0..5));
            if op < 3 {
                let got = rst.insert(rs[i].clone());
                r.check(got == Digest::hash(rs[i].as_ref()), "revocation-insert", || "insert returns another hash".into());
                if !mr.contains(&i) {
                    mr.push(i);
                }
            } else {
                let got = rst.remove_by_hash(&Digest::hash(rs[i].as_ref()));
                let had = mr.contains(&i);
                mr.retain(|x| *x != i);
                r.check(got.is_some() == had && got.is_none_or(|g| g == rs[i]), "revocation-remove", || "remove_by_hash returns something else than what was there".into());
            }
            shape.push((1, i, op));
        }
        for (i, d) in ds.iter().enumerate() {
            let (h, want) = (Digest::hash(d.as_ref()), md.contains(&i));
            r.check(dst.get(&h).is_some() == want && dst.get(&h).is_none_or(|x| x == *d) && dst.contains_key(&h) == want && dst.contains_value(d) == want, "delegation-get", || "lookup disagrees with what is stored".into());
        }
        r.check(dst.len() == md.len() && dst.is_empty() == md.is_empty() && dst.values().count() == md.len() && dst.iter().all(|(k, v)| *k == Digest::hash(v.as_ref())) && dst.keys().count() == md.len(), "delegation-list", || "the listing disagrees with what is stored".into());
        let mut per: HashMap<Identifier, HashSet<String>> = HashMap::new();
        for (i, d) in rs.iter().enumerate() {
            let (h, want) = (Digest::hash(d.as_ref()), mr.contains(&i));
            r.check(rst.get(&h).is_some() == want && rst.get(&h).is_none_or(|x| x == *d) && rst.contains_key(&h) == want && rst.contains_value(d) == want, "revocation-get", || "lookup disagrees with what is stored".into());
            if want {
                per.entry(d.payload().revoked().payload().delegate().id()).or_default().insert(hx(&to_sr(d)));
            }
        }
        r.check(rst.len() == mr.len() && rst.is_empty() == mr.is_empty() && rst.values().count() == mr.len() && rst.iter().all(|(k, v)| *k == Digest::hash(v.as_ref())) && rst.keys().count() == mr.len(), "revocation-list", || "the listing disagrees with what is stored".into());
        for d in &rs {
            let ag = d.payload().revoked().payload().delegate();
            let got: HashSet<String> = rst.get_revocations_for_agent(&ag.agent_id()).map(|s| s.iter().map(|x| hx(&to_sr(x))).collect()).unwrap_or_default();
            let want = per.get(&ag.id()).cloned().unwrap_or_default();
            r.check(got == want, "revocation-index", || format!("revocations listed for {}: {got:?}, stored {want:?}", sh(&ag.id())));
        }
        let listed: usize = rst.all_agent_revocations().map(|(_, s)| s.len()).sum();
        r.check(listed == mr.len(), "revocation-index", || format!("the index lists {listed} revocations, {} stored", mr.len()));
    }
    let back = DelegationStore::from_iter_direct(md.iter().map(|i| ds[*i].clone()));
    r.check(back.len() == md.len() && md.iter().all(|i| back.contains_value(&ds[*i])), "delegation-from-iter", || "a store built from a list disagrees".into());
    let back = RevocationStore::from_iter_direct(mr.iter().map(|i| rs[*i].clone()));
    let listed: usize = back.all_agent_revocations().map(|(_, s)| s.len()).sum();
    r.check(back.len() == mr.len() && listed == mr.len() && mr.iter().all(|i| back.contains_value(&rs[*i])), "revocation-from-iter", || "a store built from a list disagrees".into());
    r.eval(&shape);
    r.count(if rs.is_empty() { "membership stores without revocations" } else { "membership stores" });
}
