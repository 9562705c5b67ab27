//! Replicas driven through the public API, syncing what they offer each other.
use crate::rec::Rec;
use crate::world::*;
use futures::executor::block_on;
use keyhive_core::access::Access;
use keyhive_core::principal::document::id::DocumentId;
use keyhive_core::principal::identifier::Identifier;
use keyhive_core::principal::individual::id::IndividualId;
use keyhive_core::principal::membered::Membered;
use keyhive_core::principal::public::Public;
use keyhive_core::principal::agent::Agent;
use keyhive_core::principal::peer::Peer;
use beekem::encrypted::EncryptedContent;
use nonempty::NonEmpty;
use rand::{rngs::StdRng, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

pub struct Cipher {
    pub doc: Identifier,
    pub cref: T,
    pub preds: Vec<T>,
    pub plain: Vec<u8>,
    pub enc: EncryptedContent<Vec<u8>, T>,
    pub by: usize,
}
pub struct W {
    pub reps: Vec<Rep>,
    pub groups: Vec<Identifier>,
    pub docs: Vec<Identifier>,
    pub ciphers: Vec<Cipher>,
    pub names: HashMap<Identifier, String>,
    pub shape: Vec<u64>,
    pub n: u32,
}

/// which actions a script may contain
#[derive(Clone, Copy)]
pub struct Mix {
    pub reps: usize,
    pub steps: usize,
    pub sync: bool,
    pub public: bool,
    pub nested_docs: bool,
    pub revoke: bool,
    pub relay: bool,
}
pub const FULL: Mix = Mix { reps: 3, steps: 14, sync: true, public: false, nested_docs: true, revoke: true, relay: true };

impl W {
    pub fn new(rng: &mut StdRng, n: usize) -> W {
        let reps: Vec<Rep> = (0..n).map(|i| Rep::new(rng, &format!("R{i}"))).collect();
        for a in 0..n {
            for b in 0..n {
                if a != b {
                    reps[a].introduce(&reps[b]);
                }
            }
        }
        let mut names = HashMap::new();
        for r in &reps {
            names.insert(r.id(), r.name.clone());
        }
        names.insert(Public.id(), "Public".into());
        W { reps, groups: vec![], docs: vec![], ciphers: vec![], names, shape: vec![], n: 0 }
    }
    pub fn nm(&self, i: &Identifier) -> String {
        self.names.get(i).cloned().unwrap_or_else(|| sh(i))
    }
    pub fn text(&self, s: &str) -> String {
        let mut s = s.to_string();
        for (k, v) in &self.names {
            s = s.replace(&sh(k), v);
        }
        s
    }
    pub fn fm(&self, m: &BTreeMap<Identifier, Access>) -> String {
        let mut v: Vec<String> = m.iter().map(|(k, a)| format!("{}:{a:?}", self.nm(k))).collect();
        v.sort();
        v.join(" ")
    }
    /// groups and documents replica i knows
    pub fn known_membered(&self, i: usize) -> Vec<Identifier> {
        self.groups.iter().chain(self.docs.iter()).filter(|x| membered(&self.reps[i].kh, **x).is_some()).cloned().collect()
    }
    pub fn peer(&self, i: usize, id: Identifier) -> Option<Peer<future_form::Sendable, keyhive_crypto::signer::memory::MemorySigner, T, L>> {
        block_on(self.reps[i].kh.get_peer(id))
    }
    pub fn gen_group(&mut self, r: &mut Rec, i: usize, with: &[Identifier]) -> Option<Identifier> {
        let ps: Vec<_> = with.iter().filter_map(|x| self.peer(i, *x)).collect();
        let g = block_on(self.reps[i].kh.generate_group(ps)).ok()?;
        let id = block_on(async { g.lock().await.id() });
        self.groups.push(id);
        self.names.insert(id, format!("G{}", self.groups.len()));
        r.t(format!("{} makes group {} with {:?}", self.reps[i].name, self.nm(&id), with.iter().map(|x| self.nm(x)).collect::<Vec<_>>()));
        Some(id)
    }
    pub fn gen_doc(&mut self, r: &mut Rec, i: usize, with: &[Identifier]) -> Option<Identifier> {
        let ps: Vec<_> = with.iter().filter_map(|x| self.peer(i, *x)).collect();
        let mut h = [0u8; 32];
        self.n += 1;
        h[0] = self.n as u8;
        h[1] = 77;
        let d = match block_on(self.reps[i].kh.generate_doc(ps, NonEmpty::new(h))) {
            Ok(d) => d,
            Err(e) => {
                r.t(format!("gen_doc failed {e:?}"));
                return None;
            }
        };
        let id = block_on(async { d.lock().await.id() });
        self.docs.push(id);
        self.names.insert(id, format!("D{}", self.docs.len()));
        r.t(format!("{} makes doc {} with {:?}", self.reps[i].name, self.nm(&id), with.iter().map(|x| self.nm(x)).collect::<Vec<_>>()));
        Some(id)
    }
    pub fn add(&mut self, r: &mut Rec, i: usize, who: Identifier, to: Identifier, can: Access) -> bool {
        let Some(a) = self.reps[i].agent(who) else { return false };
        let Some(m) = membered(&self.reps[i].kh, to) else { return false };
        let res = block_on(self.reps[i].kh.add_member(a, &m, can, &[]));
        r.t(format!("{} adds {} to {} as {can:?}: {}", self.reps[i].name, self.nm(&who), self.nm(&to), match &res { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}").chars().take(90).collect() }));
        res.is_ok()
    }
    pub fn revoke(&mut self, r: &mut Rec, i: usize, who: Identifier, from: Identifier, retain: bool) -> bool {
        let Some(m) = membered(&self.reps[i].kh, from) else { return false };
        let res = block_on(self.reps[i].kh.revoke_member(who, retain, &m));
        r.t(format!("{} revokes {} from {} retain={retain}: {}", self.reps[i].name, self.nm(&who), self.nm(&from), match &res { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}").chars().take(90).collect() }));
        res.is_ok()
    }
    pub fn offered(&self, i: usize, to: Identifier) -> Vec<Ev> {
        let Some(a) = self.reps[i].agent(to) else { return vec![] };
        let mut v: Vec<Ev> = block_on(self.reps[i].kh.static_events_for_agent(&a)).into_values().collect();
        v.sort_by_key(|e| hx(e));
        v
    }
    pub fn sync(&self, i: usize, j: usize) -> usize {
        let evs = self.offered(i, self.reps[j].id());
        ingest(&self.reps[j].kh, evs)
    }
    pub fn encrypt(&mut self, r: &mut Rec, i: usize, d: Identifier) -> bool {
        let Some(dc) = doc(&self.reps[i].kh, d) else { return false };
        self.n += 1;
        let mut cref = [0u8; 32];
        cref[..4].copy_from_slice(&self.n.to_be_bytes());
        let len = r.rng.gen_range(0..40);
        let plain: Vec<u8> = (0..len).map(|_| r.rng.gen()).collect();
        let preds: Vec<T> = self.ciphers.iter().filter(|c| c.doc == d).rev().take(r.rng.gen_range(0..3)).map(|c| c.cref).collect();
        let res = block_on(self.reps[i].kh.try_encrypt_content(dc, &cref, &preds, &plain));
        r.t(format!("{} encrypts in {}: {}", self.reps[i].name, self.nm(&d), match &res { Ok(_) => "ok".to_string(), Err(e) => format!("{e:?}").chars().take(90).collect() }));
        match res {
            Ok(e) => {
                self.ciphers.push(Cipher { doc: d, cref, preds, plain, enc: e.encrypted_content().clone(), by: i });
                true
            }
            Err(_) => false,
        }
    }
    pub fn decrypt(&self, i: usize, c: &Cipher) -> Option<Result<Vec<u8>, String>> {
        let d = doc(&self.reps[i].kh, c.doc)?;
        Some(block_on(self.reps[i].kh.try_decrypt_content(d, &c.enc)).map_err(|e| format!("{e:?}")))
    }
    /// individuals in the document's key agreement at replica i
    pub fn key_members(&self, i: usize, d: Identifier) -> Option<BTreeSet<Identifier>> {
        let dc = doc(&self.reps[i].kh, d)?;
        block_on(async {
            let l = dc.lock().await;
            let c = l.cgka().ok()?;
            let ids: BTreeSet<Identifier> = cgka_ids(c);
            Some(ids)
        })
    }
    /// one random action of replica i; returns a description class
    pub fn step(&mut self, r: &mut Rec, mix: &Mix) -> &'static str {
        let i = r.rng.gen_range(0..self.reps.len());
        let known = self.known_membered(i);
        let me = self.reps[i].id();
        let k = r.rng.gen_range(0..100);
        let people: Vec<Identifier> = self.reps.iter().map(|x| x.id()).filter(|x| *x != me).collect();
        let cls;
        if known.is_empty() || k < 10 {
            let mut with: Vec<Identifier> = people.iter().filter(|_| r.rng.gen_bool(0.25)).cloned().collect();
            if r.rng.gen_bool(0.3) && !known.is_empty() {
                let g = *pick(&mut r.rng, &known);
                if self.groups.contains(&g) || mix.nested_docs {
                    with.push(g);
                }
            }
            if r.rng.gen_bool(0.5) {
                self.gen_group(r, i, &with);
                cls = "group";
            } else {
                self.gen_doc(r, i, &with);
                cls = "doc";
            }
        } else if k < 50 {
            let to = *pick(&mut r.rng, &known);
            let mut cands: Vec<Identifier> = people.clone();
            cands.extend(known.iter().filter(|x| **x != to && (mix.nested_docs || self.groups.contains(x))));
            if mix.public {
                cands.push(Public.id());
            }
            let who = *pick(&mut r.rng, &cands);
            let can = if mix.relay { *pick(&mut r.rng, &LEVELS) } else { *pick(&mut r.rng, &LEVELS[1..]) };
            cls = if self.add(r, i, who, to, can) { "add" } else { "add-refused" };
        } else if k < 65 && mix.revoke {
            let from = *pick(&mut r.rng, &known);
            let ms: Vec<Identifier> = members(&self.reps[i].kh, from).into_keys().collect();
            if ms.is_empty() {
                return "none";
            }
            let who = *pick(&mut r.rng, &ms);
            let retain = r.rng.gen();
            cls = if self.revoke(r, i, who, from, retain) { "revoke" } else { "revoke-refused" };
        } else if k < 72 {
            if r.rng.gen() {
                let _ = block_on(self.reps[i].kh.expand_prekeys());
                r.t(format!("{} expands", self.reps[i].name));
            } else {
                let _ = block_on(self.reps[i].kh.contact_card());
                r.t(format!("{} rotates", self.reps[i].name));
            }
            cls = "prekey";
        } else if k < 85 {
            let ds: Vec<Identifier> = known.iter().filter(|x| self.docs.contains(x)).cloned().collect();
            if ds.is_empty() {
                return "none";
            }
            let d = *pick(&mut r.rng, &ds);
            cls = if self.encrypt(r, i, d) { "encrypt" } else { "encrypt-refused" };
        } else if mix.sync && self.reps.len() > 1 {
            let mut j = r.rng.gen_range(0..self.reps.len() - 1);
            if j >= i {
                j += 1;
            }
            let p = self.sync(i, j);
            r.t(format!("sync {} -> {} pending {p}", self.reps[i].name, self.reps[j].name));
            cls = "sync";
        } else {
            cls = "none";
        }
        r.count(&format!("step {cls}"));
        self.shape.push((cls.as_bytes()[0] as u64) << 8 | (i as u64));
        cls
    }
    /// every pair exchanges what it offers until nothing changes
    pub fn sync_all(&self) {
        for _ in 0..5 {
            let before: Vec<View> = self.reps.iter().map(|x| view(&x.kh)).collect();
            for i in 0..self.reps.len() {
                for j in 0..self.reps.len() {
                    if i != j {
                        self.sync(i, j);
                    }
                }
            }
            let after: Vec<View> = self.reps.iter().map(|x| view(&x.kh)).collect();
            if before == after {
                break;
            }
        }
    }
}

/// the key agreement with everything it holds replayed
pub fn replayed(c: &keyhive_core::cgka::Cgka) -> keyhive_core::cgka::Cgka {
    use keyhive_core::transact::{fork::Fork, merge::Merge};
    let mut d = c.clone();
    let f = c.fork();
    d.merge(f);
    d
}
pub fn key_tree(c: &keyhive_core::cgka::Cgka) -> super::cgka::Tree {
    super::cgka::tree_of(&replayed(c))
}
/// ids of the individuals in a key agreement
pub fn cgka_ids(c: &keyhive_core::cgka::Cgka) -> BTreeSet<Identifier> {
    key_tree(c).ids.keys().map(|m| Identifier(m.0)).collect()
}

pub fn script(r: &mut Rec, mix: &Mix) -> W {
    let mut rng = sub_rng(&mut r.rng);
    let mut w = W::new(&mut rng, mix.reps);
    let steps = r.rng.gen_range(mix.steps / 2..=mix.steps);
    for _ in 0..steps {
        w.step(r, mix);
    }
    w
}

/// what `x` can reach in `kh`, as far as `kh` knows: members, access, heads, key operations, prekeys
pub fn reach_view(kh: &Kh, x: Identifier, skip_people: &[Identifier]) -> View {
    let mut v = View::new();
    let Some(a) = block_on(kh.get_agent(x)) else { return v };
    let ms = block_on(kh.membered_reachable_by_agent(&a));
    let all = view(kh);
    let mut people: BTreeSet<Identifier> = BTreeSet::new();
    let mut ids: BTreeSet<Identifier> = BTreeSet::new();
    for (_, (m, can)) in ms {
        let id = match &m {
            Membered::Group(i, _) => Identifier::from(*i),
            Membered::Document(i, _) => Identifier::from(*i),
        };
        v.insert(format!("reach {}", sh(&id)), format!("{can:?}"));
        ids.insert(id);
        for (k, (ag, _)) in block_on(m.transitive_members()) {
            match ag {
                Agent::Individual(..) | Agent::Active(..) => {
                    people.insert(k);
                }
                _ => {
                    ids.insert(k);
                }
            }
        }
    }
    for id in ids {
        let reached = v.contains_key(&format!("reach {}", sh(&id)));
        for (k, t) in &all {
            if k.contains(&sh(&id)) && (reached || !k.ends_with("cgka ops")) {
                v.insert(k.clone(), t.clone());
            }
        }
    }
    let people: Vec<Identifier> = people.into_iter().filter(|p| !skip_people.contains(p) && *p != Public.id()).collect();
    for (k, t) in people_view(kh, &people) {
        if k.starts_with("person") {
            v.insert(k, t);
        }
    }
    v
}

pub fn fresh_as(rng: &mut StdRng, rep: &Rep) -> Kh {
    let kh = new_kh_with(rng, rep.s.clone());
    let secrets = block_on(rep.kh.export_prekey_secrets()).unwrap();
    block_on(kh.import_prekey_secrets(&secrets)).unwrap();
    kh
}

/// Operations whose issuer acts through a group or document in which somebody was revoked. Their
/// authority is judged by the membership at the moment they are applied, so whether they are
/// accepted depends on the order of arrival (known finding, see DESIGN.md).
pub fn order_dependent(evs: &[Ev]) -> bool {
    use keyhive_core::event::static_event::StaticEvent::*;
    use keyhive_crypto::digest::Digest;
    let ds: HashMap<Vec<u8>, &SD> = evs.iter().filter_map(|e| match e { Delegated(d) => Some((Digest::hash(d).as_slice().to_vec(), d)), _ => None }).collect();
    let root = |d: &SD| -> Identifier {
        let mut h = d;
        while let Some(p) = &h.payload.proof {
            match ds.get(p.as_slice()) { Some(x) => h = x, None => break }
        }
        Identifier(h.issuer)
    };
    let mut edges: HashMap<Identifier, HashSet<Identifier>> = HashMap::new();
    for d in ds.values() {
        edges.entry(root(d)).or_default().insert(d.payload.delegate);
    }
    let mut touched: HashSet<Identifier> = HashSet::new();
    let mut through: HashSet<Identifier> = HashSet::new();
    for e in evs {
        let (issuer, proof) = match e {
            Delegated(d) => (d.issuer, d.payload.proof.as_ref()),
            Revoked(r) => {
                if let Some(d) = ds.get(r.payload.revoke.as_slice()) {
                    touched.insert(root(d));
                }
                (r.issuer, r.payload.proof.as_ref())
            }
            _ => continue,
        };
        let Some(p) = proof.and_then(|p| ds.get(p.as_slice())) else { continue };
        if p.payload.delegate != Identifier(issuer) && !(matches!(e, Revoked(_)) && p.issuer == issuer) {
            through.insert(p.payload.delegate);
        }
    }
    let mut todo: Vec<Identifier> = through.into_iter().collect();
    let mut seen = HashSet::new();
    while let Some(x) = todo.pop() {
        if seen.insert(x) {
            if touched.contains(&x) {
                return true;
            }
            todo.extend(edges.get(&x).into_iter().flatten());
        }
    }
    false
}
pub fn key_for(evs: &[Ev], k: &'static str) -> &'static str {
    if order_dependent(evs) { "acting-through-a-changed-group" } else { k }
}

// ---------------------------------------------------------------- P19
pub fn offered(r: &mut Rec, _c: u64) {
    let mix = Mix { public: r.rng.gen_bool(0.2), ..FULL };
    let w = script(r, &mix);
    r.eval(&w.shape);
    for i in 0..w.reps.len() {
        bulk(r, &w, i);
        for j in 0..w.reps.len() {
            if i == j || !r.violations.is_empty() {
                continue;
            }
            closed_for(r, &w, i, j);
        }
    }
}
fn closed_for(r: &mut Rec, w: &W, i: usize, j: usize) {
    let x = w.reps[j].id();
    let mut rng = sub_rng(&mut r.rng);
    let fresh = fresh_as(&mut rng, &w.reps[j]);
    let evs = w.offered(i, x);
    // what the offering replica itself holds as pending or misses is not its to give
    let n = evs.len();
    let pend = ingest(&fresh, evs.clone());
    r.count("offers");
    if pend > 0 {
        let st: Vec<String> = block_on(fresh.ingest_unsorted_static_events(vec![])).iter().map(|e| describe(w, e)).collect();
        r.fail(key_for(&evs, "pending"), format!("{} offers {} {n} events; a fresh replica is left with pending {:?}", w.reps[i].name, w.reps[j].name, st));
        return;
    }
    r.evaluations += 1;
    let a = reach_view(&w.reps[i].kh, x, &[x]);
    let b = reach_view(&fresh, x, &[x]);
    if !a.is_empty() {
        r.count("offers of something");
    }
    r.check(a == b, key_for(&evs, "view"), || w.text(&format!("{} offers {}: {}", w.reps[i].name, w.reps[j].name, diff(&a, &b))));
}
pub fn describe(w: &W, e: &Ev) -> String {
    use keyhive_core::event::static_event::StaticEvent::*;
    match e {
        Delegated(d) => format!("delegation {} -> {} {:?} root={}", w.nm(&Identifier(d.issuer)), w.nm(&d.payload.delegate), d.payload.can, d.payload.proof.is_none()),
        Revoked(x) => format!("revocation by {}", w.nm(&Identifier(x.issuer))),
        PrekeysExpanded(o) => format!("expand by {}", w.nm(&Identifier(o.issuer))),
        PrekeyRotated(o) => format!("rotate by {}", w.nm(&Identifier(o.issuer))),
        CgkaOperation(o) => format!("key op {} by {}", o.payload.name_of(), w.nm(&Identifier(o.issuer))),
    }
}
trait NameOf {
    fn name_of(&self) -> &'static str;
}
impl NameOf for beekem::operation::CgkaOperation {
    fn name_of(&self) -> &'static str {
        use beekem::operation::CgkaOperation::*;
        match self {
            Add { .. } => "add",
            Remove { .. } => "remove",
            Update { .. } => "update",
        }
    }
}
/// the bulk computation offers each agent what the single one does
fn bulk(r: &mut Rec, w: &W, i: usize) {
    let kh = &w.reps[i].kh;
    let m = block_on(kh.membership_ops_for_all_agents());
    let p = block_on(kh.reachable_prekey_ops_for_all_agents());
    let c = block_on(kh.cgka_ops_for_all_agents());
    let mut ids: Vec<Identifier> = w.reps.iter().map(|x| x.id()).chain(w.groups.iter().cloned()).chain(w.docs.iter().cloned()).collect();
    ids.push(Public.id());
    for id in ids {
        let Some(a) = block_on(kh.get_agent(id)) else { continue };
        r.evaluations += 1;
        let one: BTreeSet<String> = block_on(kh.membership_ops_for_agent(&a)).keys().map(|k| short(k.as_slice())).collect();
        let all: BTreeSet<String> = m.index.get(&id).into_iter().flatten().flat_map(|s| m.ops.get(s).into_iter().flatten().map(|(k, _)| short(k.as_slice()))).collect();
        if one != all {
            r.fail("bulk-membership", format!("{}: membership operations for {}: alone {} bulk {}", w.reps[i].name, w.nm(&id), one.len(), all.len()));
        }
        let known_person = matches!(a, Agent::Individual(..) | Agent::Active(..));
        let one: BTreeSet<String> = block_on(kh.reachable_prekey_ops_for_agent(&a)).values().flatten().map(|o| hx(o.as_ref())).collect();
        let all: BTreeSet<String> = p.index.get(&id).into_iter().flatten().flat_map(|s| p.ops.get(s).into_iter().flatten().map(|o| hx(o.as_ref()))).collect();
        // agents that reach nothing and are not registered people are not in the index at all
        if one != all && (known_person && id != Public.id() || p.index.contains_key(&id)) {
            r.fail("bulk-prekeys", format!("{}: prekey operations for {}: alone {} bulk {}", w.reps[i].name, w.nm(&id), one.len(), all.len()));
        }
        let one: BTreeSet<String> = block_on(kh.cgka_ops_reachable_by_agent(&a)).iter().map(|o| hx(o.as_ref())).collect();
        let all: BTreeSet<String> = c.index.get(&id).into_iter().flatten().flat_map(|s| c.ops.get(s).into_iter().flatten().map(|o| hx(o.as_ref()))).collect();
        if one != all {
            r.fail("bulk-keys", format!("{}: key operations for {}: alone {} bulk {}", w.reps[i].name, w.nm(&id), one.len(), all.len()));
        }
    }
}

// ---------------------------------------------------------------- P07
/// all events replica i holds, split into batches in any order, end up applied
pub fn early(r: &mut Rec, _c: u64) {
    let mix = Mix { sync: true, ..FULL };
    let w = script(r, &mix);
    r.eval(&w.shape);
    let i = r.rng.gen_range(0..w.reps.len());
    let j = r.rng.gen_range(0..w.reps.len());
    let evs = w.offered(i, w.reps[j].id());
    if evs.is_empty() {
        return;
    }
    let mut rng = sub_rng(&mut r.rng);
    let one = fresh_as(&mut rng, &w.reps[j]);
    let p0 = ingest(&one, evs.clone());
    for round in 0..3 {
        // in the last round the replica gets its prekey secrets only at the end
        let secrets = block_on(w.reps[j].kh.export_prekey_secrets()).unwrap();
        let kh = if round < 2 { fresh_as(&mut rng, &w.reps[j]) } else { new_kh_with(&mut rng, w.reps[j].s.clone()) };
        let mut v = evs.clone();
        shuffle(&mut rng, &mut v);
        let mut given: Vec<Ev> = vec![];
        while !v.is_empty() {
            let k = rng.gen_range(1..=v.len().min(if round == 0 { 3 } else { 12 }));
            let mut b: Vec<Ev> = v.drain(..k).collect();
            if rng.gen_bool(0.3) && !given.is_empty() {
                b.push(pick(&mut rng, &given).clone()); // again
            }
            given.extend(b.iter().cloned());
            let rep = ingest(&kh, b);
            let pend: HashSet<_> = block_on(kh.pending_event_hashes());
            r.check(rep == pend.len(), "reported", || format!("{rep} events reported as pending, {} held", pend.len()));
            // a second attempt with nothing new changes nothing: everything applicable was applied
            if rng.gen_bool(0.3) {
                let before = view(&kh);
                ingest(&kh, vec![]);
                let after = view(&kh);
                r.check(before == after, key_for(&evs, "not-saturated"), || w.text(&format!("ingesting nothing changed something: {}", diff(&before, &after))));
            }
            // nothing given so far is lost: it is pending or offering it again changes nothing
            if rng.gen_bool(0.15) {
                let before = view(&kh);
                ingest(&kh, given.clone());
                let after = view(&kh);
                r.check(before == after, key_for(&evs, "lost"), || w.text(&format!("giving the same events again changed something: {}", diff(&before, &after))));
            }
        }
        if round == 2 {
            let left = block_on(kh.import_prekey_secrets(&secrets)).unwrap().len();
            let pend = block_on(kh.pending_event_hashes()).len();
            r.check(left == pend, "reported", || format!("{left} events reported as pending, {pend} held"));
        }
        let pend = block_on(kh.pending_event_hashes()).len();
        r.check(pend == p0, key_for(&evs, "left-pending"), || {
            let st: Vec<String> = block_on(kh.ingest_unsorted_static_events(vec![])).iter().map(|e| describe(&w, e)).collect();
            format!("{pend} pending after batches, {p0} after one batch: {st:?}")
        });
        let (a, b) = (view(&one), view(&kh));
        r.check(a == b, key_for(&evs, "view"), || w.text(&format!("batches vs one batch: {}", diff(&a, &b))));
        let ids: Vec<Identifier> = w.reps.iter().map(|x| x.id()).filter(|x| *x != w.reps[j].id()).chain(w.groups.iter().cloned()).chain(w.docs.iter().cloned()).collect();
        let (a, b) = (people_view(&one, &ids), people_view(&kh, &ids));
        r.check(a == b, key_for(&evs, "people"), || w.text(&format!("batches vs one batch: {}", diff(&a, &b))));
    }
    if rng.gen_ratio(1, 200) {
        super::together::crowd(r, &mut rng);
    }
    if rng.gen_ratio(1, 3) {
        super::together::meanwhile(r, &mut rng, &w.reps[j], &evs);
    }
    super::together::together(r, &mut rng, &w.reps[j], &evs, &one);
}

// ---------------------------------------------------------------- P18
pub fn readers(r: &mut Rec, _c: u64) {
    let mix = Mix { sync: true, public: r.rng.gen_bool(0.3), steps: 16, ..FULL };
    let mut rng = sub_rng(&mut r.rng);
    let mut w = W::new(&mut rng, 1 + r.rng.gen_range(0..3));
    // people who only exist as contacts
    for k in 0..3 {
        let s = signer(&mut rng);
        for x in &w.reps {
            know(&x.kh, &mut rng.clone(), &s);
        }
        w.names.insert(sid(&s), format!("P{k}"));
    }
    let _ = mix;
    let people: Vec<Identifier> = w.names.keys().cloned().filter(|x| *x != Public.id()).collect();
    let mut people = people;
    people.sort_by_key(|x| w.names[x].clone());
    let steps = r.rng.gen_range(5..16);
    // one replica acts: what it sees before and after is its own doing
    for _ in 0..steps {
        if !r.violations.is_empty() {
            break;
        }
        let known = w.known_membered(0);
        let k = r.rng.gen_range(0..10);
        if known.len() < 2 || k == 0 {
            let mut with: Vec<Identifier> = people[..people.len()].iter().filter(|x| **x != w.reps[0].id()).filter(|_| r.rng.gen_bool(0.25)).cloned().collect();
            with.extend(known.iter().filter(|_| r.rng.gen_bool(0.3)));
            if r.rng.gen() {
                w.gen_group(r, 0, &with);
            } else {
                w.gen_doc(r, 0, &with);
            }
        } else if k < 7 {
            let to = *pick(&mut r.rng, &known);
            let mut cands: Vec<Identifier> = people.clone();
            cands.extend(known.iter().filter(|x| **x != to));
            if mix.public {
                cands.push(Public.id());
            }
            let who = *pick(&mut r.rng, &cands);
            let can = *pick(&mut r.rng, &LEVELS);
            w.add(r, 0, who, to, can);
        } else {
            let from = *pick(&mut r.rng, &known);
            let ms: Vec<Identifier> = members(&w.reps[0].kh, from).into_keys().collect();
            if ms.is_empty() {
                continue;
            }
            let who = *pick(&mut r.rng, &ms);
            let retain = r.rng.gen();
            if !w.revoke(r, 0, who, from, retain) {
                break; // a refused removal may be applied in part (see DESIGN.md)
            }
        }
        check_readers(r, &w, 0);
    }
    r.eval(&r.trace.join("|").replace(char::is_whitespace, ""));
    // others, readers or not, try to act in the documents they hear of
    for i in 1..w.reps.len() {
        if !r.violations.is_empty() {
            return;
        }
        if r.rng.gen_bool(0.4) {
            ingest(&w.reps[i].kh, all_events(&w.reps[0].kh));
        } else {
            w.sync(0, i);
        }
        for d in w.docs.clone() {
            let Some(have) = w.key_members(i, d) else { continue };
            let (me, key) = (w.reps[i].id(), block_on(w.reps[i].kh.try_pcs_key_hash(doc(&w.reps[i].kh, d).unwrap())));
            let inside = have.contains(&me) || have.contains(&Public.id());
            r.check(inside || key.is_none(), "outsider-key", || format!("{} is not in the key agreement of {} and derives its key", w.reps[i].name, w.nm(&d)));
            let done = w.encrypt(r, i, d);
            r.check(inside || !done, "outsider-acts", || format!("{} is not in the key agreement of {} and encrypts in it", w.reps[i].name, w.nm(&d)));
            let now = w.key_members(i, d);
            r.check(now.as_ref() == Some(&have), "members-changed", || format!("encrypting changed the key agreement of {}", w.nm(&d)));
        }
    }
}
fn check_readers(r: &mut Rec, w: &W, i: usize) {
    for d in &w.docs {
        let Some(have) = w.key_members(i, *d) else { continue };
        let m = membered(&w.reps[i].kh, *d).unwrap();
        let want: BTreeSet<Identifier> = block_on(m.transitive_members())
            .into_iter()
            .filter(|(_, (a, can))| matches!(a, Agent::Individual(..) | Agent::Active(..)) && *can >= Access::Read)
            .map(|(k, _)| k)
            .collect();
        let mut have2 = have.clone();
        have2.remove(d); // the document's own, forgotten key
        let f = |s: &BTreeSet<Identifier>| {
            let mut v: Vec<_> = s.iter().map(|x| w.nm(x)).collect();
            v.sort();
            v.join(" ")
        };
        r.check(have2.is_subset(&want), "non-reader-in", || format!("{}: in the key agreement [{}], readers [{}]", w.nm(d), f(&have2), f(&want)));
        r.check(want.is_subset(&have2), "reader-missing", || format!("{}: in the key agreement [{}], readers [{}]", w.nm(d), f(&have2), f(&want)));
    }
}

// ---------------------------------------------------------------- P02, P05 through the API
fn direct(kh: &Kh, id: Identifier) -> BTreeMap<Identifier, BTreeSet<String>> {
    let m = membered(kh, id).unwrap();
    block_on(m.members()).into_iter().map(|(k, v)| (k, v.iter().map(|d| hx(&to_sd(d))).collect())).collect()
}
/// delegations of `who` in the group, everything resting on them, and everything whose own proofs
/// are no longer current (so that something else, perhaps of `who`, is its basis)
fn resting(kh: &Kh, id: Identifier, who: Identifier) -> BTreeSet<String> {
    let m = membered(kh, id).unwrap();
    let all: Vec<std::sync::Arc<Dlg>> = block_on(m.members()).into_values().flatten().collect();
    let current: BTreeSet<String> = all.iter().map(|d| hx(&to_sd(d))).collect();
    all.iter()
        .filter(|d| {
            d.payload().delegate().id() == who
                || d.payload().proof_lineage().iter().any(|p| p.payload().delegate().id() == who || !current.contains(&hx(&to_sd(p))))
        })
        .map(|d| hx(&to_sd(d)))
        .collect()
}
/// replica i removes somebody; false if that was refused
fn removal(r: &mut Rec, w: &mut W, i: usize, from: Identifier, who: Identifier, retain: bool) -> bool {
    let before = direct(&w.reps[i].kh, from);
    let acc = members(&w.reps[i].kh, from);
    let lost = resting(&w.reps[i].kh, from, who);
    let firm = firm(&w.reps[i].kh, from, who);
    let ok = w.revoke(r, i, who, from, retain);
    r.evaluations += 1;
    if !ok {
        r.count("revoke refused");
        return false;
    }
    r.count(if retain { "revoke retain" } else { "revoke" });
    let after = direct(&w.reps[i].kh, from);
    let acc2 = members(&w.reps[i].kh, from);
    let key = if firm { "removed-still-member" } else { "removal-by-readded" };
    r.check(!after.contains_key(&who), key, || format!("{} is still a member of {}", w.nm(&who), w.nm(&from)));
    for (k, ds) in &before {
        if *k == who {
            continue;
        }
        let keep: BTreeSet<String> = ds.iter().filter(|d| !lost.contains(*d)).cloned().collect();
        let now = after.get(k).cloned().unwrap_or_default();
        r.check(keep.is_subset(&now), "bystander-lost", || format!("{} lost a delegation of {} that does not rest on {}", w.nm(k), w.nm(&from), w.nm(&who)));
        if retain {
            r.check(acc2.get(k) == acc.get(k), "not-retained", || format!("removing {} from {} keeping others: {} had {:?}, now {:?}", w.nm(&who), w.nm(&from), w.nm(k), acc.get(k), acc2.get(k)));
        } else {
            r.check(now.is_subset(ds) || lost.is_empty(), "appeared", || format!("{} got a delegation in {} from a removal", w.nm(k), w.nm(&from)));
        }
    }
    true
}
/// all delegations of `who` still rest on the proofs they were issued with
fn firm(kh: &Kh, id: Identifier, who: Identifier) -> bool {
    let m = membered(kh, id).unwrap();
    let all: Vec<std::sync::Arc<Dlg>> = block_on(m.members()).into_values().flatten().collect();
    let current: BTreeSet<String> = all.iter().map(|d| hx(&to_sd(d))).collect();
    all.iter()
        .filter(|d| d.payload().delegate().id() == who)
        .all(|d| d.payload().proof_lineage().iter().all(|p| current.contains(&hx(&to_sd(p)))))
}
pub fn delegating(r: &mut Rec, _c: u64) {
    let mut rng = sub_rng(&mut r.rng);
    let mut w = W::new(&mut rng, 3);
    for k in 0..2 {
        let s = signer(&mut rng);
        for x in &w.reps {
            know(&x.kh, &mut rng.clone(), &s);
        }
        w.names.insert(sid(&s), format!("P{k}"));
    }
    let mut people: Vec<Identifier> = w.names.keys().cloned().filter(|x| *x != Public.id()).collect();
    people.sort_by_key(|x| w.names[x].clone());
    // a team: one group or document, replicas that are its administrators, and everybody in step
    let team = r.rng.gen_bool(if r.prop == "P05" { 0.7 } else { 0.4 });
    if team {
        let g = if r.rng.gen_bool(0.7) { w.gen_group(r, 0, &[]) } else { w.gen_doc(r, 0, &[]) };
        if let Some(g) = g {
            for k in 1..w.reps.len() {
                let can = *pick(&mut r.rng, &[Access::Admin, Access::Admin, Access::Edit]);
                let id = w.reps[k].id();
                w.add(r, 0, id, g, can);
                w.sync(0, k);
            }
        }
    }
    let steps = if team { people.truncate(1 + r.rng.gen_range(0..2)); people.extend(w.reps.iter().map(|x| x.id())); r.rng.gen_range(4..14) } else { r.rng.gen_range(8..30) };
    for step in 0..=steps {
        if team && step == steps {
            // at last everybody knows everything, and somebody is removed
            w.sync_all();
            r.t("sync all");
            let i = if r.rng.gen_bool(0.6) { 0 } else { r.rng.gen_range(0..w.reps.len()) };
            let mut j = r.rng.gen_range(0..w.reps.len() - 1);
            if j >= i {
                j += 1;
            }
            let (who, from) = (w.reps[j].id(), w.known_membered(i)[..].first().cloned());
            if let Some(from) = from {
                if direct(&w.reps[i].kh, from).contains_key(&who) {
                    let retain = r.rng.gen_bool(0.8);
                    removal(r, &mut w, i, from, who, retain);
                }
            }
            break;
        }
        if !r.violations.is_empty() {
            break;
        }
        let i = r.rng.gen_range(0..w.reps.len());
        let known = w.known_membered(i);
        let me = w.reps[i].id();
        let k = r.rng.gen_range(0..20);
        if !team && (known.is_empty() && k < 5 || known.len() < 2 && k < 1) {
            let with: Vec<Identifier> = known.iter().filter(|_| r.rng.gen_bool(0.3)).cloned().collect();
            if r.rng.gen_bool(0.7) { w.gen_group(r, i, &with); } else { w.gen_doc(r, i, &with); }
        } else if known.is_empty() {
        } else if k < 10 {
            let to = *pick(&mut r.rng, &known);
            let mut cands: Vec<Identifier> = people.clone();
            cands.extend(known.iter().filter(|x| **x != to));
            let who = *pick(&mut r.rng, &cands);
            let can = if r.rng.gen_bool(0.4) { Access::Admin } else { *pick(&mut r.rng, &LEVELS) };
            let mine = transitive(&w.reps[i].kh, to).get(&me).cloned();
            let before = direct(&w.reps[i].kh, to);
            let had = members(&w.reps[i].kh, to).get(&who).cloned();
            let ok = w.add(r, i, who, to, can);
            r.evaluations += 1;
            if ok {
                r.count("add ok");
                r.check(mine.is_some_and(|m| m >= can), "added-beyond-own-access", || format!("{} has {mine:?} in {} and added {} with {can:?}", w.reps[i].name, w.nm(&to), w.nm(&who)));
                let want = had.into_iter().chain([can]).max().unwrap();
                let has = members(&w.reps[i].kh, to).get(&who).cloned();
                r.check(has == Some(want), "add-effect", || format!("{} in {}: had {had:?}, given {can:?}, now {has:?}", w.nm(&who), w.nm(&to)));
                let after = direct(&w.reps[i].kh, to);
                // what `who` delegated before an earlier removal may count again, but nothing goes away
                r.check(before.iter().all(|(k, v)| *k == who || after.get(k).is_some_and(|x| v.is_subset(x))), "add-disturbs", || format!("adding {} to {} changed others", w.nm(&who), w.nm(&to)));
            } else {
                r.count("add refused");
                r.check(before == direct(&w.reps[i].kh, to), "refused-add-changes", || format!("refused addition of {} changed the members of {}", w.nm(&who), w.nm(&to)));
                let own = members(&w.reps[i].kh, to).get(&me).cloned();
                r.check(!own.is_some_and(|m| m >= can), "entitled-add-refused", || format!("{} has {own:?} in {} itself but could not add {} with {can:?}", w.reps[i].name, w.nm(&to), w.nm(&who)));
            }
        } else if k < 13 {
            let from = *pick(&mut r.rng, &known);
            let ms: Vec<Identifier> = direct(&w.reps[i].kh, from).into_keys().filter(|x| *x != me).collect();
            if ms.is_empty() {
                continue;
            }
            let who = *pick(&mut r.rng, &ms);
            let retain = r.rng.gen();
            if !removal(r, &mut w, i, from, who, retain) {
                break;
            }
        } else {
            let j = r.rng.gen_range(0..w.reps.len());
            if i != j {
                w.sync(i, j);
                r.t(format!("sync {} -> {}", w.reps[i].name, w.reps[j].name));
                if team {
                    w.sync(j, i);
                    r.t(format!("sync {} -> {}", w.reps[j].name, w.reps[i].name));
                }
            }
        }
    }
    r.eval(&r.trace.join("|").replace(char::is_whitespace, ""));
}
/// hand-made operations and API scripts alternate
pub fn membership_mix(r: &mut Rec, c: u64) {
    if r.rng.gen_bool(if r.prop == "P05" { 0.6 } else { 0.35 }) {
        delegating(r, c)
    } else {
        super::membership::case(r, c)
    }
}
