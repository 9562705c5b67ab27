//! Replicas, hand-made operations and canonical views of a replica's observable state.
use future_form::Sendable;
use futures::executor::block_on;
use futures::lock::Mutex;
use keyhive_core::{
    access::Access,
    archive::Archive,
    event::static_event::StaticEvent,
    keyhive::Keyhive,
    listener::no_listener::NoListener,
    principal::{
        agent::Agent,
        document::{id::DocumentId, Document},
        group::{
            delegation::{Delegation, StaticDelegation},
            id::GroupId,
            membership_operation::MembershipOperation,
            revocation::{Revocation, StaticRevocation},
            Group,
        },
        identifier::Identifier,
        individual::{id::IndividualId, op::KeyOp, Individual},
        membered::Membered,
        peer::Peer,
    },
    store::ciphertext::memory::MemoryCiphertextStore,
};
use keyhive_crypto::{digest::Digest, share_key::ShareKey, signed::Signed, signer::memory::MemorySigner, verifiable::Verifiable};
use rand::{rngs::StdRng, Rng, RngCore, SeedableRng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

pub type T = [u8; 32];
pub type L = NoListener;
pub type St = MemoryCiphertextStore<T, Vec<u8>>;
pub type Kh = Keyhive<Sendable, MemorySigner, T, Vec<u8>, St, L, StdRng>;
pub type Ag = Agent<Sendable, MemorySigner, T, L>;
pub type Mem = Membered<Sendable, MemorySigner, T, L>;
pub type Grp = Group<Sendable, MemorySigner, T, L>;
pub type Doc = Document<Sendable, MemorySigner, T, L>;
pub type Dlg = Signed<Delegation<Sendable, MemorySigner, T, L>>;
pub type Rev = Signed<Revocation<Sendable, MemorySigner, T, L>>;
pub type MOp = MembershipOperation<Sendable, MemorySigner, T, L>;
pub type SD = Signed<StaticDelegation<T>>;
pub type SR = Signed<StaticRevocation<T>>;
pub type Ev = StaticEvent<T>;
pub type View = BTreeMap<String, String>;

pub const LEVELS: [Access; 4] = [Access::Relay, Access::Read, Access::Edit, Access::Admin];

pub fn sub_rng(rng: &mut StdRng) -> StdRng {
    StdRng::from_rng(rng).unwrap()
}
pub fn signer(rng: &mut StdRng) -> MemorySigner {
    MemorySigner::generate(rng)
}
pub fn sid(s: &MemorySigner) -> Identifier {
    s.verifying_key().into()
}
pub fn short(b: &[u8]) -> String {
    b.iter().take(4).map(|x| format!("{x:02x}")).collect()
}
pub fn sh(i: &Identifier) -> String {
    short(i.as_bytes())
}
pub fn hx<X: serde::Serialize>(x: &X) -> String {
    short(blake3::hash(&bincode::serialize(x).unwrap()).as_bytes())
}
pub fn pick<'a, X>(rng: &mut StdRng, v: &'a [X]) -> &'a X {
    &v[rng.gen_range(0..v.len())]
}

pub fn new_kh(rng: &mut StdRng) -> Kh {
    let s = signer(rng);
    new_kh_with(rng, s)
}
pub fn new_kh_with(rng: &mut StdRng, s: MemorySigner) -> Kh {
    block_on(Kh::generate(s, MemoryCiphertextStore::new(), NoListener, sub_rng(rng))).unwrap()
}
pub fn restore(rng: &mut StdRng, a: &Archive<T>, s: MemorySigner, store: St) -> Result<Kh, String> {
    block_on(Kh::try_from_archive(a, s, store, NoListener, Arc::new(Mutex::new(sub_rng(rng))))).map_err(|e| format!("{e:?}"))
}

/// A replica with its signing key and the individuals/groups it was told about.
pub struct Rep {
    pub kh: Kh,
    pub s: MemorySigner,
    pub name: String,
}
impl Rep {
    pub fn new(rng: &mut StdRng, name: &str) -> Rep {
        let s = signer(rng);
        let kh = new_kh_with(rng, s.clone());
        Rep { kh, s, name: name.into() }
    }
    pub fn id(&self) -> Identifier {
        sid(&self.s)
    }
    pub fn card_to(&self, other: &Rep) {
        let c = block_on(self.kh.contact_card()).unwrap();
        block_on(other.kh.receive_contact_card(&c)).unwrap();
    }
    /// give `other` this replica's individual with all its prekeys
    pub fn introduce(&self, other: &Rep) {
        let c = block_on(self.kh.get_existing_contact_card());
        block_on(other.kh.receive_contact_card(&c)).unwrap();
        for op in my_prekey_ops(&self.kh) {
            block_on(other.kh.receive_prekey_op(&op)).unwrap();
        }
    }
    pub fn agent(&self, id: Identifier) -> Option<Ag> {
        block_on(self.kh.get_agent(id))
    }
}

pub fn my_prekey_ops(kh: &Kh) -> Vec<KeyOp> {
    block_on(async { kh.individual().await.lock().await.prekey_ops().values().map(|o| o.as_ref().clone()).collect() })
}

pub fn sd(s: &MemorySigner, delegate: Identifier, can: Access, proof: Option<&SD>, revs: &[&SR], content: BTreeMap<DocumentId, Vec<T>>) -> SD {
    s.try_sign_sync(StaticDelegation {
        can,
        proof: proof.map(|p| Digest::hash(p)),
        delegate,
        after_revocations: revs.iter().map(|r| Digest::hash(*r)).collect(),
        after_content: content,
    })
    .unwrap()
}
pub fn sr(s: &MemorySigner, revoke: &SD, proof: Option<&SD>) -> SR {
    s.try_sign_sync(StaticRevocation { revoke: Digest::hash(revoke), proof: proof.map(|p| Digest::hash(p)), after_content: BTreeMap::new() }).unwrap()
}
pub fn to_sd(d: &Dlg) -> SD {
    d.clone().map(Into::into)
}
pub fn to_sr(d: &Rev) -> SR {
    d.clone().map(Into::into)
}
/// add operation introducing a person with one prekey
pub fn intro(rng: &mut StdRng, s: &MemorySigner) -> KeyOp {
    use keyhive_core::principal::individual::op::add_key::AddKeyOp;
    let k = keyhive_crypto::share_key::ShareSecretKey::generate(rng).share_key();
    KeyOp::Add(Arc::new(s.try_sign_sync(AddKeyOp { share_key: k }).unwrap()))
}
pub fn rotate(rng: &mut StdRng, s: &MemorySigner, old: ShareKey) -> KeyOp {
    let k = keyhive_crypto::share_key::ShareSecretKey::generate(rng).share_key();
    rotate_to(s, old, k)
}
pub fn rotate_to(s: &MemorySigner, old: ShareKey, new: ShareKey) -> KeyOp {
    use keyhive_core::principal::individual::op::rotate_key::RotateKeyOp;
    KeyOp::Rotate(Arc::new(s.try_sign_sync(RotateKeyOp { old, new }).unwrap()))
}
pub fn key_event(o: &KeyOp) -> Ev {
    match o {
        KeyOp::Add(a) => StaticEvent::PrekeysExpanded(Box::new(a.as_ref().clone())),
        KeyOp::Rotate(r) => StaticEvent::PrekeyRotated(Box::new(r.as_ref().clone())),
    }
}
pub fn know(kh: &Kh, rng: &mut StdRng, s: &MemorySigner) {
    let op = intro(rng, s);
    block_on(kh.receive_prekey_op(&op)).unwrap();
}
pub fn recv_d(kh: &Kh, d: &SD) -> Result<(), String> {
    block_on(kh.receive_delegation(d)).map_err(|e| format!("{e:?}"))
}
pub fn recv_r(kh: &Kh, r: &SR) -> Result<(), String> {
    block_on(kh.receive_revocation(r)).map_err(|e| format!("{e:?}"))
}
pub fn ingest(kh: &Kh, evs: Vec<Ev>) -> usize {
    block_on(kh.ingest_unsorted_static_events(evs)).len()
}
pub fn group(kh: &Kh, id: Identifier) -> Option<Arc<Mutex<Grp>>> {
    block_on(kh.get_group(GroupId::new(id)))
}
pub fn doc(kh: &Kh, id: Identifier) -> Option<Arc<Mutex<Doc>>> {
    block_on(kh.get_document(id.into()))
}
pub fn membered(kh: &Kh, id: Identifier) -> Option<Mem> {
    if let Some(g) = group(kh, id) {
        return Some(Membered::Group(GroupId::new(id), g));
    }
    doc(kh, id).map(|d| Membered::Document(id.into(), d))
}
/// direct members with their best access
pub fn members(kh: &Kh, id: Identifier) -> BTreeMap<Identifier, Access> {
    let m = membered(kh, id).expect("known");
    let ms = block_on(m.members());
    ms.iter().map(|(k, v)| (*k, v.iter().map(|d| d.payload().can()).max().unwrap())).collect()
}
pub fn transitive(kh: &Kh, id: Identifier) -> BTreeMap<Identifier, Access> {
    let m = membered(kh, id).expect("known");
    block_on(m.transitive_members()).into_iter().map(|(k, (_, a))| (k, a)).collect()
}
pub fn fmt_members(m: &BTreeMap<Identifier, Access>) -> String {
    let mut v: Vec<String> = m.iter().map(|(k, a)| format!("{}:{a:?}", sh(k))).collect();
    v.sort();
    v.join(" ")
}

fn dl_digest(d: &Dlg) -> String {
    hx(&to_sd(d))
}

/// Everything a user can observe about groups, documents, people and pending operations.
pub struct ViewOpts {
    pub cgka: bool,
    pub secrets: bool,
}

pub fn view(kh: &Kh) -> View {
    view_with(kh, true)
}
pub fn view_with(kh: &Kh, cgka: bool) -> View {
    block_on(async {
        let mut v = View::new();
        let groups: Vec<_> = kh.groups().lock().await.values().cloned().collect();
        for g in groups {
            let g = g.lock().await;
            group_view(&mut v, "group", &g).await;
        }
        let docs: Vec<_> = kh.documents().lock().await.values().cloned().collect();
        for d in docs {
            let d = d.lock().await;
            // Document has no accessor for its group: use its own queries
            let id = sh(&d.id());
            doc_view(&mut v, &d, cgka).await;
        }
        let mut pend: Vec<String> = kh.pending_event_hashes().await.iter().map(|d| short(d.as_slice())).collect();
        pend.sort();
        v.insert("pending".into(), pend.join(" "));
        v
    })
}
fn store_view<'a>(it: impl Iterator<Item = String>) -> String {
    let mut x: Vec<String> = it.collect();
    x.sort();
    x.join(" ")
}
async fn group_view(v: &mut View, kind: &str, g: &Grp) {
    let id = sh(&g.id());
    v.insert(format!("{kind} {id} members"), store_view(g.members().iter().map(|(k, ds)| {
        let mut x: Vec<_> = ds.iter().map(|d| dl_digest(d)).collect();
        x.sort();
        format!("{}={:?}{:?}", sh(k), ds.iter().map(|d| d.payload().can()).max().unwrap(), x)
    })));
    v.insert(format!("{kind} {id} reach"), fmt_members(&g.transitive_members().await.into_iter().map(|(k, (_, a))| (k, a)).collect()));
    v.insert(format!("{kind} {id} revoked"), fmt_members(&g.revoked_members().into_iter().map(|(k, (_, a))| (k, a)).collect()));
    v.insert(format!("{kind} {id} dheads"), store_view(g.delegation_heads().values().map(|d| dl_digest(d))));
    v.insert(format!("{kind} {id} rheads"), store_view(g.revocation_heads().values().map(|d| hx(&to_sr(d)))));
}
async fn doc_view(v: &mut View, g: &Doc, cgka: bool) {
    let kind = "doc";
    let id = sh(&g.id());
    v.insert(format!("{kind} {id} members"), store_view(g.members().iter().map(|(k, ds)| {
        let mut x: Vec<_> = ds.iter().map(|d| dl_digest(d)).collect();
        x.sort();
        format!("{}={:?}{:?}", sh(k), ds.iter().map(|d| d.payload().can()).max().unwrap(), x)
    })));
    v.insert(format!("{kind} {id} reach"), fmt_members(&g.transitive_members().await.into_iter().map(|(k, (_, a))| (k, a)).collect()));
    v.insert(format!("{kind} {id} revoked"), fmt_members(&g.revoked_members().into_iter().map(|(k, (_, a))| (k, a)).collect()));
    v.insert(format!("{kind} {id} dheads"), store_view(g.delegation_heads().values().map(|d| dl_digest(d))));
    v.insert(format!("{kind} {id} rheads"), store_view(g.revocation_heads().values().map(|d| hx(&to_sr(d)))));
    if cgka {
        v.insert(format!("{kind} {id} cgka ops"), match g.cgka_ops() {
            Ok(e) => store_view(e.iter().flat_map(|e| e.iter()).map(|o| hx(o.as_ref()))),
            Err(_) => "none".into(),
        });
    }
}
/// individuals the replica knows, among `ids`: their prekeys and prekey operations
pub fn people_view(kh: &Kh, ids: &[Identifier]) -> View {
    block_on(async {
        let mut v = View::new();
        for id in ids {
            let Some(a) = kh.get_agent(*id).await else {
                v.insert(format!("agent {}", sh(id)), "unknown".into());
                continue;
            };
            let kind = match &a {
                Agent::Active(..) => "active",
                Agent::Individual(..) => "person",
                Agent::Group(..) => "group",
                Agent::Document(..) => "document",
            };
            v.insert(format!("agent {}", sh(id)), kind.into());
            v.insert(format!("agent {} key ops", sh(id)), store_view(a.key_ops().await.values().map(|o| hx(o.as_ref()))));
            if let Some(i) = kh.get_individual(IndividualId::new(*id)).await {
                let i = i.lock().await.clone();
                v.insert(format!("person {} prekeys", sh(id)), store_view(prekeys_of(&i).iter().map(|k| short(k.as_bytes()))));
            }
        }
        v
    })
}
/// advertised prekeys, read from the serialized individual (the field is private)
pub fn prekeys_of(i: &Individual) -> BTreeSet<ShareKey> {
    #[derive(serde::Deserialize)]
    struct Prefix(IndividualId, HashSet<ShareKey>);
    let b = bincode::serialize(i).unwrap();
    let p: Prefix = bincode::deserialize(&b).unwrap();
    p.1.into_iter().collect()
}
/// the same, recomputed from the operations
pub fn individual_of(kh: &Kh, id: Identifier) -> Option<Individual> {
    block_on(async {
        match kh.get_individual(IndividualId::new(id)).await {
            Some(i) => Some(i.lock().await.clone()),
            None => None,
        }
    })
}
/// canonical text of an archive (hash maps sorted), for "nothing changed" comparisons
pub fn archive_bytes(kh: &Kh) -> Archive<T> {
    block_on(kh.into_archive())
}
pub fn diff(a: &View, b: &View) -> String {
    let mut out = vec![];
    for (k, v) in a {
        match b.get(k) {
            None => out.push(format!("{k}: [{v}] vs absent")),
            Some(w) if w != v => out.push(format!("{k}: [{v}] vs [{w}]")),
            _ => {}
        }
    }
    for (k, v) in b {
        if !a.contains_key(k) {
            out.push(format!("{k}: absent vs [{v}]"));
        }
    }
    out.truncate(4);
    out.join("; ")
}

/// every operation a replica holds, taken from its archive-equivalent queries
pub fn all_events(kh: &Kh) -> Vec<Ev> {
    block_on(async {
        let mut seen = HashSet::new();
        let mut out: Vec<Ev> = vec![];
        let mut push = |e: Ev, seen: &mut HashSet<[u8; 32]>, out: &mut Vec<Ev>| {
            let h = *blake3::hash(&bincode::serialize(&e).unwrap()).as_bytes();
            if seen.insert(h) {
                out.push(e);
            }
        };
        let m = kh.membership_ops_for_all_agents().await;
        for (_, ops) in &m.ops {
            for (_, op) in ops {
                let e = match op {
                    MembershipOperation::Delegation(d) => StaticEvent::Delegated(to_sd(d)),
                    MembershipOperation::Revocation(r) => StaticEvent::Revoked(to_sr(r)),
                };
                push(e, &mut seen, &mut out);
            }
        }
        let k = kh.reachable_prekey_ops_for_all_agents().await;
        for (_, ops) in &k.ops {
            for op in ops {
                push(key_event(op), &mut seen, &mut out);
            }
        }
        let docs: Vec<_> = kh.documents().lock().await.values().cloned().collect();
        for d in docs {
            if let Ok(es) = d.lock().await.cgka_ops() {
                for e in es.iter() {
                    for op in e.iter() {
                        push(StaticEvent::CgkaOperation(Box::new(op.as_ref().clone())), &mut seen, &mut out);
                    }
                }
            }
        }
        out
    })
}
pub fn ev_hash(e: &Ev) -> String {
    hx(e)
}
pub fn shuffle<X>(rng: &mut StdRng, v: &mut Vec<X>) {
    use rand::seq::SliceRandom;
    v.shuffle(rng);
}

/// plain membership model: best product of bottlenecks over paths
pub fn widest(direct: &BTreeMap<Identifier, BTreeMap<Identifier, Access>>, root: Identifier) -> BTreeMap<Identifier, Access> {
    let mut best: BTreeMap<Identifier, Access> = BTreeMap::new();
    let mut todo: Vec<(Identifier, Access)> = direct[&root].iter().map(|(k, a)| (*k, *a)).collect();
    while let Some((id, a)) = todo.pop() {
        if id == root || best.get(&id).is_some_and(|b| *b >= a) {
            continue;
        }
        best.insert(id, a);
        if let Some(sub) = direct.get(&id) {
            for (k, b) in sub {
                todo.push((*k, (*b).min(a)));
            }
        }
    }
    best
}
