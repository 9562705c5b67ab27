//! P11–P14: many replicas of one key agreement, any interleaving, delivered in any causal order.
use crate::rec::Rec;
use crate::world::{pick, short, shuffle, signer, sub_rng};
use beekem::{
    cgka::Cgka,
    encrypted::{EncryptedContent, EncryptedSecret},
    error::CgkaError,
    id::{MemberId, TreeId},
    keys::{NodeKey, ShareKeyMap},
    operation::CgkaOperation,
    transact::{Fork, Merge},
    tree::BeeKem,
    treemath::TreeNodeIndex,
};
use future_form::Sendable;
use futures::executor::block_on;
use keyhive_crypto::{
    digest::Digest,
    share_key::{ShareKey, ShareSecretKey},
    signed::Signed,
    signer::memory::MemorySigner,
    verifiable::Verifiable,
};
use rand::{rngs::StdRng, Rng};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

type Op = Arc<Signed<CgkaOperation>>;
type H = Digest<Signed<CgkaOperation>>;
type T = [u8; 32];
type Enc = EncryptedContent<Vec<u8>, T>;

/// the serialised key tree, read back (its fields are private)
#[derive(serde::Deserialize, Clone, Debug)]
pub struct Tree {
    pub doc: TreeId,
    pub next: u32,
    pub leaves: Vec<Option<(MemberId, NodeKey)>>,
    pub inner: Vec<Option<Vec<(ShareKey, BTreeMap<TreeNodeIndex, EncryptedSecret<ShareSecretKey>>, ShareKey)>>>,
    pub size: u32,
    pub ids: BTreeMap<MemberId, u32>,
}
pub fn tree(c: &Cgka) -> Tree {
    let b = bincode::serialize(c).unwrap();
    let (_, _, _, t): (TreeId, MemberId, ShareKeyMap, Tree) = bincode::deserialize(&b).unwrap();
    t
}
pub fn tree_of(c: &keyhive_core::cgka::Cgka) -> Tree {
    let b = bincode::serialize(c).unwrap();
    let (_, _, _, t): (TreeId, MemberId, ShareKeyMap, Tree) = bincode::deserialize(&b).unwrap();
    t
}
fn beekem(c: &Cgka) -> BeeKem {
    let b = bincode::serialize(c).unwrap();
    let (_, _, _, t): (TreeId, MemberId, ShareKeyMap, BeeKem) = bincode::deserialize(&b).unwrap();
    t
}
impl Tree {
    /// every public key in the tree
    pub fn keys(&self) -> BTreeSet<ShareKey> {
        let mut s = BTreeSet::new();
        for l in self.leaves.iter().flatten() {
            s.extend(l.1.keys());
        }
        for n in self.inner.iter().flatten() {
            s.extend(n.iter().map(|v| v.0));
        }
        s
    }
    /// members, leaves and index agree
    fn wf(&self) -> Result<(), String> {
        let mut at = BTreeMap::new();
        for (i, l) in self.leaves.iter().enumerate() {
            if let Some((id, _)) = l {
                if at.insert(*id, i as u32).is_some() {
                    return Err("a member has two leaves".into());
                }
                if i as u32 >= self.next {
                    return Err(format!("leaf {i} is in use beyond the next free leaf {}", self.next));
                }
            }
        }
        if at != self.ids {
            return Err("the index of members does not match the leaves".into());
        }
        if self.leaves.len() * 2 != self.size as usize + 1 || self.inner.len() + 1 != self.leaves.len() {
            return Err(format!("sizes {} {} {}", self.leaves.len(), self.inner.len(), self.size));
        }
        for n in self.inner.iter().flatten() {
            if n.is_empty() {
                return Err("an inner node without key".into());
            }
        }
        Ok(())
    }
}

/// every replica knows the well-known keys of Public
fn public_sks() -> ShareKeyMap {
    use keyhive_core::principal::public::Public;
    let mut m = ShareKeyMap::new();
    m.insert(Public.share_key(), Public.share_secret_key());
    m
}
struct Person {
    name: String,
    s: MemorySigner,
    id: MemberId,
    sks: Vec<ShareSecretKey>,
}
struct Node {
    who: usize,
    c: Option<Cgka>,
    have: BTreeSet<usize>,
}
struct Msg {
    op: usize,
    enc: Enc,
    plain: Vec<u8>,
    readers: BTreeSet<MemberId>,
}
pub struct Sim {
    people: Vec<Person>,
    nodes: Vec<Node>,
    ops: Vec<Op>,
    hash: Vec<H>,
    preds: Vec<BTreeSet<usize>>,
    anc: Vec<BTreeSet<usize>>,
    by: HashMap<H, usize>,
    msgs: Vec<Msg>,
    doc: TreeId,
    rng: StdRng,
    public: bool,
}

macro_rules! chk {
    ($r:expr, $p:expr, $ok:expr, $key:expr, $what:expr) => {
        if $r.prop == $p || $r.prop == "CGKA" {
            $r.check($ok, $key, || $what);
        }
    };
}

fn kind(o: &CgkaOperation) -> &'static str {
    match o {
        CgkaOperation::Add { .. } => "add",
        CgkaOperation::Remove { .. } => "remove",
        CgkaOperation::Update { .. } => "update",
    }
}

impl Sim {
    fn new(mut rng: StdRng, n: usize, public: bool) -> Sim {
        let mut people: Vec<Person> = vec![];
        for i in 0..n {
            let s = signer(&mut rng);
            people.push(Person { name: format!("m{i}"), id: MemberId(s.verifying_key()), s, sks: vec![] });
        }
        let doc = TreeId(signer(&mut rng).verifying_key());
        let mut s = Sim { people, nodes: vec![], ops: vec![], hash: vec![], preds: vec![], anc: vec![], by: HashMap::new(), msgs: vec![], doc, rng, public };
        let sk = s.fresh(0);
        let mut sks = public_sks();
        sks.insert(sk.share_key(), sk);
        let c = block_on(Cgka::new::<Sendable, _>(doc, s.people[0].id, sk.share_key(), &s.people[0].s)).unwrap();
        let c = c.with_new_owner(s.people[0].id, sks).unwrap();
        let init = Arc::new(c.init_add_op());
        s.register(init);
        for i in 0..n {
            s.nodes.push(Node { who: i, c: None, have: BTreeSet::new() });
        }
        if public {
            use keyhive_core::principal::public::Public;
            s.people.push(Person { name: "public".into(), s: Public.signer(), id: MemberId::public(), sks: vec![Public.share_secret_key()] });
        }
        s.nodes[0].c = Some(c);
        s.nodes[0].have.insert(0);
        s
    }
    fn fresh(&mut self, p: usize) -> ShareSecretKey {
        let sk = ShareSecretKey::generate(&mut self.rng);
        self.people[p].sks.push(sk);
        sk
    }
    fn register(&mut self, op: Op) -> usize {
        let h = Digest::hash(op.as_ref());
        if let Some(i) = self.by.get(&h) {
            return *i;
        }
        let i = self.ops.len();
        let preds: BTreeSet<usize> = op.payload.predecessors().iter().map(|h| self.by[h]).collect();
        let mut anc = preds.clone();
        for p in &preds {
            anc.extend(self.anc[*p].iter().copied());
        }
        self.ops.push(op);
        self.hash.push(h);
        self.preds.push(preds);
        self.anc.push(anc);
        self.by.insert(h, i);
        i
    }
    fn heads(&self, have: &BTreeSet<usize>) -> BTreeSet<usize> {
        have.iter().copied().filter(|i| !have.iter().any(|j| self.preds[*j].contains(i))).collect()
    }
    fn add_heads(&self, have: &BTreeSet<usize>) -> BTreeSet<usize> {
        let adds: Vec<usize> = have.iter().copied().filter(|i| matches!(self.ops[*i].payload, CgkaOperation::Add { .. })).collect();
        let mut used = BTreeSet::new();
        for a in &adds {
            if let CgkaOperation::Add { add_predecessors, .. } = &self.ops[*a].payload {
                used.extend(add_predecessors.iter().filter_map(|h| self.by.get(h).copied()));
            }
        }
        adds.into_iter().filter(|a| !used.contains(a)).collect()
    }
    fn name(&self, id: &MemberId) -> String {
        self.people.iter().find(|p| p.id == *id).map(|p| p.name.clone()).unwrap_or_else(|| "public".into())
    }
    fn desc(&self, i: usize) -> String {
        let p: Vec<_> = self.preds[i].iter().map(|x| x.to_string()).collect();
        match &self.ops[i].payload {
            CgkaOperation::Add { added_id, leaf_index, .. } => format!("#{i}[{}] add {} at {leaf_index}", p.join(","), self.name(added_id)),
            CgkaOperation::Remove { id, leaf_idx, .. } => format!("#{i}[{}] remove {} at {leaf_idx}", p.join(","), self.name(id)),
            CgkaOperation::Update { id, .. } => format!("#{i}[{}] update {}", p.join(","), self.name(id)),
        }
    }

    /// deliver operation `i` to node `n` as a document would (invitations switch the owner)
    fn deliver(&mut self, r: &mut Rec, n: usize, i: usize) {
        let op = self.ops[i].clone();
        let ready = self.preds[i].iter().all(|p| self.nodes[n].have.contains(p));
        let had = self.nodes[n].have.contains(&i);
        let before = self.nodes[n].c.clone();
        let who = self.nodes[n].who;
        let Some(c) = self.nodes[n].c.as_mut() else {
            if i != 0 {
                return;
            }
            let CgkaOperation::Add { added_id, pk, .. } = op.payload else { unreachable!() };
            let mut c = Cgka::new_from_init_add(self.doc, added_id, pk, op.as_ref().clone()).unwrap();
            c.owner_sks.merge(public_sks());
            self.nodes[n].c = Some(c);
            self.nodes[n].have.insert(0);
            return;
        };
        let mut invited = false;
        if let CgkaOperation::Add { added_id, pk, .. } = &op.payload {
            if *added_id == self.people[who].id && ready && !had {
                invited = true;
                let mut sks = c.owner_sks.clone();
                let sk = self.people[who].sks.iter().find(|k| k.share_key() == *pk).copied().unwrap();
                sks.insert(*pk, sk);
                *c = c.with_new_owner(*added_id, sks).unwrap();
            }
            if *added_id == MemberId::public() && ready && !had {
                *c = c.with_new_owner(*added_id, c.owner_sks.clone()).unwrap();
            }
        }
        let res = c.merge_concurrent_operation(op.clone());
        if matches!(&op.payload, CgkaOperation::Add { added_id, .. } if *added_id == MemberId::public()) && ready && !had {
            // as Document::reset_cgka_owner does
            *c = c.with_new_owner(self.people[who].id, c.owner_sks.clone()).unwrap();
        }
        if !had && ready && std::env::var("VP_TREE").is_ok() {
            let c = self.nodes[n].c.as_ref().unwrap();
            let t = tree(c);
            eprintln!("  {} <- {}: {:?} leaves {:?}", self.people[who].name, self.desc(i), res, t.leaves.iter().map(|l| l.as_ref().map(|l| self.name(&l.0))).collect::<Vec<_>>());
        }
        let c = self.nodes[n].c.as_ref().unwrap();
        if had {
            chk!(r, "P14", matches!(res, Ok(false)), "redelivery-result", format!("receiving {} again returned {res:?}", self.desc(i)));
            chk!(r, "P14", Some(c) == before.as_ref(), "redelivery-changes", format!("receiving {} again changed the state", self.desc(i)));
            r.count("redelivered");
        } else if !ready {
            chk!(r, "P14", matches!(res, Err(CgkaError::OutOfOrderOperation)), "early-accepted", format!("{} was received before its predecessors: {res:?}", self.desc(i)));
            chk!(r, "P14", Some(c) == before.as_ref(), "early-changes", format!("refusing {} changed the state", self.desc(i)));
            r.count("refused early");
        } else {
            let d = self.desc(i);
            chk!(r, "P12", matches!(res, Ok(true)), "not-applied", format!("{} could not be applied at {}: {res:?}", d, self.people[who].name));
            chk!(r, "P14", matches!(res, Ok(true)), "not-applied", format!("{} could not be applied at {}: {res:?}", d, self.people[who].name));
            if matches!(res, Ok(true)) {
                self.nodes[n].have.insert(i);
            }
        }
    }
    /// the operations node `n` made just now
    fn made(&mut self, r: &mut Rec, n: usize, op: Signed<CgkaOperation>) -> usize {
        let expect = self.heads(&self.nodes[n].have);
        let expect_add = self.add_heads(&self.nodes[n].have);
        let i = self.register(Arc::new(op));
        let got = self.preds[i].clone();
        r.t(format!("{} makes {}", self.people[self.nodes[n].who].name, self.desc(i)));
        chk!(r, "P14", got == expect, "predecessors", format!("{}: the operations nobody has built on are {expect:?}, declared {got:?}", self.desc(i)));
        if let CgkaOperation::Add { add_predecessors, predecessors, .. } = &self.ops[i].payload {
            let g: BTreeSet<usize> = add_predecessors.iter().map(|h| self.by[h]).collect();
            chk!(r, "P14", g == expect_add, "add-predecessors", format!("{}: open additions are {expect_add:?}, declared {g:?}", self.desc(i)));
            chk!(r, "P14", predecessors.len() == got.len(), "duplicate-predecessors", self.desc(i));
        }
        self.nodes[n].have.insert(i);
        i
    }
    fn in_tree(&self, n: usize) -> BTreeSet<MemberId> {
        self.nodes[n].c.as_ref().map(|c| tree(c).ids.keys().copied().collect()).unwrap_or_default()
    }
    fn act_add(&mut self, r: &mut Rec, n: usize, p: usize, reuse: bool) -> Option<usize> {
        let pk = if self.people[p].id == MemberId::public() || reuse && !self.people[p].sks.is_empty() { self.people[p].sks.last().unwrap().share_key() } else { self.fresh(p).share_key() };
        let (id, s) = (self.people[p].id, self.people[self.nodes[n].who].s.clone());
        let was = tree(self.nodes[n].c.as_ref()?).ids.contains_key(&id);
        let res = block_on(self.nodes[n].c.as_mut()?.add::<Sendable, _>(id, pk, &s));
        match res {
            Ok(Some(op)) => {
                let i = self.made(r, n, op);
                let t = tree(self.nodes[n].c.as_ref().unwrap());
                chk!(r, "P12", t.ids.contains_key(&id), "add-no-effect", format!("{} is not in the tree", self.desc(i)));
                if let Err(e) = t.wf() {
                    chk!(r, "P12", false, "tree-malformed", format!("after {}: {e}", self.desc(i)));
                }
                Some(i)
            }
            Ok(None) => None,
            Err(e) => {
                chk!(r, "P12", false, "add-error", format!("adding {} failed: {e:?}", self.people[p].name));
                None
            }
        }
    }
    fn act_remove(&mut self, r: &mut Rec, n: usize, p: usize) -> Option<usize> {
        let (id, s) = (self.people[p].id, self.people[self.nodes[n].who].s.clone());
        let before = self.nodes[n].c.clone()?;
        let res = block_on(self.nodes[n].c.as_mut()?.remove::<Sendable, _>(id, &s));
        let after = self.nodes[n].c.as_ref().unwrap();
        let norm = {
            let mut c = before.clone();
            let k = c.clone();
            c.merge(k);
            tree(&c)
        };
        match res {
            Ok(Some(op)) => {
                chk!(r, "P13", norm.ids.contains_key(&id), "removed-absent", format!("removed {} who is not there", self.people[p].name));
                chk!(r, "P13", norm.ids.len() > 1, "removed-last", format!("the last member {} was removed", self.people[p].name));
                let t = tree(after);
                chk!(r, "P13", !t.ids.contains_key(&id) && !t.leaves.iter().flatten().any(|l| l.0 == id), "still-there", format!("{} is still in the tree", self.people[p].name));
                // its former path is blank
                if let Some(l) = norm.ids.get(&id) {
                    let mut idx: u32 = *l / 2;
                    let mut k = 0u32;
                    let mut x = *l * 2;
                    let size = t.size;
                    let root = (size - 1) / 2;
                    loop {
                        // node numbering: leaves even, inner odd; parent of x at level k
                        let par = { let step = 1u32 << k; let up = x | step; up & !(step << 1) };
                        let innr = par / 2;
                        chk!(r, "P13", t.inner.get(innr as usize).is_some_and(|n| n.is_none()), "path-not-blank", format!("after removing leaf {l} inner node {innr} still has a key"));
                        if par == root { break; }
                        x = par;
                        k += 1;
                        if k > 20 { break; }
                    }
                }
                if let Err(e) = t.wf() {
                    chk!(r, "P12", false, "tree-malformed", format!("after a removal: {e}"));
                }
                Some(self.made(r, n, op))
            }
            Ok(None) => {
                chk!(r, "P13", !norm.ids.contains_key(&id), "removal-ignored", format!("{} is in the tree but removing it did nothing", self.people[p].name));
                chk!(r, "P13", tree(after).ids == norm.ids, "absent-removal-changes", "removing an absent member changed the members".into());
                None
            }
            Err(CgkaError::RemoveLastMember) => {
                chk!(r, "P13", norm.ids.len() <= 1, "removal-refused", format!("removal refused with {} members", norm.ids.len()));
                chk!(r, "P13", tree(after).ids == norm.ids, "refused-removal-changes", "refusing to remove the last member changed the members".into());
                None
            }
            Err(e) => {
                chk!(r, "P13", false, "remove-error", format!("removing {} failed: {e:?}", self.people[p].name));
                None
            }
        }
    }
    fn act_update(&mut self, r: &mut Rec, n: usize) -> Option<usize> {
        let who = self.nodes[n].who;
        let sk = ShareSecretKey::generate(&mut self.rng);
        let s = self.people[who].s.clone();
        let mut g = sub_rng(&mut self.rng);
        let res = block_on(self.nodes[n].c.as_mut()?.update::<Sendable, _, _>(sk.share_key(), sk, &s, &mut g));
        match res {
            Ok((k, op)) => {
                let i = self.made(r, n, op);
                let c = self.nodes[n].c.as_mut().unwrap();
                let d = c.secret_from_root();
                let ok = matches!(&d, Ok(x) if *x == k);
                chk!(r, "P11", ok, "own-update", format!("after its own update {} the member derives {:?}", self.desc(i), d.err()));
                Some(i)
            }
            Err(CgkaError::IdentifierNotFound) => None,
            Err(e) => {
                chk!(r, "P11", false, "update-error", format!("{} could not update: {e:?}", self.people[who].name));
                None
            }
        }
    }
    fn act_encrypt(&mut self, r: &mut Rec, n: usize) {
        let who = self.nodes[n].who;
        let s = self.people[who].s.clone();
        let mut g = sub_rng(&mut self.rng);
        let mut plain = vec![0u8; self.rng.gen_range(0..40)];
        self.rng.fill(&mut plain[..]);
        let cr: T = self.rng.gen();
        let preds: Vec<T> = (0..self.rng.gen_range(0..3)).map(|_| self.rng.gen()).collect();
        let res = block_on(self.nodes[n].c.as_mut().unwrap().new_app_secret_for::<Sendable, _, _, _>(&cr, &plain, &preds, &s, &mut g));
        match res {
            Ok((sec, op)) => {
                if let Some(op) = op {
                    self.made(r, n, op);
                }
                let enc: Enc = sec.try_encrypt(&plain).unwrap();
                let Some(&i) = self.by.get(&enc.pcs_update_op_hash) else {
                    chk!(r, "P11", false, "unknown-update", "the ciphertext names an update operation that does not exist".into());
                    return;
                };
                let readers = self.in_tree(n);
                r.t(format!("{} encrypts under #{i} for {}", self.people[who].name, readers.iter().map(|x| self.name(x)).collect::<Vec<_>>().join(",")));
                chk!(r, "P11", matches!(self.ops[i].payload, CgkaOperation::Update { .. }), "not-an-update", format!("the ciphertext's update operation is {}", self.desc(i)));
                r.count("encrypted");
                self.msgs.push(Msg { op: i, enc, plain, readers });
            }
            Err(CgkaError::IdentifierNotFound) => {}
            Err(e) => {
                chk!(r, "P11", false, "encrypt-error", format!("{} could not encrypt: {e:?}", self.people[who].name));
            }
        }
    }
    /// a fork and the original go on separately, then the fork is merged back
    fn act_fork(&mut self, r: &mut Rec, n: usize) {
        let who = self.nodes[n].who;
        let f = self.nodes[n].c.as_ref().unwrap().fork();
        let k = self.nodes.len();
        let have = self.nodes[n].have.clone();
        self.nodes.push(Node { who, c: Some(f), have });
        r.t(format!("{} forks", self.people[who].name));
        for _ in 0..self.rng.gen_range(1..4) {
            let x = if self.rng.gen_bool(0.6) { k } else { n };
            match self.rng.gen_range(0..4) {
                0 => {
                    let p = self.rng.gen_range(0..self.people.len());
                    if p != who { self.act_add(r, x, p, true); }
                }
                1 => {
                    let p = self.rng.gen_range(0..self.people.len());
                    self.act_remove(r, x, p);
                }
                2 => { self.act_update(r, x); }
                _ => {
                    let i = self.rng.gen_range(0..self.ops.len());
                    self.deliver(r, x, i);
                }
            }
        }
        let f = self.nodes.pop().unwrap();
        let both: BTreeSet<usize> = self.nodes[n].have.union(&f.have).copied().collect();
        r.t(format!("{} merges the fork: {:?} and {:?}", self.people[who].name, self.nodes[n].have, f.have));
        let c = self.nodes[n].c.as_mut().unwrap();
        c.merge(f.c.clone().unwrap());
        let once = c.clone();
        let mut twice = c.clone();
        twice.merge(f.c.clone().unwrap());
        self.nodes[n].have = both.clone();
        r.count("merged forks");
        let got: Option<BTreeSet<usize>> = once.ops().ok().map(|e| e.iter().flat_map(|e| e.iter()).map(|o| self.by[&Digest::hash(o.as_ref())]).collect());
        chk!(r, "P14", got.as_ref() == Some(&both), "merge-history", format!("merging a fork: {both:?} were known, {got:?} are exported"));
        chk!(r, "P14", twice == once, "merge-idempotent", "merging the same fork again changed the key agreement".into());
        let keys = f.c.as_ref().unwrap().owner_sks.clone();
        let mut all = once.owner_sks.clone();
        all.merge(keys);
        chk!(r, "P11", all == once.owner_sks, "merge-secrets", "merging a fork lost secret keys".into());
    }
    /// deliver everything to everyone, in a random causal order per node
    fn quiesce(&mut self, r: &mut Rec) {
        for n in 0..self.nodes.len() {
            loop {
                let mut miss: Vec<usize> = (0..self.ops.len()).filter(|i| !self.nodes[n].have.contains(i) && self.preds[*i].iter().all(|p| self.nodes[n].have.contains(p))).collect();
                if miss.is_empty() || !r.violations.is_empty() {
                    break;
                }
                shuffle(&mut self.rng, &mut miss);
                self.deliver(r, n, miss[0]);
            }
        }
    }
    fn normal(c: &Cgka) -> Cgka {
        let mut d = c.clone();
        let f = c.fork();
        d.merge(f);
        d
    }
    /// agreement of all replicas once they hold the same operations
    fn agree(&mut self, r: &mut Rec) {
        self.quiesce(r);
        if !r.violations.is_empty() {
            return;
        }
        let all: BTreeSet<usize> = (0..self.ops.len()).collect();
        let mut trees: Vec<(usize, BeeKem, Tree)> = vec![];
        for n in 0..self.nodes.len() {
            let c = self.nodes[n].c.clone().unwrap();
            // exported history: everything once, causes first
            match c.ops() {
                Err(e) => {
                    chk!(r, "P14", false, "export-error", format!("{e:?}"));
                    continue;
                }
                Ok(eps) => {
                    let order: Vec<usize> = eps.iter().flat_map(|e| e.iter()).map(|o| self.by[&Digest::hash(o.as_ref())]).collect();
                    let set: BTreeSet<usize> = order.iter().copied().collect();
                    chk!(r, "P14", set == all, "export-incomplete", format!("exported {order:?} of {} operations", all.len()));
                    chk!(r, "P14", set.len() == order.len(), "export-duplicate", format!("exported {order:?}"));
                    let pos: HashMap<usize, usize> = order.iter().enumerate().map(|(a, b)| (*b, a)).collect();
                    for i in &order {
                        for p in &self.preds[*i] {
                            chk!(r, "P14", pos.get(p) < pos.get(i), "export-order", format!("#{i} is exported before its predecessor #{p}: {order:?}"));
                        }
                    }
                    if trees.is_empty() {
                        // a newcomer that replays the exported history
                        let mut j: Option<Cgka> = None;
                        for i in &order {
                            match j.as_mut() {
                                None => {
                                    let CgkaOperation::Add { added_id, pk, .. } = self.ops[*i].payload else { break };
                                    j = Some(Cgka::new_from_init_add(self.doc, added_id, pk, self.ops[*i].as_ref().clone()).unwrap());
                                }
                                Some(c) => {
                                    let res = c.merge_concurrent_operation(self.ops[*i].clone());
                                    chk!(r, "P14", matches!(res, Ok(true)), "replay-export", format!("replaying the export, {}: {res:?}", self.desc(*i)));
                                    chk!(r, "P12", matches!(res, Ok(true)), "replay-export", format!("replaying the export, {}: {res:?}", self.desc(*i)));
                                }
                            }
                        }
                        if let Some(j) = j {
                            let j = Self::normal(&j);
                            trees.push((usize::MAX, beekem(&j), tree(&j)));
                        }
                    }
                }
            }
            let m = Self::normal(&c);
            if self.heads(&all).len() == 1 && all.len() > 1 {
                chk!(r, "P12", beekem(&m) == beekem(&c), "replay-differs", format!("with one head, {} holds another tree than a replay of its history", self.people[self.nodes[n].who].name));
            }
            trees.push((n, beekem(&m), tree(&m)));
        }
        // concurrent updates alone need no replay: replicas agree right away
        let conc = all.iter().any(|a| all.iter().any(|b| a != b && !self.anc[*a].contains(b) && !self.anc[*b].contains(a) && !matches!(self.ops[*a].payload, CgkaOperation::Update { .. })));
        if !conc {
            for n in 1..self.nodes.len() {
                chk!(r, "P12", beekem(self.nodes[n].c.as_ref().unwrap()) == beekem(self.nodes[0].c.as_ref().unwrap()), "order-matters", "replicas that got concurrent updates in different orders hold different trees".into());
            }
        }
        let Some(first) = trees.first().cloned() else { return };
        if let Err(e) = first.2.wf() {
            chk!(r, "P12", false, "tree-malformed", e);
        }
        for t in &trees[1..] {
            chk!(r, "P12", t.1 == first.1, "trees-differ", format!("{} and a newcomer replaying the export hold different trees: {:?} / {:?}",
                self.people[t.0].name, self.leaves(&t.2), self.leaves(&first.2)));
        }
        // who must (not) be there; of members that concurrently removed each other the last one stays,
        // which can't happen while somebody is there throughout
        let isrem = |i: &usize| matches!(self.ops[*i].payload, CgkaOperation::Remove { .. });
        let lasting = self.people.iter().any(|p| {
            !self.ops.iter().any(|o| matches!(&o.payload, CgkaOperation::Remove { id, .. } if *id == p.id))
                && all.iter().any(|a| matches!(&self.ops[*a].payload, CgkaOperation::Add { added_id, .. } if *added_id == p.id) && all.iter().filter(|i| isrem(i)).all(|x| self.anc[*x].contains(a)))
        });
        for p in &self.people {
            let adds: Vec<usize> = all.iter().copied().filter(|i| matches!(&self.ops[*i].payload, CgkaOperation::Add { added_id, .. } if *added_id == p.id)).collect();
            let rems: Vec<usize> = all.iter().copied().filter(|i| matches!(&self.ops[*i].payload, CgkaOperation::Remove { id, .. } if *id == p.id)).collect();
            let must = adds.iter().any(|a| rems.iter().all(|x| self.anc[*a].contains(x)));
            let mustnot = !adds.is_empty() && adds.iter().all(|a| rems.iter().any(|x| self.anc[*x].contains(a)));
            let is = first.2.ids.contains_key(&p.id);
            chk!(r, "P12", !must || is, "member-lost", format!("{} was added and not removed since, but is not in the tree {:?}", p.name, self.leaves(&first.2)));
            chk!(r, "P13", !mustnot || !is || !lasting, "removed-present", format!("{} was removed and not added since, but is in the tree {:?}", p.name, self.leaves(&first.2)));
        }
        // ciphertexts
        for k in 0..self.msgs.len() {
            for n in 0..self.nodes.len() {
                let id = self.people[self.nodes[n].who].id;
                if !self.msgs[k].readers.contains(&id) && !self.msgs[k].readers.contains(&MemberId::public()) {
                    continue;
                }
                let mut c = self.nodes[n].c.clone().unwrap();
                let res = c.decryption_key_for(&self.msgs[k].enc).map_err(|e| format!("{e:?}")).and_then(|key| self.msgs[k].enc.try_decrypt(key).map_err(|e| format!("{e:?}")));
                let ok = matches!(&res, Ok(p) if *p == self.msgs[k].plain);
                r.count("decrypted");
                chk!(r, "P11", ok, "decrypt", format!("{} was a member under #{} but cannot read what was encrypted: {:?}", self.people[self.nodes[n].who].name, self.msgs[k].op, res.err()));
            }
        }
    }
    fn leaves(&self, t: &Tree) -> Vec<String> {
        t.leaves.iter().map(|l| l.as_ref().map(|(i, k)| format!("{}:{}", self.name(i), k.keys().iter().map(|k| short(k.as_bytes())).collect::<Vec<_>>().join("+"))).unwrap_or_default()).collect()
    }
    /// one member updates: everybody in the tree derives the same key, nobody else does
    fn finish(&mut self, r: &mut Rec) {
        let m0 = self.in_tree(0);
        let cand: Vec<usize> = (0..self.nodes.len()).filter(|n| {
            let c = Self::normal(self.nodes[*n].c.as_ref().unwrap());
            let t = tree(&c);
            t.ids.contains_key(&self.people[self.nodes[*n].who].id) || t.ids.contains_key(&MemberId::public())
        }).collect();
        if cand.is_empty() {
            return;
        }
        let n = cand[self.rng.gen_range(0..cand.len())];
        let all_before = self.ops.len();
        let Some(i) = self.act_update(r, n) else {
            chk!(r, "P11", false, "update-error", format!("{} is in the tree but cannot update", self.people[self.nodes[n].who].name));
            return;
        };
        self.quiesce(r);
        if !r.violations.is_empty() {
            return;
        }
        let t = tree(self.nodes[n].c.as_ref().unwrap());
        let want = self.nodes[n].c.as_mut().unwrap().secret_from_root().ok();
        let public = t.ids.contains_key(&MemberId::public());
        let CgkaOperation::Update { new_path, .. } = &self.ops[i].payload else { unreachable!() };
        let new_path = new_path.clone();
        for k in 0..self.nodes.len() {
            let id = self.people[self.nodes[k].who].id;
            let nm = self.people[self.nodes[k].who].name.clone();
            let mut c = self.nodes[k].c.clone().unwrap();
            if t.ids.contains_key(&id) || public {
                let got = c.secret_from_root();
                let ok = want.is_some() && got.as_ref().ok() == want.as_ref();
                r.count("derived");
                chk!(r, "P11", ok, "different-key", format!("after {} member {nm} derives {:?}", self.desc(i), got.as_ref().map(|_| "another key")));
                chk!(r, "P12", ok, "no-common-key", format!("after {} member {nm} derives {:?}", self.desc(i), got.as_ref().map(|_| "another key")));
            } else if self.anc[i].iter().any(|x| matches!(&self.ops[*x].payload, CgkaOperation::Remove { id: d, .. } if *d == id)) && !public {
                r.count("removed member tried");
                let got = c.secret_from_root();
                let bad = got.is_ok() && got.as_ref().ok() == want.as_ref();
                chk!(r, "P13", !bad, "removed-derives", format!("{nm} was removed but derives the key of {}", self.desc(i)));
                // with everything it ever held, as any member
                let mut sks = self.nodes[k].c.as_ref().unwrap().owner_sks.clone();
                for s in &self.people[self.nodes[k].who].sks {
                    sks.insert(s.share_key(), *s);
                }
                for key in t.keys() {
                    if sks.contains_key(&key) {
                        let why = self.path_of(&t, &key);
                        chk!(r, "P13", false, "key-survives", format!("{nm} was removed but holds the secret of a key in the tree at {why}"));
                    }
                }
                let b = bincode::serialize(&new_path.path).unwrap();
                let path: Vec<(u32, Vec<(ShareKey, BTreeMap<TreeNodeIndex, EncryptedSecret<ShareSecretKey>>, ShareKey)>)> = bincode::deserialize(&b).unwrap();
                for (ix, vs) in &path {
                    for (_, m, enc_pk) in vs {
                        for (at, e) in m {
                            let a = sks.try_decrypt_encryption(*enc_pk, e).is_ok();
                            let b = sks.get(enc_pk).is_some_and(|s| e.try_encrypter_decrypt(s).is_ok());
                            chk!(r, "P13", !a && !b, "encrypted-to-removed", format!("{nm} was removed but can open the secret of inner node {ix} stored for {at:?}"));
                        }
                    }
                }
                if let Some(w) = &want {
                    let mut e = self.nodes[k].c.clone().unwrap();
                    let bad = matches!(e.secret(&Digest::hash(w), &self.hash[i]), Ok(x) if x == *w);
                    chk!(r, "P13", !bad, "removed-derives", format!("{nm} was removed but derives the key of {} from the operation", self.desc(i)));
                }
            }
        }
    }
    fn path_of(&self, t: &Tree, k: &ShareKey) -> String {
        for (i, l) in t.leaves.iter().enumerate() {
            if l.as_ref().is_some_and(|l| l.1.contains_key(k)) {
                return format!("leaf {i} ({})", self.name(&l.as_ref().unwrap().0));
            }
        }
        for (i, n) in t.inner.iter().enumerate() {
            if n.as_ref().is_some_and(|n| n.iter().any(|v| v.0 == *k)) {
                return format!("inner node {i}");
            }
        }
        "?".into()
    }
}

pub fn case(r: &mut Rec, _c: u64) {
    let rng = sub_rng(&mut r.rng);
    let style = r.rng.gen_range(0..10);
    let n = match style {
        0 => r.rng.gen_range(1..3),
        1..=6 => r.rng.gen_range(2..6),
        _ => r.rng.gen_range(5..10),
    };
    let public = r.rng.gen_bool(0.15);
    let mut s = Sim::new(rng, n, public);
    // start with some members already in
    let start = r.rng.gen_range(0..n);
    for p in 1..=start {
        if p < n {
            s.act_add(r, 0, p, false);
        }
    }
    if r.rng.gen_bool(0.5) {
        s.act_update(r, 0);
    }
    if r.rng.gen_bool(0.7) {
        s.quiesce(r);
    }
    let steps = r.rng.gen_range(3..22);
    let lag = *pick(&mut r.rng, &[0.1, 0.4, 0.7]);
    for _ in 0..steps {
        if !r.violations.is_empty() {
            return;
        }
        let active: Vec<usize> = (0..n).filter(|k| {
            let t = s.in_tree(*k);
            t.contains(&s.people[s.nodes[*k].who].id) || t.contains(&MemberId::public())
        }).collect();
        if active.is_empty() {
            break;
        }
        let k = *pick(&mut r.rng, &active);
        match r.rng.gen_range(0..100) {
            0..=24 => {
                let p = r.rng.gen_range(0..s.people.len());
                let reuse = r.rng.gen_bool(0.5);
                if p != k {
                    s.act_add(r, k, p, reuse);
                }
            }
            25..=44 => {
                let p = r.rng.gen_range(0..s.people.len());
                s.act_remove(r, k, p);
            }
            45..=69 => {
                s.act_update(r, k);
            }
            70..=82 => s.act_encrypt(r, k),
            83..=87 => s.act_fork(r, k),
            _ => {
                // a full sync
                s.quiesce(r);
            }
        }
        // partial, out of order, repeated deliveries
        for n2 in 0..n {
            if r.rng.gen_bool(lag) {
                for _ in 0..r.rng.gen_range(0..4) {
                    let i = r.rng.gen_range(0..s.ops.len());
                    s.deliver(r, n2, i);
                }
            }
        }
    }
    let shape: Vec<String> = (0..s.ops.len()).map(|i| s.desc(i)).collect();
    r.eval(&shape);
    s.agree(r);
    if r.violations.is_empty() {
        s.finish(r);
    }
    if r.violations.is_empty() {
        s.agree(r);
    }
}
