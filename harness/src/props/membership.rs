//! P02–P06: hand-signed membership operations against a plain model of delegation graphs.
use crate::rec::Rec;
use crate::world::*;
use futures::executor::block_on;
use keyhive_core::{access::Access, principal::identifier::Identifier};
use keyhive_crypto::{signer::memory::MemorySigner, verifiable::Verifiable};
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone)]
pub struct Dl {
    subj: usize,
    issuer: usize,
    delegate: usize,
    can: Access,
    proof: Option<usize>,
    pub sd: SD,
}
#[derive(Clone)]
pub struct Rv {
    subj: usize,
    issuer: usize,
    revoke: usize,
    proof: Option<usize>,
    pub sr: SR,
}
#[derive(PartialEq, Clone, Copy, Debug)]
pub enum Want {
    Accept,
    Refuse,
    Either,
}

pub struct W {
    pub kh: Kh,
    pub ents: Vec<MemorySigner>,
    pub ids: Vec<Identifier>,
    pub people: usize,
    pub intros: Vec<Ev>,
    pub dl: Vec<Dl>,
    pub rv: Vec<Rv>,
    /// accepted operations in order of acceptance
    pub log: Vec<Ev>,
    pub doc: Vec<bool>,
    pub transitive_used: bool,
    /// some act without knowing of the revocations
    pub unaware: bool,
}

macro_rules! chk {
    ($r:expr, $p:expr, $ok:expr, $key:expr, $what:expr) => {
        if $r.prop == $p || $r.prop == "MEM" {
            $r.check($ok, $key, || $what);
        }
    };
}

impl W {
    pub fn new(r: &mut Rec, people: usize, nested: usize) -> W {
        let kh = new_kh(&mut r.rng);
        let mut ents = vec![];
        let mut ids = vec![];
        let mut intros = vec![];
        let mut doc = vec![];
        for i in 0..people + nested {
            let s = signer(&mut r.rng);
            ids.push(sid(&s));
            if i < people {
                let op = intro(&mut r.rng, &s);
                block_on(kh.receive_prekey_op(&op)).unwrap();
                intros.push(key_event(&op));
            }
            doc.push(i >= people && r.rng.gen_bool(0.4));
            ents.push(s);
        }
        W { kh, ents, ids, people, intros, dl: vec![], rv: vec![], log: vec![], doc, transitive_used: false, unaware: false }
    }
    pub fn nm(&self, e: usize) -> String {
        if e < self.people {
            format!("p{e}")
        } else if self.doc[e] {
            format!("D{e}")
        } else {
            format!("G{e}")
        }
    }
    pub fn dd(&self, d: usize) -> String {
        let x = &self.dl[d];
        format!("d{d}: {} {}->{} {:?}{}", self.nm(x.subj), self.nm(x.issuer), self.nm(x.delegate), x.can, x.proof.map(|p| format!(" by d{p}")).unwrap_or_default())
    }
    fn exists(&self, e: usize) -> bool {
        self.dl.iter().any(|d| d.subj == e)
    }
    fn chain(&self, d: usize) -> Vec<usize> {
        let mut v = vec![d];
        let mut x = d;
        while let Some(p) = self.dl[x].proof {
            v.push(p);
            x = p;
        }
        v
    }
    /// current direct members of every group, as reported
    pub fn direct(&self) -> BTreeMap<Identifier, BTreeMap<Identifier, Access>> {
        let mut m = BTreeMap::new();
        for e in self.people..self.ents.len() {
            if self.exists(e) {
                m.insert(self.ids[e], members(&self.kh, self.ids[e]));
            }
        }
        m
    }
    /// access of `who` through `holder`; second: without passing through `outside`
    fn through(&self, holder: usize, who: usize, outside: usize) -> (Option<Access>, Option<Access>) {
        let d = self.direct();
        let Some(_) = d.get(&self.ids[holder]) else { return (None, None) };
        let full = widest(&d, self.ids[holder]).get(&self.ids[who]).copied();
        let mut d2 = d.clone();
        d2.insert(self.ids[outside], BTreeMap::new());
        let part = if holder == outside { None } else { widest(&d2, self.ids[holder]).get(&self.ids[who]).copied() };
        (full, part)
    }
    /// must a link (claim `can` issued by `issuer`, resting on a delegation to `holder`) hold?
    fn link(&self, issuer: usize, holder: usize, can: Access, subj: usize) -> Want {
        if issuer == holder {
            return Want::Accept;
        }
        let (full, part) = self.through(holder, issuer, subj);
        match (full.is_some_and(|a| a >= can), part.is_some_and(|a| a >= can)) {
            (_, true) => Want::Accept,
            (false, _) => Want::Refuse,
            _ => Want::Either,
        }
    }
    fn chain_want(&self, d: &Dl) -> Want {
        let mut w = Want::Accept;
        let mut cur = d.clone();
        while let Some(p) = cur.proof {
            let p = self.dl[p].clone();
            if cur.can > p.can {
                return Want::Refuse;
            }
            match self.link(cur.issuer, p.delegate, cur.can, d.subj) {
                Want::Refuse => return Want::Refuse,
                Want::Either => w = Want::Either,
                _ => {}
            }
            cur = p;
        }
        if cur.issuer != d.subj {
            return Want::Refuse;
        }
        w
    }
    fn rev_want(&self, v: &Rv) -> Want {
        let target = &self.dl[v.revoke];
        let Some(p) = v.proof else {
            return if v.issuer == target.subj { Want::Accept } else { Want::Refuse };
        };
        let pf = &self.dl[p];
        if pf.subj != target.subj {
            return Want::Refuse;
        }
        let mut w = self.chain_want(pf);
        if w == Want::Refuse {
            // a proof that was accepted but whose intermediaries changed since
            w = Want::Either;
        }
        let in_line = self.chain(v.revoke).contains(&p);
        let direct = in_line && (v.issuer == pf.issuer || v.issuer == pf.delegate);
        if direct {
            return w;
        }
        if pf.can < target.can {
            return Want::Refuse;
        }
        if v.issuer == pf.delegate {
            // holds other authority over the same group, but not over this delegation
            return Want::Refuse;
        }
        match self.link(v.issuer, pf.delegate, target.can, target.subj) {
            Want::Refuse => Want::Refuse,
            Want::Accept => w,
            Want::Either => Want::Either,
        }
    }
    fn state(&self, e: usize) -> String {
        match membered(&self.kh, self.ids[e]) {
            None => "unknown".into(),
            Some(m) => {
                let d = block_on(m.delegation_heads());
                let v = block_on(m.revocation_heads());
                let mut a: Vec<String> = d.values().map(|d| hx(&to_sd(d))).collect();
                let mut b: Vec<String> = v.values().map(|d| hx(&to_sr(d))).collect();
                a.sort();
                b.sort();
                format!("{} / {a:?} / {b:?}", fmt_members(&members(&self.kh, self.ids[e])))
            }
        }
    }
    fn content(&self, e: usize) -> BTreeMap<keyhive_core::principal::document::id::DocumentId, Vec<T>> {
        if self.doc[e] {
            BTreeMap::from([(self.ids[e].into(), vec![[e as u8; 32]])])
        } else {
            BTreeMap::new()
        }
    }
    pub fn deliver_d(&mut self, r: &mut Rec, d: Dl) -> Option<usize> {
        if self.dl.iter().any(|x| x.sd == d.sd) {
            return None;
        }
        let known = |e: usize| e < self.people || self.exists(e);
        // a delegation to somebody unknown can't be applied yet
        let want = if !known(d.delegate) && d.delegate != d.subj { Want::Either } else { self.chain_want(&d) };
        let before = self.state(d.subj);
        let res = recv_d(&self.kh, &d.sd);
        let i = self.dl.len();
        self.dl.push(d);
        let txt = self.dd(i);
        r.t(format!("{txt}: {}", if res.is_ok() { "accepted" } else { "refused" }));
        r.count(if res.is_ok() { "delegations accepted" } else { "delegations refused" });
        if res.is_ok() {
            chk!(r, "P02", want != Want::Refuse, "unauthorised-delegation", format!("{txt} was accepted"));
            self.log.push(Ev::Delegated(self.dl[i].sd.clone()));
            Some(i)
        } else {
            chk!(r, "P02", want != Want::Accept, "valid-delegation-refused", format!("{txt} was refused: {res:?}"));
            let subj = self.dl[i].subj;
            self.dl.pop();
            let after = self.state(subj);
            chk!(r, "P02", before == after, "refusal-changes-members", format!("refusing {txt} changed {} from {before} to {after}", self.nm(subj)));
            None
        }
    }
    pub fn deliver_r(&mut self, r: &mut Rec, v: Rv) -> bool {
        if self.rv.iter().any(|x| x.sr == v.sr) {
            return false;
        }
        let want = self.rev_want(&v);
        let subj = v.subj;
        let before = self.state(subj);
        let bm = members(&self.kh, self.ids[subj]);
        let res = recv_r(&self.kh, &v.sr);
        let txt = format!("{} revokes d{}{}", self.nm(v.issuer), v.revoke, v.proof.map(|p| format!(" by d{p}")).unwrap_or_default());
        r.t(format!("{txt}: {}", if res.is_ok() { "accepted" } else { "refused" }));
        r.count(if res.is_ok() { "revocations accepted" } else { "revocations refused" });
        if res.is_ok() {
            chk!(r, "P03", want != Want::Refuse, "unauthorised-revocation", format!("{txt} ({}) was accepted; members were {} and are {}", self.dd(v.revoke), fmt_members(&bm), fmt_members(&members(&self.kh, self.ids[subj]))));
            self.log.push(Ev::Revoked(v.sr.clone()));
            self.rv.push(v);
            true
        } else {
            chk!(r, "P03", want != Want::Accept, "valid-revocation-refused", format!("{txt} ({}) was refused: {res:?}", self.dd(v.revoke)));
            let after = self.state(subj);
            chk!(r, "P03", before == after, "refusal-changes-members", format!("refusing {txt} changed {} from {before} to {after}", self.nm(subj)));
            false
        }
    }
    pub fn mk_d(&self, r: &mut Rec, subj: usize, issuer: usize, delegate: usize, can: Access, proof: Option<usize>) -> Dl {
        let revs: Vec<&SR> = self.rv.iter().filter(|v| v.subj == subj).map(|v| &v.sr).filter(|_| r.rng.gen_bool(0.4)).collect();
        let content = if proof.is_none() { self.content(subj) } else { BTreeMap::new() };
        Dl { subj, issuer, delegate, can, proof, sd: sd(&self.ents[issuer], self.ids[delegate], can, proof.map(|p| &self.dl[p].sd), &revs, content) }
    }
    pub fn mk_r(&self, issuer: usize, revoke: usize, proof: Option<usize>) -> Rv {
        Rv { subj: self.dl[revoke].subj, issuer, revoke, proof, sr: sr(&self.ents[issuer], &self.dl[revoke].sd, proof.map(|p| &self.dl[p].sd)) }
    }

    /// which delegations of `e` must / may confer access, given the accepted operations
    fn bounds(&self, e: usize) -> (BTreeSet<usize>, BTreeSet<usize>) {
        let all: BTreeSet<usize> = (0..self.dl.len()).filter(|d| self.dl[*d].subj == e).collect();
        let maybe: BTreeSet<usize> = self.rv.iter().map(|v| v.revoke).collect();
        let untouched = |d: usize| self.chain(d).iter().all(|x| !maybe.contains(x));
        let sure: BTreeSet<usize> = self.rv.iter().filter(|v| v.proof.is_none_or(|p| untouched(p))).map(|v| v.revoke).collect();
        let lower: BTreeSet<usize> = all.iter().copied().filter(|d| untouched(*d)).collect();
        let mut upper: BTreeSet<usize> = BTreeSet::new();
        loop {
            let n = upper.len();
            for d in &all {
                if sure.contains(d) || upper.contains(d) {
                    continue;
                }
                let x = &self.dl[*d];
                let basis = match x.proof {
                    None => x.issuer == e,
                    Some(p) => x.issuer == e || upper.contains(&p) || upper.iter().any(|a| self.dl[*a].delegate == x.issuer && self.dl[*a].can >= self.dl[p].can),
                };
                if basis {
                    upper.insert(*d);
                }
            }
            if upper.len() == n {
                return (lower, upper);
            }
        }
    }
    pub fn check_members(&self, r: &mut Rec, kh: &Kh) {
        for e in self.people..self.ents.len() {
            if !self.exists(e) {
                continue;
            }
            let (lower, upper) = self.bounds(e);
            let Some(m) = membered(kh, self.ids[e]) else { continue };
            let ms = block_on(m.members());
            let mut got = BTreeSet::new();
            for (k, ds) in &ms {
                for d in ds.iter() {
                    let s = to_sd(d);
                    let Some(i) = self.dl.iter().position(|x| x.sd == s) else {
                        chk!(r, "P05", false, "unknown-delegation", format!("{} lists a delegation nobody made", self.nm(e)));
                        continue;
                    };
                    chk!(r, "P05", self.ids[self.dl[i].delegate] == *k, "wrong-member", format!("{} lists d{i} under somebody else", self.nm(e)));
                    chk!(r, "P05", got.insert(i), "listed-twice", format!("{} lists d{i} twice", self.nm(e)));
                }
            }
            for d in &lower {
                chk!(r, "P05", got.contains(d), "access-lost", format!("{} was never revoked, nor anything it rests on, but confers no access", self.dd(*d)));
            }
            for d in &got {
                chk!(r, "P05", upper.contains(d), "access-kept", format!("{} was revoked or rests only on what was revoked, but still confers access", self.dd(*d)));
            }
            r.evaluations += 1;
        }
    }
    pub fn check_reach(&self, r: &mut Rec, kh: &Kh) {
        let mut direct = BTreeMap::new();
        for e in self.people..self.ents.len() {
            if self.exists(e) && membered(kh, self.ids[e]).is_some() {
                direct.insert(self.ids[e], members(kh, self.ids[e]));
            }
        }
        let mut reach: BTreeMap<Identifier, BTreeMap<Identifier, Access>> = BTreeMap::new();
        for (g, dm) in &direct {
            let want = widest(&direct, *g);
            let got = transitive(kh, *g);
            chk!(r, "P04", got == want, "effective-access", format!("{}: reported {} but the chains give {}", self.nm(self.ids.iter().position(|i| i == g).unwrap()), fmt_members(&got), fmt_members(&want)));
            let m = membered(kh, *g).unwrap();
            for (k, a) in dm {
                let c = block_on(m.get_capability(k)).map(|d| d.payload().can());
                chk!(r, "P04", c == Some(*a), "capability", format!("best direct capability of {} is {a:?}, reported {c:?}", sh(k)));
            }
            for i in &self.ids {
                if !dm.contains_key(i) {
                    chk!(r, "P04", block_on(m.get_capability(i)).is_none(), "capability-invented", format!("{} has a capability without delegation", sh(i)));
                }
            }
            for (k, a) in want {
                reach.entry(k).or_default().insert(*g, a);
            }
        }
        for i in &self.ids {
            let Some(a) = block_on(kh.get_agent(*i)) else { continue };
            let want = reach.get(i).cloned().unwrap_or_default();
            let got: BTreeMap<Identifier, Access> = block_on(kh.docs_reachable_by_agent(&a)).into_iter().map(|(k, v)| (Identifier::from(k.verifying_key()), v.can())).collect();
            let wd: BTreeMap<Identifier, Access> = want.iter().filter(|(k, _)| doc(kh, **k).is_some()).map(|(k, v)| (*k, *v)).collect();
            chk!(r, "P04", got == wd, "reachable-documents", format!("{}: {} reported, {} by the chains", sh(i), fmt_members(&got), fmt_members(&wd)));
            let gm: BTreeMap<Identifier, Access> = block_on(kh.membered_reachable_by_agent(&a)).into_values().map(|(m, v)| (Identifier::from(m.membered_id()), v)).collect();
            chk!(r, "P04", gm == want, "reachable-groups", format!("{}: {} reported, {} by the chains", sh(i), fmt_members(&gm), fmt_members(&want)));
        }
    }
    pub fn groups(&self) -> Vec<usize> {
        (self.people..self.ents.len()).filter(|e| self.exists(*e)).collect()
    }
    /// a step of an honest history; returns whether something was accepted
    pub fn honest(&mut self, r: &mut Rec, revoke_p: f64, trans: bool) -> bool {
        let gs = self.groups();
        let fresh: Vec<usize> = (self.people..self.ents.len()).filter(|e| !self.exists(*e)).collect();
        if !fresh.is_empty() && (gs.is_empty() || r.rng.gen_bool(0.4)) {
            let e = fresh[0];
            let to = r.rng.gen_range(0..self.people);
            let d = self.mk_d(r, e, e, to, Access::Admin, None);
            return self.deliver_d(r, d).is_some();
        }
        let g = *pick(&mut r.rng, &gs);
        let maybe: BTreeSet<usize> = self.rv.iter().map(|v| v.revoke).collect();
        // now and then someone who does not know of the revocations yet
        let unaware = self.unaware && r.rng.gen_bool(0.4);
        let mine: Vec<usize> = (0..self.dl.len()).filter(|d| self.dl[*d].subj == g && (unaware || self.chain(*d).iter().all(|x| !maybe.contains(x)))).collect();
        if r.rng.gen_bool(revoke_p) && mine.len() > 1 {
            if trans && self.transitive_used && self.dl.iter().any(|d| d.delegate == g) {
                return false; // see DESIGN.md: authority through a group that changes later
            }
            let t = *pick(&mut r.rng, &mine);
            if t == mine[0] && r.rng.gen_bool(0.8) {
                return false;
            }
            let (issuer, proof) = if r.rng.gen_bool(0.2) {
                (g, None)
            } else {
                let c = self.chain(t);
                let p = *pick(&mut r.rng, &c);
                let who = if p == t && r.rng.gen_bool(0.3) { self.dl[p].delegate } else if p != t && r.rng.gen_bool(0.7) { self.dl[p].delegate } else { self.dl[p].issuer };
                (who, Some(p))
            };
            let v = self.mk_r(issuer, t, proof);
            return self.deliver_r(r, v);
        }
        // delegate
        let delegate = match r.rng.gen_range(0..10) {
            0..=5 => r.rng.gen_range(0..self.people),
            _ => *pick(&mut r.rng, &gs),
        };
        if delegate == g {
            return false;
        }
        if r.rng.gen_bool(0.15) || mine.is_empty() {
            let can = *pick(&mut r.rng, &LEVELS);
            let d = self.mk_d(r, g, g, delegate, can, None);
            return self.deliver_d(r, d).is_some();
        }
        let p = *pick(&mut r.rng, &mine);
        let lv: Vec<Access> = LEVELS.iter().copied().filter(|a| *a <= self.dl[p].can).collect();
        let can = *pick(&mut r.rng, &lv);
        let holder = self.dl[p].delegate;
        let mut issuer = holder;
        if holder >= self.people && trans && r.rng.gen_bool(0.7) {
            let d = self.direct();
            let mut d2 = d.clone();
            d2.insert(self.ids[g], BTreeMap::new());
            if d.contains_key(&self.ids[holder]) {
                let w: Vec<usize> = widest(&d2, self.ids[holder]).iter().filter(|(_, a)| **a >= can).filter_map(|(k, _)| self.ids.iter().position(|i| i == k)).collect();
                if !w.is_empty() {
                    issuer = *pick(&mut r.rng, &w);
                    self.transitive_used = true;
                }
            }
        }
        let d = self.mk_d(r, g, issuer, delegate, can, Some(p));
        self.deliver_d(r, d).is_some()
    }
    /// a step nobody honest would take
    pub fn rogue(&mut self, r: &mut Rec) {
        let gs = self.groups();
        if gs.is_empty() || self.dl.is_empty() {
            return;
        }
        let g = *pick(&mut r.rng, &gs);
        let any: Vec<usize> = (0..self.dl.len()).collect();
        let who = r.rng.gen_range(0..self.ents.len());
        if r.rng.gen_bool(0.5) {
            let p = *pick(&mut r.rng, &any);
            let can = *pick(&mut r.rng, &LEVELS);
            let delegate = r.rng.gen_range(0..self.people);
            // the subject is that of the proof
            let subj = self.dl[p].subj;
            let issuer = if r.rng.gen_bool(0.5) { self.dl[p].delegate } else { who };
            let d = self.mk_d(r, subj, issuer, delegate, can, Some(p));
            self.deliver_d(r, d);
        } else {
            let t = *pick(&mut r.rng, &any);
            let p = match r.rng.gen_range(0..4) {
                0 => None,
                1 => Some(t),
                2 => Some(*pick(&mut r.rng, &self.chain(t))),
                _ => Some(*pick(&mut r.rng, &any)),
            };
            let issuer = match (p, r.rng.gen_range(0..4)) {
                (Some(p), 0) => self.dl[p].delegate,
                (Some(p), 1) => self.dl[p].issuer,
                (_, 2) => self.dl[t].delegate,
                _ => who,
            };
            let v = self.mk_r(issuer, t, p);
            self.deliver_r(r, v);
        }
    }
}

pub fn case(r: &mut Rec, _c: u64) {
    let people = r.rng.gen_range(3..7);
    let nested = r.rng.gen_range(1..6);
    let mut w = W::new(r, people, nested);
    let steps = r.rng.gen_range(4..26);
    let (rogue, revoke, trans) = match r.prop.as_str() {
        "P02" => (0.3, 0.1, true),
        "P03" => (0.3, 0.3, true),
        "P04" => (0.0, 0.12, true),
        "P05" => (0.05, 0.3, r.rng.gen_bool(0.5)),
        _ => (0.1, 0.25, r.rng.gen_bool(0.3)),
    };
    for _ in 0..steps {
        if r.rng.gen_bool(rogue) {
            w.rogue(r);
        } else {
            let had = w.rv.len();
            w.honest(r, revoke, trans);
            if w.rv.len() > had {
                let kh = &w.kh;
                w.check_members(r, kh);
            }
        }
        if !r.violations.is_empty() {
            return;
        }
    }
    let shape: Vec<String> = (0..w.dl.len()).map(|d| w.dd(d)).chain(w.rv.iter().map(|v| format!("{}-{}-{:?}", v.issuer, v.revoke, v.proof))).collect();
    r.eval(&shape);
    let kh = &w.kh;
    w.check_members(r, kh);
    w.check_reach(r, kh);
    // another replica with other hash seeds
    if r.prop != "P02" && r.prop != "P03" {
        let kh2 = new_kh(&mut r.rng);
        let mut evs = w.intros.clone();
        evs.extend(w.log.clone());
        let left = ingest(&kh2, evs);
        if left == 0 {
            w.check_members(r, &kh2);
            w.check_reach(r, &kh2);
        }
    }
}

/// P06: the same accepted operations, in other orders, batches and with repeats
pub fn random(r: &mut Rec) -> W {
    let people = r.rng.gen_range(3..7);
    let nested = r.rng.gen_range(1..5);
    let mut w = W::new(r, people, nested);
    w.unaware = r.rng.gen_bool(0.4);
    let revoke = *pick(&mut r.rng, &[0.1, 0.3, 0.5]);
    for _ in 0..r.rng.gen_range(4..30) {
        w.honest(r, revoke, true);
    }
    w
}
pub fn converge(r: &mut Rec, _c: u64) {
    let people = r.rng.gen_range(3..6);
    let nested = r.rng.gen_range(1..4);
    let mut w = W::new(r, people, nested);
    w.unaware = r.rng.gen_bool(0.4);
    let trans = r.rng.gen_bool(0.25);
    let steps = r.rng.gen_range(4..20);
    for _ in 0..steps {
        w.honest(r, 0.3, trans);
    }
    // concurrent prekey operations
    let mut evs = w.intros.clone();
    for p in 0..people {
        if r.rng.gen_bool(0.5) {
            let Ev::PrekeysExpanded(a) = w.intros[p].clone() else { continue };
            let mut keys = vec![a.payload.share_key];
            for _ in 0..r.rng.gen_range(1..4) {
                let old = *pick(&mut r.rng, &keys);
                let op = if r.rng.gen_bool(0.6) { rotate(&mut r.rng, &w.ents[p], old) } else { intro(&mut r.rng, &w.ents[p]) };
                keys.push(*op.new_key());
                if block_on(w.kh.receive_prekey_op(&op)).is_ok() {
                    evs.push(key_event(&op));
                }
            }
        }
    }
    let shape: Vec<String> = (0..w.dl.len()).map(|d| w.dd(d)).chain(w.rv.iter().map(|v| format!("{}-{}-{:?}", v.issuer, v.revoke, v.proof))).collect();
    r.eval(&shape);
    evs.extend(w.log.clone());
    let mut base = view(&w.kh);
    base.extend(people_view(&w.kh, &w.ids));
    for round in 0..3 {
        let kh = new_kh(&mut r.rng);
        let mut order = evs.clone();
        shuffle(&mut r.rng, &mut order);
        if r.rng.gen_bool(0.4) {
            let dup: Vec<Ev> = (0..order.len() / 2).map(|_| pick(&mut r.rng, &order).clone()).collect();
            order.extend(dup);
            shuffle(&mut r.rng, &mut order);
        }
        let mut left = 0;
        while !order.is_empty() {
            let n = if r.rng.gen_bool(0.3) { order.len() } else { r.rng.gen_range(1..=order.len()) };
            let batch: Vec<Ev> = order.drain(..n).collect();
            left = ingest(&kh, batch);
        }
        let mut v = view(&kh);
        v.extend(people_view(&kh, &w.ids));
        r.count("orders");
        r.check(left == 0, "stays-pending", || format!("{left} operations stay pending though all were delivered"));
        let d = diff(&base, &v);
        r.check(d.is_empty(), "replicas-differ", || format!("round {round}: {d}"));
        if !r.violations.is_empty() {
            return;
        }
    }
}
