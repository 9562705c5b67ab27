//! P21: everything that is put in dependency order.
use super::membership;
use crate::rec::Rec;
use crate::world::*;
use beekem::{
    id::{MemberId, TreeId},
    operation::{CgkaOperation, CgkaOperationGraph},
    topsort::TopologicalSort,
};
use futures::executor::block_on;
use keyhive_core::{
    principal::group::membership_operation::MembershipOperation,
    store::{delegation::DelegationStore, revocation::RevocationStore},
    util::topsort::Topsort,
};
use keyhive_crypto::{digest::Digest, share_key::ShareSecretKey, signed::Signed, verifiable::Verifiable};
use rand::Rng;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::sync::Arc;

enum Sorter {
    A(Topsort<u32>),
    B(TopologicalSort<u32>),
}
impl Sorter {
    fn edge(&mut self, a: u32, b: u32) {
        match self {
            Sorter::A(t) => t.add_dependency(a, b),
            Sorter::B(t) => t.add_dependency(a, b),
        }
    }
    fn pop(&mut self) -> Vec<u32> {
        match self {
            Sorter::A(t) => t.pop_frontier(),
            Sorter::B(t) => t.pop_all(),
        }
    }
    fn empty(&self) -> bool {
        match self {
            Sorter::A(t) => t.is_empty(),
            Sorter::B(t) => t.is_empty(),
        }
    }
}

/// the generic sorters against a plain model, additions and pops in any order, circles allowed
fn generic(r: &mut Rec, core: bool) {
    let mut s = if core { Sorter::A(Topsort::new()) } else { Sorter::B(TopologicalSort::new()) };
    let n = r.rng.gen_range(1..12u32);
    let loops = r.rng.gen_bool(0.3);
    let mut m: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new();
    let mut shape = vec![];
    for _ in 0..r.rng.gen_range(1..40) {
        if r.rng.gen_bool(0.75) {
            let (mut a, mut b) = (r.rng.gen_range(0..n), r.rng.gen_range(0..n));
            if !loops {
                if a == b {
                    continue;
                }
                if a > b {
                    std::mem::swap(&mut a, &mut b);
                }
            }
            shape.push((a, b));
            s.edge(a, b);
            m.entry(a).or_default();
            m.entry(b).or_default().insert(a);
        } else if core && r.rng.gen_bool(0.5) {
            let a = r.rng.gen_range(0..n);
            shape.push((a, 1000));
            if let Sorter::A(t) = &mut s {
                t.add_node(a);
            }
            m.entry(a).or_default();
        } else {
            shape.push((1000, 1000));
            pop(r, &mut s, &mut m);
        }
    }
    for _ in 0..2 * n + 4 {
        pop(r, &mut s, &mut m);
    }
    if !loops {
        r.check(s.empty(), "left-out", || format!("nodes {:?} are never returned; edges {shape:?}", m.keys()));
    }
    r.eval(&(core, shape));
}
fn pop(r: &mut Rec, s: &mut Sorter, m: &mut BTreeMap<u32, BTreeSet<u32>>) {
    let mut got = s.pop();
    let want: Vec<u32> = m.iter().filter(|x| x.1.is_empty()).map(|x| *x.0).collect();
    if let Sorter::B(_) = s {
        got.sort();
    }
    r.check(got == want, "frontier", || format!("returned {got:?}, free of dependencies are {want:?} of {m:?}"));
    m.retain(|k, _| !want.contains(k));
    for p in m.values_mut() {
        p.retain(|x| !want.contains(x));
    }
    r.check(s.empty() == m.is_empty(), "empty", || format!("is_empty is {}, left {m:?}", s.empty()));
}

/// key-agreement operations: any acyclic graph
fn graph(r: &mut Rec) {
    type H = Digest<Signed<CgkaOperation>>;
    let sg = signer(&mut r.rng);
    let id = MemberId(sg.verifying_key());
    let doc = TreeId(sg.verifying_key());
    let n = r.rng.gen_range(1..14);
    let orphans = r.rng.gen_bool(0.15);
    let mut g = CgkaOperationGraph::new();
    let mut ops: Vec<(H, Vec<H>)> = vec![];
    let mut heads: HashSet<H> = HashSet::new();
    for i in 0..n {
        let mut preds = HashSet::new();
        let local = r.rng.gen_bool(0.3);
        if local {
            preds = heads.clone();
        } else if i > 0 && !(orphans && r.rng.gen_bool(0.2)) {
            for _ in 0..r.rng.gen_range(1..4) {
                let back = r.rng.gen_range(0..i.min(5));
                preds.insert(ops[i - 1 - back].0);
            }
        }
        let pk = ShareSecretKey::generate(&mut r.rng).share_key();
        let mut pv: Vec<H> = preds.iter().cloned().collect();
        pv.sort();
        let op = if r.rng.gen_bool(0.5) {
            CgkaOperation::Add { added_id: id, pk, leaf_index: i as u32, predecessors: pv.clone(), add_predecessors: vec![], doc_id: doc }
        } else {
            CgkaOperation::Remove { id, leaf_idx: i as u32, removed_keys: vec![pk], predecessors: pv.clone(), doc_id: doc }
        };
        let op = sg.try_sign_sync(op).unwrap();
        let h = Digest::hash(&op);
        if local {
            g.add_local_op(&op);
        } else {
            g.add_op(&op, &preds);
        }
        for p in &preds {
            heads.remove(p);
        }
        heads.insert(h);
        ops.push((h, pv));
        r.check(g.cgka_op_heads == heads, "graph-heads", || format!("heads are {} of {} after operation {i}", g.cgka_op_heads.len(), heads.len()));
    }
    let preds: HashMap<H, Vec<H>> = ops.iter().cloned().collect();
    let shape: Vec<Vec<usize>> = ops.iter().map(|o| o.1.iter().map(|p| ops.iter().position(|x| x.0 == *p).unwrap()).collect()).collect();
    r.eval(&shape);
    for round in 0..3 {
        let hs: HashSet<H> = if round == 0 {
            heads.clone()
        } else {
            (0..r.rng.gen_range(1..3)).map(|_| pick(&mut r.rng, &ops).0).collect()
        };
        let mut below: BTreeSet<H> = BTreeSet::new();
        let mut todo: Vec<H> = hs.iter().cloned().collect();
        while let Some(h) = todo.pop() {
            if below.insert(h) {
                todo.extend(preds[&h].iter().cloned());
            }
        }
        match g.topsort_for_heads(&hs) {
            Err(e) => r.fail("graph-refused", format!("{e:?} for {shape:?}")),
            Ok(ep) => {
                let out: Vec<H> = ep.iter().flat_map(|e| e.iter().map(|o| Digest::hash(o.as_ref()))).collect();
                order(r, "graph", &out, &below, &preds, &shape);
            }
        }
    }
}
fn order<H: Ord + Copy + std::hash::Hash + std::fmt::Debug>(r: &mut Rec, what: &str, out: &[H], all: &BTreeSet<H>, preds: &HashMap<H, Vec<H>>, shape: &impl std::fmt::Debug) {
    let got: BTreeSet<H> = out.iter().cloned().collect();
    r.check(got == *all, &format!("{what}-complete"), || format!("{} of {} operations, {} foreign; {shape:?}", got.intersection(all).count(), all.len(), got.difference(all).count()));
    r.check(got.len() == out.len(), &format!("{what}-once"), || format!("{} entries for {} operations; {shape:?}", out.len(), got.len()));
    let pos: HashMap<H, usize> = out.iter().enumerate().map(|(i, h)| (*h, i)).collect();
    for (i, h) in out.iter().enumerate() {
        for p in preds.get(h).into_iter().flatten() {
            r.check(pos.get(p).is_some_and(|j| *j < i), &format!("{what}-order"), || format!("the operation at {i} comes before one it depends on ({:?}); {shape:?}", pos.get(p)));
        }
    }
}

/// membership operations: whole histories of groups, and from any of their operations on
fn membership_ops(r: &mut Rec) {
    let w = membership::random(r);
    let ids: Vec<_> = w.ids[w.people..].to_vec();
    sorted_in(r, &w.kh, &ids);
}
fn membership_ops_of_replicas(r: &mut Rec) {
    let mut mix = super::api::FULL;
    mix.steps = 14;
    let w = super::api::script(r, &mix);
    let ids: Vec<_> = w.groups.iter().chain(w.docs.iter()).cloned().collect();
    for x in &w.reps {
        sorted_in(r, &x.kh, &ids);
    }
}
fn sorted_in(r: &mut Rec, kh: &Kh, ids: &[keyhive_core::principal::identifier::Identifier]) {
    for id in ids {
        let Some(m) = membered(kh, *id) else { continue };
        let (d, v) = block_on(async { (m.delegation_heads().await, m.revocation_heads().await) });
        let mut preds = HashMap::new();
        let mut todo: Vec<MOp> = d.values().map(|x| MOp::Delegation(x.clone())).chain(v.values().map(|x| MOp::Revocation(x.clone()))).collect();
        let mut all = BTreeSet::new();
        while let Some(o) = todo.pop() {
            if all.insert(o.digest()) {
                let a = direct(&o);
                preds.insert(o.digest(), a.iter().map(|x| x.digest()).collect::<Vec<_>>());
                todo.extend(a);
            }
        }
        let ops = MembershipOperation::reverse_topsort(&d, &v);
        let out: Vec<_> = ops.iter().rev().map(|x| x.0).collect();
        // the same heads, collected in another order, in another map
        for round in 0..4 {
            let (mut d2, mut v2) = (DelegationStore::new(), RevocationStore::new());
            let (mut dl, mut vl): (Vec<_>, Vec<_>) = (d.values().cloned().collect(), v.values().cloned().collect());
            if round % 2 == 0 {
                dl.reverse();
                vl.reverse();
            }
            dl.into_iter().for_each(|x| {
                d2.insert(x);
            });
            vl.into_iter().for_each(|x| {
                v2.insert(x);
            });
            let again: Vec<_> = MembershipOperation::reverse_topsort(&d2, &v2).iter().rev().map(|x| x.0).collect();
            r.check(again == out, "membership-same", || format!("the same operations come in another order the next time: {:?}", again.iter().map(|h| out.iter().position(|x| x == h)).collect::<Vec<_>>()));
        }
        let mut seen: Vec<usize> = out.iter().map(|h| preds.get(h).map_or(99, |p| p.len())).collect();
        seen.push(all.len());
        r.eval(&seen);
        for (h, o) in ops.iter() {
            r.check(o.digest() == *h, "membership-key", || "an operation is listed under another digest".into());
        }
        order(r, "membership", &out, &all, &preds, &seen);
        r.count(if out.iter().any(|h| ops.iter().any(|x| x.0 == *h && x.1.is_revocation())) { "histories with revocations" } else { "histories without revocations" });
    }
}
/// what an operation names directly
fn direct(o: &MOp) -> Vec<MOp> {
    match o {
        MembershipOperation::Delegation(d) => d.payload().proof().into_iter().map(|p| MOp::Delegation(p.clone())).chain(d.payload().after_revocations().iter().map(|x| MOp::Revocation(x.clone()))).collect(),
        MembershipOperation::Revocation(v) => std::iter::once(MOp::Delegation(v.payload().revoked().clone())).chain(v.payload().proof().into_iter().map(MOp::Delegation)).collect(),
    }
}

pub fn case(r: &mut Rec, c: u64) {
    match c % 8 {
        0 | 1 => (0..40).for_each(|i| generic(r, i % 2 == 0)),
        2 | 3 => (0..6).for_each(|_| graph(r)),
        4 => super::prekeys::sorted(r),
        5 => membership_ops_of_replicas(r),
        _ => membership_ops(r),
    }
}
