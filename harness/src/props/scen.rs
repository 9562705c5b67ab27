use crate::rec::Rec;
use crate::world::*;
use futures::executor::block_on;
use keyhive_core::access::Access::*;
use std::collections::BTreeMap;

pub fn scen(r: &mut Rec, c: u64) {
    let mut rng = crate::rec::case_rng("scen", 1);
    let n = || BTreeMap::new();
    let kh = new_kh(&mut rng);
    let g = signer(&mut rng);
    let ps: Vec<_> = (0..6).map(|_| signer(&mut rng)).collect();
    for p in &ps { know(&kh, &mut rng, p); }
    let ids: Vec<_> = ps.iter().map(sid).collect();
    let nm = |m: &BTreeMap<_, _>| fmt_members(m).replace(&sh(&ids[0]), "A").replace(&sh(&ids[1]), "B").replace(&sh(&ids[2]), "C").replace(&sh(&ids[3]), "D").replace(&sh(&ids[4]), "E");
    let root = sd(&g, ids[0], Admin, None, &[], n());
    r.t(format!("root {:?}", recv_d(&kh, &root)));
    match c {
        0 => {
            let b = sd(&ps[0], ids[1], Edit, Some(&root), &[], n());
            let cc = sd(&ps[1], ids[2], Read, Some(&b), &[], n());
            let d = sd(&ps[2], ids[3], Read, Some(&cc), &[], n());
            for x in [&b, &cc, &d] { r.t(format!("{:?}", recv_d(&kh, x))); }
            r.t(nm(&members(&kh, sid(&g))));
            let rv = sr(&ps[0], &b, Some(&root));
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        1 => { // revoke with unrelated issuer, proof == revoke
            let b = sd(&ps[0], ids[1], Edit, Some(&root), &[], n());
            r.t(format!("{:?}", recv_d(&kh, &b)));
            let rv = sr(&ps[4], &b, Some(&b));
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        2 => { // revoke root by A
            let b = sd(&ps[0], ids[1], Edit, Some(&root), &[], n());
            r.t(format!("{:?}", recv_d(&kh, &b)));
            let rv = sr(&ps[0], &root, Some(&root));
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        3 => { // escalated middle link
            let b = sd(&ps[0], ids[1], Read, Some(&root), &[], n());
            r.t(format!("{:?}", recv_d(&kh, &b)));
            let e = sd(&ps[1], ids[2], Admin, Some(&b), &[], n());
            r.t(format!("esc {:?}", recv_d(&kh, &e)));
            // does it get in the store?
            let d = sd(&ps[2], ids[3], Read, Some(&e), &[], n());
            r.t(format!("child {:?}", recv_d(&kh, &d)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        4 => { // topsort cycle: group member H revoked by proof chain
            let h = signer(&mut rng);
            let hr = sd(&h, ids[1], Admin, None, &[], n());
            r.t(format!("{:?}", recv_d(&kh, &hr)));
            let p = sd(&ps[0], ids[2], Admin, Some(&root), &[], n()); // A->C
            let d = sd(&ps[2], sid(&h), Admin, Some(&p), &[], n()); // C->H
            for x in [&p, &d] { r.t(format!("{:?}", recv_d(&kh, x))); }
            let rv = sr(&ps[1], &p, Some(&d)); // B (in H) revokes p with proof d
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        5 => { // delegation from known person as subject, then escalated delegation
            let x = &ps[1];
            let dx = sd(x, ids[2], Read, None, &[], n());
            r.t(format!("{:?}", recv_d(&kh, &dx)));
            r.t(format!("group known {}", group(&kh, ids[1]).is_some()));
            let esc = sd(&ps[2], ids[3], Admin, Some(&dx), &[], n());
            r.t(format!("esc {:?}", recv_d(&kh, &esc)));
            if group(&kh, ids[1]).is_some() { r.t(nm(&members(&kh, ids[1]))); }
            let rv = sr(x, &dx, None);
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            if group(&kh, ids[1]).is_some() { r.t(nm(&members(&kh, ids[1]))); }
        }
        6 => { // revocation of unknown-subject
            let x = &ps[1];
            let dx = sd(x, ids[2], Read, None, &[], n());
            r.t(format!("{:?}", recv_d(&kh, &dx)));
            let rv = sr(x, &dx, None);
            r.t(format!("{:?}", recv_r(&kh, &rv)));
            if group(&kh, ids[1]).is_some() { r.t(nm(&members(&kh, ids[1]))); }
        }
        7 => { // cycle G<->H, issuer through H
            let h = signer(&mut rng);
            let hr = sd(&h, ids[1], Admin, None, &[], n());
            r.t(format!("{:?}", recv_d(&kh, &hr)));
            let d = sd(&ps[0], sid(&h), Admin, Some(&root), &[], n()); // H in G
            let e = sd(&ps[1], sid(&g), Admin, Some(&hr), &[], n()); // G in H
            for x in [&d, &e] { r.t(format!("{:?}", recv_d(&kh, x))); }
            let f = sd(&ps[1], ids[2], Read, Some(&d), &[], n());
            r.t(format!("{:?}", recv_d(&kh, &f)));
            r.t(nm(&members(&kh, sid(&g))));
        }
        _ => {}
    }
}
