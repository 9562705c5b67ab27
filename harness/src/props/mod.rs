//! One module per family of properties; each registers its case generator here.
use crate::rec::Rec;
pub mod api;
pub mod cgka;
pub mod crypto;
pub mod membership;
pub mod order;
pub mod prekeys;
pub mod scen;
pub mod together;
pub mod whole;

pub type Case = fn(&mut Rec, u64);
#[derive(Clone, Copy)]
pub struct Info {
    pub fixed: u64,
    pub rule: &'static str,
}
pub fn find(p: &str) -> Option<(Case, Info)> {
    Some(match p {
        "SCEN" => (scen::scen as Case, Info { fixed: 100, rule: "" }),
        "CGKA" | "P11" | "P12" | "P13" | "P14" => (cgka::case as Case, Info { fixed: 0, rule: "distinct histories of additions, removals, updates and encryptions (operations with their predecessors)" }),
        "DEL" => (api::delegating as Case, Info { fixed: 0, rule: "" }),
        "P01" => (whole::unverifiable as Case, Info { fixed: 0, rule: "distinct scripts of API calls and syncs, with altered operations of every kind" }),
        "P02" | "P05" => (api::membership_mix as Case, Info { fixed: 0, rule: "distinct sets of delegations and revocations (issuer, delegate, access, proof), and distinct scripts of API calls and syncs" }),
        "MEM" | "P03" | "P04" => (membership::case as Case, Info { fixed: 0, rule: "distinct sets of delegations and revocations (issuer, delegate, access, proof)" }),
        "P06" => (membership::converge as Case, Info { fixed: 0, rule: "distinct sets of delegations and revocations, each delivered in several orders" }),
        "P07" => (api::early as Case, Info { fixed: 0, rule: "distinct scripts of API calls and syncs, whose offered events are delivered in several orders and batches" }),
        "P08" => (whole::saved as Case, Info { fixed: 0, rule: "distinct scripts of API calls and syncs, saved, restored and merged at random points" }),
        "P09" => (prekeys::advertised as Case, Info { fixed: 0, rule: "distinct shapes of prekey histories" }),
        "P10" => (prekeys::export as Case, Info { fixed: 0, rule: "distinct shapes of prekey histories and scripts" }),
        "P15" => (crypto::binding as Case, Info { fixed: 0, rule: "distinct plaintext lengths and documents, each with changed fields" }),
        "P16" => (crypto::causal as Case, Info { fixed: 0, rule: "distinct ancestor graphs (edges, stored, readable) with their entry points" }),
        "P17" => (crypto::stores as Case, Info { fixed: 0, rule: "distinct sequences of store operations" }),
        "P18" => (api::readers as Case, Info { fixed: 0, rule: "distinct scripts of membership changes" }),
        "P19" => (api::offered as Case, Info { fixed: 0, rule: "distinct scripts of API calls and syncs, for every pair of replicas" }),
        "P22" => (whole::forked as Case, Info { fixed: 0, rule: "distinct scripts of API calls and syncs, forked, acted upon on both sides and merged" }),
        "P21" => (order::case as Case, Info { fixed: 0, rule: "distinct dependency graphs and histories" }),
        _ => return None,
    })
}
