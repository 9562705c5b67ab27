//! Native run of the same contracts: exhaustive for small trees, sampled for large ones.
//! Prints `FAIL <contract> <args...> :: <message>` for the first failing input of each contract.
use std::panic::{catch_unwind, AssertUnwindSafe};
use vp_kani_treemath::contracts::*;

fn attempt(name: &str, args: &[u32], seen: &mut Vec<String>, n: &mut u64) {
    *n += 1;
    if seen.iter().any(|s| s == name) {
        return;
    }
    let a = args.to_vec();
    let nm = name.to_string();
    let r = catch_unwind(AssertUnwindSafe(move || match nm.as_str() {
        "level_is_height" => level_is_height(a[0]),
        "size_is_complete_tree" => size_is_complete_tree(a[0]),
        "root_is_the_middle_node" => root_is_the_middle_node(a[0]),
        "children_and_parent_are_inverse" => children_and_parent_are_inverse(a[0]),
        "parent_covers_child" => {
            if height_of(a[0], a[1] == 1) <= 28 {
                parent_covers_child(a[0], a[1] == 1)
            }
        }
        "index_conversion_round_trips" => index_conversion_round_trips(a[0], a[1]),
        "direct_path_climbs_to_root" => {
            if a[2] < path_len(a[0]) {
                direct_path_climbs_to_root(a[0], a[1], a[2] as usize)
            }
        }
        "two_leaves" => two_leaves_share_an_ancestor_that_separates_them(a[0], a[1], a[2]),
        _ => panic!("unknown contract"),
    }));
    if let Err(e) = r {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        println!("FAIL {} {} :: {}", name, args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "), m);
        seen.push(name.to_string());
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let argv: Vec<String> = std::env::args().collect();
    let mut seen = vec![];
    let mut n = 0u64;
    if argv.len() > 2 && argv[1] == "replay" {
        let args: Vec<u32> = argv[3..].iter().map(|s| s.parse().unwrap()).collect();
        attempt(&argv[2], &args, &mut seen, &mut n);
        std::process::exit(if seen.is_empty() { 0 } else { 1 });
    }
    let mut x: u64 = argv.get(1).and_then(|s| s.parse().ok()).unwrap_or(1u64).wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        (x >> 16) as u32
    };
    let go = |n: &mut u64, seen: &mut Vec<String>, v: u32, w: u32, t: u32| {
        attempt("level_is_height", &[v], seen, n);
        let lc = (v % MAX_LEAVES).max(1);
        attempt("size_is_complete_tree", &[lc], seen, n);
        attempt("root_is_the_middle_node", &[lc], seen, n);
        attempt("children_and_parent_are_inverse", &[v % MAX_LEAVES], seen, n);
        attempt("parent_covers_child", &[v % MAX_LEAVES, w % 2], seen, n);
        attempt("index_conversion_round_trips", &[v % (1 << 30), w % (1 << 30)], seen, n);
        attempt("direct_path_climbs_to_root", &[lc, w % (lc + 1), t % 30], seen, n);
        let (a, b) = (w % (lc + 1), t % (lc + 1));
        if a != b {
            attempt("two_leaves", &[lc, a.min(b), a.max(b)], seen, n);
        }
    };
    for v in 0..130u32 {
        for w in 0..130u32 {
            for t in [0u32, 1, 2, 3, 4, 5, 6, 7, v, w, v / 2] {
                go(&mut n, &mut seen, v, w, t);
            }
        }
    }
    for _ in 0..200_000 {
        let (v, w, t) = (rnd(), rnd(), rnd());
        let sh = rnd() % 31;
        go(&mut n, &mut seen, (v >> sh).min(u32::MAX - 1), w >> (rnd() % 31), t >> (rnd() % 31));
    }
    println!("EVALUATIONS {n}");
    std::process::exit(if seen.is_empty() { 0 } else { 1 });
}
