//! Contracts of the key-tree navigation functions, checked by Kani on the real file.
//! The file is included by path: the text that is verified is the text that runs.
//! All inputs are symbolic over the whole stated domain; every loop is unrolled past its
//! largest possible trip count with unwinding assertions on, so a pass is complete.
//! The same contract functions run natively (src/main.rs) to replay a failure on concrete input.
#![allow(dead_code, unused)]
extern crate alloc;
#[path = "/repo/beekem/src/treemath.rs"]
pub mod treemath;

pub mod contracts {
    use super::treemath::*;

    // leaf counts up to 2^29 keep every u32 product in range (2 * leaf_count, shifts by level + 1)
    pub const MAX_LEAVES: u32 = 1 << 29;

    fn tz1(x: u32) -> u32 {
        // number of trailing one bits, the specification of a node's height
        (!x).trailing_zeros()
    }
    fn node_u32(i: InnerNodeIndex) -> u32 {
        TreeNodeIndex::Inner(i).u32()
    }
    fn node(raw: u32, inner: bool) -> TreeNodeIndex {
        if inner {
            TreeNodeIndex::Inner(InnerNodeIndex::new(raw))
        } else {
            TreeNodeIndex::Leaf(LeafNodeIndex::new(raw))
        }
    }

    pub fn level_is_height(x: u32) {
        assert!(level(x) as u32 == tz1(x), "a node's level is its height");
    }

    pub fn size_is_complete_tree(n: u32) {
        let s = TreeSize::from_leaf_count(n);
        let l = s.leaf_count();
        assert!(l.is_power_of_two(), "tree is complete");
        assert!(l > n && l <= 2 * n, "tree has room and is at most doubled");
        assert!(s.inner_node_count() == l - 1, "inner node count");
        assert!(s.u32() == 2 * l - 1, "node count");
        let mut t = s;
        t.inc();
        assert!(t.leaf_count() == 2 * l && t.inner_node_count() == 2 * l - 1, "growing doubles");
    }

    pub fn root_is_the_middle_node(n: u32) {
        let s = TreeSize::from_leaf_count(n);
        let r = root(s).u32();
        assert!(r == s.u32() / 2, "root is the middle node");
        assert!(r % 2 == 1 && tz1(r) == s.leaf_count().trailing_zeros(), "root height");
    }

    pub fn children_and_parent_are_inverse(i: u32) {
        let p = InnerNodeIndex::new(i);
        let x = node_u32(p);
        let h = tz1(x);
        let (l, r) = (left(p), right(p));
        assert!(l.u32() < x && x < r.u32(), "children surround their parent");
        assert!(tz1(l.u32()) == h - 1 && tz1(r.u32()) == h - 1, "children are one level down");
        assert!(x - l.u32() == 1 << (h - 1) && r.u32() - x == 1 << (h - 1), "children positions");
        assert!(parent(l) == p && parent(r) == p, "parent inverts child");
        assert!(sibling(l) == r && sibling(r) == l, "siblings");
    }

    pub fn parent_covers_child(raw: u32, inner: bool) {
        let c = node(raw, inner);
        let h = tz1(c.u32());
        let p = parent(c);
        assert!(tz1(node_u32(p)) == h + 1, "parent is one level up");
        assert!(left(p) == c || right(p) == c, "a node is a child of its parent");
        let s = sibling(c);
        assert!(s != c && parent(s) == p && sibling(s) == c, "sibling is the other child");
    }
    pub fn height_of(raw: u32, inner: bool) -> u32 {
        tz1(node(raw, inner).u32())
    }

    pub fn index_conversion_round_trips(raw: u32, o: u32) {
        let l = LeafNodeIndex::new(raw);
        let i = InnerNodeIndex::new(raw);
        assert!(TreeNodeIndex::Leaf(l).u32() == 2 * raw, "leaf position");
        assert!(TreeNodeIndex::Inner(i).u32() == 2 * raw + 1, "inner position");
        assert!(l.u32() == raw && l.usize() == raw as usize, "leaf index");
        assert!(i.u32() == raw && i.usize() == raw as usize, "inner index");
        assert!((l + 1).u32() == raw + 1 && (i + 1).u32() == raw + 1, "add");
        let (mut l2, mut i2) = (l, i);
        l2 += 1;
        i2 += 1;
        assert!(l2 == l + 1 && i2 == i + 1, "add assign");
        if raw > 0 {
            assert!((l - 1).u32() == raw - 1 && (i - 1).u32() == raw - 1, "sub");
            l2 -= 2;
            i2 -= 2;
            assert!(l2 == l - 1 && i2 == i - 1, "sub assign");
        }
        let a = TreeNodeIndex::Leaf(l);
        let b = TreeNodeIndex::Inner(InnerNodeIndex::new(o));
        assert!(a != b, "leaf is not inner");
        assert!((a < b) == (2 * raw < 2 * o + 1), "nodes are ordered left to right");
    }

    pub fn path_len(n: u32) -> u32 {
        TreeSize::from_leaf_count(n).leaf_count().trailing_zeros()
    }

    pub fn direct_path_climbs_to_root(n: u32, leaf: u32, k: usize) {
        let s = TreeSize::from_leaf_count(n);
        let p = direct_path(TreeNodeIndex::Leaf(LeafNodeIndex::new(leaf)), s);
        let height = s.leaf_count().trailing_zeros() as usize;
        assert!(p.len() == height, "one path node per level");
        let x = node_u32(p[k]);
        assert!(tz1(x) as usize == k + 1, "path climbs one level per step");
        // the node covers the leaf: same index once the low bits are dropped
        assert!(x >> (k + 2) == (2 * leaf) >> (k + 2), "path nodes cover the leaf");
        assert!(p[height - 1] == InnerNodeIndex::new(s.leaf_count() / 2 - 1), "path ends at the root");
    }

    pub fn two_leaves_share_an_ancestor_that_separates_them(n: u32, a: u32, b: u32) {
        let s = TreeSize::from_leaf_count(n);
        let d = 32 - (a ^ b).leading_zeros(); // level at which the two paths meet
        let mut x = node(a, false);
        let mut y = node(b, false);
        let mut k = 0;
        while k + 1 < d {
            x = parent(x).into();
            y = parent(y).into();
            k += 1;
        }
        assert!(x != y && sibling(x) == y && parent(x) == parent(y), "paths meet");
        let p = parent(x);
        assert!(left(p) == x && right(p) == y, "the meeting node separates the two leaves");
        assert!(node_u32(p) <= s.u32(), "it is in the tree");
    }
}

#[cfg(kani)]
mod proofs {
    use super::contracts::*;
    use kani::{any, assume, cover};

    fn leaf_count() -> u32 {
        let n: u32 = any();
        assume(n >= 1 && n <= MAX_LEAVES);
        n
    }

    #[kani::proof]
    #[kani::unwind(34)]
    fn k_level() {
        let x: u32 = any();
        assume(x < u32::MAX);
        level_is_height(x);
        cover!(x == 0x7f);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_size() {
        let n = leaf_count();
        size_is_complete_tree(n);
        cover!(n == 1000);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_root() {
        let n = leaf_count();
        root_is_the_middle_node(n);
        cover!(n == 1000);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_children() {
        let i: u32 = any();
        assume(i < MAX_LEAVES);
        children_and_parent_are_inverse(i);
        cover!(i == 1000);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_parent() {
        let raw: u32 = any();
        assume(raw < MAX_LEAVES);
        let inner: bool = any();
        assume(height_of(raw, inner) <= 28);
        parent_covers_child(raw, inner);
        cover!(raw == 1000 && inner);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_index() {
        let (raw, o): (u32, u32) = (any(), any());
        assume(raw < (1 << 30) && o < (1 << 30));
        index_conversion_round_trips(raw, o);
        cover!(raw == 1000);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_direct_path() {
        let n = leaf_count();
        let leaf: u32 = any();
        assume(leaf <= n);
        let k: usize = any();
        assume(k < path_len(n) as usize);
        direct_path_climbs_to_root(n, leaf, k);
        cover!(n == 1000);
    }
    #[kani::proof]
    #[kani::unwind(34)]
    fn k_meet() {
        let n = leaf_count();
        let (a, b): (u32, u32) = (any(), any());
        assume(a < b && b <= n);
        two_leaves_share_an_ancestor_that_separates_them(n, a, b);
        cover!(n == 1000);
    }
}
