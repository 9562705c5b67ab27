"""P11, P12, P13, P20: the key tree: arithmetic of node positions, removal, path encryption, merging of concurrent changes."""
from vp.verus import Fn, Unit
from . import core

TM, TR, SS, KY = "beekem/src/treemath.rs", "beekem/src/tree.rs", "beekem/src/secret_store.rs", "beekem/src/keys.rs"
F = lambda path, ty, name, sig, params, rw=(), wrap=None, **k: Fn(path, ty, name, sig, params, rewrites=list(rw), wrap=wrap or (f"impl {ty}" if ty else None), **k)
# positions in the left-balanced array: even positions are leaves; taking the odd ones gives the same tree without its leaves
POS = r"""
#[derive(Clone, Copy, Structural, PartialEq, Eq)] pub struct LeafNodeIndex(pub u32);
#[derive(Clone, Copy, Structural, PartialEq, Eq)] pub struct InnerNodeIndex(pub u32);
#[derive(Clone, Copy, Structural, PartialEq, Eq)] pub enum TreeNodeIndex { Leaf(LeafNodeIndex), Inner(InnerNodeIndex) }
#[derive(Clone, Copy)] pub struct TreeSize(pub u32);
pub open spec fn lf(l: LeafNodeIndex) -> nat { (2 * l.0) as nat }
pub open spec fn inn(i: InnerNodeIndex) -> nat { (2 * i.0 + 1) as nat }
pub open spec fn ix(t: TreeNodeIndex) -> nat { match t { TreeNodeIndex::Leaf(l) => lf(l), TreeNodeIndex::Inner(i) => inn(i) } }
impl FromSpecImpl<LeafNodeIndex> for TreeNodeIndex { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: LeafNodeIndex) -> Self { TreeNodeIndex::Leaf(k) } }
impl FromSpecImpl<InnerNodeIndex> for TreeNodeIndex { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: InnerNodeIndex) -> Self { TreeNodeIndex::Inner(k) } }
pub open spec fn lv(x: nat) -> nat decreases x { if x % 2 == 0 { 0 } else { 1 + lv(x / 2) } }
pub open spec fn par(x: nat) -> nat decreases x { if x % 2 == 0 { if (x / 2) % 2 == 0 { x + 1 } else { (x - 1) as nat } } else { 2 * par(x / 2) + 1 } }
pub open spec fn lc(x: nat) -> nat decreases x { if x % 2 == 0 { x } else if (x / 2) % 2 == 0 { (x - 1) as nat } else { 2 * lc(x / 2) + 1 } }
pub open spec fn rc(x: nat) -> nat decreases x { if x % 2 == 0 { x } else if (x / 2) % 2 == 0 { x + 1 } else { 2 * rc(x / 2) + 1 } }
/// the lowest `k` bits are set, the next is not
pub open spec fn low(x: u32, k: u32) -> bool { k < 32 && (x >> k) & 1 == 0 && forall|j: u32| j < k ==> #[trigger] ((x >> j) & 1) == 1 }
pub open spec fn sib(x: nat) -> nat { if x < par(x) { rc(par(x)) } else { lc(par(x)) } }
/// root and number of nodes of the tree of height `g`
pub open spec fn rt(g: nat) -> nat decreases g { if g == 0 { 0 } else { 2 * rt((g - 1) as nat) + 1 } }
pub open spec fn sz(g: nat) -> nat { 2 * rt(g) + 1 }
pub open spec fn is_inner(x: nat) -> bool { x % 2 == 1 }
pub proof fn par_up(x: nat) ensures is_inner(par(x)), lv(par(x)) == lv(x) + 1 decreases x { if x % 2 == 1 { par_up(x / 2); assert(par(x) / 2 == par(x / 2)); } else { let y = par(x); assert(y % 2 == 1); assert((y / 2) % 2 == 0); assert(lv(y / 2) == 0); } }
pub proof fn par_in(x: nat, g: nat) requires x < sz(g), x != rt(g) ensures par(x) < sz(g), g > 0, lv(x) < g decreases g
{ if g > 0 { if x % 2 == 1 { par_in(x / 2, (g - 1) as nat); } else { let q = rt((g - 1) as nat); rt_odd(g); if g > 1 { rt_odd((g - 1) as nat); } if (x / 2) % 2 == 0 { if x + 1 >= sz(g) { assert(x == 2 * rt(g)); } } } } }
pub proof fn rt_odd(g: nat) ensures g > 0 ==> is_inner(rt(g)), lv(rt(g)) == g decreases g { if g > 0 { rt_odd((g - 1) as nat); assert(rt(g) / 2 == rt((g - 1) as nat)); } }
pub proof fn lv_in(x: nat, g: nat) requires x < sz(g) ensures lv(x) <= g, lv(x) == g <==> x == rt(g) decreases g { rt_odd(g); if x % 2 == 1 { if g > 0 { lv_in(x / 2, (g - 1) as nat); } } else { if g == 0 { assert(x == 0); } } }
pub proof fn kids(x: nat) requires is_inner(x) ensures par(lc(x)) == x, par(rc(x)) == x, lc(x) < x < rc(x), lv(lc(x)) + 1 == lv(x), lv(rc(x)) + 1 == lv(x) decreases x
{ if (x / 2) % 2 == 1 { kids(x / 2); assert(lc(x) / 2 == lc(x / 2)); assert(rc(x) / 2 == rc(x / 2)); } else { assert(lv(x / 2) == 0); let a = lc(x); let b = rc(x); assert((a / 2) == x / 2); assert(b / 2 == x / 2 + 1); assert((b / 2) % 2 == 1); } }
pub proof fn kids_in(x: nat, g: nat) requires is_inner(x), x < sz(g) ensures lc(x) < sz(g), rc(x) < sz(g) decreases g
{ kids(x); if g > 0 { if (x / 2) % 2 == 1 { kids_in(x / 2, (g - 1) as nat); } else { rt_odd((g - 1) as nat); } } }
pub proof fn child_of(x: nat) ensures x == lc(par(x)) || x == rc(par(x)), x < par(x) ==> x == lc(par(x)), x > par(x) ==> x == rc(par(x)), x != par(x) decreases x
{ par_up(x); if x % 2 == 1 { child_of(x / 2); assert(par(x) / 2 == par(x / 2)); par_up(x / 2); assert((par(x) / 2) % 2 == 1); } else { let p = par(x); assert((p / 2) % 2 == 0); } }
pub proof fn size_up(g: nat) ensures sz(g + 1) == 2 * sz(g) + 1, rt(g + 1) == sz(g) { }
pub open spec fn ones(g: nat, s: u32) -> bool { s as nat == sz(g) }
/// largest tree the 32-bit positions are used for here
pub open spec fn fits(g: nat) -> bool { g <= 29 }
pub proof fn bounded(g: nat) requires fits(g) ensures sz(g) < 0x4000_0000
{ reveal_with_fuel(rt, 31); mono(g, 29); assert(rt(29) == 0x1fff_ffff) by (compute); }
pub proof fn mono(a: nat, b: nat) requires a <= b ensures rt(a) <= rt(b) decreases b { if a < b { mono(a, (b - 1) as nat); } }
"""
BITS = r"""
pub proof fn low_half(x: u32, k: u32) requires low(x, k) ensures k > 0 ==> x % 2 == 1 && low(x >> 1, (k - 1) as u32), k == 0 ==> x % 2 == 0, x >> 1 == x / 2
{
    assert(x >> 1 == x / 2) by (bit_vector);
    if k > 0 { assert(((x >> 0u32) & 1) == 1); assert(((x >> 0u32) & 1) == 1 ==> x % 2 == 1) by (bit_vector);
        let y = x >> 1; let m = (k - 1) as u32;
        assert((y >> m) & 1 == 0) by { assert(((x >> 1) >> m) == x >> k) by (bit_vector) requires m == k - 1, 0 < k < 32; }
        assert forall|j: u32| j < m implies #[trigger] ((y >> j) & 1) == 1 by { let i = (j + 1) as u32; assert((x >> i) & 1 == 1); assert(((x >> 1) >> j) == x >> i) by (bit_vector) requires i == j + 1, i < 32; } }
    else { assert((x >> 0u32) & 1 == 0 ==> x % 2 == 0) by (bit_vector); }
}
pub proof fn low_lv(x: u32, k: u32) requires low(x, k) ensures lv(x as nat) == k decreases k { low_half(x, k); if k > 0 { low_lv(x >> 1, (k - 1) as u32); assert((x as nat) / 2 == (x >> 1) as nat); } }
pub open spec fn par32(x: u32, k: u32) -> u32 { (x | (1u32 << k)) ^ (((x >> ((k + 1) as u32)) & 1) << ((k + 1) as u32)) }
pub proof fn par_bits(x: u32, k: u32) requires low(x, k), k < 31, x < 0x8000_0000 ensures par32(x, k) as nat == par(x as nat), par32(x, k) < 0x8000_0000 decreases k
{
    low_half(x, k); let p = par32(x, k);
    assert(p < 0x8000_0000) by (bit_vector) requires p == (x | (1u32 << k)) ^ (((x >> ((k + 1) as u32)) & 1) << ((k + 1) as u32)), x < 0x8000_0000, k < 31, (x >> k) & 1 == 0;
    if k == 0 {
        assert((x / 2) % 2 == 0 ==> (x | (1u32 << 0u32)) ^ (((x >> 1u32) & 1) << 1u32) == x + 1) by (bit_vector) requires x % 2 == 0;
        assert((x / 2) % 2 == 1 ==> (x | (1u32 << 0u32)) ^ (((x >> 1u32) & 1) << 1u32) == x - 1) by (bit_vector) requires x % 2 == 0, x < 0x8000_0000;
    } else {
        let y = x >> 1; let m = (k - 1) as u32; par_bits(y, m); let q = par32(y, m);
        assert(y < 0x8000_0000) by (bit_vector) requires y == x >> 1;
        assert(p == 2 * q + 1) by (bit_vector) requires m == k - 1, 0 < k < 31, x < 0x8000_0000, x % 2 == 1, q < 0x8000_0000, p == (x | (1u32 << k)) ^ (((x >> ((k + 1) as u32)) & 1) << ((k + 1) as u32)), q == ((x >> 1) | (1u32 << m)) ^ ((((x >> 1) >> ((m + 1) as u32)) & 1) << ((m + 1) as u32));
        assert((x as nat) / 2 == y as nat);
    }
}
pub open spec fn lc32(x: u32, k: u32) -> u32 { x ^ (1u32 << ((k - 1) as u32)) }
pub open spec fn rc32(x: u32, k: u32) -> u32 { x ^ (3u32 << ((k - 1) as u32)) }
pub proof fn kid_bits(x: u32, k: u32) requires low(x, k), 0 < k < 31, x < 0x8000_0000 ensures lc32(x, k) as nat == lc(x as nat), rc32(x, k) as nat == rc(x as nat), lc32(x, k) < 0x8000_0000, rc32(x, k) < 0x8000_0000 decreases k
{
    low_half(x, k); let a = lc32(x, k); let b = rc32(x, k); let y = x >> 1; let m = (k - 1) as u32;
    assert((x >> k) & 1 == 0); assert((x >> m) & 1 == 1);
    assert(a < 0x8000_0000 && b < 0x8000_0000) by (bit_vector) requires a == x ^ (1u32 << m), b == x ^ (3u32 << m), m < 30, x < 0x8000_0000;
    low_half(y, m);
    if k == 1 {
        assert(m == 0);
        assert(x ^ (1u32 << 0u32) == x - 1) by (bit_vector) requires x % 2 == 1;
        assert(x ^ (3u32 << 0u32) == x + 1) by (bit_vector) requires x % 2 == 1, (x >> 1) % 2 == 0, x < 0x8000_0000;
        assert((x as nat) / 2 == y as nat);
    } else {
        let n = (m - 1) as u32; kid_bits(y, m); let c = lc32(y, m); let d = rc32(y, m);
        assert(y < 0x8000_0000) by (bit_vector) requires y == x >> 1;
        assert(a == 2 * c + 1) by (bit_vector) requires n == m - 1, 0 < m < 31, x < 0x8000_0000, x % 2 == 1, c < 0x8000_0000, a == x ^ (1u32 << m), c == (x >> 1) ^ (1u32 << n);
        assert(b == 2 * d + 1) by (bit_vector) requires n == m - 1, 0 < m < 31, x < 0x8000_0000, x % 2 == 1, d < 0x8000_0000, b == x ^ (3u32 << m), d == (x >> 1) ^ (3u32 << n);
        assert((x as nat) / 2 == y as nat); assert((y as nat) % 2 == 1);
    }
}
/// the number of bits of `x` is `k + 1`
pub open spec fn bits(x: u32, k: u32) -> bool { k < 32 && x >> k == 1 }
"""
MATH = r"""
pub proof fn pow(g: nat) requires g <= 31 ensures (1u32 << (g as u32)) as nat == rt(g) + 1, rt(g) < 0x8000_0000 decreases g
{ if g == 0 { assert(1u32 << 0u32 == 1u32) by (bit_vector); } else { pow((g - 1) as nat); let k = g as u32; let m = (g - 1) as u32; assert(1u32 << k == 2u32 * (1u32 << m)) by (bit_vector) requires m == k - 1, 0 < k <= 31; } bounded30(); mono(g, 31); assert(rt(31) == 2 * rt(30) + 1); }
pub proof fn log_is(x: u32, k: u32) requires x > 0, k <= 32, k > 0, k < 32 ==> x >> k == 0, x >> ((k - 1) as u32) > 0 ensures x as nat > rt((k - 1) as nat), k < 32 ==> x as nat <= rt(k as nat)
{
    let m = (k - 1) as u32; pow(m as nat); assert(x >= 1u32 << m) by (bit_vector) requires x >> m > 0, m < 32;
    if k < 32 { pow(k as nat); assert(x < 1u32 << k) by (bit_vector) requires x >> k == 0, k < 32; }
}
pub open spec fn lg(x: u32, k: nat) -> bool { if x == 0 { k == 0 } else { rt(k) < x as nat && x as nat <= rt(k + 1) } }
pub proof fn lg_one(x: u32, a: nat, b: nat) requires lg(x, a), lg(x, b) ensures a == b { if x > 0 { if a < b { mono(a + 1, b); } if b < a { mono(b + 1, a); } } }
pub proof fn lg_size(s: u32, g: nat) requires ones(g, s) ensures lg(s, g) { assert(rt(g + 1) == 2 * rt(g) + 1); }
pub proof fn all_ones(x: u32, k: u32) requires k <= 31, forall|j: u32| j < k ==> #[trigger] ((x >> j) & 1) == 1 ensures x as nat >= rt(k as nat) decreases k
{ if k > 0 { let m = (k - 1) as u32; assert((x >> 0u32) & 1 == 1); assert((x >> 0u32) & 1 == 1 ==> x % 2 == 1) by (bit_vector);
    assert forall|j: u32| j < m implies #[trigger] (((x >> 1) >> j) & 1) == 1 by { let i = (j + 1) as u32; assert((x >> i) & 1 == 1); assert(((x >> 1) >> j) == x >> i) by (bit_vector) requires i == j + 1, i < 32; }
    all_ones(x >> 1, m); assert(x >> 1 == x / 2) by (bit_vector); } }
pub open spec fn small(x: nat) -> bool { x < 0x7fff_ffff }
pub proof fn bounded30() ensures rt(30) == 0x3fff_ffff, sz(30) == 0x7fff_ffff { reveal_with_fuel(rt, 31); assert(rt(30) == 0x3fff_ffff) by (compute); }
pub proof fn par_root(g: nat) ensures par(rt(g)) == sz(g) decreases g { if g > 0 { par_root((g - 1) as nat); assert(rt(g) % 2 == 1); assert(rt(g) / 2 == rt((g - 1) as nat)); } }
"""
ONE = [("$$x.is_multiple_of(2)", "($$x % 2 == 0)")]
math_fns = [
    F(TM, "LeafNodeIndex", "new", "pub fn new(index: u32) -> (r: Self) ensures r.0 == index", ["index"]),
    F(TM, "LeafNodeIndex", "u32", "pub fn u32(&self) -> (r: u32) ensures r == self.0", ["self"]),
    F(TM, "LeafNodeIndex", "usize", "pub fn usize(&self) -> (r: usize) ensures r == self.0", ["self"]),
    F(TM, "LeafNodeIndex", "to_tree_index", "pub fn to_tree_index(self) -> (r: u32) requires lf(self) < 0x8000_0000 ensures r as nat == lf(self)", ["self"]),
    F(TM, "LeafNodeIndex", "from_tree_index", "pub fn from_tree_index(node_index: u32) -> (r: Self) requires node_index % 2 == 0 ensures lf(r) == node_index as nat", ["node_index"], ONE, keep_asserts=True),
    F(TM, "AddAssign for LeafNodeIndex", "add_assign", "pub fn add_assign(&mut self, rhs: u32) requires old(self).0 + rhs < 0x8000_0000 ensures final(self).0 == old(self).0 + rhs", ["self", "rhs"], wrap="impl LeafNodeIndex"),
    F(TM, "Sub for LeafNodeIndex", "sub", "pub fn sub(self, rhs: u32) -> (r: Self) requires self.0 >= rhs ensures r.0 == self.0 - rhs", ["self", "rhs"], wrap="impl LeafNodeIndex"),
    F(TM, "SubAssign for LeafNodeIndex", "sub_assign", "pub fn sub_assign(&mut self, rhs: u32) requires old(self).0 >= rhs ensures final(self).0 == old(self).0 - rhs", ["self", "rhs"], wrap="impl LeafNodeIndex"),
    F(TM, "InnerNodeIndex", "new", "pub fn new(index: u32) -> (r: Self) ensures r.0 == index", ["index"]),
    F(TM, "InnerNodeIndex", "u32", "pub fn u32(&self) -> (r: u32) ensures r == self.0", ["self"]),
    F(TM, "InnerNodeIndex", "usize", "pub fn usize(&self) -> (r: usize) ensures r == self.0", ["self"]),
    F(TM, "InnerNodeIndex", "to_tree_index", "pub fn to_tree_index(self) -> (r: u32) requires inn(self) < 0x8000_0000 ensures r as nat == inn(self)", ["self"]),
    F(TM, "InnerNodeIndex", "from_tree_index", "pub fn from_tree_index(node_index: u32) -> (r: Self) requires node_index % 2 == 1 ensures inn(r) == node_index as nat", ["node_index"], ONE, keep_asserts=True),
    F(TM, "From for TreeNodeIndex ~LeafNodeIndex", "from", "fn from(leaf_index: LeafNodeIndex) -> (r: Self)", ["leaf_index"], wrap="impl From<LeafNodeIndex> for TreeNodeIndex", vac=False),
    F(TM, "From for TreeNodeIndex ~InnerNodeIndex", "from", "fn from(parent_index: InnerNodeIndex) -> (r: Self)", ["parent_index"], wrap="impl From<InnerNodeIndex> for TreeNodeIndex", vac=False),
    F(TM, "TreeNodeIndex", "new", "pub fn new(index: u32) -> (r: Self) ensures ix(r) == index as nat", ["index"], ONE),
    F(TM, "TreeNodeIndex", "u32", "pub fn u32(&self) -> (r: u32) requires ix(*self) < 0x8000_0000 ensures r as nat == ix(*self)", ["self"]),
    F(TM, None, "log2", "pub fn log2(x: u32) -> (r: usize) requires x < 0x8000_0000 ensures lg(x, r as nat), r <= 30", ["x"], [("let mut k = 0;", "let mut k: usize = 0;"), ("k - 1", "({ proof { log_is(x, k as u32); assert(k <= 31) by { if k == 32 { assert(x >> 31u32 > 0); assert(x >> 31u32 > 0 ==> x >= 0x8000_0000u32) by (bit_vector); } }; } k - 1 })")],
      loops=[("while", None, "invariant x > 0, x < 0x8000_0000, k <= 31, k > 0 ==> x >> ((k - 1) as u32) > 0 ensures x >> (k as u32) == 0, k < 32 decreases 32 - k",
              "proof { assert(x >> 31u32 > 0 ==> x >= 0x8000_0000u32) by (bit_vector); }", "")], pre="proof { assert(x >> 0u32 == x) by (bit_vector); }"),
    F(TM, None, "level", "pub fn level(index: u32) -> (r: usize) requires index < 0x7fff_ffff ensures low(index, r as u32), r as nat == lv(index as nat), r < 31", ["index"], [("let mut k = 0;", "let mut k: usize = 0;")],
      pre="let ghost i0 = index; proof { assert(i0 & 0x01 == (i0 >> 0u32) & 1) by (bit_vector); assert forall|j: u32| j < 32 implies #[trigger] ((i0 >> j) & 1) == 0 || (i0 >> j) & 1 == 1 by { assert((i0 >> j) & 1 == 0 || (i0 >> j) & 1 == 1) by (bit_vector); } assert forall|j: u32| #[trigger] low(i0, j) implies lv(i0 as nat) == j by { low_lv(i0, j); } if i0 & 1 == 0 { assert(low(i0, 0)); } }", post="",
      loops=[("while", None, "invariant x == i0, x < 0x7fff_ffff, k < 31, forall|j: u32| j < 32 ==> #[trigger] ((i0 >> j) & 1) == 0 || (i0 >> j) & 1 == 1, forall|j: u32| #[trigger] low(i0, j) ==> lv(i0 as nat) == j, forall|j: u32| j < k ==> #[trigger] ((x >> j) & 1) == 1 ensures low(i0, k as u32), k < 31 decreases 32 - k", "proof { assert((x >> (k as u32)) & 1 == 1); assert forall|j: u32| j < k + 1 implies #[trigger] ((x >> j) & 1) == 1 by { if j == k { } } }", "proof { bounded30(); assert(rt(31) == 2 * rt(30) + 1); if k == 31 { all_ones(x, 31); } }")]),
    F(TM, None, "root", "pub fn root(size: TreeSize) -> (r: TreeNodeIndex) requires exists|g: nat| ones(g, size.0) && g <= 30 ensures forall|g: nat| #[trigger] ones(g, size.0) && g <= 30 ==> ix(r) == rt(g)", ["size"], [("(1 << log2(size))", "(1u32 << l)"), ("TreeNodeIndex::new(", "let ghost s0 = size; let l = log2(size); proof { assert forall|g: nat| #[trigger] ones(g, s0) implies l as nat == g by { lg_size(s0, g); lg_one(s0, g, l as nat); } pow(l as nat); } TreeNodeIndex::new(")], keep_asserts=True, pre="proof { let g = choose|g: nat| ones(g, size.0) && g <= 30; bounded30(); mono(g, 30); }"),
    F(TM, None, "left", "pub fn left(index: InnerNodeIndex) -> (r: TreeNodeIndex) requires small(inn(index)) ensures ix(r) == lc(inn(index))", ["index"], [("0x01 <<", "1u32 <<"), ("let index = x ^", "proof { kid_bits(x, k as u32); } let index = x ^")], keep_asserts=True),
    F(TM, None, "right", "pub fn right(index: InnerNodeIndex) -> (r: TreeNodeIndex) requires small(inn(index)) ensures ix(r) == rc(inn(index))", ["index"], [("0x03 <<", "3u32 <<"), ("let index = x ^", "proof { kid_bits(x, k as u32); } let index = x ^")], keep_asserts=True),
    F(TM, None, "parent", "pub fn parent(x: TreeNodeIndex) -> (r: InnerNodeIndex) requires small(ix(x)) ensures inn(r) == par(ix(x)), inn(r) < 0x8000_0000", ["x"], [("1 << k", "1u32 << k"), ("let index =", "proof { par_bits(x, k as u32); par_up(x as nat); } let index =")]),
    F(TM, None, "sibling", "pub fn sibling(index: TreeNodeIndex) -> (r: TreeNodeIndex) requires small(ix(index)), small(par(ix(index))) ensures ix(r) == sib(ix(index))", ["index"], [("match index.u32().cmp(&p.to_tree_index())", "match order(index.u32(), p.to_tree_index())", "must")], pre="proof { child_of(ix(index)); }"),
    F(TM, None, "direct_path", "pub fn direct_path(node_index: TreeNodeIndex, size: TreeSize) -> (r: Vec<InnerNodeIndex>) requires exists|g: nat| ones(g, size.0) && fits(g) && ix(node_index) < sz(g) ensures forall|g: nat| #[trigger] ones(g, size.0) && fits(g) && ix(node_index) < sz(g) ==> up(r@) == path(ix(node_index), g)", ["node_index", "size"],
      [("let mut d = vec![];", "let mut d: Vec<InnerNodeIndex> = Vec::new();"), ("d.push(parent);", "let ghost d0 = up(d@); proof { par_in(x as nat, g); par_up(x as nat); } d.push(parent); proof { assert(up(d@) =~= d0.push(par(x as nat))); }")],
      pre="let ghost g = choose|g: nat| ones(g, size.0) && fits(g) && ix(node_index) < sz(g); let ghost n = ix(node_index); proof { bounded(g); assert forall|h: nat| ones(h, size.0) implies h == g by { lg_size(size.0, h); lg_size(size.0, g); lg_one(size.0, h, g); } path_end(g); assert(up(Seq::<InnerNodeIndex>::empty()) =~= Seq::<nat>::empty()); assert(up(Seq::<InnerNodeIndex>::empty()) + path(n, g) =~= path(n, g)); }",
      loops=[("while", None, "invariant r as nat == rt(g), fits(g), n < sz(g), (x as nat) < sz(g), sz(g) < 0x4000_0000, up(d@) + path(x as nat, g) == path(n, g), x as nat == rt(g) ==> up(d@) == path(n, g) decreases g - lv(x as nat)", "proof { lv_in(x as nat, g); path_step(x as nat, g, up(d@)); }", "proof { lv_in(x as nat, g); if x as nat == rt(g) { path_end(g); assert(up(d@) + path(rt(g), g) =~= up(d@)); } }")]),
    F(TM, "TreeSize", "new", "pub fn new(nodes: u32) -> (r: Self) requires nodes < 0x4000_0000 ensures forall|k: nat| #[trigger] lg(nodes, k) ==> ones(k, r.0)", ["nodes"], [("(1 << (k + 1))", "(1u32 << (k + 1))"), ("TreeSize(", "proof { assert forall|j: nat| #[trigger] lg(nodes, j) implies j == k as nat by { lg_one(nodes, j, k as nat); } bounded30(); if k == 30 { } pow((k + 1) as nat); size_up(k as nat); } TreeSize(")]),
    F(TM, "TreeSize", "from_leaf_count", "pub fn from_leaf_count(leaf_count: u32) -> (r: Self) requires leaf_count < 0x2000_0000 ensures exists|g: nat| #[trigger] ones(g, r.0) && g <= 29 && leaf_count as nat <= rt(g) && (g > 0 ==> leaf_count as nat > rt((g - 1) as nat))", ["leaf_count"],
      [("TreeSize::new($x)", "({ let n = $x; let r = TreeSize::new(n); proof { counted(leaf_count, n, r); } r })")]),
    F(TM, "TreeSize", "leaf_count", "pub fn leaf_count(&self) -> (r: u32) ensures forall|g: nat| #[trigger] ones(g, self.0) ==> r as nat == rt(g) + 1", ["self"]),
    F(TM, "TreeSize", "inner_node_count", "pub fn inner_node_count(&self) -> (r: u32) ensures forall|g: nat| #[trigger] ones(g, self.0) ==> r as nat == rt(g)", ["self"]),
    F(TM, "TreeSize", "u32", "pub fn u32(&self) -> (r: u32) ensures r == self.0", ["self"]),
    F(TM, "TreeSize", "inc", "pub fn inc(&mut self) requires exists|g: nat| ones(g, old(self).0) && g < 30 ensures forall|g: nat| #[trigger] ones(g, old(self).0) ==> ones(g + 1, final(self).0)", ["self"], pre="proof { let g = choose|g: nat| ones(g, self.0) && g < 30; bounded30(); mono(g, 29); bounded(29); } let ghost s0 = self.0;", post="; proof { assert forall|g: nat| #[trigger] ones(g, s0) implies ones(g + 1, self.0) by { size_up(g); } }"),
]
PATHS = r"""
pub open spec fn up(s: Seq<InnerNodeIndex>) -> Seq<nat> { s.map_values(|i: InnerNodeIndex| inn(i)) }
/// the nodes above `x`, up to and including the root
pub open spec fn path(x: nat, g: nat) -> Seq<nat> decreases g - lv(x) { if lv(x) >= g || lv(par(x)) != lv(x) + 1 { seq![] } else { seq![par(x)] + path(par(x), g) } }
pub proof fn path_step(x: nat, g: nat, d: Seq<nat>) requires x < sz(g), x != rt(g) ensures path(x, g) == seq![par(x)] + path(par(x), g), d.push(par(x)) + path(par(x), g) == d + path(x, g)
{ par_in(x, g); par_up(x); assert(d.push(par(x)) + path(par(x), g) =~= d + (seq![par(x)] + path(par(x), g))); }
pub proof fn path_end(g: nat) ensures path(rt(g), g) == Seq::<nat>::empty() { rt_odd(g); }
/// std
#[verifier::external_body] pub fn order(a: u32, b: u32) -> (r: Ordering) ensures r == (if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }) { unimplemented!() }
pub proof fn counted(c: u32, n: u32, r: TreeSize) requires n == 2 * c, c < 0x2000_0000, forall|k: nat| #[trigger] lg(n, k) ==> ones(k, r.0) ensures exists|g: nat| #[trigger] ones(g, r.0) && g <= 29 && c as nat <= rt(g) && (g > 0 ==> c as nat > rt((g - 1) as nat))
{
    if c == 0 { assert(lg(n, 0)); assert(ones(0, r.0)); } else {
        bounded30(); let g = some_lg(n, 29); assert(ones(g, r.0)); if g == 0 { assert(rt(1) == 1); }
        bounded30(); if g >= 30 { mono(30, g); }
        assert(rt(g) == 2 * rt((g - 1) as nat) + 1); assert(rt(g + 1) == 2 * rt(g) + 1); } }
pub proof fn some_lg(n: u32, g: nat) -> (k: nat) requires n > 0, n as nat <= rt(g + 1) ensures lg(n, k), k <= g decreases g
{ if rt(g) < n as nat { g } else { assert(g > 0); some_lg(n, (g - 1) as nat) } }
"""
math = Unit("tree_math", core.std() + POS + BITS + MATH + PATHS, math_fns)


def stubs(fns):
    """callees as their contracts only"""
    out = []
    for f in fns:
        s = f.sig.replace("#[verifier::exec_allows_no_decreases_clause]", "")
        if " for " in (f.wrap or ""):
            continue
        body = "#[verifier::external_body] " + s + " { unimplemented!() }"
        out.append(f"{f.wrap} {{ {body} }}" if f.wrap else body)
    return "\n".join(out) + (FROMS if fns is math_fns else "")


FROMS = r"""
impl From<LeafNodeIndex> for TreeNodeIndex { #[verifier::external_body] fn from(l: LeafNodeIndex) -> (r: Self) { unimplemented!() } }
impl From<InnerNodeIndex> for TreeNodeIndex { #[verifier::external_body] fn from(l: InnerNodeIndex) -> (r: Self) { unimplemented!() } }
"""


KEYS = core.hashkey("ShareKey") + core.opaque("ShareSecretKey") + core.opaque("TreeId") + core.hashkey("MemberId") + core.opaque("SymKey") + core.opaque("Sealed") + r"""
#[derive(Debug)] pub enum CgkaError { RemoveLastMember, IdentifierNotFound, ShareKeyNotFound, SecretKeyNotFound, NoRootKey, UnexpectedKeyConflict, EncryptedSecretNotFound, Decryption, Encryption, Conversion }
pub uninterp spec fn pub_of(k: ShareSecretKey) -> ShareKey;
pub uninterp spec fn dh(s: ShareSecretKey, p: ShareKey) -> SymKey;
pub uninterp spec fn skb(s: ShareSecretKey) -> Seq<u8>;
pub mod ax_dh { use super::*; pub broadcast axiom fn shared(a: ShareSecretKey, b: ShareSecretKey) ensures #[trigger] dh(a, pub_of(b)) == dh(b, pub_of(a)); }
pub mod ax_skb { use super::*; pub broadcast axiom fn inj(a: ShareSecretKey, b: ShareSecretKey) ensures (#[trigger] skb(a) == #[trigger] skb(b)) ==> a == b; }
#[derive(Clone, Copy)] pub struct EncryptedSecret { pub paired_pk: ShareKey, pub sealed: Sealed }
/// what opens under a key, if anything does (proved of the implementation in P15)
pub uninterp spec fn opened(e: EncryptedSecret, k: SymKey) -> Option<Seq<u8>>;
impl EncryptedSecret {
    #[verifier::external_body] pub fn try_encrypter_decrypt(&self, k: &ShareSecretKey) -> (r: Result<Vec<u8>, CgkaError>) ensures r is Ok ==> opened(*self, dh(*k, self.paired_pk)) == Some(r->Ok_0@), r is Err ==> opened(*self, dh(*k, self.paired_pk)) is None { unimplemented!() }
}
#[verifier::external_body] pub fn encrypt_secret(doc_id: &[u8], secret: ShareSecretKey, sk: &ShareSecretKey, paired_pk: &ShareKey) -> (r: Result<EncryptedSecret, CgkaError>)
    ensures r is Ok ==> r->Ok_0.paired_pk == *paired_pk && opened(r->Ok_0, dh(*sk, *paired_pk)) == Some(skb(secret)) { unimplemented!() }
#[verifier::external_body] pub fn to32(v: Vec<u8>) -> (r: Result<[u8; 32], CgkaError>) ensures r is Ok ==> r->Ok_0@ == v@, v@.len() == 32 ==> r is Ok { unimplemented!() }
impl ShareSecretKey {
    #[verifier::external_body] pub fn force_from_bytes(a: [u8; 32]) -> (r: Self) ensures skb(r) == a@ { unimplemented!() }
    #[verifier::external_body] pub fn share_key(&self) -> (r: ShareKey) ensures r == pub_of(*self) { unimplemented!() }
    #[verifier::external_body] pub fn generate(r: &mut Rng) -> (s: ShareSecretKey) ensures forall|bad: Set<ShareKey>| #[trigger] never(*old(r), bad) ==> never(*final(r), bad) && !bad.contains(pub_of(s)) { unimplemented!() }
}
#[verifier::external_body] pub struct Rng { x: u64 }
/// the keys this source of randomness yields are not among `bad`
pub uninterp spec fn never(r: Rng, bad: Set<ShareKey>) -> bool;
impl TreeId { #[verifier::external_body] pub fn as_bytes(&self) -> &[u8] { unimplemented!() } }
/// std: BTreeMap
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::reject_recursive_types(V)] pub struct Bt<K, V> { k: K, v: V }
impl<K, V> Bt<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn extend(&mut self, o: &Bt<K, V>) ensures final(self)@ == old(self)@.union_prefer_right(o@) { unimplemented!() }
}
#[verifier::external_body] pub fn unreached<T>() -> T requires false { unimplemented!() }
#[verifier::external_body] pub fn tail2<T: Copy>(v: &Vec<T>) -> (r: Vec<T>) requires v@.len() >= 2 ensures r@ == v@.subrange(2, v@.len() as int) { unimplemented!() }
/// std: a sort permutes
#[verifier::external_body] pub fn sort_keys(v: &mut Vec<ShareKey>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), ascending(final(v)@), final(v)@.len() == old(v)@.len() { unimplemented!() }
#[verifier::external_body] pub fn sort_versions(v: &mut Vec<SecretStoreVersion>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), ascending(final(v)@.map_values(|x: SecretStoreVersion| x.pk)) { unimplemented!() }
pub uninterp spec fn kle(a: ShareKey, b: ShareKey) -> bool;
pub open spec fn ascending(s: Seq<ShareKey>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> kle(#[trigger] s[i], #[trigger] s[j]) }
pub enum NodeKey { ShareKey(ShareKey), ConflictKeys(ConflictKeys) }
pub struct ConflictKeys { pub first: ShareKey, pub second: ShareKey, pub more: Vec<ShareKey> }
pub open spec fn ck(c: ConflictKeys) -> Seq<ShareKey> { seq![c.first, c.second] + c.more@ }
pub open spec fn nk(n: NodeKey) -> Seq<ShareKey> { match n { NodeKey::ShareKey(k) => seq![k], NodeKey::ConflictKeys(c) => ck(c) } }
impl Clone for NodeKey { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for ConflictKeys { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl FromSpecImpl<ShareKey> for NodeKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: ShareKey) -> Self { NodeKey::ShareKey(k) } }
impl From<ShareKey> for NodeKey { fn from(k: ShareKey) -> Self { NodeKey::ShareKey(k) } }
impl FromSpecImpl<ConflictKeys> for NodeKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: ConflictKeys) -> Self { NodeKey::ConflictKeys(k) } }
impl From<ConflictKeys> for NodeKey { fn from(k: ConflictKeys) -> Self { NodeKey::ConflictKeys(k) } }
pub struct SecretStoreVersion { pub pk: ShareKey, pub sk: Bt<TreeNodeIndex, EncryptedSecret>, pub encrypter_pk: ShareKey }
impl Clone for SecretStoreVersion { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct SecretStore { pub versions: Vec<SecretStoreVersion> }
impl Clone for SecretStore { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub type InnerNode = SecretStore;
pub struct ShareKeyMap(pub Bt<ShareKey, ShareSecretKey>);
pub open spec fn pks(s: Seq<SecretStoreVersion>) -> Seq<ShareKey> { s.map_values(|v: SecretStoreVersion| v.pk) }
/// every secret is filed under its own public key
pub open spec fn sound(m: ShareKeyMap) -> bool { forall|k: ShareKey| #[trigger] m.0@.dom().contains(k) ==> pub_of(m.0@[k]) == k }
/// a public key somebody has the secret of
pub open spec fn real(k: ShareKey) -> bool { exists|s: ShareSecretKey| #[trigger] pub_of(s) == k }
pub open spec fn carries(e: EncryptedSecret, a: ShareSecretKey, s: ShareSecretKey) -> bool { real(e.paired_pk) && opened(e, dh(a, e.paired_pk)) == Some(skb(s)) }
pub open spec fn seals(v: SecretStoreVersion, a: ShareSecretKey, s: ShareSecretKey) -> bool {
    pub_of(a) == v.encrypter_pk && pub_of(s) == v.pk && forall|j: TreeNodeIndex| #[trigger] v.sk@.dom().contains(j) ==> carries(v.sk@[j], a, s)
}
/// made by following the protocol: every copy holds the secret of the public key, sealed between the maker and the key it names
pub open spec fn honest(v: SecretStoreVersion) -> bool { exists|a: ShareSecretKey, s: ShareSecretKey| #[trigger] seals(v, a, s) }
pub open spec fn honest_store(s: SecretStore) -> bool { forall|i: int| 0 <= i < s.versions@.len() ==> honest(#[trigger] s.versions@[i]) }
pub proof fn opens(v: SecretStoreVersion, j: TreeNodeIndex, k: ShareSecretKey, x: ShareSecretKey, enc: bool) requires honest(v), v.sk@.dom().contains(j), enc ==> pub_of(k) == v.encrypter_pk, !enc ==> pub_of(k) == v.sk@[j].paired_pk, opened(v.sk@[j], if enc { dh(k, v.sk@[j].paired_pk) } else { dh(k, v.encrypter_pk) }) == Some(skb(x)) ensures pub_of(x) == v.pk
{
    broadcast use ax_dh::shared; let (a, s) = choose|a: ShareSecretKey, s: ShareSecretKey| #[trigger] seals(v, a, s); let e = v.sk@[j]; assert(carries(e, a, s));
    let b = choose|b: ShareSecretKey| #[trigger] pub_of(b) == e.paired_pk; assert(dh(a, pub_of(b)) == dh(b, pub_of(a)));
    assert(dh(k, pub_of(b)) == dh(b, pub_of(k))); assert(dh(a, pub_of(k)) == dh(k, pub_of(a)));
    ax_skb::inj(s, x);
}
pub open spec fn without(s: Seq<ShareKey>, r: Seq<ShareKey>) -> Seq<ShareKey> { s.filter(|k: ShareKey| !r.contains(k)) }
pub open spec fn surviving(s: Seq<SecretStoreVersion>, r: Set<ShareKey>) -> Seq<SecretStoreVersion> { s.filter(|v: SecretStoreVersion| !r.contains(v.pk)) }
pub open spec fn joined(n: NodeKey, a: NodeKey, b: NodeKey, removed: Seq<ShareKey>) -> bool { nk(n).to_multiset() == (nk(b) + without(nk(a), removed)).to_multiset() && (n == b || ascending(nk(n))) }
"""
MATCHKEYS = ("match $e.as_slice() { [] => $u, [$$p] => $v, [$$f, $$s] => $w, [$$g, $$t, more @ ..] => $x, }",
    "({ let ks = $e; proof { split2(ks@); } if ks.len() == 0 { unreached() } else if ks.len() == 1 { let $$p = &ks[0]; $v } else if ks.len() == 2 { let $$f = &ks[0]; let $$s = &ks[1]; $w } else { let $$g = &ks[0]; let $$t = &ks[1]; let more = tail2(&ks); $x } })", "must")
KW = [MATCHKEYS, ("more.to_vec()", "more"), ("more: vec![]", "more: Vec::new()"), ("new_keys.sort();", "let ghost b4 = new_keys@; sort_keys(&mut new_keys); proof { same_len(b4, new_keys@); }"), ("new_keys.sort_by_key(|$$k| *$$j);", "let ghost b4 = new_keys@; sort_keys(&mut new_keys); proof { same_len(b4, new_keys@); }")]
LISTS = r"""
pub proof fn split2(s: Seq<ShareKey>) ensures s.len() == 0 ==> s =~= seq![], s.len() == 1 ==> s =~= seq![s[0]], s.len() == 2 ==> s =~= seq![s[0], s[1]] + Seq::<ShareKey>::empty(), s.len() >= 2 ==> s =~= seq![s[0], s[1]] + s.subrange(2, s.len() as int) {}
pub proof fn same_len(a: Seq<ShareKey>, b: Seq<ShareKey>) requires a.to_multiset() == b.to_multiset() ensures a.len() == b.len(), forall|k: ShareKey| #[trigger] a.contains(k) == b.contains(k)
{ a.to_multiset_ensures(); b.to_multiset_ensures(); assert forall|k: ShareKey| #[trigger] a.contains(k) == b.contains(k) by { assert(a.contains(k) <==> a.to_multiset().count(k) > 0); assert(b.contains(k) <==> b.to_multiset().count(k) > 0); } }
pub proof fn filter_step(s: Seq<ShareKey>, n: int, r: Seq<ShareKey>) requires 0 <= n < s.len() ensures without(s.take(n + 1), r) == (if r.contains(s[n]) { without(s.take(n), r) } else { without(s.take(n), r).push(s[n]) })
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); reveal(Seq::filter); }
pub proof fn left_step(s: Seq<SecretStoreVersion>, n: int, r: Set<ShareKey>) requires 0 <= n < s.len() ensures surviving(s.take(n + 1), r) == (if r.contains(s[n].pk) { surviving(s.take(n), r) } else { surviving(s.take(n), r).push(s[n]) })
{ assert(s.take(n + 1).drop_last() =~= s.take(n)); reveal(Seq::filter); }
pub proof fn add_push(a: Seq<ShareKey>, b: Seq<ShareKey>, x: ShareKey) ensures (a + b).push(x) == a + b.push(x) { assert((a + b).push(x) =~= a + b.push(x)); }
pub proof fn keep_all(s: Seq<SecretStoreVersion>, r: Set<ShareKey>) requires forall|k: ShareKey| !(#[trigger] r.contains(k)) ensures surviving(s, r) == s decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { keep_all(s.drop_last(), r); assert(s.drop_last().push(s.last()) =~= s); } else { assert(surviving(s, r) =~= s); } }
"""
key_fns = [
    F(KY, "NodeKey", "keys", "pub fn keys(&self) -> (r: Vec<ShareKey>) ensures r@ == nk(*self)", ["self"], [("vec![*pk]", "({ let v = one(*pk); v })"), ("keys.clone().into()", "list_of(keys.clone())")]),
    F(KY, "NodeKey", "contains_key", "pub fn contains_key(&self, key: &ShareKey) -> (r: bool) ensures r == nk(*self).contains(*key)", ["self", "key"], pre="proof { if let NodeKey::ShareKey(k) = *self { assert(nk(*self)[0] == k); } }"),
    F(KY, "ConflictKeys", "contains", "pub fn contains(&self, key: &ShareKey) -> (r: bool) ensures r == ck(*self).contains(*key)", ["self", "key"], [("self.more.contains(key)", "among(&self.more, key)")],
      pre="proof { let s = ck(*self); assert(s[0] == self.first && s[1] == self.second); if self.more@.contains(*key) { let i = self.more@.index_of(*key); assert(s[i + 2] == *key); } if s.contains(*key) { let i = s.index_of(*key); if i >= 2 { assert(self.more@[i - 2] == *key); } } }"),
    F(KY, "NodeKey", "merge", "pub fn merge(&self, new_key: &NodeKey, removed: &[ShareKey]) -> (r: Self) ensures joined(r, *self, *new_key, removed@)", ["self", "new_key", "removed"],
      [("removed.contains(key)", "among_slice(removed, key)"), ("removed.contains($$k)", "among_slice(removed, $$k)"), ("keys.iter()", "({ let l = list_of(keys.clone()); l })"), ("new_keys.push(*key);", "let ghost n0 = new_keys@; new_keys.push(*key); proof { assert(new_keys@ =~= n0 + seq![*key]); single_kept(*key, removed@); }"), ("new_keys.push(*k);", "new_keys.push(k);"), ("among_slice(removed, k)", "among_slice(removed, &k)")] + KW,
      loops=[("for", "it", "invariant it.seq() == nk(*self), new_keys@ == nk(*new_key) + without(nk(*self).take(it.index@ as int), removed@), it.index@ == it.seq().len() ==> new_keys@ == nk(*new_key) + without(nk(*self), removed@)", "proof { filter_step(nk(*self), it.index@ as int, removed@); add_push(nk(*new_key), without(nk(*self).take(it.index@ as int), removed@), k); }", "proof { assert(nk(*self).take(nk(*self).len() as int) =~= nk(*self)); }")],
      pre="proof { merged_keys(*self, *new_key, removed@); assert(nk(*self).take(0) =~= Seq::<ShareKey>::empty()); reveal(Seq::filter); assert(without(nk(*self).take(0), removed@) =~= Seq::<ShareKey>::empty()); assert(nk(*new_key) + Seq::<ShareKey>::empty() =~= nk(*new_key)); if let NodeKey::ShareKey(k) = *self { single_kept(k, removed@); } }"),
]
KEYM = r"""
/// From<ConflictKeys> for Vec: all of them, in order
#[verifier::external_body] pub fn list_of(c: ConflictKeys) -> (r: Vec<ShareKey>) ensures r@ == ck(c) { unimplemented!() }
pub fn one(k: ShareKey) -> (r: Vec<ShareKey>) ensures r@ == seq![k] { let mut v = Vec::new(); v.push(k); proof { assert(v@ =~= seq![k]); } v }
#[verifier::external_body] pub fn among(v: &Vec<ShareKey>, k: &ShareKey) -> (r: bool) ensures r == v@.contains(*k) { unimplemented!() }
#[verifier::external_body] pub fn among_slice(v: &[ShareKey], k: &ShareKey) -> (r: bool) ensures r == v@.contains(*k) { unimplemented!() }
pub proof fn single_kept(k: ShareKey, r: Seq<ShareKey>) ensures without(seq![k], r) == (if r.contains(k) { Seq::<ShareKey>::empty() } else { seq![k] })
{ reveal(Seq::filter); let s = seq![k]; assert(s.drop_last() =~= Seq::<ShareKey>::empty()); reveal_with_fuel(Seq::filter, 3); assert(without(Seq::<ShareKey>::empty(), r) =~= Seq::<ShareKey>::empty()); assert(Seq::<ShareKey>::empty().push(k) =~= seq![k]); }
pub proof fn filter_in(s: Seq<ShareKey>, r: Seq<ShareKey>) ensures forall|k: ShareKey| #[trigger] without(s, r).contains(k) <==> s.contains(k) && !r.contains(k) decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { let t = s.drop_last(); filter_in(t, r); let x = s.last(); let a = without(t, r);
    assert forall|k: ShareKey| #[trigger] without(s, r).contains(k) <==> s.contains(k) && !r.contains(k) by {
        if s.contains(k) { let i = s.index_of(k); if i < t.len() { assert(t[i] == k); } } if t.contains(k) { let i = t.index_of(k); assert(s[i] == k); } assert(s[s.len() - 1] == x);
        let b = a.push(x); if a.contains(k) { let i = a.index_of(k); assert(b[i] == k); } assert(b[a.len() as int] == x); if b.contains(k) { let i = b.index_of(k); if i < a.len() { assert(a[i] == k); } } } } }
pub proof fn merged_keys(a: NodeKey, b: NodeKey, r: Seq<ShareKey>) ensures nk(b).len() > 0, forall|n: NodeKey| #[trigger] joined(n, a, b, r) ==> nk(n).len() > 0 && forall|k: ShareKey| #[trigger] nk(n).contains(k) <==> nk(b).contains(k) || (nk(a).contains(k) && !r.contains(k))
{
    filter_in(nk(a), r);
    assert forall|n: NodeKey| #[trigger] joined(n, a, b, r) implies nk(n).len() > 0 && forall|k: ShareKey| #[trigger] nk(n).contains(k) <==> nk(b).contains(k) || (nk(a).contains(k) && !r.contains(k)) by {
        let u = nk(b) + without(nk(a), r); same_len(nk(n), u);
        assert forall|k: ShareKey| #[trigger] nk(n).contains(k) <==> nk(b).contains(k) || (nk(a).contains(k) && !r.contains(k)) by {
            assert(nk(n).contains(k) == u.contains(k));
            if nk(b).contains(k) { let i = nk(b).index_of(k); assert(u[i] == k); } if without(nk(a), r).contains(k) { let i = without(nk(a), r).index_of(k); assert(u[i + nk(b).len()] == k); }
            if u.contains(k) { let i = u.index_of(k); if i < nk(b).len() { assert(nk(b)[i] == k); } else { assert(without(nk(a), r)[i - nk(b).len()] == k); } } } }
}
"""
STORE = r"""
impl ShareKeyMap {
    /// proved in P15
    #[verifier::external_body] pub fn try_decrypt_encryption(&self, encrypter_pk: ShareKey, encrypted: &EncryptedSecret) -> (r: Result<Vec<u8>, CgkaError>)
        ensures r is Ok ==> self.0@.dom().contains(encrypted.paired_pk) && opened(*encrypted, dh(self.0@[encrypted.paired_pk], encrypter_pk)) == Some(r->Ok_0@), r is Err && self.0@.dom().contains(encrypted.paired_pk) ==> opened(*encrypted, dh(self.0@[encrypted.paired_pk], encrypter_pk)) is None { unimplemented!() }
}
#[verifier::external_body] pub fn no_members<T>(s: &HashSet<T>) -> (r: bool) ensures r == (forall|k: T| !(#[trigger] s@.contains(k))) { unimplemented!() }
#[verifier::external_body] pub fn last_of(s: &[TreeNodeIndex]) -> (r: Option<&TreeNodeIndex>) ensures r is Some == (s@.len() > 0), r is Some ==> *r->0 == s@.last() { unimplemented!() }
/// the copy to use: the one for the last of the positions there is a copy for
pub open spec fn looked(d: Set<TreeNodeIndex>, s: Seq<TreeNodeIndex>) -> Option<TreeNodeIndex> decreases s.len() { if s.len() == 0 { None } else if d.contains(s.last()) { Some(s.last()) } else { looked(d, s.drop_last()) } }
/// the secret needed to open that copy
pub open spec fn opener(v: SecretStoreVersion, child: NodeKey, j: TreeNodeIndex) -> ShareKey { if nk(child).contains(v.encrypter_pk) { v.encrypter_pk } else { v.sk@[j].paired_pk } }
pub open spec fn can_open(v: SecretStoreVersion, child: NodeKey, seen: Seq<TreeNodeIndex>, m: ShareKeyMap) -> bool { looked(v.sk@.dom(), seen) is Some && m.0@.dom().contains(opener(v, child, looked(v.sk@.dom(), seen)->0)) }
pub proof fn opens_all(v: SecretStoreVersion, j: TreeNodeIndex, k: ShareSecretKey, enc: bool) requires honest(v), v.sk@.dom().contains(j), enc ==> pub_of(k) == v.encrypter_pk, !enc ==> pub_of(k) == v.sk@[j].paired_pk
    ensures ({ let o = opened(v.sk@[j], if enc { dh(k, v.sk@[j].paired_pk) } else { dh(k, v.encrypter_pk) }); o is Some && o->0.len() == 32 && exists|x: ShareSecretKey| o->0 == #[trigger] skb(x) && pub_of(x) == v.pk })
{
    broadcast use ax_dh::shared; let (a, s) = choose|a: ShareSecretKey, s: ShareSecretKey| #[trigger] seals(v, a, s); let e = v.sk@[j]; assert(carries(e, a, s));
    let b = choose|b: ShareSecretKey| #[trigger] pub_of(b) == e.paired_pk; assert(dh(a, pub_of(b)) == dh(b, pub_of(a)));
    assert(dh(k, pub_of(b)) == dh(b, pub_of(k))); assert(dh(a, pub_of(k)) == dh(k, pub_of(a)));
    ax_skl::len(s); assert(skb(s) == skb(s) && pub_of(s) == v.pk);
}
pub mod ax_skl { use super::*; pub broadcast axiom fn len(a: ShareSecretKey) ensures #[trigger] skb(a).len() == 32; }
"""
store_fns = [
    F(KY, "ShareKeyMap", "insert", "pub fn insert(&mut self, pk: ShareKey, sk: ShareSecretKey) ensures final(self).0@ == old(self).0@.insert(pk, sk), sound(*old(self)) && pub_of(sk) == pk ==> sound(*final(self))", ["self", "pk", "sk"]),
    F(KY, "ShareKeyMap", "get", "pub fn get(&self, pk: &ShareKey) -> (r: Option<&ShareSecretKey>) ensures r is Some == self.0@.dom().contains(*pk), r is Some ==> *r->0 == self.0@[*pk]", ["self", "pk"]),
    F(KY, "ShareKeyMap", "contains_key", "pub fn contains_key(&self, pk: &ShareKey) -> (r: bool) ensures r == self.0@.dom().contains(*pk)", ["self", "pk"]),
    F(SS, "SecretStore", "new", "pub fn new(pk: ShareKey, encrypter_pk: ShareKey, sk: Bt<TreeNodeIndex, EncryptedSecret>) -> (r: Self) ensures r.versions@.len() == 1, r.versions@[0].pk == pk, r.versions@[0].encrypter_pk == encrypter_pk, r.versions@[0].sk == sk", ["pk", "encrypter_pk", "sk"], [("vec![version]", "one_version(version)")]),
    F(SS, "SecretStore", "has_conflict", "pub fn has_conflict(&self) -> (r: bool) ensures r == (self.versions@.len() > 1)", ["self"]),
    F(SS, "SecretStore", "node_key", "pub fn node_key(&self) -> (r: NodeKey) requires self.versions@.len() > 0 ensures nk(r) == pks(self.versions@)", ["self"],
      [("self.versions.iter().map(|$$s| $e).collect::<Vec<_>>()", "({ let mut l: Vec<ShareKey> = Vec::new(); for $$s in self.versions.iter() { l.push($e); } l })", "must"), MATCHKEYS, ("more.to_vec()", "more"), ("more: vec![]", "more: Vec::new()")],
      loops=[("for", "it", "invariant it.seq().len() == self.versions@.len(), (forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.versions@[i]), l@.len() == it.index@, (forall|i: int| 0 <= i < l@.len() ==> #[trigger] l@[i] == self.versions@[i].pk), it.index@ == it.seq().len() ==> l@ == pks(self.versions@)", "", "proof { if l@.len() == self.versions@.len() { assert(l@ =~= pks(self.versions@)); } }")],
      pre="proof { if self.versions@.len() == 1 { assert(pks(self.versions@) =~= seq![self.versions@[0].pk]); } }"),
    F(SS, "SecretStore", "remove_keys_from", "pub fn remove_keys_from(&mut self, removed_keys: &HashSet<ShareKey>) ensures final(self).versions@ == surviving(old(self).versions@, removed_keys@)", ["self", "removed_keys"],
      [("removed_keys.is_empty()", "no_members(removed_keys)"), ("for (idx, version) in self.versions.iter().enumerate() { $b }", "for idx in 0..self.versions.len() { let version = &self.versions[idx]; $b }", "must")],
      loops=[("for", "it", "invariant *self == m0, new_versions@ == surviving(m0.versions@.take(idx as int), removed_keys@), idx == m0.versions@.len() ==> new_versions@ == surviving(m0.versions@, removed_keys@)", "proof { left_step(m0.versions@, idx as int, removed_keys@); }", "proof { assert(m0.versions@.take(m0.versions@.len() as int) =~= m0.versions@); }")],
      pre="let ghost m0 = *self; proof { if forall|k: ShareKey| !(#[trigger] removed_keys@.contains(k)) { keep_all(m0.versions@, removed_keys@); } reveal(Seq::filter); assert(surviving(m0.versions@.take(0), removed_keys@) =~= Seq::<SecretStoreVersion>::empty()); assert(m0.versions@.take(0) =~= Seq::<SecretStoreVersion>::empty()); if m0.versions@.len() == 0 { assert(m0.versions@ =~= m0.versions@.take(0)); } }"),
    F(SS, "SecretStore", "merge", "pub fn merge(&mut self, other: &SecretStore, removed_keys: &HashSet<ShareKey>) ensures met(*old(self), *other, removed_keys@, *final(self))", ["self", "other", "removed_keys"],
      [("self.versions.append(&mut other.versions.clone());", "let mut more = copy_versions(&other.versions); self.versions.append(&mut more);"), ("self.versions.sort()", "sort_versions(&mut self.versions)")]),
    F(SS, "SecretStoreVersion", "decrypt_secret", """pub fn decrypt_secret(&self, child_node_key: &NodeKey, child_sks: &mut ShareKeyMap, seen_idxs: &[TreeNodeIndex]) -> (r: Result<ShareSecretKey, CgkaError>)
        ensures *final(child_sks) == *old(child_sks), sound(*old(child_sks)) && honest(*self) ==> (r is Ok ==> pub_of(r->Ok_0) == self.pk) && (r is Ok) == can_open(*self, *child_node_key, seen_idxs@, *old(child_sks))""", ["self", "child_node_key", "child_sks", "seen_idxs"],
      [("seen_idxs.last()", "last_of(seen_idxs)"), (".map_err($e)", ""), ("for $$i in seen_idxs.iter().rev().skip(1) { if $c { lookup_idx = $$j; found = true; break; } }", "let mut n: usize = seen_idxs.len() - 1; proof { assert(seen_idxs@.subrange(0, n as int) =~= seen_idxs@.drop_last()); } while n > 0 && !found { n = n - 1; let $$i = &seen_idxs[n]; if $c { lookup_idx = $$j; found = true; } }", "must"), ("decrypted.try_into()", "to32(decrypted)"),
       ("let decrypted: Vec<u8> =", "let ghost j0 = *lookup_idx; proof { assert(looked(self.sk@.dom(), seen_idxs@) == Some(j0)); if sound(*child_sks) && honest(*self) && can_open(*self, *child_node_key, seen_idxs@, *child_sks) { opens_all(*self, j0, child_sks.0@[opener(*self, *child_node_key, j0)], is_encrypter); } } let decrypted: Vec<u8> ="),
       ("Ok(ShareSecretKey::force_from_bytes(arr))", "({ let out = ShareSecretKey::force_from_bytes(arr); proof { if sound(*child_sks) && honest(*self) { opens(*self, j0, child_sks.0@[opener(*self, *child_node_key, j0)], out, is_encrypter); } } Ok(out) })")],
      loops=[("while", None, "invariant n < seen_idxs@.len(), seen_idxs@.len() > 0, !found ==> looked(self.sk@.dom(), seen_idxs@) == looked(self.sk@.dom(), seen_idxs@.subrange(0, n as int)), found ==> looked(self.sk@.dom(), seen_idxs@) == Some(*lookup_idx) && self.sk@.dom().contains(*lookup_idx) decreases n", "proof { assert(seen_idxs@.subrange(0, n as int).drop_last() =~= seen_idxs@.subrange(0, n - 1)); }", "")]),
    F(SS, "SecretStore", "decrypt_secret", """pub fn decrypt_secret(&self, child_node_key: &NodeKey, child_sks: &mut ShareKeyMap, seen_idxs: &[TreeNodeIndex]) -> (r: Result<ShareSecretKey, CgkaError>) requires self.versions@.len() > 0
        ensures *final(child_sks) == *old(child_sks), sound(*old(child_sks)) && honest_store(*self) ==> (r is Ok ==> self.versions@.len() == 1 && pub_of(r->Ok_0) == self.versions@[0].pk) && (r is Ok) == (self.versions@.len() == 1 && can_open(self.versions@[0], *child_node_key, seen_idxs@, *old(child_sks)))""", ["self", "child_node_key", "child_sks", "seen_idxs"]),
]
STOREM = r"""
pub fn one_idx(k: TreeNodeIndex) -> (r: Vec<TreeNodeIndex>) ensures r@ == seq![k] { let mut v = Vec::new(); v.push(k); proof { assert(v@ =~= seq![k]); } v }
pub fn one_version(k: SecretStoreVersion) -> (r: Vec<SecretStoreVersion>) ensures r@ == seq![k] { let mut v = Vec::new(); v.push(k); proof { assert(v@ =~= seq![k]); } v }
#[verifier::external_body] pub fn copy_versions(v: &Vec<SecretStoreVersion>) -> (r: Vec<SecretStoreVersion>) ensures r@ == v@ { unimplemented!() }
/// concurrent versions are kept side by side, those the new one replaces are dropped
pub open spec fn met(a: SecretStore, b: SecretStore, removed: Set<ShareKey>, r: SecretStore) -> bool { r.versions@.to_multiset() == (surviving(a.versions@, removed) + b.versions@).to_multiset() && ascending(pks(r.versions@)) && r.versions@.len() == surviving(a.versions@, removed).len() + b.versions@.len() }
"""
keys = Unit("tree_keys", core.std("ax_sharekey::key_model") + POS + PATHS + MATH + stubs(math_fns) + KEYS + LISTS + KEYM + STORE + STOREM, key_fns + store_fns)
TREE = r"""
pub struct LeafNode { pub id: MemberId, pub pk: NodeKey }
impl Clone for LeafNode { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub struct BeeKem { pub doc_id: TreeId, pub next_leaf_idx: LeafNodeIndex, pub leaves: Vec<Option<LeafNode>>, pub inner_nodes: Vec<Option<InnerNode>>, pub tree_size: TreeSize, pub id_to_leaf_idx: Bt<MemberId, LeafNodeIndex> }
pub struct PathChange { pub leaf_id: MemberId, pub leaf_idx: u32, pub leaf_pk: NodeKey, pub path: Vec<(u32, InnerNode)>, pub removed_keys: Vec<ShareKey> }
pub type Inners = Seq<Option<InnerNode>>;
/// limit on trees here: 2^27 members
pub open spec fn tall(t: BeeKem, g: nat) -> bool { ones(g, t.tree_size.0) && 1 <= g <= 28 && t.leaves@.len() == rt(g) + 1 && t.inner_nodes@.len() == rt(g) && t.next_leaf_idx.0 <= rt(g) + 1 }
pub open spec fn kept(s: Inners) -> bool { forall|i: int| 0 <= i < s.len() && (#[trigger] s[i]) is Some ==> s[i]->0.versions@.len() > 0 }
pub open spec fn shape(t: BeeKem) -> bool { (exists|g: nat| tall(t, g)) && kept(t.inner_nodes@) }
pub open spec fn hg(t: BeeKem) -> nat { choose|g: nat| tall(t, g) }
pub proof fn hgt(t: BeeKem, g: nat) requires tall(t, g) ensures hg(t) == g, tall(t, hg(t)), sz(g) < 0x4000_0000, fits(g) { let h = hg(t); assert(tall(t, h)); lg_size(t.tree_size.0, g); lg_size(t.tree_size.0, h); lg_one(t.tree_size.0, g, h); bounded(g); }
pub proof fn hs(t: BeeKem) requires shape(t) ensures tall(t, hg(t)), sz(hg(t)) < 0x4000_0000, fits(hg(t)), is_inner(rt(hg(t))), forall|g: nat| #[trigger] ones(g, t.tree_size.0) ==> g == hg(t)
{ let g = choose|g: nat| tall(t, g); hgt(t, g); rt_odd(g); assert forall|h: nat| #[trigger] ones(h, t.tree_size.0) implies h == g by { lg_size(t.tree_size.0, g); lg_size(t.tree_size.0, h); lg_one(t.tree_size.0, g, h); } }
/// each member has exactly one leaf, and each leaf below `next_leaf_idx` that is taken belongs to a member
pub open spec fn seat(t: BeeKem, id: MemberId) -> bool { let l = t.id_to_leaf_idx@[id]; l.0 < t.next_leaf_idx.0 && t.leaves@[l.0 as int] is Some && t.leaves@[l.0 as int]->0.id == id }
pub open spec fn owned(t: BeeKem, l: int) -> bool { t.leaves@[l] is Some ==> l < t.next_leaf_idx.0 && t.id_to_leaf_idx@.dom().contains(t.leaves@[l]->0.id) && t.id_to_leaf_idx@[t.leaves@[l]->0.id].0 == l }
pub open spec fn placed(t: BeeKem) -> bool { (forall|id: MemberId| #[trigger] t.id_to_leaf_idx@.dom().contains(id) ==> seat(t, id)) && forall|l: int| 0 <= l < t.leaves@.len() ==> #[trigger] owned(t, l) }
pub open spec fn twf(t: BeeKem) -> bool { shape(t) && placed(t) }
pub open spec fn member(t: BeeKem, id: MemberId) -> bool { t.id_to_leaf_idx@.dom().contains(id) }
pub open spec fn same_leaves(a: BeeKem, b: BeeKem) -> bool { b.doc_id == a.doc_id && b.next_leaf_idx == a.next_leaf_idx && b.leaves@ == a.leaves@ && b.tree_size == a.tree_size && b.id_to_leaf_idx@ == a.id_to_leaf_idx@ && b.inner_nodes@.len() == a.inner_nodes@.len() }
pub open spec fn on(x: nat, g: nat, y: nat) -> bool { y == x || path(x, g).contains(y) }
/// the inner nodes with those from `x` up to the root gone
pub open spec fn wiped(s: Inners, x: nat, g: nat) -> Inners { Seq::new(s.len(), |i: int| if on(x, g, (2 * i + 1) as nat) { None } else { s[i] }) }
/// above a leaf
pub open spec fn above(l: int, g: nat, y: nat) -> bool { path((2 * l) as nat, g).contains(y) }
pub open spec fn over(from: int, to: int, g: nat, y: nat) -> bool { exists|l: int| from <= l < to && #[trigger] above(l, g, y) }
pub open spec fn trimmed(s: Inners, from: int, to: int, g: nat) -> Inners { Seq::new(s.len(), |i: int| if over(from, to, g, (2 * i + 1) as nat) { None } else { s[i] }) }
pub open spec fn ext<T>(s: Seq<Option<T>>, n: nat) -> Seq<Option<T>> { Seq::new(n, |i: int| if i < s.len() { s[i] } else { None }) }
pub proof fn on_step(x: nat, g: nat) requires x < sz(g) ensures x == rt(g) ==> (forall|y: nat| #[trigger] on(x, g, y) <==> y == x), x != rt(g) ==> par(x) < sz(g) && is_inner(par(x)) && lv(x) < g && (forall|y: nat| #[trigger] on(x, g, y) <==> y == x || on(par(x), g, y)) && !on(par(x), g, x) && path(x, g) == seq![par(x)] + path(par(x), g)
{
    if x == rt(g) { path_end(g); } else { par_in(x, g); par_up(x); path_step(x, g, seq![]); path_lv(par(x), g);
        let p = seq![par(x)] + path(par(x), g);
        assert forall|y: nat| #[trigger] on(x, g, y) <==> y == x || on(par(x), g, y) by { if p.contains(y) { let i = p.index_of(y); if i > 0 { assert(path(par(x), g)[i - 1] == y); } } assert(p[0] == par(x)); if path(par(x), g).contains(y) { let i = path(par(x), g).index_of(y); assert(p[i + 1] == y); } } }
}
pub proof fn path_lv(x: nat, g: nat) requires x < sz(g) ensures forall|i: int| 0 <= i < path(x, g).len() ==> lv(#[trigger] path(x, g)[i]) == lv(x) + 1 + i && path(x, g)[i] < sz(g) && is_inner(path(x, g)[i]), path(x, g).len() == g - lv(x), forall|y: nat| #[trigger] path(x, g).contains(y) ==> lv(y) > lv(x) && y < sz(g) && is_inner(y) decreases g - lv(x)
{
    lv_in(x, g); if x == rt(g) { path_end(g); } else { par_in(x, g); par_up(x); path_step(x, g, seq![]); path_lv(par(x), g); let q = path(par(x), g);
        assert forall|i: int| 0 <= i < path(x, g).len() implies lv(#[trigger] path(x, g)[i]) == lv(x) + 1 + i && path(x, g)[i] < sz(g) && is_inner(path(x, g)[i]) by { if i > 0 { assert(path(x, g)[i] == q[i - 1]); } } }
    assert forall|y: nat| #[trigger] path(x, g).contains(y) implies lv(y) > lv(x) && y < sz(g) && is_inner(y) by { let i = path(x, g).index_of(y); assert(path(x, g)[i] == y); }
}
pub proof fn leaf_above(l: int, g: nat) requires 0 <= l <= rt(g), g > 0 ensures forall|y: nat| #[trigger] above(l, g, y) <==> on(par((2 * l) as nat), g, y), par((2 * l) as nat) < sz(g), is_inner(par((2 * l) as nat)), above(l, g, rt(g)), ((2 * l) as nat) < sz(g), ((2 * l) as nat) != rt(g)
{
    let x = (2 * l) as nat; rt_odd(g); on_step(x, g); lv_in(x, g); assert(lv(x) == 0);
    assert forall|y: nat| #[trigger] above(l, g, y) <==> on(par(x), g, y) by { path_lv(x, g); if above(l, g, y) { assert(on(x, g, y)); assert(y != x); } else { if on(par(x), g, y) { assert(on(x, g, y)); assert(y != x) by { if y == x { assert(!on(par(x), g, x)); } } } } }
    to_root(x, g);
}
pub proof fn to_root(x: nat, g: nat) requires x < sz(g) ensures on(x, g, rt(g)), x != rt(g) ==> path(x, g).contains(rt(g)) decreases g - lv(x) { on_step(x, g); if x != rt(g) { par_up(x); to_root(par(x), g); assert(on(x, g, rt(g))); } }
pub open spec fn pushed(a: BeeKem, b: BeeKem, id: MemberId, pk: NodeKey) -> bool {
    let r = a.next_leaf_idx; let g = hg(b);
    &&& b.doc_id == a.doc_id && b.next_leaf_idx.0 == r.0 + 1 && b.id_to_leaf_idx@ == a.id_to_leaf_idx@.insert(id, r)
    &&& g == (if r.0 < a.leaves@.len() { hg(a) } else { hg(a) + 1 })
    &&& b.leaves@ == ext(a.leaves@, rt(g) + 1).update(r.0 as int, Some(LeafNode { id, pk }))
    &&& b.inner_nodes@ == wiped(ext(a.inner_nodes@, rt(g)), par(lf(r)), g)
}
pub proof fn push_ok(a: BeeKem, b: BeeKem, id: MemberId, pk: NodeKey) requires twf(a), shape(b), pushed(a, b, id, pk), !member(a, id) ensures twf(b), b.inner_nodes@[rt(hg(b)) as int / 2] is None
{
    hs(a); hs(b); let r = a.next_leaf_idx.0 as int; assert(owned(a, r) || r >= a.leaves@.len());
    assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) by { if x != id { assert(member(a, x)); assert(seat(a, x)); } }
    assert forall|l: int| 0 <= l < b.leaves@.len() implies #[trigger] owned(b, l) by { if l < a.leaves@.len() { assert(owned(a, l)); } }
    leaf_above(r, hg(b)); assert(on(par(lf(a.next_leaf_idx)), hg(b), rt(hg(b))));
}
pub open spec fn at(s: Inners, x: nat) -> Option<InnerNode> { s[x as int / 2] }
/// all keys kept on these nodes
pub open spec fn gather(s: Inners, p: Seq<nat>) -> Seq<ShareKey> decreases p.len() { if p.len() == 0 { seq![] } else { gather(s, p.drop_last()) + (match at(s, p.last()) { Some(n) => pks(n.versions@), None => seq![] }) } }
pub proof fn gather_step(s: Inners, p: Seq<nat>, n: int) requires 0 <= n < p.len() ensures gather(s, p.take(n + 1)) == gather(s, p.take(n)) + (match at(s, p[n]) { Some(x) => pks(x.versions@), None => seq![] }) { assert(p.take(n + 1).drop_last() =~= p.take(n)); }
pub open spec fn removed(a: BeeKem, b: BeeKem, id: MemberId, keys: Seq<ShareKey>) -> bool {
    let l = a.id_to_leaf_idx@[id]; let g = hg(a);
    &&& b.doc_id == a.doc_id && b.tree_size == a.tree_size && b.id_to_leaf_idx@ == a.id_to_leaf_idx@.remove(id) && b.leaves@ == a.leaves@.update(l.0 as int, None)
    &&& 0 < b.next_leaf_idx.0 <= a.next_leaf_idx.0 && b.leaves@[b.next_leaf_idx.0 - 1] is Some && (forall|i: int| b.next_leaf_idx.0 <= i < b.leaves@.len() ==> #[trigger] b.leaves@[i] is None)
    &&& b.inner_nodes@ == trimmed(wiped(a.inner_nodes@, par(lf(l)), g), b.next_leaf_idx.0 as int, a.next_leaf_idx.0 as int, g)
    &&& keys == gather(a.inner_nodes@, path(lf(l), g))
}
#[verifier::external_body] pub fn resize<T>(v: &mut Vec<Option<T>>, n: usize) ensures final(v)@ == ext(old(v)@, n as nat) { unimplemented!() }
pub proof fn wiped_kept(s: Inners, x: nat, g: nat) requires kept(s) ensures kept(wiped(s, x, g)) { let t = wiped(s, x, g); assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Some implies t[i]->0.versions@.len() > 0 by { assert(t[i] == s[i]); } }
pub proof fn trim_kept(s: Inners, f: int, t: int, g: nat) requires kept(s) ensures kept(trimmed(s, f, t, g)) { let r = trimmed(s, f, t, g); assert forall|i: int| 0 <= i < r.len() && (#[trigger] r[i]) is Some implies r[i]->0.versions@.len() > 0 by { assert(r[i] == s[i]); } }
pub proof fn trim_step(s: Inners, l: int, to: int, g: nat) requires 0 <= l < to, l <= rt(g), g > 0 ensures wiped(trimmed(s, l + 1, to, g), par((2 * l) as nat), g) == trimmed(s, l, to, g), trimmed(s, to, to, g) == s, wiped(trimmed(s, l, to, g), par((2 * l) as nat), g) == trimmed(s, l, to, g)
{
    leaf_above(l, g); let x = par((2 * l) as nat); let a = wiped(trimmed(s, l + 1, to, g), x, g); let b = trimmed(s, l, to, g);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] a[i] == b[i] by { let y = (2 * i + 1) as nat; assert(above(l, g, y) <==> on(x, g, y));
        if over(l + 1, to, g, y) { let m = choose|m: int| l + 1 <= m < to && #[trigger] above(m, g, y); assert(l <= m < to && above(m, g, y)); }
        if above(l, g, y) { assert(over(l, to, g, y)); }
        if over(l, to, g, y) { let m = choose|m: int| l <= m < to && #[trigger] above(m, g, y); if m > l { assert(over(l + 1, to, g, y)); } } }
    assert(a =~= b); assert(trimmed(s, to, to, g) =~= s);
    let c = wiped(b, x, g); assert forall|i: int| 0 <= i < s.len() implies #[trigger] c[i] == b[i] by { let y = (2 * i + 1) as nat; assert(above(l, g, y) <==> on(x, g, y)); if above(l, g, y) { assert(over(l, to, g, y)); } } assert(c =~= b);
}
"""
TW = [("self.inner_nodes[idx.usize()] = $x;", "self.inner_nodes.set(idx.usize(), $x);"), ("self.leaves[idx.usize()] = $x;", "self.leaves.set(idx.usize(), $x);"), ("treemath::", ""), ("BTreeMap::new()", "Bt::new()"),
      ("self.next_leaf_idx - 1", "self.next_leaf_idx.sub(1)"), ("self.next_leaf_idx -= 1", "self.next_leaf_idx.sub_assign(1)"), ("self.next_leaf_idx += 1", "self.next_leaf_idx.add_assign(1)"), (".expect($e)", ".unwrap()")]
BF = lambda name, sig, params, rw=(), **k: F(TR, "BeeKem", name, sig, params, list(rw) + TW, **k)
HS = "proof { hs(*self); }"
inner_sigs = [
    BF("contains_id", "pub fn contains_id(&self, id: &MemberId) -> (r: bool) ensures r == member(*self, *id)", ["self", "id"]),
    BF("member_count", "pub fn member_count(&self) -> (r: u32) requires self.id_to_leaf_idx@.dom().len() < 0x1_0000_0000 ensures r as nat == self.id_to_leaf_idx@.dom().len()", ["self"]),
    BF("leaf", "pub fn leaf(&self, idx: LeafNodeIndex) -> (r: &Option<LeafNode>) requires idx.0 < self.leaves@.len() ensures *r == self.leaves@[idx.0 as int]", ["self", "idx"], [("self.leaves.get(idx.usize()).expect($e)", "(&self.leaves[idx.usize()])")]),
    BF("inner_node", "pub fn inner_node(&self, idx: InnerNodeIndex) -> (r: &Option<InnerNode>) requires idx.0 < self.inner_nodes@.len() ensures *r == self.inner_nodes@[idx.0 as int]", ["self", "idx"], [("self.inner_nodes.get(idx.usize()).expect($e)", "(&self.inner_nodes[idx.usize()])")]),
    BF("leaf_index_for_id", "pub fn leaf_index_for_id(&self, id: MemberId) -> (r: Result<&LeafNodeIndex, CgkaError>) ensures r is Ok == member(*self, id), r is Ok ==> *r->Ok_0 == self.id_to_leaf_idx@[id], r is Err ==> r->Err_0 is IdentifierNotFound", ["self", "id"]),
    BF("id_for_leaf", "pub fn id_for_leaf(&self, idx: LeafNodeIndex) -> (r: Result<MemberId, CgkaError>) requires idx.0 < self.leaves@.len() ensures r is Ok == self.leaves@[idx.0 as int] is Some, r is Ok ==> r->Ok_0 == self.leaves@[idx.0 as int]->0.id", ["self", "idx"]),
    BF("insert_leaf_at", "pub fn insert_leaf_at(&mut self, idx: LeafNodeIndex, id: MemberId, pk: NodeKey) requires idx.0 < old(self).leaves@.len() ensures *final(self) == (BeeKem { leaves: final(self).leaves, ..*old(self) }), final(self).leaves@ == old(self).leaves@.update(idx.0 as int, Some(LeafNode { id, pk }))", ["self", "idx", "id", "pk"]),
    BF("insert_inner_node_at", "pub fn insert_inner_node_at(&mut self, idx: InnerNodeIndex, secret_store: SecretStore) requires idx.0 < old(self).inner_nodes@.len() ensures *final(self) == (BeeKem { inner_nodes: final(self).inner_nodes, ..*old(self) }), final(self).inner_nodes@ == old(self).inner_nodes@.update(idx.0 as int, Some(secret_store))", ["self", "idx", "secret_store"]),
    BF("blank_inner_node", "pub fn blank_inner_node(&mut self, idx: InnerNodeIndex) requires idx.0 < old(self).inner_nodes@.len() ensures *final(self) == (BeeKem { inner_nodes: final(self).inner_nodes, ..*old(self) }), final(self).inner_nodes@ == old(self).inner_nodes@.update(idx.0 as int, None)", ["self", "idx"]),
    BF("is_root", "pub fn is_root(&self, idx: TreeNodeIndex) -> (r: bool) requires shape(*self) ensures r == (ix(idx) == rt(hg(*self)))", ["self", "idx"], [("idx == treemath::root($x)", "({ let ro = treemath::root($x); proof { assert(ones(hg(*self), self.tree_size.0)); same_ix(idx, ro); } idx == ro })")], pre=HS),
    BF("blank_path", "pub fn blank_path(&mut self, idx: InnerNodeIndex) requires shape(*old(self)), idx.0 < old(self).inner_nodes@.len() ensures *final(self) == (BeeKem { inner_nodes: final(self).inner_nodes, ..*old(self) }), shape(*final(self)), hg(*final(self)) == hg(*old(self)), final(self).inner_nodes@ == wiped(old(self).inner_nodes@, inn(idx), hg(*old(self)))", ["self", "idx"],
       pre="let mut idx = idx; let ghost m0 = *self; let ghost g = hg(*self); let ghost x0 = inn(idx); proof { hs(m0); }",
       loops=[("while", None, """invariant shape(m0), tall(m0, g), g == hg(m0), sz(g) < 0x4000_0000, fits(g), tall(*self, g), hg(*self) == g, *self == (BeeKem { inner_nodes: self.inner_nodes, ..m0 }), kept(self.inner_nodes@), idx.0 < rt(g), self.inner_nodes@.len() == rt(g),
          (forall|y: nat| #[trigger] on(inn(idx), g, y) ==> on(x0, g, y)), forall|i: int| 0 <= i < rt(g) ==> #[trigger] self.inner_nodes@[i] == (if on(x0, g, (2 * i + 1) as nat) && !on(inn(idx), g, (2 * i + 1) as nat) { None } else { m0.inner_nodes@[i] }) decreases g - lv(inn(idx))""",
          "proof { on_step(inn(idx), g); par_up(inn(idx)); lv_in(inn(idx), g); } let ghost b4 = *self; let ghost id0 = idx;",
          "proof { hgt(*self, g); assert forall|y: nat| #[trigger] on(inn(idx), g, y) implies on(x0, g, y) by { assert(on(inn(id0), g, y)); } assert forall|i: int| 0 <= i < rt(g) implies #[trigger] self.inner_nodes@[i] == (if on(x0, g, (2 * i + 1) as nat) && !on(inn(idx), g, (2 * i + 1) as nat) { None } else { m0.inner_nodes@[i] }) by { let y = (2 * i + 1) as nat; assert(b4.inner_nodes@[i] == (if on(x0, g, y) && !on(inn(id0), g, y) { None } else { m0.inner_nodes@[i] })); assert(on(inn(id0), g, y) <==> y == inn(id0) || on(inn(idx), g, y)); } lv_in(inn(idx), g); }")],
       rw=[("self.blank_inner_node(idx) }", "self.blank_inner_node(idx); }")],
       post="proof { hgt(*self, g); wiped_kept(m0.inner_nodes@, x0, g); on_step(rt(g), g); assert(on(x0, g, rt(g))) by { assert(on(rt(g), g, rt(g))); } assert forall|i: int| 0 <= i < rt(g) implies #[trigger] self.inner_nodes@[i] == wiped(m0.inner_nodes@, x0, g)[i] by { let y = (2 * i + 1) as nat; assert(on(rt(g), g, y) <==> y == rt(g)); } assert(self.inner_nodes@ =~= wiped(m0.inner_nodes@, x0, g)); }"),
    BF("blank_leaf_and_path", "pub fn blank_leaf_and_path(&mut self, idx: LeafNodeIndex) requires shape(*old(self)), idx.0 < old(self).leaves@.len() ensures *final(self) == (BeeKem { leaves: final(self).leaves, inner_nodes: final(self).inner_nodes, ..*old(self) }), shape(*final(self)), hg(*final(self)) == hg(*old(self)), final(self).leaves@ == old(self).leaves@.update(idx.0 as int, None), final(self).inner_nodes@ == wiped(old(self).inner_nodes@, par(lf(idx)), hg(*old(self)))", ["self", "idx"],
       [("self.blank_path(", "proof { hgt(*self, g); leaf_above(idx.0 as int, g); } self.blank_path(")], pre="proof { hs(*self); } let ghost g = hg(*self);"),
    BF("grow_tree_to_size", "pub fn grow_tree_to_size(&mut self) requires exists|g: nat| ones(g, old(self).tree_size.0) && g <= 28 ensures *final(self) == (BeeKem { leaves: final(self).leaves, inner_nodes: final(self).inner_nodes, ..*old(self) }), forall|g: nat| #[trigger] ones(g, old(self).tree_size.0) ==> final(self).leaves@ == ext(old(self).leaves@, rt(g) + 1) && final(self).inner_nodes@ == ext(old(self).inner_nodes@, rt(g))", ["self"],
       [("self.leaves.resize($n, None)", "resize(&mut self.leaves, $n)", "must"), ("self.inner_nodes.resize($n, None)", "resize(&mut self.inner_nodes, $n)", "must")]),
    BF("maybe_grow_tree", "pub fn maybe_grow_tree(&mut self, new_count: u32) requires shape(*old(self)), new_count <= old(self).leaves@.len(), new_count < 0x0800_0000 ensures *final(self) == (BeeKem { leaves: final(self).leaves, inner_nodes: final(self).inner_nodes, tree_size: final(self).tree_size, ..*old(self) }), shape(*final(self)), hg(*final(self)) == (if new_count < old(self).leaves@.len() { hg(*old(self)) } else { hg(*old(self)) + 1 }), final(self).leaves@ == ext(old(self).leaves@, rt(hg(*final(self))) + 1), final(self).inner_nodes@ == ext(old(self).inner_nodes@, rt(hg(*final(self)))), new_count < final(self).leaves@.len()", ["self", "new_count"],
       [("self.tree_size >= TreeSize::from_leaf_count($x)", "({ let want = TreeSize::from_leaf_count($x); proof { fit(*self, new_count, want); } self.tree_size.0 >= want.0 })", "must"), ("{ return }", "{ proof { assert(self.leaves@ =~= ext(self.leaves@, rt(g) + 1)); assert(self.inner_nodes@ =~= ext(self.inner_nodes@, rt(g))); } return; }"), ("return;", "proof { assert(self.leaves@ =~= ext(self.leaves@, rt(g) + 1)); assert(self.inner_nodes@ =~= ext(self.inner_nodes@, rt(g))); } return;"), ("self.grow_tree_to_size();", "proof { assert(ones(g + 1, self.tree_size.0)); } self.grow_tree_to_size();")],
       pre="proof { hs(*self); } let ghost g = hg(*self); let ghost m0 = *self;", post="proof { size_up(g); assert(tall(*self, g + 1)); hgt(*self, g + 1); assert forall|i: int| 0 <= i < self.inner_nodes@.len() && (#[trigger] self.inner_nodes@[i]) is Some implies self.inner_nodes@[i]->0.versions@.len() > 0 by { assert(self.inner_nodes@[i] == m0.inner_nodes@[i]); } }"),
    BF("push_leaf", "pub fn push_leaf(&mut self, id: MemberId, pk: NodeKey) -> (r: u32) requires shape(*old(self)), old(self).next_leaf_idx.0 < 0x0800_0000 ensures r == old(self).next_leaf_idx.0, shape(*final(self)), pushed(*old(self), *final(self), id, pk), twf(*old(self)) && !member(*old(self), id) ==> twf(*final(self)) && at(final(self).inner_nodes@, rt(hg(*final(self)))) is None", ["self", "id", "pk"],
       [("self.blank_path($x);", "proof { g = hg(b4); assert(tall(*self, g)); hgt(*self, g); leaf_above(l_idx.0 as int, g); } self.blank_path($x); proof { if twf(m0) && !member(m0, id) { push_ok(m0, *self, id, k0); } }"), ("let l_idx =", "let ghost b4 = *self; proof { hs(b4); } let l_idx =")],
       pre="proof { hs(*self); } let ghost m0 = *self; let ghost mut g = 0nat; let ghost k0 = pk;"),
    BF("new", "pub fn new(doc_id: TreeId, initial_member_id: MemberId, initial_member_pk: ShareKey) -> (r: Result<Self, CgkaError>) ensures r is Ok, twf(r->Ok_0), forall|id: MemberId| #[trigger] member(r->Ok_0, id) <==> id == initial_member_id, r->Ok_0.leaves@[0] == Some(LeafNode { id: initial_member_id, pk: NodeKey::ShareKey(initial_member_pk) }), forall|i: int| 0 <= i < r->Ok_0.inner_nodes@.len() ==> (#[trigger] r->Ok_0.inner_nodes@[i]) is None", ["doc_id", "initial_member_id", "initial_member_pk"],
       [("tree.grow_tree_to_size();", "proof { rt_one(tree.tree_size.0); } tree.grow_tree_to_size(); proof { assert(tall(tree, 1)); hgt(tree, 1); } let ghost t0 = tree; proof { assert(twf(t0)) by { assert forall|l: int| 0 <= l < t0.leaves@.len() implies #[trigger] owned(t0, l) by {} } assert(!member(t0, initial_member_id)); }")]),
]
TREEL = r"""
pub proof fn same_ix(a: TreeNodeIndex, b: TreeNodeIndex) ensures ix(a) == ix(b) <==> a == b {}
pub proof fn rt_one(s: u32) requires exists|g: nat| #[trigger] ones(g, s) && g <= 29 && 1 <= rt(g) && (g > 0 ==> 1 > rt((g - 1) as nat)) ensures ones(1, s), rt(1) == 1, sz(1) == 3
{ assert(rt(1) == 2 * rt(0) + 1); let g = choose|g: nat| #[trigger] ones(g, s) && g <= 29 && 1 <= rt(g) && (g > 0 ==> 1 > rt((g - 1) as nat)); if g > 1 { mono(1, (g - 1) as nat); } assert(g == 1); }
pub proof fn fit(t: BeeKem, c: u32, w: TreeSize) requires shape(t), c <= t.leaves@.len(), c < 0x0800_0000, exists|g: nat| #[trigger] ones(g, w.0) && g <= 29 && c as nat <= rt(g) && (g > 0 ==> c as nat > rt((g - 1) as nat))
    ensures t.tree_size.0 >= w.0 <==> c < t.leaves@.len(), t.tree_size.0 < w.0 ==> hg(t) < 28
{
    hs(t); let g = hg(t); let k = choose|g: nat| #[trigger] ones(g, w.0) && g <= 29 && c as nat <= rt(g) && (g > 0 ==> c as nat > rt((g - 1) as nat));
    if g >= k { mono(k, g); } else { mono(g, (k - 1) as nat); mono(g + 1, k); assert(rt(g + 1) == 2 * rt(g) + 1); 
        if g >= 28 { mono(28, g); bounded28(); } }
}
pub proof fn bounded28() ensures rt(27) == 0x07ff_ffff, rt(28) == 0x0fff_ffff { reveal_with_fuel(rt, 31); assert(rt(27) == 0x07ff_ffff) by (compute); assert(rt(28) == 0x0fff_ffff) by (compute); }
"""

REM = r"""
pub open spec fn names(t: BeeKem) -> Set<MemberId> { t.id_to_leaf_idx@.dom() }
pub proof fn crowd(s: Set<MemberId>, m: Map<MemberId, LeafNodeIndex>, n: nat) requires forall|a: MemberId| #[trigger] s.contains(a) ==> m[a].0 < n, forall|a: MemberId, b: MemberId| #[trigger] s.contains(a) && #[trigger] s.contains(b) && m[a].0 == m[b].0 ==> a == b ensures s.len() <= n decreases n
{
    if n == 0 { assert(s =~= Set::empty()) by { assert forall|a: MemberId| !s.contains(a) by {} } }
    else if exists|a: MemberId| #[trigger] s.contains(a) && m[a].0 == n - 1 { let a = choose|a: MemberId| #[trigger] s.contains(a) && m[a].0 == n - 1; let r = s.remove(a);
        assert forall|b: MemberId| #[trigger] r.contains(b) implies m[b].0 < n - 1 by { assert(s.contains(b)); } 
        assert forall|b: MemberId, c: MemberId| #[trigger] r.contains(b) && #[trigger] r.contains(c) && m[b].0 == m[c].0 implies b == c by { assert(s.contains(b) && s.contains(c)); } crowd(r, m, (n - 1) as nat); }
    else { crowd(s, m, (n - 1) as nat); }
}
/// members sit on different leaves, so there are not more of them than leaves
pub proof fn counted_members(t: BeeKem) requires placed(t) ensures names(t).len() <= t.next_leaf_idx.0
{
    let s = names(t); let m = t.id_to_leaf_idx@;
    assert forall|a: MemberId| #[trigger] s.contains(a) implies m[a].0 < t.next_leaf_idx.0 by { assert(member(t, a)); assert(seat(t, a)); }
    assert forall|a: MemberId, b: MemberId| #[trigger] s.contains(a) && #[trigger] s.contains(b) && m[a].0 == m[b].0 implies a == b by { assert(member(t, a) && member(t, b)); assert(seat(t, a)); assert(seat(t, b)); }
    crowd(s, m, t.next_leaf_idx.0 as nat);
}
/// besides the one to remove there is another member
pub proof fn another(t: BeeKem, id: MemberId) -> (o: MemberId) requires placed(t), member(t, id), names(t).len() != 1 ensures member(t, o), o != id, seat(t, o), seat(t, id), t.id_to_leaf_idx@[o].0 != t.id_to_leaf_idx@[id].0
{
    let s = names(t).remove(id); assert(s.len() == names(t).len() - 1);
    if names(t).len() == 0 { assert(names(t) =~= Set::empty()); }
    let o = s.choose(); assert(s.contains(o)); assert(member(t, o)); assert(member(t, id)); o
}
pub proof fn removed_ok(a: BeeKem, b: BeeKem, id: MemberId, keys: Seq<ShareKey>) requires twf(a), member(a, id), shape(b), removed(a, b, id, keys) ensures twf(b), hg(b) == hg(a), at(b.inner_nodes@, rt(hg(b))) is None
{
    hs(a); hs(b); let l = a.id_to_leaf_idx@[id]; assert(seat(a, id)); let n = b.next_leaf_idx.0 as int;
    assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) by { assert(member(a, x)); assert(seat(a, x)); let k = a.id_to_leaf_idx@[x].0 as int; if k == l.0 { assert(x == id); } if n <= k { assert(b.leaves@[k] is None); } }
    assert forall|k: int| 0 <= k < b.leaves@.len() implies #[trigger] owned(b, k) by { assert(owned(a, k)); if n <= k { assert(b.leaves@[k] is None); } }
    assert(tall(b, hg(a))); hgt(b, hg(a)); let g = hg(a); leaf_above(l.0 as int, g); assert(on(par(lf(l)), g, rt(g)));
}
/// none of these keys is on the tree
pub open spec fn leaf_free(o: Option<LeafNode>, bad: Set<ShareKey>) -> bool { o is Some ==> forall|k: ShareKey| #[trigger] nk(o->0.pk).contains(k) ==> !bad.contains(k) }
pub open spec fn node_free(o: Option<InnerNode>, bad: Set<ShareKey>) -> bool { o is Some ==> forall|k: ShareKey| #[trigger] pks(o->0.versions@).contains(k) ==> !bad.contains(k) }
pub open spec fn clean(t: BeeKem, bad: Set<ShareKey>) -> bool { (forall|l: int| 0 <= l < t.leaves@.len() ==> leaf_free(#[trigger] t.leaves@[l], bad)) && forall|i: int| 0 <= i < t.inner_nodes@.len() ==> node_free(#[trigger] t.inner_nodes@[i], bad) }
/// what a member knows is only on its own leaf and the path above
pub open spec fn confined(t: BeeKem, id: MemberId, bad: Set<ShareKey>) -> bool {
    let l = t.id_to_leaf_idx@[id].0 as int;
    (forall|k: int| 0 <= k < t.leaves@.len() && k != l ==> leaf_free(#[trigger] t.leaves@[k], bad)) && forall|i: int| 0 <= i < t.inner_nodes@.len() && !above(l, hg(t), (2 * i + 1) as nat) ==> node_free(#[trigger] t.inner_nodes@[i], bad)
}
/// P13: once removed, none of its keys is left anywhere
pub proof fn cut_out(a: BeeKem, b: BeeKem, id: MemberId, keys: Seq<ShareKey>, bad: Set<ShareKey>) requires twf(a), member(a, id), shape(b), removed(a, b, id, keys), confined(a, id, bad) ensures clean(b, bad)
{
    hs(a); assert(seat(a, id)); let l = a.id_to_leaf_idx@[id].0 as int; let g = hg(a); leaf_above(l, g);
    assert forall|i: int| 0 <= i < b.inner_nodes@.len() implies node_free(#[trigger] b.inner_nodes@[i], bad) by { let y = (2 * i + 1) as nat; if b.inner_nodes@[i] is Some { assert(b.inner_nodes@[i] == a.inner_nodes@[i]); assert(above(l, g, y) <==> on(par((2 * l) as nat), g, y)); assert(node_free(a.inner_nodes@[i], bad)); } }
    assert forall|k: int| 0 <= k < b.leaves@.len() implies leaf_free(#[trigger] b.leaves@[k], bad) by { if k != l { assert(leaf_free(a.leaves@[k], bad)); } }
}
"""
rem_fns = [
    BF("remove_id", """pub fn remove_id(&mut self, id: MemberId) -> (r: Result<(u32, Vec<ShareKey>), CgkaError>) requires twf(*old(self)) ensures r is Ok == (member(*old(self), id) && names(*old(self)).len() != 1), r is Err ==> *final(self) == *old(self),
        r is Ok ==> r->Ok_0.0 == old(self).id_to_leaf_idx@[id].0 && removed(*old(self), *final(self), id, r->Ok_0.1@) && twf(*final(self)) && hg(*final(self)) == hg(*old(self)) && at(final(self).inner_nodes@, rt(hg(*final(self)))) is None""", ["self", "id"],
       [("removed_keys.append(&mut $e);", "({ let mut more = $e; removed_keys.append(&mut more); });"), ("if let Some(store) = self.inner_node(idx) { $b }", "if let Some(store) = self.inner_node(idx) { assert(self.inner_nodes@[idx.0 as int] is Some); $b }", "must"), ("let mut removed_keys = Vec::new();", "let mut removed_keys: Vec<ShareKey> = Vec::new(); let ghost o = another(m0, id); let ghost lo = m0.id_to_leaf_idx@[o].0 as int; let ghost pp = path(lf(l_idx), g); proof { leaf_above(l_idx.0 as int, g); assert(gather(m0.inner_nodes@, pp.take(0)) =~= Seq::<ShareKey>::empty()); path_lv(lf(l_idx), g); lv_in(lf(l_idx), g); assert(lv(lf(l_idx)) == 0); }"),
        ("while", "let ghost w = wiped(m0.inner_nodes@, par(lf(l_idx)), g); let ghost to = m0.next_leaf_idx.0 as int; proof { trim_step(w, to - 1, to, g); assert(tall(*self, g)); hgt(*self, g); assert(self.leaves@[lo] == m0.leaves@[lo]); assert forall|i: int| self.next_leaf_idx.0 <= i < self.leaves@.len() implies #[trigger] self.leaves@[i] is None by { assert(owned(m0, i)); } } while", "must"),
        ("Ok((", "proof { assert(removed(m0, *self, id, removed_keys@)); removed_ok(m0, *self, id, removed_keys@); } Ok((")],
       pre="proof { hs(*self); counted_members(*self); } let ghost m0 = *self; let ghost g = hg(m0);",
       loops=[("for", "it", "invariant *self == m0, twf(m0), g == hg(m0), tall(m0, g), fits(g), sz(g) < 0x4000_0000, pp.len() == g, g > 0, up(it.seq()) == pp, (forall|i: int| 0 <= i < pp.len() ==> (#[trigger] pp[i]) < sz(g) && is_inner(pp[i])), removed_keys@ == gather(m0.inner_nodes@, pp.take(it.index@ as int)), it.index@ == it.seq().len() ==> removed_keys@ == gather(m0.inner_nodes@, pp)",
               "proof { gather_step(m0.inner_nodes@, pp, it.index@ as int); assert(up(it.seq())[it.index@ as int] == inn(idx)); assert(pp[it.index@ as int] == inn(idx)); }", "proof { assert(pp.take(pp.len() as int) =~= pp); assert(removed_keys@ =~= gather(m0.inner_nodes@, pp.take(it.index@ as int + 1))); }"),
              ("while", None, "invariant shape(*self), twf(m0), g == hg(m0), tall(m0, g), hg(*self) == g, tall(*self, g), *self == (BeeKem { inner_nodes: self.inner_nodes, next_leaf_idx: self.next_leaf_idx, leaves: self.leaves, id_to_leaf_idx: self.id_to_leaf_idx, ..m0 }), self.leaves@ == m0.leaves@.update(l_idx.0 as int, None), self.id_to_leaf_idx@ == m0.id_to_leaf_idx@.remove(id), 0 < self.next_leaf_idx.0 <= to, to == m0.next_leaf_idx.0, lo < self.next_leaf_idx.0, 0 <= lo, self.leaves@[lo] is Some, (forall|i: int| self.next_leaf_idx.0 <= i < self.leaves@.len() ==> #[trigger] self.leaves@[i] is None), self.inner_nodes@ == trimmed(w, self.next_leaf_idx.0 as int, to, g), w == wiped(m0.inner_nodes@, par(lf(l_idx)), g), kept(w) decreases self.next_leaf_idx.0",
               "proof { let n = self.next_leaf_idx.0 as int - 1; hs(*self); trim_step(w, n, to, g); leaf_above(n, g); }", "proof { assert(tall(*self, g)); hgt(*self, g); }")]),
]

RES = r"""
pub open spec fn node(x: nat) -> TreeNodeIndex { if x % 2 == 0 { TreeNodeIndex::Leaf(LeafNodeIndex((x / 2) as u32)) } else { TreeNodeIndex::Inner(InnerNodeIndex((x / 2) as u32)) } }
pub proof fn named(n: TreeNodeIndex) ensures node(ix(n)) == n {}
pub proof fn numbered(x: nat) requires x < 0x8000_0000 ensures ix(node(x)) == x {}
/// the keys at a node
pub open spec fn kf(t: BeeKem, x: nat) -> Seq<ShareKey> { if x % 2 == 0 { match t.leaves@[x as int / 2] { Some(l) => nk(l.pk), None => seq![] } } else { match at(t.inner_nodes@, x) { Some(n) => pks(n.versions@), None => seq![] } } }
/// blank, or with more than one key
pub open spec fn skip(t: BeeKem, x: nat) -> bool { if x % 2 == 0 { t.leaves@[x as int / 2] is None } else { at(t.inner_nodes@, x) is None || at(t.inner_nodes@, x)->0.versions@.len() > 1 } }
/// the highest nodes under `x` with one key
pub open spec fn res(t: BeeKem, x: nat) -> Seq<nat> decreases lv(x) { if !skip(t, x) { seq![x] } else if x % 2 == 0 { seq![] } else if lv(lc(x)) < lv(x) && lv(rc(x)) < lv(x) { res(t, lc(x)) + res(t, rc(x)) } else { seq![] } }
pub open spec fn ups(s: Seq<TreeNodeIndex>) -> Seq<nat> { s.map_values(|i: TreeNodeIndex| ix(i)) }
pub open spec fn covers(t: BeeKem, v: SecretStoreVersion, j: nat) -> bool { v.sk@.dom().contains(node(j)) && (kf(t, j).contains(v.encrypter_pk) || kf(t, j).contains(v.sk@[node(j)].paired_pk)) }
/// whoever holds the keys of any node a secret is meant for can open it
pub open spec fn okn(t: BeeKem, x: nat) -> bool { forall|j: nat| #[trigger] res(t, lc(x)).contains(j) || res(t, rc(x)).contains(j) ==> covers(t, at(t.inner_nodes@, x)->0.versions@[0], j) }
pub open spec fn openable(t: BeeKem) -> bool { forall|x: nat| x < sz(hg(t)) && is_inner(x) && !skip(t, x) ==> #[trigger] okn(t, x) }
pub open spec fn honest_tree(t: BeeKem) -> bool { (forall|l: int| 0 <= l < t.leaves@.len() ==> leaf_real(#[trigger] t.leaves@[l])) && forall|i: int| 0 <= i < t.inner_nodes@.len() ==> node_real(#[trigger] t.inner_nodes@[i]) }
pub open spec fn leaf_real(o: Option<LeafNode>) -> bool { o is Some ==> forall|k: ShareKey| #[trigger] nk(o->0.pk).contains(k) ==> real(k) }
pub open spec fn node_real(o: Option<InnerNode>) -> bool { o is Some ==> honest_store(o->0) }
pub proof fn honest_real(s: SecretStore) requires honest_store(s) ensures forall|k: ShareKey| #[trigger] pks(s.versions@).contains(k) ==> real(k)
{ assert forall|k: ShareKey| #[trigger] pks(s.versions@).contains(k) implies real(k) by { let i = pks(s.versions@).index_of(k); let v = s.versions@[i]; assert(honest(v)); let (a, b) = choose|a: ShareSecretKey, b: ShareSecretKey| #[trigger] seals(v, a, b); assert(pub_of(b) == k); } }
pub proof fn tree_real(t: BeeKem, x: nat) requires shape(t), honest_tree(t), x < sz(hg(t)) ensures forall|k: ShareKey| #[trigger] kf(t, x).contains(k) ==> real(k)
{ hs(t); let g = hg(t); assert(sz(g) == 2 * rt(g) + 1); if x % 2 == 0 { assert(leaf_real(t.leaves@[x as int / 2])); } else { assert(node_real(t.inner_nodes@[x as int / 2])); if at(t.inner_nodes@, x) is Some { honest_real(at(t.inner_nodes@, x)->0); } } }
pub proof fn free_at(t: BeeKem, x: nat, bad: Set<ShareKey>) requires shape(t), clean(t, bad), x < sz(hg(t)) ensures forall|k: ShareKey| #[trigger] kf(t, x).contains(k) ==> !bad.contains(k)
{ hs(t); let g = hg(t); assert(sz(g) == 2 * rt(g) + 1); if x % 2 == 0 { assert(leaf_free(t.leaves@[x as int / 2], bad)); } else { assert(node_free(t.inner_nodes@[x as int / 2], bad)); } }
/// positions: being above is transitive, what is above one node is a chain, and the two sides of a node share nothing
pub proof fn on_trans(y: nat, x: nat, z: nat, g: nat) requires y < sz(g), on(y, g, x), on(x, g, z) ensures on(y, g, z), x < sz(g), lv(x) >= lv(y) decreases g - lv(y)
{ on_step(y, g); path_lv(y, g); lv_in(y, g); if y != x { assert(y != rt(g)); par_up(y); on_trans(par(y), x, z, g); } }
pub proof fn chain(l: nat, x: nat, y: nat, g: nat) requires l < sz(g), on(l, g, x), on(l, g, y), lv(x) <= lv(y) ensures on(x, g, y), lv(x) == lv(y) ==> x == y decreases g - lv(l)
{ on_step(l, g); path_lv(l, g); lv_in(l, g); if x != l { if y == l { assert(path(l, g).contains(x)); } assert(l != rt(g)); par_up(l); chain(par(l), x, y, g); } else if y != l { assert(path(l, g).contains(y)); } }
pub proof fn below_kid(x: nat, c: nat, g: nat) requires x < sz(g), is_inner(x), c == lc(x) || c == rc(x) ensures c < sz(g), par(c) == x, on(c, g, x), c != x, c != rt(g), lv(c) < lv(x), forall|y: nat| y < sz(g) && #[trigger] on(y, g, c) ==> on(y, g, x) && y != x
{ kids(x); kids_in(x, g); lv_in(c, g); lv_in(x, g); on_step(c, g); assert(on(x, g, x)); assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, c) implies on(y, g, x) && y != x by { on_trans(y, c, x, g); if y == x { on_trans(x, c, x, g); } } }
pub proof fn res_in(t: BeeKem, x: nat, g: nat) requires x < sz(g) ensures forall|j: nat| #[trigger] res(t, x).contains(j) ==> j < sz(g) && on(j, g, x) && !skip(t, j) decreases lv(x)
{
    if !skip(t, x) { assert forall|j: nat| #[trigger] res(t, x).contains(j) implies j < sz(g) && on(j, g, x) && !skip(t, j) by { assert(res(t, x)[0] == x); } }
    else if x % 2 == 1 { let a = lc(x); let b = rc(x); below_kid(x, a, g); below_kid(x, b, g); res_in(t, a, g); res_in(t, b, g);
        assert forall|j: nat| #[trigger] res(t, x).contains(j) implies j < sz(g) && on(j, g, x) && !skip(t, j) by { let s = res(t, a) + res(t, b); let i = s.index_of(j); if i < res(t, a).len() { assert(res(t, a)[i] == j); assert(res(t, a).contains(j)); } else { assert(res(t, b)[i - res(t, a).len()] == j); assert(res(t, b).contains(j)); } } }
}
pub proof fn res_same(a: BeeKem, b: BeeKem, x: nat, g: nat) requires x < sz(g), forall|y: nat| y < sz(g) && #[trigger] on(y, g, x) ==> skip(a, y) == skip(b, y) ensures res(a, x) == res(b, x) decreases lv(x)
{ assert(on(x, g, x)); if x % 2 == 1 { below_kid(x, lc(x), g); below_kid(x, rc(x), g); res_same(a, b, lc(x), g); res_same(a, b, rc(x), g); } }
pub open spec fn same_at(a: BeeKem, b: BeeKem, y: nat) -> bool { if y % 2 == 0 { a.leaves@[y as int / 2] == b.leaves@[y as int / 2] } else { at(a.inner_nodes@, y) == at(b.inner_nodes@, y) } }
pub proof fn okn_same(a: BeeKem, b: BeeKem, x: nat, g: nat) requires x < sz(g), is_inner(x), okn(a, x), forall|y: nat| y < sz(g) && #[trigger] on(y, g, x) ==> same_at(a, b, y) ensures okn(b, x)
{
    below_kid(x, lc(x), g); below_kid(x, rc(x), g); assert(on(x, g, x)); assert(same_at(a, b, x));
    assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, lc(x)) implies skip(a, y) == skip(b, y) by { assert(on(y, g, x)); assert(same_at(a, b, y)); }
    assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, rc(x)) implies skip(a, y) == skip(b, y) by { assert(on(y, g, x)); assert(same_at(a, b, y)); }
    res_same(a, b, lc(x), g); res_same(a, b, rc(x), g); res_in(a, lc(x), g); res_in(a, rc(x), g);
    assert forall|j: nat| #[trigger] res(b, lc(x)).contains(j) || res(b, rc(x)).contains(j) implies covers(b, at(b.inner_nodes@, x)->0.versions@[0], j) by { assert(res(a, lc(x)).contains(j) || res(a, rc(x)).contains(j)); assert(on(j, g, x)); assert(same_at(a, b, j)); assert(covers(a, at(a.inner_nodes@, x)->0.versions@[0], j)); }
}
/// a new version for the parent of `c`, made by whoever holds the secret of `c`
pub open spec fn made(t: BeeKem, c: nat, v: SecretStoreVersion, cpk: ShareKey, npk: ShareKey) -> bool {
    &&& v.pk == npk && v.encrypter_pk == cpk && v.sk@.dom().contains(node(c))
    &&& forall|j: nat| #[trigger] res(t, sib(c)).contains(j) ==> v.sk@.dom().contains(node(j)) && kf(t, j).contains(v.sk@[node(j)].paired_pk)
    &&& forall|n: TreeNodeIndex| #[trigger] v.sk@.dom().contains(n) ==> ix(n) == c || res(t, sib(c)).contains(ix(n))
}
/// none of the key pairs it is sealed between involves one of these keys
pub open spec fn v_free(v: SecretStoreVersion, bad: Set<ShareKey>) -> bool { !bad.contains(v.pk) && !bad.contains(v.encrypter_pk) && forall|n: TreeNodeIndex| #[trigger] v.sk@.dom().contains(n) ==> !bad.contains(v.sk@[n].paired_pk) }
pub proof fn sib_in(c: nat, g: nat) requires c < sz(g), c != rt(g) ensures sib(c) < sz(g), par(c) < sz(g), is_inner(par(c)), sib(c) != c, par(sib(c)) == par(c), lv(sib(c)) == lv(c), sib(c) == lc(par(c)) && c == rc(par(c)) || sib(c) == rc(par(c)) && c == lc(par(c))
{ par_in(c, g); par_up(c); kids(par(c)); kids_in(par(c), g); child_of(c); }
pub open spec fn kept_rng(r: Rng, s: Rng) -> bool { forall|bad: Set<ShareKey>| #[trigger] never(r, bad) ==> never(s, bad) }
pub proof fn ups_push(a: Seq<TreeNodeIndex>, n: TreeNodeIndex) ensures ups(a.push(n)) == ups(a).push(ix(n)) { assert(ups(a.push(n)) =~= ups(a).push(ix(n))); }
pub proof fn add3(a: Seq<nat>, b: Seq<nat>, c: Seq<nat>) ensures a + b + c == a + (b + c), a + Seq::<nat>::empty() == a { assert(a + b + c =~= a + (b + c)); assert(a + Seq::<nat>::empty() =~= a); }
"""
INB = "ix(idx) < sz(hg(*self))"
res_fns = [
    BF("has_root_key", "pub fn has_root_key(&self) -> (r: bool) requires shape(*self) ensures r == !skip(*self, rt(hg(*self)))", ["self"], pre=HS + " proof { assert(ones(hg(*self), self.tree_size.0)); }", rw=[("panic!($e)", "unreached()")]),
    BF("is_blank", f"pub fn is_blank(&self, idx: TreeNodeIndex) -> (r: bool) requires shape(*self), {INB} ensures ix(idx) % 2 == 0 ==> r == skip(*self, ix(idx)), ix(idx) % 2 == 1 ==> r == (at(self.inner_nodes@, ix(idx)) is None)", ["self", "idx"], pre=HS),
    BF("should_skip_for_resolution", f"pub fn should_skip_for_resolution(&self, idx: TreeNodeIndex) -> (r: bool) requires shape(*self), {INB} ensures r == skip(*self, ix(idx))", ["self", "idx"], [("self.inner_node(i_idx).as_ref().is_none_or(|n| $e)", "({ match self.inner_node(i_idx) { None => true, Some(n) => $e } })", "must")], pre=HS),
    BF("append_resolution", f"pub fn append_resolution(&self, idx: TreeNodeIndex, acc: &mut Vec<TreeNodeIndex>) requires shape(*self), {INB} ensures ups(final(acc)@) == ups(old(acc)@) + res(*self, ix(idx)) decreases lv(ix(idx))", ["self", "idx", "acc"],
       [("acc.push(idx);", "proof { ups_push(acc@, idx); assert(ups(acc@).push(ix(idx)) =~= ups(acc@) + seq![ix(idx)]); } acc.push(idx);"), ("let right_idx", "let ghost a1 = ups(acc@); let right_idx")],
       pre="let ghost a0 = ups(acc@); proof { hs(*self); let x = ix(idx); add3(a0, seq![], seq![]); if x % 2 == 1 { kids(x); kids_in(x, hg(*self)); add3(a0, res(*self, lc(x)), res(*self, rc(x))); } }"),
    BF("node_key_for_index", f"pub fn node_key_for_index(&self, idx: TreeNodeIndex) -> (r: Result<NodeKey, CgkaError>) requires shape(*self), {INB} ensures !skip(*self, ix(idx)) ==> r is Ok, r is Ok ==> nk(r->Ok_0) == kf(*self, ix(idx)), r is Ok && ix(idx) % 2 == 0 ==> self.leaves@[ix(idx) as int / 2] is Some && r->Ok_0 == self.leaves@[ix(idx) as int / 2]->0.pk", ["self", "idx"],
       [("self.leaf(l_idx).as_ref()", "self.leaf(l_idx).as_ref()"), ("self.inner_node(i_idx).as_ref().ok_or($e)?.node_key()", "({ let nd = self.inner_node(i_idx).as_ref().ok_or($e)?; proof { assert(self.inner_nodes@[i_idx.0 as int] is Some); } nd.node_key() })", "must")], pre=HS),
    BF("node_key_for_id", "pub fn node_key_for_id(&self, id: MemberId) -> (r: Result<NodeKey, CgkaError>) requires twf(*self) ensures r is Ok == member(*self, id), r is Ok ==> r->Ok_0 == self.leaves@[self.id_to_leaf_idx@[id].0 as int]->0.pk", ["self", "id"], pre="proof { hs(*self); if member(*self, id) { assert(seat(*self, id)); } }"),
    BF("encrypt_new_secret_store_for_parent", """pub fn encrypt_new_secret_store_for_parent(&self, child_idx: TreeNodeIndex, child_pk: ShareKey, child_sk: &ShareSecretKey, new_parent_pk: ShareKey, new_parent_sk: &ShareSecretKey, csprng: &mut Rng) -> (r: Result<SecretStore, CgkaError>)
        requires shape(*self), ix(child_idx) < sz(hg(*self)), ix(child_idx) != rt(hg(*self)), pub_of(*child_sk) == child_pk, pub_of(*new_parent_sk) == new_parent_pk
        ensures kept_rng(*old(csprng), *final(csprng)), r is Ok ==> r->Ok_0.versions@.len() == 1 && made(*self, ix(child_idx), r->Ok_0.versions@[0], child_pk, new_parent_pk) && (honest_tree(*self) ==> honest_store(r->Ok_0)) && forall|bad: Set<ShareKey>| #[trigger] never(*old(csprng), bad) && clean(*self, bad) && !bad.contains(child_pk) && !bad.contains(new_parent_pk) ==> v_free(r->Ok_0.versions@[0], bad)""",
       ["self", "child_idx", "child_pk", "child_sk", "new_parent_pk", "new_parent_sk", "csprng"],
       [("BTreeMap::new()", "Bt::<TreeNodeIndex, EncryptedSecret>::new()"), ("crate::encrypted::encrypt_secret", "encrypt_secret"), ("let mut sibling_resolution = Vec::new();", "let mut sibling_resolution: Vec<TreeNodeIndex> = Vec::new(); proof { add3(seq![], res(*self, sx), seq![]); assert(ups(sibling_resolution@) =~= Seq::<nat>::empty()); }"),
        ("if sibling_resolution.is_empty() {", "proof { assert(Seq::<nat>::empty() + rs =~= rs); assert(ups(sibling_resolution@) == rs); assert(rs.len() == sibling_resolution@.len()); } if sibling_resolution.is_empty() {", "must"),
        ("secret_map.insert(child_idx, encrypted_sk);", "proof { e0 = encrypted_sk; b0 = paired_sk; } secret_map.insert(child_idx, encrypted_sk);", "must"),
        ("for idx in sibling_resolution {", "proof { part_none(*self, c, secret_map@, rs, *child_sk, *new_parent_sk); assert(secret_map@ =~= Map::empty()); } for idx in sibling_resolution { let ghost k0 = secret_map@; proof { let i = it.index@ as int; assert(ups(it.seq())[i] == ix(idx)); assert(rs[i] == ix(idx)); assert(rs.contains(ix(idx))); named(idx); }", "must"),
        ("NodeKey::ConflictKeys(keys) => keys.first", "NodeKey::ConflictKeys(keys) => ({ proof { assert(ck(keys)[0] == keys.first); } keys.first })"),
        ("let next_pk = match self.node_key_for_index(idx)? {", "let nkey = self.node_key_for_index(idx)?; let ghost kk = nkey; let next_pk = match nkey {", "must"),
        ("let encrypted_sk = $e; if !used_paired_sibling", "proof { assert(nk(kk)[0] == next_pk); assert(kf(*self, ix(idx)).contains(next_pk)); } let encrypted_sk = $e; if !used_paired_sibling", "must"),
        ("Ok(SecretStore::new($x))", """({ let ghost sm = secret_map@; let out = SecretStore::new($x); let ghost v = out.versions@[0]; let ghost nsk = *new_parent_sk; let ghost csk = *child_sk;
            proof { if rs.len() > 0 { part_end(*self, c, v, rs, csk, nsk); } else { lone_end(*self, c, v, e0, b0, csk, nsk); } assert(v.pk == new_parent_pk && v.encrypter_pk == child_pk); 
                assert forall|bad: Set<ShareKey>| #[trigger] never(r0, bad) && clean(*self, bad) && !bad.contains(child_pk) && !bad.contains(new_parent_pk) implies v_free(v, bad) by { if rs.len() == 0 { assert(!bad.contains(pub_of(b0))); } } }
            Ok(out) })""", "must")],
       pre="proof { hs(*self); } let ghost g = hg(*self); let ghost c = ix(child_idx); let ghost sx = sib(c); let ghost rs = res(*self, sx); let ghost r0 = *csprng; let ghost mut e0: EncryptedSecret = arbitrary(); let ghost mut b0 = *child_sk; proof { sib_in(c, g); res_in(*self, sx, g); named(child_idx); par_in(c, g); assert(forall|j: nat| #[trigger] rs.contains(j) ==> j < sz(g) && !skip(*self, j)); }",
       loops=[("for", "it", """invariant shape(*self), g == hg(*self), fits(g), sz(g) < 0x4000_0000, rs == res(*self, sx), ups(it.seq()) == rs, rs.len() > 0, it.seq().len() == rs.len(), used_paired_sibling == (it.index@ > 0), (forall|j: nat| #[trigger] rs.contains(j) ==> j < sz(g) && !skip(*self, j)), node(c) == child_idx, c < sz(g), *csprng == r0,
             part(*self, c, secret_map@, rs, it.index@ as int, *child_sk, *new_parent_sk), it.index@ == it.seq().len() ==> part(*self, c, secret_map@, rs, rs.len() as int, *child_sk, *new_parent_sk)""",
             "", """proof { assert forall|i: int| 0 <= i < rs.len() implies #[trigger] rs[i] < 0x8000_0000 by { assert(rs.contains(rs[i])); } part_step(*self, c, k0, rs, it.index@ as int, *child_sk, *new_parent_sk, encrypted_sk, secret_map@); }""")]),
    BF("encrypt_key_for_parent", """pub fn encrypt_key_for_parent(&mut self, child_idx: TreeNodeIndex, child_pk: ShareKey, child_sk: &ShareSecretKey, new_parent_pk: ShareKey, new_parent_sk: &ShareSecretKey, csprng: &mut Rng) -> (r: Result<(), CgkaError>)
        requires shape(*old(self)), ix(child_idx) < sz(hg(*old(self))), ix(child_idx) != rt(hg(*old(self))), pub_of(*child_sk) == child_pk, pub_of(*new_parent_sk) == new_parent_pk
        ensures kept_rng(*old(csprng), *final(csprng)), r is Err ==> *final(self) == *old(self), r is Ok ==> set_up(*old(self), *final(self), ix(child_idx), child_pk, new_parent_pk) && forall|bad: Set<ShareKey>| #[trigger] never(*old(csprng), bad) && clean(*old(self), bad) && !bad.contains(child_pk) && !bad.contains(new_parent_pk) ==> v_free(at(final(self).inner_nodes@, par(ix(child_idx)))->0.versions@[0], bad)""",
       ["self", "child_idx", "child_pk", "child_sk", "new_parent_pk", "new_parent_sk", "csprng"], [("self.insert_inner_node_at(", "let ghost st = secret_store; self.insert_inner_node_at("), ("Ok(())", "({ proof { set_shape(m0, *self, inn(parent_idx), st); } Ok(()) })")], pre="let ghost m0 = *self; proof { hs(*self); par_in(ix(child_idx), hg(*self)); par_up(ix(child_idx)); }"),
]
RES2 = r"""
pub open spec fn paired_in(t: BeeKem, rs: Seq<nat>, m: Map<TreeNodeIndex, EncryptedSecret>, n: TreeNodeIndex) -> bool { exists|j: nat| #[trigger] rs.contains(j) && kf(t, j).contains(m[n].paired_pk) }
pub proof fn pair_of(t: BeeKem, rs: Seq<nat>, m: Map<TreeNodeIndex, EncryptedSecret>, n: TreeNodeIndex) -> (j: nat) requires paired_in(t, rs, m, n) ensures rs.contains(j), kf(t, j).contains(m[n].paired_pk) { choose|j: nat| #[trigger] rs.contains(j) && kf(t, j).contains(m[n].paired_pk) }
/// the copies made for the first `n` nodes of the resolution
#[verifier::opaque] pub open spec fn part(t: BeeKem, c: nat, m: Map<TreeNodeIndex, EncryptedSecret>, rs: Seq<nat>, n: int, a: ShareSecretKey, s: ShareSecretKey) -> bool {
    &&& n > 0 ==> m.dom().contains(node(c))
    &&& forall|i: int| 0 <= i < n ==> m.dom().contains(node(#[trigger] rs[i])) && kf(t, rs[i]).contains(m[node(rs[i])].paired_pk)
    &&& forall|k: TreeNodeIndex| #[trigger] m.dom().contains(k) ==> (ix(k) == c || rs.contains(ix(k))) && paired_in(t, rs, m, k) && opened(m[k], dh(a, m[k].paired_pk)) == Some(skb(s))
}
pub proof fn part_none(t: BeeKem, c: nat, m: Map<TreeNodeIndex, EncryptedSecret>, rs: Seq<nat>, a: ShareSecretKey, s: ShareSecretKey) requires m =~= Map::empty() ensures part(t, c, m, rs, 0, a, s) { reveal(part); }
pub proof fn part_step(t: BeeKem, c: nat, m: Map<TreeNodeIndex, EncryptedSecret>, rs: Seq<nat>, n: int, a: ShareSecretKey, s: ShareSecretKey, e: EncryptedSecret, m2: Map<TreeNodeIndex, EncryptedSecret>)
    requires part(t, c, m, rs, n, a, s), 0 <= n < rs.len(), c < 0x8000_0000, forall|i: int| 0 <= i < rs.len() ==> #[trigger] rs[i] < 0x8000_0000, kf(t, rs[n]).contains(e.paired_pk), opened(e, dh(a, e.paired_pk)) == Some(skb(s)), m2 == (if n == 0 { m.insert(node(c), e) } else { m }).insert(node(rs[n]), e)
    ensures part(t, c, m2, rs, n + 1, a, s)
{
    reveal(part); assert(rs.contains(rs[n])); numbered(rs[n]); numbered(c);
    assert forall|i: int| 0 <= i < n + 1 implies m2.dom().contains(node(#[trigger] rs[i])) && kf(t, rs[i]).contains(m2[node(rs[i])].paired_pk) by { numbered(rs[i]); if node(rs[i]) == node(rs[n]) { assert(rs[i] == rs[n]); } else { assert(i < n); } }
    assert forall|k: TreeNodeIndex| #[trigger] m2.dom().contains(k) implies (ix(k) == c || rs.contains(ix(k))) && paired_in(t, rs, m2, k) && opened(m2[k], dh(a, m2[k].paired_pk)) == Some(skb(s)) by {
        if m2[k] == e { assert(rs.contains(rs[n]) && kf(t, rs[n]).contains(m2[k].paired_pk)); if k != node(rs[n]) && !(n == 0 && k == node(c)) { assert(m.dom().contains(k)); } } else { assert(m.dom().contains(k)); assert(paired_in(t, rs, m, k)); let j = pair_of(t, rs, m, k); assert(rs.contains(j) && kf(t, j).contains(m2[k].paired_pk)); } }
}
pub proof fn part_end(t: BeeKem, c: nat, v: SecretStoreVersion, rs: Seq<nat>, a: ShareSecretKey, s: ShareSecretKey) requires shape(t), part(t, c, v.sk@, rs, rs.len() as int, a, s), rs.len() > 0, rs == res(t, sib(c)), forall|j: nat| #[trigger] rs.contains(j) ==> j < sz(hg(t)), pub_of(a) == v.encrypter_pk, pub_of(s) == v.pk
    ensures made(t, c, v, v.encrypter_pk, v.pk), honest_tree(t) ==> honest(v), forall|bad: Set<ShareKey>| #[trigger] clean(t, bad) && !bad.contains(v.pk) && !bad.contains(v.encrypter_pk) ==> v_free(v, bad)
{
    reveal(part);
    assert forall|j: nat| #[trigger] rs.contains(j) implies v.sk@.dom().contains(node(j)) && kf(t, j).contains(v.sk@[node(j)].paired_pk) by { let k = rs.index_of(j); assert(rs[k] == j); }
    if honest_tree(t) { assert forall|n: TreeNodeIndex| #[trigger] v.sk@.dom().contains(n) implies carries(v.sk@[n], a, s) by { let j = pair_of(t, rs, v.sk@, n); tree_real(t, j); } assert(seals(v, a, s)); }
    assert forall|bad: Set<ShareKey>| #[trigger] clean(t, bad) && !bad.contains(v.pk) && !bad.contains(v.encrypter_pk) implies v_free(v, bad) by { assert forall|n: TreeNodeIndex| #[trigger] v.sk@.dom().contains(n) implies !bad.contains(v.sk@[n].paired_pk) by { let j = pair_of(t, rs, v.sk@, n); free_at(t, j, bad); } }
}
pub proof fn lone_end(t: BeeKem, c: nat, v: SecretStoreVersion, e: EncryptedSecret, b: ShareSecretKey, a: ShareSecretKey, s: ShareSecretKey) requires v.sk@ == Map::<TreeNodeIndex, EncryptedSecret>::empty().insert(node(c), e), c < 0x8000_0000, res(t, sib(c)).len() == 0, e.paired_pk == pub_of(b), opened(e, dh(a, e.paired_pk)) == Some(skb(s)), pub_of(a) == v.encrypter_pk, pub_of(s) == v.pk
    ensures made(t, c, v, v.encrypter_pk, v.pk), honest(v), forall|bad: Set<ShareKey>| !(#[trigger] bad.contains(e.paired_pk)) && !bad.contains(v.pk) && !bad.contains(v.encrypter_pk) ==> v_free(v, bad)
{ numbered(c); assert forall|j: nat| !(#[trigger] res(t, sib(c)).contains(j)) by {} assert(carries(e, a, s)); assert(seals(v, a, s)); }
/// the parent of `c` has been given a new version, nothing else changed
pub open spec fn set_up(a: BeeKem, b: BeeKem, c: nat, cpk: ShareKey, npk: ShareKey) -> bool {
    let p = par(c);
    &&& shape(b) && hg(b) == hg(a) && b == (BeeKem { inner_nodes: b.inner_nodes, ..a }) && b.inner_nodes@.len() == a.inner_nodes@.len()
    &&& (forall|i: int| 0 <= i < a.inner_nodes@.len() && i != p as int / 2 ==> #[trigger] b.inner_nodes@[i] == a.inner_nodes@[i])
    &&& at(b.inner_nodes@, p) is Some && at(b.inner_nodes@, p)->0.versions@.len() == 1 && made(a, c, at(b.inner_nodes@, p)->0.versions@[0], cpk, npk) && (honest_tree(a) ==> honest_store(at(b.inner_nodes@, p)->0))
}
pub proof fn set_shape(a: BeeKem, b: BeeKem, p: nat, st: SecretStore) requires shape(a), b == (BeeKem { inner_nodes: b.inner_nodes, ..a }), is_inner(p), p < sz(hg(a)), b.inner_nodes@ == a.inner_nodes@.update(p as int / 2, Some(st)), st.versions@.len() > 0 ensures shape(b), hg(b) == hg(a)
{ hs(a); assert(tall(b, hg(a))); hgt(b, hg(a)); assert forall|i: int| 0 <= i < b.inner_nodes@.len() && (#[trigger] b.inner_nodes@[i]) is Some implies b.inner_nodes@[i]->0.versions@.len() > 0 by { if i != p as int / 2 { assert(b.inner_nodes@[i] == a.inner_nodes@[i]); } } }
"""

ENC = r"""
pub struct PcsKey(pub ShareSecretKey);
impl FromSpecImpl<ShareSecretKey> for PcsKey { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: ShareSecretKey) -> Self { PcsKey(k) } }
pub open spec fn more(a: ShareKeyMap, b: ShareKeyMap) -> bool { forall|k: ShareKey| #[trigger] a.0@.dom().contains(k) ==> b.0@.dom().contains(k) }
pub open spec fn entry(t: BeeKem, ch: PathChange, p: Seq<nat>, i: int) -> bool { (2 * ch.path@[i].0 + 1) as nat == p[i] && at(t.inner_nodes@, p[i]) == Some(ch.path@[i].1) && ch.path@[i].1.versions@.len() == 1 }
pub open spec fn spot(t: BeeKem, id: MemberId) -> LeafNodeIndex { t.id_to_leaf_idx@[id] }
/// the first `n` nodes above the leaf have been given new versions, recorded in the change, with the keys they replace; nothing else changed
pub open spec fn climbed(a: BeeKem, b: BeeKem, ch: PathChange, l: LeafNodeIndex, n: int) -> bool {
    let g = hg(a); let p = path(lf(l), g);
    &&& 0 <= n <= p.len() && shape(b) && hg(b) == g && b == (BeeKem { inner_nodes: b.inner_nodes, leaves: b.leaves, ..a })
    &&& b.leaves@ == a.leaves@.update(l.0 as int, Some(LeafNode { id: ch.leaf_id, pk: ch.leaf_pk })) && b.inner_nodes@.len() == a.inner_nodes@.len()
    &&& ch.path@.len() == n && ch.leaf_idx == l.0 && ch.removed_keys@ == nk(a.leaves@[l.0 as int]->0.pk) + gather(a.inner_nodes@, p.take(n))
    &&& forall|i: int| 0 <= i < n ==> #[trigger] entry(b, ch, p, i)
    &&& forall|i: int| 0 <= i < a.inner_nodes@.len() && !p.take(n).contains((2 * i + 1) as nat) ==> #[trigger] b.inner_nodes@[i] == a.inner_nodes@[i]
}
pub open spec fn turned(a: BeeKem, b: BeeKem, id: MemberId, pk: ShareKey, ch: PathChange) -> bool { climbed(a, b, ch, spot(a, id), path(lf(spot(a, id)), hg(a)).len() as int) && ch.leaf_id == id && ch.leaf_pk == NodeKey::ShareKey(pk) }
pub open spec fn open_but(t: BeeKem, p: Seq<nat>) -> bool { forall|x: nat| x < sz(hg(t)) && is_inner(x) && !skip(t, x) && !p.contains(x) ==> #[trigger] okn(t, x) }
pub open spec fn ch_free(ch: PathChange, bad: Set<ShareKey>) -> bool { forall|i: int| 0 <= i < ch.path@.len() ==> v_free((#[trigger] ch.path@[i]).1.versions@[0], bad) }
/// whatever keys were nowhere on the tree still are not, and no new secret was sealed with any of them
pub open spec fn spotless(a: BeeKem, r0: Rng, pk: ShareKey, b: BeeKem, r: Rng, cpk: ShareKey, ch: PathChange) -> bool { forall|bad: Set<ShareKey>| #[trigger] never(r0, bad) && clean(a, bad) && !bad.contains(pk) ==> never(r, bad) && clean(b, bad) && !bad.contains(cpk) && ch_free(ch, bad) }
pub proof fn path_once(x: nat, g: nat) requires x < sz(g) ensures forall|i: int, j: int| 0 <= i < path(x, g).len() && 0 <= j < path(x, g).len() && #[trigger] path(x, g)[i] == #[trigger] path(x, g)[j] ==> i == j { path_lv(x, g); assert forall|i: int, j: int| 0 <= i < path(x, g).len() && 0 <= j < path(x, g).len() && #[trigger] path(x, g)[i] == #[trigger] path(x, g)[j] implies i == j by { assert(lv(path(x, g)[i]) == lv(x) + 1 + i); assert(lv(path(x, g)[j]) == lv(x) + 1 + j); } }
pub proof fn climb_step(a: BeeKem, b: BeeKem, ch: PathChange, b2: BeeKem, ch2: PathChange, l: LeafNodeIndex, n: int, c: nat, cpk: ShareKey, npk: ShareKey)
    requires shape(a), climbed(a, b, ch, l, n), l.0 < a.leaves@.len(), n < path(lf(l), hg(a)).len(), par(c) == path(lf(l), hg(a))[n], set_up(b, b2, c, cpk, npk), ch2 == (PathChange { path: ch2.path, removed_keys: ch2.removed_keys, ..ch }),
        ch2.path@.len() == n + 1, (forall|i: int| 0 <= i < n ==> #[trigger] ch2.path@[i] == ch.path@[i]), ch2.path@[n].0 == par(c) / 2, Some(ch2.path@[n].1) == at(b2.inner_nodes@, par(c)), ch2.removed_keys@ == ch.removed_keys@ + (match at(b.inner_nodes@, par(c)) { Some(x) => pks(x.versions@), None => seq![] })
    ensures climbed(a, b2, ch2, l, n + 1)
{
    hs(a); let g = hg(a); let p = path(lf(l), g); leaf_above(l.0 as int, g); path_lv(lf(l), g); path_once(lf(l), g); gather_step(a.inner_nodes@, p, n);
    assert(p[n] < sz(g) && is_inner(p[n])); let k = p[n] as int / 2;
    assert(!p.take(n).contains(p[n])) by { if p.take(n).contains(p[n]) { let j = p.take(n).index_of(p[n]); assert(p[j] == p[n]); } }
    assert(b.inner_nodes@[k] == a.inner_nodes@[k]);
    assert(ch2.removed_keys@ =~= nk(a.leaves@[l.0 as int]->0.pk) + gather(a.inner_nodes@, p.take(n + 1)));
    assert forall|i: int| 0 <= i < n + 1 implies #[trigger] entry(b2, ch2, p, i) by { if i < n { assert(entry(b, ch, p, i)); assert(p[i] != p[n]); assert(is_inner(p[i]) && p[i] < sz(g)); assert(b2.inner_nodes@[p[i] as int / 2] == b.inner_nodes@[p[i] as int / 2]); assert(ch2.path@[i] == ch.path@[i]); } }
    assert forall|i: int| 0 <= i < a.inner_nodes@.len() && !p.take(n + 1).contains((2 * i + 1) as nat) implies #[trigger] b2.inner_nodes@[i] == a.inner_nodes@[i] by { let y = (2 * i + 1) as nat; if p.take(n).contains(y) { let j = p.take(n).index_of(y); assert(p.take(n + 1)[j] == y); } if i == k { assert(p.take(n + 1)[n] == y); } assert(b.inner_nodes@[i] == a.inner_nodes@[i]); }
}
pub proof fn open_step(b: BeeKem, b2: BeeKem, c: nat, cpk: ShareKey, npk: ShareKey) requires shape(b), c < sz(hg(b)), c != rt(hg(b)), open_but(b, path(c, hg(b))), !skip(b, c), kf(b, c).contains(cpk), set_up(b, b2, c, cpk, npk) ensures open_but(b2, path(par(c), hg(b))), !skip(b2, par(c)), kf(b2, par(c)).contains(npk)
{
    hs(b); let g = hg(b); let p = par(c); sib_in(c, g); on_step(c, g); path_lv(p, g); let v = at(b2.inner_nodes@, p)->0.versions@[0]; assert(kf(b2, p)[0] == npk); path_step(c, g, seq![]);
    assert forall|x: nat| x < sz(hg(b2)) && is_inner(x) && !skip(b2, x) && !path(p, g).contains(x) implies #[trigger] okn(b2, x) by {
        if x == p {
            assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, c) implies skip(b, y) == skip(b2, y) by { below_kid(p, c, g); assert(y != p); assert(same_at(b, b2, y)); }
            assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, sib(c)) implies skip(b, y) == skip(b2, y) by { below_kid(p, sib(c), g); assert(y != p); assert(same_at(b, b2, y)); }
            res_same(b, b2, c, g); res_same(b, b2, sib(c), g); res_in(b, sib(c), g); assert(res(b, c) == seq![c]);
            assert forall|j: nat| #[trigger] res(b2, lc(p)).contains(j) || res(b2, rc(p)).contains(j) implies covers(b2, v, j) by {
                if res(b, sib(c)).contains(j) { below_kid(p, sib(c), g); assert(on(j, g, sib(c))); assert(same_at(b, b2, j)); } else { assert(res(b, c).contains(j)); assert(j == c); assert(c != p); assert(same_at(b, b2, c)); } }
        } else {
            assert(!path(c, g).contains(x)) by { if path(c, g).contains(x) { let q = seq![p] + path(p, g); assert(q == path(c, g)); let i = q.index_of(x); if i > 0 { assert(path(p, g)[i - 1] == x); } } }
            assert(same_at(b, b2, x)); assert(okn(b, x));
            assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, x) implies same_at(b, b2, y) by { if y == p { assert(on(p, g, x)); } }
            okn_same(b, b2, x, g);
        } }
}
pub proof fn clean_step(b: BeeKem, b2: BeeKem, c: nat, cpk: ShareKey, npk: ShareKey, bad: Set<ShareKey>) requires clean(b, bad), set_up(b, b2, c, cpk, npk), !bad.contains(npk) ensures clean(b2, bad)
{ assert forall|i: int| 0 <= i < b2.inner_nodes@.len() implies node_free(#[trigger] b2.inner_nodes@[i], bad) by { if i != par(c) as int / 2 { assert(b2.inner_nodes@[i] == b.inner_nodes@[i]); assert(node_free(b.inner_nodes@[i], bad)); } else { let s = b2.inner_nodes@[i]->0.versions@; assert forall|k: ShareKey| #[trigger] pks(s).contains(k) implies !bad.contains(k) by { let j = pks(s).index_of(k); assert(j == 0); } } } }
pub proof fn honest_step(b: BeeKem, b2: BeeKem, c: nat, cpk: ShareKey, npk: ShareKey) requires honest_tree(b), set_up(b, b2, c, cpk, npk) ensures honest_tree(b2)
{ assert forall|i: int| 0 <= i < b2.inner_nodes@.len() implies node_real(#[trigger] b2.inner_nodes@[i]) by { if i != par(c) as int / 2 { assert(b2.inner_nodes@[i] == b.inner_nodes@[i]); assert(node_real(b.inner_nodes@[i])); } } }
/// a new key at a member's own leaf
pub proof fn at_leaf(a: BeeKem, b: BeeKem, id: MemberId, pk: ShareKey) requires twf(a), member(a, id), b == (BeeKem { leaves: b.leaves, ..a }), b.leaves@ == a.leaves@.update(spot(a, id).0 as int, Some(LeafNode { id, pk: NodeKey::ShareKey(pk) }))
    ensures twf(b), hg(b) == hg(a), openable(a) ==> open_but(b, path(lf(spot(a, id)), hg(a))), !skip(b, lf(spot(a, id))), kf(b, lf(spot(a, id))) == seq![pk], real(pk) && honest_tree(a) ==> honest_tree(b), forall|bad: Set<ShareKey>| #[trigger] clean(a, bad) && !bad.contains(pk) ==> clean(b, bad)
{
    hs(a); let g = hg(a); assert(tall(b, g)); hgt(b, g); let l = spot(a, id); assert(seat(a, id)); leaf_above(l.0 as int, g); path_lv(lf(l), g); let p = path(lf(l), g);
    assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) by { assert(member(a, x)); assert(seat(a, x)); }
    assert forall|k: int| 0 <= k < b.leaves@.len() implies #[trigger] owned(b, k) by { assert(owned(a, k)); }
    if openable(a) { assert forall|x: nat| x < sz(hg(b)) && is_inner(x) && !skip(b, x) && !p.contains(x) implies #[trigger] okn(b, x) by { assert(okn(a, x)); assert forall|y: nat| y < sz(g) && #[trigger] on(y, g, x) implies same_at(a, b, y) by { if y == lf(l) { assert(on(lf(l), g, x)); } } okn_same(a, b, x, g); } }
    assert forall|k: ShareKey| #[trigger] nk(NodeKey::ShareKey(pk)).contains(k) implies k == pk by {}
    if real(pk) && honest_tree(a) { assert forall|k: int| 0 <= k < b.leaves@.len() implies leaf_real(#[trigger] b.leaves@[k]) by { assert(leaf_real(a.leaves@[k])); } assert forall|i: int| 0 <= i < b.inner_nodes@.len() implies node_real(#[trigger] b.inner_nodes@[i]) by { assert(node_real(a.inner_nodes@[i])); } }
    assert forall|bad: Set<ShareKey>| #[trigger] clean(a, bad) && !bad.contains(pk) implies clean(b, bad) by { assert forall|k: int| 0 <= k < b.leaves@.len() implies leaf_free(#[trigger] b.leaves@[k], bad) by { assert(leaf_free(a.leaves@[k], bad)); } assert forall|i: int| 0 <= i < b.inner_nodes@.len() implies node_free(#[trigger] b.inner_nodes@[i], bad) by { assert(node_free(a.inner_nodes@[i], bad)); } }
}
pub proof fn turned_wf(a: BeeKem, b: BeeKem, id: MemberId, pk: ShareKey, ch: PathChange) requires twf(a), member(a, id), turned(a, b, id, pk, ch) ensures twf(b)
{ hs(a); assert(seat(a, id)); assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) by { assert(member(a, x)); assert(seat(a, x)); } assert forall|k: int| 0 <= k < b.leaves@.len() implies #[trigger] owned(b, k) by { assert(owned(a, k)); } }
pub open spec fn root_pk(t: BeeKem) -> ShareKey { at(t.inner_nodes@, rt(hg(t)))->0.versions@[0].pk }
"""
enc_fns = [
    F("beekem/src/pcs_key.rs", "From for PcsKey ~ShareSecretKey", "from", "fn from(share_secret_key: ShareSecretKey) -> (r: Self)", ["share_secret_key"], wrap="impl From<ShareSecretKey> for PcsKey", vac=False),
    BF("encrypt_path", """pub fn encrypt_path(&mut self, id: MemberId, pk: ShareKey, sks: &mut ShareKeyMap, csprng: &mut Rng) -> (r: Result<Option<(PcsKey, PathChange)>, CgkaError>) requires twf(*old(self)), sound(*old(sks))
        ensures !member(*old(self), id) ==> r is Err && *final(self) == *old(self) && *final(sks) == *old(sks), sound(*final(sks)), more(*old(sks), *final(sks)), kept_rng(*old(csprng), *final(csprng)), r is Ok ==> r->Ok_0 is Some && ({ let (pcs, ch) = r->Ok_0->0; let a = *old(self); let b = *final(self);
            twf(b) && turned(a, b, id, pk, ch) && !skip(b, rt(hg(b))) && pub_of(pcs.0) == root_pk(b) && (honest_tree(a) ==> honest_tree(b)) && (openable(a) ==> openable(b)) && spotless(a, *old(csprng), pk, b, *final(csprng), root_pk(b), ch) })""", ["self", "id", "pk", "sks", "csprng"],
       [("new_path.removed_keys.append(&mut $e);", "({ let mut more = $e; new_path.removed_keys.append(&mut more); });"), ("let mut child_idx:", "let ghost m1 = *self; proof { at_leaf(m0, m1, id, pk); } let mut child_idx:"),
        ("self.inner_node(parent_idx).as_ref().expect($e).clone()", "({ let nd = self.inner_node(parent_idx).as_ref().unwrap(); nd.clone() })"), ("while !self.is_root(child_idx)", "proof { assert(pub_of(child_sk) == pk); assert(real(pk)); assert(Seq::<nat>::empty() + pp =~= pp); assert(pp.take(0) =~= Seq::<nat>::empty()); assert(gather(m0.inner_nodes@, pp.take(0)) =~= Seq::<ShareKey>::empty()); assert(new_path.removed_keys@ =~= nk(m0.leaves@[l.0 as int]->0.pk) + gather(m0.inner_nodes@, pp.take(0))); assert(climbed(m0, *self, new_path, l, 0)); assert(kf(*self, lf(l))[0] == pk); assert(child_sk == sks.0@[pk]); } let ghost mut n = 0int; while !self.is_root(child_idx)", "must"),
        ("if let Some(store) = self.inner_node(parent_idx) {", "let ghost ch0 = new_path; let ghost b0 = *self; let ghost c = ix(child_idx); let ghost r1 = *csprng; let ghost k0 = child_pk; proof { hs(b0); par_in(c, g); par_up(c); path_step(c, g, pp.take(n)); assert((pp.take(n) + path(c, g))[n] == path(c, g)[0]); assert(path(c, g)[0] == par(c)); } if let Some(store) = self.inner_node(parent_idx) { assert(self.inner_nodes@[parent_idx.0 as int] is Some);", "must"),
        ("let new_parent_sk =", "proof { assert(new_path.removed_keys@ =~= ch0.removed_keys@ + (match at(b0.inner_nodes@, par(c)) { Some(x) => pks(x.versions@), None => seq![] })); } let new_parent_sk ="),
        ("child_idx = parent_idx.into();", """proof { climb_step(m0, b0, ch0, *self, new_path, l, n, c, k0, new_parent_pk); if openable(m0) { assert(kf(b0, c)[0] == k0); open_step(b0, *self, c, k0, new_parent_pk); } if honest_tree(m0) { honest_step(b0, *self, c, k0, new_parent_pk); } assert(kf(*self, par(c))[0] == new_parent_pk);
             assert forall|bad: Set<ShareKey>| #[trigger] never(r0, bad) && clean(m0, bad) && !bad.contains(pk) implies never(*csprng, bad) && clean(*self, bad) && !bad.contains(new_parent_pk) && ch_free(new_path, bad) by { assert(never(r1, bad)); clean_step(b0, *self, c, k0, new_parent_pk, bad); assert(ch_free(ch0, bad)); assert forall|i: int| 0 <= i < new_path.path@.len() implies v_free((#[trigger] new_path.path@[i]).1.versions@[0], bad) by { if i < n { assert(new_path.path@[i] == ch0.path@[i]); } } }
             assert(pp.take(n).push(par(c)) =~= pp.take(n + 1)); n = n + 1; } child_idx = parent_idx.into();""", "must"),
        ("Ok(Some((child_sk.into(), new_path)))", "({ proof { turned_wf(m0, *self, id, pk, new_path); assert(kf(*self, rt(g))[0] == child_pk); } Ok(Some((child_sk.into(), new_path))) })", "must")],
       pre="proof { hs(*self); if member(*self, id) { assert(seat(*self, id)); } } let ghost m0 = *self; let ghost g = hg(m0); let ghost l = spot(m0, id); let ghost r0 = *csprng; let ghost s0 = *sks; let ghost pp = path(lf(l), g); proof { if member(m0, id) { leaf_above(l.0 as int, g); path_lv(lf(l), g); lv_in(lf(l), g); } }",
       loops=[("while", None, """invariant m0 == *old(self), s0 == *old(sks), r0 == *old(csprng), twf(m0), member(m0, id), g == hg(m0), fits(g), sz(g) < 0x4000_0000, l == spot(m0, id), l.0 < m0.leaves@.len(), pp == path(lf(l), g), climbed(m0, *self, new_path, l, n), new_path.leaf_id == id, new_path.leaf_pk == NodeKey::ShareKey(pk), sound(*sks), more(s0, *sks), kept_rng(r0, *csprng), pub_of(child_sk) == child_pk,
             0 <= n <= pp.len(), pp.take(n) + path(ix(child_idx), g) == pp, ix(child_idx) < sz(g), inn(parent_idx) == par(ix(child_idx)), !skip(*self, ix(child_idx)), kf(*self, ix(child_idx)) == seq![child_pk], (ix(child_idx) == lf(l) || is_inner(ix(child_idx))), lf(l) != rt(g),
             honest_tree(m0) ==> honest_tree(*self), openable(m0) ==> open_but(*self, path(ix(child_idx), g)), spotless(m0, r0, pk, *self, *csprng, child_pk, new_path), ix(child_idx) == rt(g) ==> n == pp.len() && (openable(m0) ==> openable(*self))
             ensures climbed(m0, *self, new_path, l, pp.len() as int), ix(child_idx) == rt(g), openable(m0) ==> openable(*self) decreases g - lv(ix(child_idx))""",
             "proof { lv_in(ix(child_idx), g); }", "proof { lv_in(ix(child_idx), g); if ix(child_idx) == rt(g) { path_end(g); assert((pp.take(n) + path(rt(g), g)).len() == n); if openable(m0) { assert forall|x: nat| x < sz(hg(*self)) && is_inner(x) && !skip(*self, x) implies #[trigger] okn(*self, x) by { assert(!path(rt(g), g).contains(x)); } } } }")]),
]

DEC = r"""
pub uninterp spec fn public_id() -> MemberId;
impl MemberId { #[verifier::external_body] pub fn public() -> (r: MemberId) ensures r == public_id() { unimplemented!() } }
pub fn dup(o: Option<&ShareSecretKey>) -> (r: Option<ShareSecretKey>) ensures r is Some == o is Some, r is Some ==> r->0 == *o->0 { match o { Some(s) => Some(*s), None => None } }
pub open spec fn all_held(m: ShareKeyMap, ks: Seq<ShareKey>) -> bool { forall|k: ShareKey| #[trigger] ks.contains(k) ==> m.0@.dom().contains(k) }
/// the leaf a member decrypts from: its own, or that of the public
pub open spec fn own(t: BeeKem, id: MemberId) -> MemberId { if member(t, id) { id } else { public_id() } }
pub proof fn res_up(t: BeeKem, c: nat, j: nat, g: nat) requires c < sz(g), c != rt(g), skip(t, par(c)), res(t, c).contains(j) ensures res(t, par(c)).contains(j)
{ sib_in(c, g); let p = par(c); let a = res(t, lc(p)); let b = res(t, rc(p)); let s = a + b; kids(p); if c == lc(p) { let i = a.index_of(j); assert(s[i] == j); } else { let i = b.index_of(j); assert(s[i + a.len()] == j); } }
/// P11: a member that holds the keys of a node can open the secret above it
pub proof fn reach(t: BeeKem, c: nat, cur: nat, key: NodeKey, seen: Seq<TreeNodeIndex>, m: ShareKeyMap, g: nat) requires c < sz(g), c != rt(g), okn(t, par(c)), res(t, c).contains(cur), nk(key) == kf(t, cur), seen.len() > 0, seen.last() == node(cur), all_held(m, kf(t, cur))
    ensures can_open(at(t.inner_nodes@, par(c))->0.versions@[0], key, seen, m)
{ sib_in(c, g); let v = at(t.inner_nodes@, par(c))->0.versions@[0]; assert(res(t, lc(par(c))).contains(cur) || res(t, rc(par(c))).contains(cur)); assert(covers(t, v, cur)); }
"""
dec_fns = [
    BF("maybe_decrypt_parent_key", """pub fn maybe_decrypt_parent_key(&self, child_idx: TreeNodeIndex, child_node_key: &NodeKey, seen_idxs: &[TreeNodeIndex], child_sks: &mut ShareKeyMap) -> (r: Result<Option<ShareSecretKey>, CgkaError>) requires shape(*self), ix(child_idx) < sz(hg(*self)), ix(child_idx) != rt(hg(*self))
        ensures more(*old(child_sks), *final(child_sks)), skip(*self, par(ix(child_idx))) ==> r is Ok && r->Ok_0 is None, !skip(*self, par(ix(child_idx))) && r is Ok ==> r->Ok_0 is Some && final(child_sks).0@.dom().contains(at(self.inner_nodes@, par(ix(child_idx)))->0.versions@[0].pk), sound(*old(child_sks)) && honest_tree(*self) ==> sound(*final(child_sks)) && (r is Ok && r->Ok_0 is Some ==> pub_of(r->Ok_0->0) == at(self.inner_nodes@, par(ix(child_idx)))->0.versions@[0].pk)
           && (!skip(*self, par(ix(child_idx))) && can_open(at(self.inner_nodes@, par(ix(child_idx)))->0.versions@[0], *child_node_key, seen_idxs@, *old(child_sks)) ==> r is Ok)""", ["self", "child_idx", "child_node_key", "seen_idxs", "child_sks"],
       [("child_sks.get(&parent_pk).cloned()", "dup(child_sks.get(&parent_pk))"), ("let maybe_secret = match parent.node_key() {", "proof { assert(self.inner_nodes@[parent_idx.0 as int] is Some); if honest_tree(*self) { assert(node_real(self.inner_nodes@[parent_idx.0 as int])); } } let pk_there = parent.node_key(); let ghost pk0 = pk_there; let maybe_secret = match pk_there {", "must"), ("NodeKey::ShareKey(parent_pk) => {", "NodeKey::ShareKey(parent_pk) => { proof { assert(nk(pk0) == seq![parent_pk]); assert(pks(parent.versions@)[0] == parent_pk); assert(parent.versions@.len() == pks(parent.versions@).len()); assert(at(self.inner_nodes@, par(ix(child_idx)))->0.versions@[0].pk == parent_pk); }")],
       pre="proof { hs(*self); par_in(ix(child_idx), hg(*self)); par_up(ix(child_idx)); }"),
    BF("decrypt_tree_secret", """pub fn decrypt_tree_secret(&self, owner_id: MemberId, owner_sks: &mut ShareKeyMap) -> (r: Result<ShareSecretKey, CgkaError>) requires twf(*self)
        ensures more(*old(owner_sks), *final(owner_sks)), r is Ok ==> member(*self, own(*self, owner_id)) && !skip(*self, rt(hg(*self))), sound(*old(owner_sks)) && honest_tree(*self) ==> sound(*final(owner_sks)) && (r is Ok ==> pub_of(r->Ok_0) == root_pk(*self))
          && (member(*self, own(*self, owner_id)) && !skip(*self, rt(hg(*self))) && openable(*self) && all_held(*old(owner_sks), nk(self.leaves@[spot(*self, own(*self, owner_id)).0 as int]->0.pk)) ==> r is Ok)""", ["self", "owner_id", "owner_sks"],
       [("panic!($e)", "unreached::<()>()"), ("vec![child_idx]", "one_idx(child_idx)"), ("if !self.has_root_key()", "proof { assert(member(*self, me)); assert(seat(*self, me)); leaf_above(leaf_idx.0 as int, g); } if !self.has_root_key()"), ("let mut maybe_last_secret_decrypted = None;", "let mut maybe_last_secret_decrypted: Option<ShareSecretKey> = None; proof { named(child_idx); assert(seen_idxs@.last() == child_idx); }"),
        ("let mut parent_idx:", "let ghost mut cur = ix(child_idx); let ghost good = sound(*owner_sks) && honest_tree(*self); let ghost lk = kf(*self, cur); let ghost can = good && openable(*self) && all_held(*owner_sks, kf(*self, cur)); proof { par_in(cur, g); } let mut parent_idx:"),
        ("while !self.is_root(child_idx) {", "while !self.is_root(child_idx) { proof { assert(res(*self, cur) == seq![cur]); assert(res(*self, cur)[0] == cur); par_in(cur, g); }"),
        ("maybe_last_secret_decrypted = self.maybe_decrypt_parent_key(", "proof { par_up(ix(child_idx)); if can { assert(okn(*self, ix(parent_idx))); reach(*self, ix(child_idx), cur, child_node_key, seen_idxs@, *owner_sks, g); } } maybe_last_secret_decrypted = self.maybe_decrypt_parent_key("),
        ("child_node_key = self.node_key_for_index(child_idx)?;", "proof { cur = ix(child_idx); named(child_idx); assert(at(self.inner_nodes@, cur) is Some); assert(kf(*self, cur) == pks(at(self.inner_nodes@, cur)->0.versions@)); } child_node_key = self.node_key_for_index(child_idx)?; proof { if cur != rt(g) { par_in(cur, g); } }")],
       pre="proof { hs(*self); } let ghost g = hg(*self); let ghost me = own(*self, owner_id); let ghost s0 = *owner_sks;",
       loops=[("while", None, """invariant s0 == *old(owner_sks), twf(*self), g == hg(*self), fits(g), sz(g) < 0x4000_0000, cur == ix(child_idx), cur < sz(g), !skip(*self, rt(g)), !skip(*self, cur), seen_idxs@.len() > 0, seen_idxs@.last() == node(cur), nk(child_node_key) == kf(*self, cur), cur != rt(g) ==> ix(parent_idx) == par(cur), good == (sound(s0) && honest_tree(*self)), member(*self, me), me == own(*self, owner_id), lk == nk(self.leaves@[spot(*self, me).0 as int]->0.pk), can == (good && openable(*self) && all_held(s0, lk)), good ==> sound(*owner_sks), more(s0, *owner_sks), can ==> good && openable(*self) && all_held(*owner_sks, kf(*self, cur)),
              cur == rt(g) ==> maybe_last_secret_decrypted is Some && (good ==> pub_of(maybe_last_secret_decrypted->0) == root_pk(*self)) ensures ix(child_idx) == rt(g) decreases g - lv(cur)""", "proof { lv_in(cur, g); par_up(cur); } let ghost cur0 = cur;", "proof { lv_in(cur, g); lv_in(cur0, g); }"),
              ("while", None, """invariant twf(*self), g == hg(*self), fits(g), sz(g) < 0x4000_0000, !skip(*self, rt(g)), ix(child_idx) < sz(g), ix(child_idx) != rt(g), ix(parent_idx) == par(ix(child_idx)), ix(parent_idx) < sz(g), res(*self, ix(child_idx)).contains(cur), lv(ix(child_idx)) >= lv(cur) ensures !skip(*self, ix(parent_idx)) decreases g - lv(ix(child_idx))""",
               "proof { let c = ix(child_idx); lv_in(c, g); par_up(c); res_up(*self, c, cur, g); par_in(par(c), g); }", "proof { lv_in(ix(child_idx), g); }")]),
]

APP = r"""
#[verifier::external_body] pub fn set_of(v: &Vec<ShareKey>) -> (r: HashSet<ShareKey>) ensures r@ == v@.to_set() { unimplemented!() }
#[verifier::external_body] pub fn copy_node(o: &Option<InnerNode>) -> (r: InnerNode) requires *o is Some ensures r == o->0 { unimplemented!() }
pub open spec fn fits_in(t: BeeKem, ch: PathChange) -> bool { spot(t, ch.leaf_id).0 == ch.leaf_idx && ch.path@.len() == path(lf(spot(t, ch.leaf_id)), hg(t)).len() }
/// what is on the path of such a change, as its makers write it
pub open spec fn plain(t: BeeKem, ch: PathChange) -> bool { let p = path(lf(spot(t, ch.leaf_id)), hg(t)); forall|i: int| 0 <= i < ch.path@.len() ==> (#[trigger] ch.path@[i]).1.versions@.len() > 0 && (2 * ch.path@[i].0 + 1) as nat == p[i] }
pub open spec fn one_met(o: Option<InnerNode>, n: InnerNode, rem: Seq<ShareKey>, r: Option<InnerNode>) -> bool { r is Some && (o is None ==> r->0 == n) && (o is Some ==> met(o->0, n, rem.to_set(), r->0)) }
pub open spec fn leaf_met(a: BeeKem, b: BeeKem, ch: PathChange) -> bool { let l = spot(a, ch.leaf_id).0 as int; b.leaves@.len() == a.leaves@.len() && b.leaves@[l] is Some && b.leaves@[l]->0.id == ch.leaf_id && joined(b.leaves@[l]->0.pk, a.leaves@[l]->0.pk, ch.leaf_pk, ch.removed_keys@) && b.leaves@ == a.leaves@.update(l, b.leaves@[l]) }
/// the first `n` nodes of the change have been taken over
pub open spec fn took(a: BeeKem, b: BeeKem, ch: PathChange, n: int) -> bool {
    let p = path(lf(spot(a, ch.leaf_id)), hg(a));
    &&& shape(b) && hg(b) == hg(a) && b == (BeeKem { inner_nodes: b.inner_nodes, leaves: b.leaves, ..a }) && leaf_met(a, b, ch) && b.inner_nodes@.len() == a.inner_nodes@.len()
    &&& forall|i: int| 0 <= i < n ==> one_met(at(a.inner_nodes@, p[i]), (#[trigger] ch.path@[i]).1, ch.removed_keys@, at(b.inner_nodes@, p[i]))
    &&& forall|i: int| 0 <= i < a.inner_nodes@.len() && !p.take(n).contains((2 * i + 1) as nat) ==> #[trigger] b.inner_nodes@[i] == a.inner_nodes@[i]
}
/// P12: what a change does to a tree
pub open spec fn applied(a: BeeKem, b: BeeKem, ch: PathChange) -> bool {
    if !member(a, ch.leaf_id) { b == a } else if fits_in(a, ch) { took(a, b, ch, ch.path@.len() as int) }
    else { b == (BeeKem { inner_nodes: b.inner_nodes, leaves: b.leaves, ..a }) && leaf_met(a, b, ch) && b.inner_nodes@ == wiped(a.inner_nodes@, par(lf(spot(a, ch.leaf_id))), hg(a)) }
}
pub proof fn leaf_wf(a: BeeKem, b: BeeKem, id: MemberId) requires twf(a), member(a, id), shape(b), b == (BeeKem { inner_nodes: b.inner_nodes, leaves: b.leaves, ..a }), b.leaves@.len() == a.leaves@.len(), b.leaves@ == a.leaves@.update(spot(a, id).0 as int, b.leaves@[spot(a, id).0 as int]), b.leaves@[spot(a, id).0 as int] is Some, b.leaves@[spot(a, id).0 as int]->0.id == id ensures twf(b), hg(b) == hg(a)
{ hs(a); assert(tall(b, hg(a))) by { hs(b); } hgt(b, hg(a)); assert(seat(a, id)); assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) by { assert(member(a, x)); assert(seat(a, x)); } assert forall|k: int| 0 <= k < b.leaves@.len() implies #[trigger] owned(b, k) by { assert(owned(a, k)); } }
pub proof fn met_some(a: SecretStore, b: SecretStore, rem: Set<ShareKey>, r: SecretStore) requires met(a, b, rem, r), b.versions@.len() > 0 ensures r.versions@.len() > 0 {}
pub proof fn took_step(a: BeeKem, b: BeeKem, b2: BeeKem, ch: PathChange, n: int, r: InnerNode) requires twf(a), member(a, ch.leaf_id), fits_in(a, ch), plain(a, ch), took(a, b, ch, n), 0 <= n < ch.path@.len(), b2 == (BeeKem { inner_nodes: b2.inner_nodes, ..b }), b2.inner_nodes@ == b.inner_nodes@.update(ch.path@[n].0 as int, Some(r)), one_met(at(b.inner_nodes@, path(lf(spot(a, ch.leaf_id)), hg(a))[n]), ch.path@[n].1, ch.removed_keys@, Some(r)), r.versions@.len() > 0 ensures took(a, b2, ch, n + 1)
{
    hs(a); let g = hg(a); assert(seat(a, ch.leaf_id)); let l = spot(a, ch.leaf_id); leaf_above(l.0 as int, g); let p = path(lf(l), g); path_lv(lf(l), g); path_once(lf(l), g);
    assert(ch.path@[n].1.versions@.len() > 0); let y = p[n]; assert(is_inner(y) && y < sz(g)); set_shape(b, b2, y, r);
    assert(!p.take(n).contains(y)) by { if p.take(n).contains(y) { let j = p.take(n).index_of(y); assert(p[j] == p[n]); } } assert(b.inner_nodes@[y as int / 2] == a.inner_nodes@[y as int / 2]);
    assert forall|i: int| 0 <= i < n + 1 implies one_met(at(a.inner_nodes@, p[i]), (#[trigger] ch.path@[i]).1, ch.removed_keys@, at(b2.inner_nodes@, p[i])) by { if i < n { assert(p[i] != p[n]); assert(is_inner(p[i]) && p[i] < sz(g)); } }
    assert forall|i: int| 0 <= i < a.inner_nodes@.len() && !p.take(n + 1).contains((2 * i + 1) as nat) implies #[trigger] b2.inner_nodes@[i] == a.inner_nodes@[i] by { let z = (2 * i + 1) as nat; if p.take(n).contains(z) { let j = p.take(n).index_of(z); assert(p.take(n + 1)[j] == z); } if i == y as int / 2 { assert(p.take(n + 1)[n] == z); } assert(b.inner_nodes@[i] == a.inner_nodes@[i]); }
}
pub proof fn no_survivor(s: Seq<SecretStoreVersion>, x: Set<ShareKey>) requires forall|i: int| 0 <= i < s.len() ==> x.contains((#[trigger] s[i]).pk) ensures surviving(s, x).len() == 0 decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { assert(x.contains(s[s.len() - 1].pk)); assert forall|i: int| 0 <= i < s.drop_last().len() implies x.contains((#[trigger] s.drop_last()[i]).pk) by { assert(s.drop_last()[i] == s[i]); } no_survivor(s.drop_last(), x); } }
pub proof fn no_key_left(s: Seq<ShareKey>, r: Seq<ShareKey>) requires forall|i: int| 0 <= i < s.len() ==> r.contains(#[trigger] s[i]) ensures without(s, r).len() == 0 decreases s.len()
{ reveal(Seq::filter); if s.len() > 0 { assert(r.contains(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies r.contains(#[trigger] s.drop_last()[i]) by { assert(s.drop_last()[i] == s[i]); } no_key_left(s.drop_last(), r); } }
pub proof fn gathered(s: Inners, p: Seq<nat>, i: int) requires 0 <= i < p.len() ensures at(s, p[i]) is Some ==> forall|k: ShareKey| #[trigger] pks(at(s, p[i])->0.versions@).contains(k) ==> gather(s, p).contains(k) decreases p.len()
{ let a = gather(s, p.drop_last()); let o = at(s, p.last()); let b = match o { Some(n) => pks(n.versions@), None => seq![] }; let w = a + b; assert(gather(s, p) == w);
  if i < p.len() - 1 { gathered(s, p.drop_last(), i); assert(p.drop_last()[i] == p[i]); if at(s, p[i]) is Some { assert forall|k: ShareKey| #[trigger] pks(at(s, p[i])->0.versions@).contains(k) implies w.contains(k) by { let j = a.index_of(k); assert(w[j] == k); } } }
  else if o is Some { assert forall|k: ShareKey| #[trigger] pks(at(s, p[i])->0.versions@).contains(k) implies w.contains(k) by { let j = b.index_of(k); assert(w[a.len() + j] == k); } } }
pub open spec fn same_node(o: Option<InnerNode>, r: Option<InnerNode>) -> bool { o is Some == r is Some && (o is Some ==> o->0.versions@ == r->0.versions@) }
/// P12: on the tree it was made for, a change does what its maker did
pub proof fn follows(a: BeeKem, b: BeeKem, id: MemberId, pk: ShareKey, ch: PathChange, c: BeeKem) requires twf(a), member(a, id), turned(a, b, id, pk, ch), applied(a, c, ch)
    ensures plain(a, ch), fits_in(a, ch), c.leaves@ == b.leaves@, c.id_to_leaf_idx@ == b.id_to_leaf_idx@, c.next_leaf_idx == b.next_leaf_idx, c.tree_size == b.tree_size, c.inner_nodes@.len() == b.inner_nodes@.len(), forall|i: int| 0 <= i < b.inner_nodes@.len() ==> same_node(#[trigger] b.inner_nodes@[i], c.inner_nodes@[i])
{
    hs(a); let g = hg(a); assert(seat(a, id)); let l = spot(a, id); leaf_above(l.0 as int, g); let p = path(lf(l), g); path_lv(lf(l), g); path_once(lf(l), g); assert(p.take(p.len() as int) =~= p);
    assert forall|i: int| 0 <= i < ch.path@.len() implies (#[trigger] ch.path@[i]).1.versions@.len() > 0 && (2 * ch.path@[i].0 + 1) as nat == p[i] by { assert(entry(b, ch, p, i)); }
    let old = nk(a.leaves@[l.0 as int]->0.pk); let rem = ch.removed_keys@; let ga = gather(a.inner_nodes@, p);
    assert forall|i: int| 0 <= i < old.len() implies rem.contains(#[trigger] old[i]) by { assert(rem[i] == old[i]); }
    no_key_left(old, rem); let n = c.leaves@[l.0 as int]->0.pk; assert(nk(ch.leaf_pk) + without(old, rem) =~= seq![pk]);
    nk(n).to_multiset_ensures(); seq![pk].to_multiset_ensures(); assert(nk(n).len() == 1) by { same_len(nk(n), seq![pk]); } assert(nk(n)[0] == pk) by { same_len(nk(n), seq![pk]); assert(seq![pk].contains(nk(n)[0])) by { assert(nk(n).contains(nk(n)[0])); } let z = seq![pk].index_of(nk(n)[0]); }
    assert(n == NodeKey::ShareKey(pk)); assert(c.leaves@ =~= b.leaves@);
    assert forall|i: int| 0 <= i < b.inner_nodes@.len() implies same_node(#[trigger] b.inner_nodes@[i], c.inner_nodes@[i]) by {
        let y = (2 * i + 1) as nat;
        if p.contains(y) {
            let j = p.index_of(y); assert(entry(b, ch, p, j)); assert(one_met(at(a.inner_nodes@, p[j]), ch.path@[j].1, rem, at(c.inner_nodes@, p[j]))); let o = at(a.inner_nodes@, y);
            if o is Some {
                let x = rem.to_set(); let vs = o->0.versions@; gathered(a.inner_nodes@, p, j);
                assert forall|q: int| 0 <= q < vs.len() implies x.contains((#[trigger] vs[q]).pk) by { assert(pks(vs)[q] == vs[q].pk); assert(pks(vs).contains(vs[q].pk)); let z = ga.index_of(vs[q].pk); assert(rem[old.len() + z] == vs[q].pk); assert(rem.contains(vs[q].pk)); }
                no_survivor(vs, x); let r = c.inner_nodes@[i]->0.versions@; let nv = ch.path@[j].1.versions@; assert(surviving(vs, x) + nv =~= nv);
                r.to_multiset_ensures(); nv.to_multiset_ensures(); assert(r.len() == 1 && nv.len() == 1); assert(nv.to_multiset().count(r[0]) > 0) by { assert(r.contains(r[0])); } assert(nv.contains(r[0])); assert(r =~= nv);
            }
        } else { assert(b.inner_nodes@[i] == a.inner_nodes@[i]); assert(c.inner_nodes@[i] == a.inner_nodes@[i]); }
    }
}
"""
app_fns = [
    BF("path_length_for", "pub fn path_length_for(&self, idx: LeafNodeIndex) -> (r: usize) requires shape(*self), idx.0 < self.leaves@.len() ensures r == path(lf(idx), hg(*self)).len()", ["self", "idx"], [("treemath::direct_path($x).len()", "({ let d = direct_path($x); proof { assert(up(d@).len() == d@.len()); assert(up(d@) == path(lf(idx), hg(*self))); } d.len() })", "must")], pre="proof { hs(*self); let g = hg(*self); assert(ones(g, self.tree_size.0) && fits(g) && lf(idx) < sz(g)); }"),
    BF("is_valid_path", "pub fn is_valid_path(&self, new_path: &PathChange) -> (r: bool) requires twf(*self), member(*self, new_path.leaf_id) ensures r == fits_in(*self, *new_path)", ["self", "new_path"], pre="proof { assert(seat(*self, new_path.leaf_id)); hs(*self); }"),
    BF("leaf_with_outdated_path", "pub fn leaf_with_outdated_path(&self, new_path: &PathChange) -> (r: Option<LeafNodeIndex>) requires twf(*self) ensures r is Some == (member(*self, new_path.leaf_id) && !fits_in(*self, *new_path)), r is Some ==> r->0 == spot(*self, new_path.leaf_id)", ["self", "new_path"],
       [("*self.leaf_index_for_id(new_path.leaf_id).ok()?", "match self.leaf_index_for_id(new_path.leaf_id) { Ok(i) => *i, Err(_) => return None }", "must"), ("(!self.is_valid_path(new_path)).then_some(leaf_idx)", "if !self.is_valid_path(new_path) { Some(leaf_idx) } else { None }", "must")]),
    BF("apply_path", "pub fn apply_path(&mut self, new_path: &PathChange) requires twf(*old(self)), member(*old(self), new_path.leaf_id) && fits_in(*old(self), *new_path) ==> plain(*old(self), *new_path) ensures twf(*final(self)), hg(*final(self)) == hg(*old(self)), applied(*old(self), *final(self), *new_path)", ["self", "new_path"],
       [("panic!($e)", "return unreached()"), ("let Some(leaf) = self.leaf(leaf_idx) else {", "proof { assert(self.leaves@[leaf_idx.0 as int] is Some); } let Some(leaf) = self.leaf(leaf_idx) else {"), ("let new_node_key = leaf.pk.merge($x);", "let new_node_key = leaf.pk.merge($x); let ghost nkk = new_node_key;"), ("self.blank_path($x); return;", "proof { hgt(*self, g); leaf_above(leaf_idx.0 as int, g); } self.blank_path($x); proof { leaf_wf(m0, *self, new_path.leaf_id); } return;", "must"),
        ("self.insert_leaf_at(leaf_idx, new_path.leaf_id, old_leaf.pk.merge($x),);", "let nkey = old_leaf.pk.merge($x); self.insert_leaf_at(leaf_idx, new_path.leaf_id, nkey); proof { assert(tall(*self, g)); hgt(*self, g); assert(pp.take(0) =~= Seq::<nat>::empty()); assert(took(m0, *self, *new_path, 0)); }", "must"),
        ("let removed_keys_set: Set<ShareKey> = Set::from_iter(new_path.removed_keys.iter().copied());", "let removed_keys_set = set_of(&new_path.removed_keys);", "must"),
        ("for (idx, node) in &new_path.path {", "for n in 0..new_path.path.len() { let idx = &new_path.path[n].0; let node = &new_path.path[n].1; let ghost b0 = *self; proof { hs(b0); assert((2 * new_path.path@[n as int].0 + 1) as nat == pp[n as int]); assert(is_inner(pp[n as int]) && pp[n as int] < sz(g)); }", "must"),
        ("if let Some(current_node) = self.inner_node_mut(current_idx) { current_node.merge($x); } else", "if self.inner_node(current_idx).is_some() { let mut current_node = copy_node(self.inner_node(current_idx)); let ghost c0 = current_node; current_node.merge($x); proof { met_some(c0, *node, removed_keys_set@, current_node); assert(met(c0, *node, removed_keys_set@, current_node)); rr = current_node; } self.insert_inner_node_at(current_idx, current_node); } else", "must"),
        ("self.insert_inner_node_at(current_idx, node.clone());", "proof { rr = *node; } self.insert_inner_node_at(current_idx, node.clone());", "must")],
       pre="proof { hs(*self); if member(*self, new_path.leaf_id) { assert(seat(*self, new_path.leaf_id)); leaf_above(spot(*self, new_path.leaf_id).0 as int, hg(*self)); path_lv(lf(spot(*self, new_path.leaf_id)), hg(*self)); } } let ghost m0 = *self; let ghost g = hg(m0); let ghost pp = path(lf(spot(m0, new_path.leaf_id)), g); let ghost mut rr: InnerNode = arbitrary();",
       loops=[("for", "it", "invariant m0 == *old(self), twf(m0), member(m0, new_path.leaf_id), fits_in(m0, *new_path), plain(m0, *new_path), g == hg(m0), pp == path(lf(spot(m0, new_path.leaf_id)), g), pp.len() == new_path.path@.len(), (forall|i: int| 0 <= i < pp.len() ==> (#[trigger] pp[i]) < sz(g) && is_inner(pp[i])), sz(g) == 2 * rt(g) + 1, removed_keys_set@ == new_path.removed_keys@.to_set(), took(m0, *self, *new_path, n as int), n == new_path.path@.len() ==> took(m0, *self, *new_path, new_path.path@.len() as int)",
               "", "proof { let o = at(b0.inner_nodes@, pp[n as int]); assert(new_path.path@[n as int].0 as int == pp[n as int] as int / 2); if o is Some { assert(met(o->0, new_path.path@[n as int].1, removed_keys_set@, rr)); } else { assert(rr == new_path.path@[n as int].1); } assert(one_met(o, new_path.path@[n as int].1, new_path.removed_keys@, Some(rr))); took_step(m0, b0, *self, *new_path, n as int, rr); }")], post="proof { leaf_wf(m0, *self, new_path.leaf_id); }"),
]

SORT = r"""
#[verifier::external_body] pub fn list_pairs(s: HashSet<(MemberId, u32)>) -> (r: Vec<(MemberId, u32)>) ensures forall|e: (MemberId, u32)| #[trigger] r@.contains(e) == s@.contains(e) { unimplemented!() }
#[verifier::external_body] pub fn copy_leaf(o: &Option<LeafNode>) -> (r: Option<LeafNode>) ensures r == *o { unimplemented!() }
pub uninterp spec fn ile(a: MemberId, b: MemberId) -> bool;
/// std: Ord
pub mod ax_ile { use super::*; pub broadcast axiom fn anti(a: MemberId, b: MemberId) ensures #[trigger] ile(a, b) && #[trigger] ile(b, a) ==> a == b; }
pub open spec fn by_id(s: Seq<LeafNode>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ile((#[trigger] s[i]).id, (#[trigger] s[j]).id) }
#[verifier::external_body] pub fn sort_leaves(v: &mut Vec<LeafNode>) ensures final(v)@.to_multiset() == old(v)@.to_multiset(), final(v)@.len() == old(v)@.len(), by_id(final(v)@) { unimplemented!() }
pub type Gone = Seq<(MemberId, u32)>;
pub open spec fn hit_by(r: Gone, n: int, g: nat, y: nat) -> bool { exists|k: int| 0 <= k < n && #[trigger] above(r[k].1 as int, g, y) }
/// the inner nodes with the paths of removed leaves gone
pub open spec fn hit(s: Inners, r: Gone, n: int, g: nat) -> Inners { Seq::new(s.len(), |i: int| if hit_by(r, n, g, (2 * i + 1) as nat) { None } else { s[i] }) }
pub open spec fn dropped(t: BeeKem, r: Gone, n: int, id: MemberId) -> bool { exists|k: int| 0 <= k < n && (#[trigger] r[k]).0 == id && !member(t, id) }
/// the position from which leaves are put in order: below it none of the added members sits
pub open spec fn cut(s: Seq<Option<LeafNode>>, a: Set<MemberId>, n: nat) -> nat decreases n { if n == 0 || (forall|id: MemberId| !(#[trigger] a.contains(id))) { n } else { cut(s, if s[n - 1] is Some { a.remove(s[n - 1]->0.id) } else { a }, (n - 1) as nat) } }
pub open spec fn listed(s: Seq<Option<LeafNode>>, n: int, to: int) -> Seq<LeafNode> decreases to - n { if n >= to { seq![] } else { match s[n] { Some(l) => listed(s, n + 1, to).push(l), None => listed(s, n + 1, to) } } }
pub open spec fn laid(s: Seq<Option<LeafNode>>, p: int, q: Seq<LeafNode>, j: int) -> Seq<Option<LeafNode>> { Seq::new(s.len(), |i: int| if i < p { s[i] } else if i < p + j { Some(q[i - p]) } else { None }) }
pub open spec fn mapped(m: Map<MemberId, LeafNodeIndex>, p: int, q: Seq<LeafNode>, j: int) -> Map<MemberId, LeafNodeIndex> decreases j { if j <= 0 { m } else { mapped(m, p, q, j - 1).insert(q[j - 1].id, LeafNodeIndex((p + j - 1) as u32)) } }
pub proof fn trim_again(s: Inners, from: int, l: int, to: int, g: nat) requires 0 <= from <= l < to, l <= rt(g), g > 0 ensures wiped(trimmed(s, from, to, g), par((2 * l) as nat), g) == trimmed(s, from, to, g)
{ leaf_above(l, g); let x = par((2 * l) as nat); let a = trimmed(s, from, to, g); let c = wiped(a, x, g); assert forall|i: int| 0 <= i < s.len() implies #[trigger] c[i] == a[i] by { let y = (2 * i + 1) as nat; assert(above(l, g, y) <==> on(x, g, y)); if above(l, g, y) { assert(over(from, to, g, y)); } } assert(c =~= a); }
pub proof fn trim_none(s: Inners, to: int, g: nat) ensures trimmed(s, to, to, g) == s { assert(trimmed(s, to, to, g) =~= s); }
pub proof fn hit_step(s: Inners, r: Gone, n: int, g: nat) requires 0 <= n < r.len(), r[n].1 <= rt(g), g > 0 ensures wiped(hit(s, r, n, g), par((2 * r[n].1) as nat), g) == hit(s, r, n + 1, g)
{
    let l = r[n].1 as int; leaf_above(l, g); let x = par((2 * l) as nat); let a = wiped(hit(s, r, n, g), x, g); let b = hit(s, r, n + 1, g);
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] a[i] == b[i] by { let y = (2 * i + 1) as nat; assert(above(l, g, y) <==> on(x, g, y)); if above(l, g, y) { assert(above(r[n].1 as int, g, y)); assert(hit_by(r, n + 1, g, y)); }
        if hit_by(r, n, g, y) { let k = choose|k: int| 0 <= k < n && #[trigger] above(r[k].1 as int, g, y); assert(hit_by(r, n + 1, g, y)) by { assert(0 <= k < n + 1 && above(r[k].1 as int, g, y)); } }
        if hit_by(r, n + 1, g, y) && !above(l, g, y) { let k = choose|k: int| 0 <= k < n + 1 && #[trigger] above(r[k].1 as int, g, y); assert(k < n); } }
    assert(a =~= b);
}
pub proof fn hit_none(s: Inners, r: Gone, g: nat) ensures hit(s, r, 0, g) == s { assert(hit(s, r, 0, g) =~= s); }
pub proof fn hit_kept(s: Inners, r: Gone, n: int, g: nat) requires kept(s) ensures kept(hit(s, r, n, g)) { let t = hit(s, r, n, g); assert forall|i: int| 0 <= i < t.len() && (#[trigger] t[i]) is Some implies t[i]->0.versions@.len() > 0 by { assert(t[i] == s[i]); } }
pub proof fn listed_is(s: Seq<Option<LeafNode>>, n: int, to: int) requires 0 <= n <= to <= s.len() ensures listed(s, n, to).len() <= to - n, forall|x: LeafNode| #[trigger] listed(s, n, to).contains(x) <==> (exists|i: int| n <= i < to && #[trigger] s[i] == Some(x)) decreases to - n
{
    if n < to { listed_is(s, n + 1, to); let a = listed(s, n + 1, to);
        assert forall|x: LeafNode| #[trigger] listed(s, n, to).contains(x) <==> (exists|i: int| n <= i < to && #[trigger] s[i] == Some(x)) by {
            if s[n] is Some { let l = s[n]->0; let b = a.push(l); if b.contains(x) { let k = b.index_of(x); if k < a.len() { assert(a[k] == x); assert(a.contains(x)); let i = choose|i: int| n + 1 <= i < to && #[trigger] s[i] == Some(x); assert(n <= i < to && s[i] == Some(x)); } else { assert(s[n] == Some(x)); } }
                if exists|i: int| n <= i < to && #[trigger] s[i] == Some(x) { let i = choose|i: int| n <= i < to && #[trigger] s[i] == Some(x); if i == n { assert(b[a.len() as int] == x); } else { assert(n + 1 <= i < to && s[i] == Some(x)); assert(a.contains(x)); let k = a.index_of(x); assert(b[k] == x); } } }
            else { if a.contains(x) { let i = choose|i: int| n + 1 <= i < to && #[trigger] s[i] == Some(x); assert(n <= i < to && s[i] == Some(x)); } if exists|i: int| n <= i < to && #[trigger] s[i] == Some(x) { let i = choose|i: int| n <= i < to && #[trigger] s[i] == Some(x); assert(i != n); assert(n + 1 <= i < to && s[i] == Some(x)); assert(a.contains(x)); } } } }
    else { assert forall|x: LeafNode| #[trigger] listed(s, n, to).contains(x) <==> (exists|i: int| n <= i < to && #[trigger] s[i] == Some(x)) by {} }
}
/// members sit once, so no two of the listed leaves are of the same member
pub open spec fn apart(s: Seq<LeafNode>) -> bool { forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).id == (#[trigger] s[j]).id ==> i == j }
pub proof fn listed_apart(t: BeeKem, n: int, to: int) requires placed(t), 0 <= n <= to <= t.leaves@.len() ensures apart(listed(t.leaves@, n, to)) decreases to - n
{
    if n < to { listed_apart(t, n + 1, to); let a = listed(t.leaves@, n + 1, to); listed_is(t.leaves@, n + 1, to); let b = listed(t.leaves@, n, to);
        assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && (#[trigger] b[i]).id == (#[trigger] b[j]).id implies i == j by { if t.leaves@[n] is Some {
            if i != j && (i == a.len() || j == a.len()) { let k = if i < a.len() { i } else { j }; let x = a[k]; assert(a.contains(x)); let m = choose|m: int| n + 1 <= m < to && #[trigger] t.leaves@[m] == Some(x); assert(owned(t, m)); assert(owned(t, n)); } } } }
}
pub proof fn perm_apart(a: Seq<LeafNode>, b: Seq<LeafNode>) requires a.to_multiset() == b.to_multiset(), apart(a) ensures apart(b), a.len() == b.len(), forall|x: LeafNode| #[trigger] a.contains(x) == b.contains(x)
{
    a.to_multiset_ensures(); b.to_multiset_ensures();
    assert forall|x: LeafNode| #[trigger] a.contains(x) == b.contains(x) by { assert(a.contains(x) <==> a.to_multiset().count(x) > 0); assert(b.contains(x) <==> b.to_multiset().count(x) > 0); }
    assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && (#[trigger] b[i]).id == (#[trigger] b[j]).id implies i == j by {
        assert(b.contains(b[i]) && b.contains(b[j])); assert(a.contains(b[i]) && a.contains(b[j])); let p = a.index_of(b[i]); let q = a.index_of(b[j]); assert(a[p].id == a[q].id); assert(p == q); assert(b[i] == b[j]);
        if i != j { twice(b, i, j); twice_not(a, b[i]); } }
}
pub proof fn twice(s: Seq<LeafNode>, i: int, j: int) requires 0 <= i < s.len(), 0 <= j < s.len(), i != j, s[i] == s[j] ensures s.to_multiset().count(s[i]) >= 2
{ let k = if i > j { i } else { j }; let m = if i > j { j } else { i }; s.to_multiset_ensures(); let r = s.remove(k); r.to_multiset_ensures(); assert(r[m] == s[m]); assert(r.contains(s[i])); assert(s.to_multiset().remove(s[k]) == r.to_multiset()) ; assert(r.to_multiset().count(s[i]) >= 1); }
pub proof fn twice_not(s: Seq<LeafNode>, x: LeafNode) requires apart(s), s.contains(x) ensures s.to_multiset().count(x) <= 1
{ let k = s.index_of(x); s.to_multiset_ensures(); let r = s.remove(k); r.to_multiset_ensures(); assert(!r.contains(x)) by { if r.contains(x) { let m = r.index_of(x); if m < k { assert(s[m] == x); } else { assert(s[m + 1] == x); } } } assert(s.to_multiset().remove(s[k]) == r.to_multiset()); assert(r.to_multiset().count(x) == 0); }
pub proof fn mapped_is(m: Map<MemberId, LeafNodeIndex>, p: int, q: Seq<LeafNode>, j: int) requires 0 <= j <= q.len(), apart(q), 0 <= p, p + q.len() < 0x1_0000_0000
    ensures forall|i: int| 0 <= i < j ==> mapped(m, p, q, j).dom().contains((#[trigger] q[i]).id) && mapped(m, p, q, j)[q[i].id].0 == p + i, forall|id: MemberId| (forall|i: int| 0 <= i < j ==> (#[trigger] q[i]).id != id) ==> (#[trigger] mapped(m, p, q, j).dom().contains(id)) == m.dom().contains(id) && mapped(m, p, q, j)[id] == m[id] decreases j
{ if j > 0 { mapped_is(m, p, q, j - 1); let a = mapped(m, p, q, j - 1); let b = mapped(m, p, q, j); let z = q[j - 1].id;
    assert forall|i: int| 0 <= i < j implies b.dom().contains((#[trigger] q[i]).id) && b[q[i].id].0 == p + i by { if i < j - 1 { assert(q[i].id != z); assert(a.dom().contains(q[i].id)); } }
    assert forall|id: MemberId| (forall|i: int| 0 <= i < j ==> (#[trigger] q[i]).id != id) implies (#[trigger] b.dom().contains(id)) == m.dom().contains(id) && b[id] == m[id] by { assert(q[j - 1].id != id); assert(forall|i: int| 0 <= i < j - 1 ==> (#[trigger] q[i]).id != id); assert(a.dom().contains(id) == m.dom().contains(id)); assert(a[id] == m[id]); assert(b == a.insert(z, LeafNodeIndex((p + j - 1) as u32))); assert(b[id] == a[id]); } } else { assert(mapped(m, p, q, j) == m); } }
pub open spec fn settled(a: BeeKem, b: BeeKem, p: int, q: Seq<LeafNode>, r: Gone) -> bool {
    let to = a.next_leaf_idx.0 as int; let g = hg(a);
    &&& shape(b) && hg(b) == g && b.doc_id == a.doc_id && b.tree_size == a.tree_size && 0 <= p <= to && p + q.len() <= to && b.next_leaf_idx.0 == p + q.len()
    &&& b.leaves@ == laid(a.leaves@, p, q, q.len() as int) && b.id_to_leaf_idx@ == mapped(a.id_to_leaf_idx@, p, q, q.len() as int)
    &&& b.inner_nodes@ == trimmed(hit(a.inner_nodes@, r, r.len() as int, g), p, to, g)
    &&& q.to_multiset() == listed(a.leaves@, p, to).to_multiset() && by_id(q)
}
pub proof fn settled_ok(a: BeeKem, b: BeeKem, p: int, q: Seq<LeafNode>, r: Gone) requires twf(a), settled(a, b, p, q, r) ensures twf(b), names(b) =~= names(a)
{
    hs(a); let to = a.next_leaf_idx.0 as int; listed_apart(a, p, to); listed_is(a.leaves@, p, to); perm_apart(listed(a.leaves@, p, to), q); mapped_is(a.id_to_leaf_idx@, p, q, q.len() as int);
    assert forall|i: int| 0 <= i < q.len() implies p <= a.id_to_leaf_idx@[(#[trigger] q[i]).id].0 && member(a, q[i].id) by { assert(q.contains(q[i])); assert(listed(a.leaves@, p, to).contains(q[i])); let k = choose|k: int| p <= k < to && #[trigger] a.leaves@[k] == Some(q[i]); assert(owned(a, k)); }
    let lb = laid(a.leaves@, p, q, q.len() as int); assert forall|i: int| 0 <= i < q.len() implies #[trigger] lb[p + i] == Some(q[i]) by {}
    assert forall|x: MemberId| #[trigger] member(b, x) implies seat(b, x) && member(a, x) by { if exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == x { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == x; assert(b.id_to_leaf_idx@[x].0 == p + i); assert(b.leaves@[p + i] == lb[p + i]); } else { assert(mapped(a.id_to_leaf_idx@, p, q, q.len() as int).dom().contains(x) == a.id_to_leaf_idx@.dom().contains(x)); assert(member(a, x)); assert(seat(a, x)); let k = a.id_to_leaf_idx@[x].0 as int; if k >= p { let l = a.leaves@[k]->0; assert(listed(a.leaves@, p, to).contains(l)); assert(q.contains(l)); let z = q.index_of(l); assert(q[z].id == x); } } }
    assert forall|x: MemberId| #[trigger] member(a, x) implies member(b, x) by { if exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == x { let i = choose|i: int| 0 <= i < q.len() && (#[trigger] q[i]).id == x; } else { assert(mapped(a.id_to_leaf_idx@, p, q, q.len() as int).dom().contains(x) == a.id_to_leaf_idx@.dom().contains(x)); } }
    assert forall|x: MemberId| names(a).contains(x) == names(b).contains(x) by { assert(member(a, x) == member(b, x)); }
    assert forall|k: int| 0 <= k < b.leaves@.len() implies #[trigger] owned(b, k) by { if k < p { assert(owned(a, k)); if a.leaves@[k] is Some { let x = a.leaves@[k]->0.id; assert(forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).id != x); assert(mapped(a.id_to_leaf_idx@, p, q, q.len() as int).dom().contains(x)); } } else if k < p + q.len() { assert(b.leaves@[p + (k - p)] == Some(q[k - p])); assert(q[k - p].id == b.leaves@[k]->0.id); } else { assert(b.leaves@[k] is None); } }
    assert(placed(b)) by { assert forall|x: MemberId| #[trigger] b.id_to_leaf_idx@.dom().contains(x) implies seat(b, x) by { assert(member(b, x)); } }
}
/// a sequence in order is fixed by what is in it
pub proof fn one_order(a: Seq<LeafNode>, b: Seq<LeafNode>) requires a.to_multiset() == b.to_multiset(), apart(a), by_id(a), by_id(b) ensures a == b decreases a.len()
{
    broadcast use ax_ile::anti; perm_apart(a, b);
    if a.len() > 0 {
        let x = a.last(); let y = b.last(); assert(a.contains(x) && b.contains(y)); assert(b.contains(x) && a.contains(y)); let i = b.index_of(x); let j = a.index_of(y);
        assert(x == y) by { if i != b.len() - 1 { assert(ile(b[i].id, b[b.len() - 1].id)); if j != a.len() - 1 { assert(ile(a[j].id, a[a.len() - 1].id)); assert(x.id == y.id); assert(b[i].id == b[b.len() - 1].id); } } }
        a.to_multiset_ensures(); b.to_multiset_ensures(); let c = a.drop_last(); let d = b.drop_last(); assert(c =~= a.remove(a.len() - 1)); assert(d =~= b.remove(b.len() - 1)); assert(a.to_multiset().remove(a[a.len() - 1]) == c.to_multiset()); assert(b.to_multiset().remove(b[b.len() - 1]) == d.to_multiset());
        assert(apart(c)) by { assert forall|i: int, j: int| 0 <= i < c.len() && 0 <= j < c.len() && (#[trigger] c[i]).id == (#[trigger] c[j]).id implies i == j by { assert(a[i].id == a[j].id); } }
        assert(by_id(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies ile((#[trigger] c[i]).id, (#[trigger] c[j]).id) by { assert(ile(a[i].id, a[j].id)); } } assert(by_id(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies ile((#[trigger] d[i]).id, (#[trigger] d[j]).id) by { assert(ile(b[i].id, b[j].id)); } }
        one_order(c, d); assert(a =~= c.push(x)); assert(b =~= d.push(y));
    } else { assert(a =~= b); }
}
pub open spec fn fell_out(t: BeeKem, r: Set<(MemberId, u32)>, id: MemberId) -> bool { (exists|i: u32| #[trigger] r.contains((id, i))) && !member(t, id) }
/// what is left of the added members once those removed at the same time are taken out
pub open spec fn arrived(t: BeeKem, add: Set<MemberId>, r: Set<(MemberId, u32)>) -> Set<MemberId> { add.filter(|id: MemberId| !fell_out(t, r, id)) }
/// P12: members agreed on, whatever the order in which the changes came in
pub open spec fn sorted_out(a: BeeKem, b: BeeKem, add: Set<MemberId>, r: Set<(MemberId, u32)>) -> bool {
    exists|q: Seq<LeafNode>, l: Gone| #[trigger] settled(a, b, cut(a.leaves@, arrived(a, add, r), a.next_leaf_idx.0 as nat) as int, q, l) && forall|e: (MemberId, u32)| #[trigger] l.contains(e) == r.contains(e)
}
pub proof fn hit_same(s: Inners, a: Gone, b: Gone, g: nat) requires forall|e: (MemberId, u32)| #[trigger] a.contains(e) == b.contains(e) ensures hit(s, a, a.len() as int, g) == hit(s, b, b.len() as int, g)
{
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] hit(s, a, a.len() as int, g)[i] == hit(s, b, b.len() as int, g)[i] by { let y = (2 * i + 1) as nat; hit_sub(a, b, g, y); hit_sub(b, a, g, y); } assert(hit(s, a, a.len() as int, g) =~= hit(s, b, b.len() as int, g)); }
pub proof fn hit_sub(a: Gone, b: Gone, g: nat, y: nat) requires forall|e: (MemberId, u32)| #[trigger] a.contains(e) == b.contains(e), hit_by(a, a.len() as int, g, y) || true ensures hit_by(a, a.len() as int, g, y) ==> hit_by(b, b.len() as int, g, y)
{ if hit_by(a, a.len() as int, g, y) { let k = choose|k: int| 0 <= k < a.len() && #[trigger] above(a[k].1 as int, g, y); assert(a.contains(a[k])); assert(b.contains(a[k])); let m = b.index_of(a[k]); assert(above(b[m].1 as int, g, y)); } }
pub open spec fn same_view(a: BeeKem, b: BeeKem) -> bool { a.doc_id == b.doc_id && a.next_leaf_idx == b.next_leaf_idx && a.leaves@ == b.leaves@ && a.inner_nodes@ == b.inner_nodes@ && a.tree_size == b.tree_size && a.id_to_leaf_idx@ == b.id_to_leaf_idx@ }
pub proof fn one_outcome(a: BeeKem, a2: BeeKem, b: BeeKem, b2: BeeKem, add: Set<MemberId>, r: Set<(MemberId, u32)>) requires twf(a), same_view(a, a2), sorted_out(a, b, add, r), sorted_out(a2, b2, add, r) ensures same_view(b, b2)
{
    hs(a); assert(tall(a2, hg(a))); hgt(a2, hg(a)); assert(arrived(a, add, r) =~= arrived(a2, add, r)) by { assert forall|id: MemberId| arrived(a, add, r).contains(id) == arrived(a2, add, r).contains(id) by { assert(member(a, id) == member(a2, id)); assert(fell_out(a, r, id) == fell_out(a2, r, id)); } }
    let p = cut(a.leaves@, arrived(a, add, r), a.next_leaf_idx.0 as nat) as int;
    let (q, l) = choose|q: Seq<LeafNode>, l: Gone| #[trigger] settled(a, b, p, q, l) && forall|e: (MemberId, u32)| #[trigger] l.contains(e) == r.contains(e);
    let (q2, l2) = choose|q: Seq<LeafNode>, l: Gone| #[trigger] settled(a2, b2, p, q, l) && forall|e: (MemberId, u32)| #[trigger] l.contains(e) == r.contains(e);
    listed_apart(a, p, a.next_leaf_idx.0 as int); perm_apart(listed(a.leaves@, p, a.next_leaf_idx.0 as int), q); one_order(q, q2);
    assert forall|e: (MemberId, u32)| #[trigger] l.contains(e) == l2.contains(e) by { assert(l.contains(e) == r.contains(e)); assert(l2.contains(e) == r.contains(e)); }
    hit_same(a.inner_nodes@, l, l2, hg(a));
}
pub proof fn laid_none(s: Seq<Option<LeafNode>>, p: int, q: Seq<LeafNode>) ensures laid(s, p, q, 0) == Seq::new(s.len(), |i: int| if i < p { s[i] } else { None }) { assert(laid(s, p, q, 0) =~= Seq::new(s.len(), |i: int| if i < p { s[i] } else { None })); }
pub open spec fn below_only(s: Seq<Option<LeafNode>>, p: int) -> Seq<Option<LeafNode>> { Seq::new(s.len(), |i: int| if i < p { s[i] } else { None }) }
"""
sort_fns = [
    BF("sort_leaves_and_blank_paths_for_concurrent_membership_changes", """pub fn sort_leaves_and_blank_paths_for_concurrent_membership_changes(&mut self, added_ids: HashSet<MemberId>, removed_ids: HashSet<(MemberId, u32)>)
        requires twf(*old(self)), old(self).next_leaf_idx.0 < 0x0800_0000, forall|e: (MemberId, u32)| #[trigger] removed_ids@.contains(e) ==> e.1 < old(self).leaves@.len()
        ensures twf(*final(self)), hg(*final(self)) == hg(*old(self)), names(*final(self)) =~= names(*old(self)), sorted_out(*old(self), *final(self), added_ids@, removed_ids@)""", ["self", "added_ids", "removed_ids"],
       [("for (id, idx) in removed_ids {", "for n in 0..rl.len() { let id = rl[n].0; let idx = rl[n].1; proof { assert(rl@.contains(rl@[n as int])); hit_step(m0.inner_nodes@, rl@, n as int, g); leaf_above(idx as int, g); }", "must"),
        ("added_ids.is_empty()", "no_members(&added_ids)", "must"), ("self.leaf(leaf_idx).clone()", "copy_leaf(self.leaf(leaf_idx))", "must"), ("leaves_to_sort.sort_by_key(|a| a.id);", "let ghost p = self.next_leaf_idx.0 as int; let ghost q0 = leaves_to_sort@; sort_leaves(&mut leaves_to_sort); let ghost q = leaves_to_sort@; proof { listed_is(m0.leaves@, p, to); assert(below_only(m0.leaves@, p) =~= laid(m0.leaves@, p, q, 0)); }", "must"),
        ("let mut leaves_to_sort = Vec::new();", "let mut leaves_to_sort: Vec<LeafNode> = Vec::new();", "must"), ("self.blank_leaf_and_path(leaf_idx);", "proof { trim_step(w, leaf_idx.0 as int, to, g); } self.blank_leaf_and_path(leaf_idx);"),
        ("while !no_members", "let ghost w = self.inner_nodes@; let ghost a1 = added_ids@; proof { trim_none(w, to, g); assert(self.leaves@ =~= below_only(m0.leaves@, to)) by { assert forall|i: int| 0 <= i < m0.leaves@.len() implies #[trigger] m0.leaves@[i] == below_only(m0.leaves@, to)[i] by { assert(owned(m0, i)); } } } while !no_members")],
       pre="let mut added_ids = added_ids; proof { hs(*self); } let ghost m0 = *self; let ghost g = hg(m0); let ghost to = m0.next_leaf_idx.0 as int; let ghost add0 = added_ids@; let ghost rem0 = removed_ids@; let rl = list_pairs(removed_ids); proof { hit_none(m0.inner_nodes@, rl@, g); }",
       loops=[("for", "it", "invariant m0 == *old(self), twf(m0), g == hg(m0), fits(g), g > 0, tall(m0, g), sz(g) < 0x4000_0000, shape(*self), hg(*self) == g, tall(*self, g), *self == (BeeKem { inner_nodes: self.inner_nodes, ..m0 }), self.inner_nodes@ == hit(m0.inner_nodes@, rl@, n as int, g), (forall|e: (MemberId, u32)| #[trigger] rl@.contains(e) ==> e.1 < m0.leaves@.len()), (forall|id: MemberId| #[trigger] added_ids@.contains(id) <==> add0.contains(id) && !dropped(m0, rl@, n as int, id)), n == rl@.len() ==> self.inner_nodes@ == hit(m0.inner_nodes@, rl@, rl@.len() as int, g) && (forall|id: MemberId| #[trigger] added_ids@.contains(id) <==> add0.contains(id) && !dropped(m0, rl@, rl@.len() as int, id))", "let ghost d0 = added_ids@;",
               "proof { hgt(*self, g); assert forall|x: MemberId| #[trigger] added_ids@.contains(x) <==> add0.contains(x) && !dropped(m0, rl@, n as int + 1, x) by { assert(rl@[n as int].0 == id); if dropped(m0, rl@, n as int, x) { let k = choose|k: int| 0 <= k < n && (#[trigger] rl@[k]).0 == x && !member(m0, x); assert(rl@[k].0 == x); } if dropped(m0, rl@, n as int + 1, x) { let k = choose|k: int| 0 <= k < n + 1 && (#[trigger] rl@[k]).0 == x && !member(m0, x); if k < n { assert(dropped(m0, rl@, n as int, x)); } } assert(d0.contains(x) <==> add0.contains(x) && !dropped(m0, rl@, n as int, x)); } }"),
              ("while", None, "invariant twf(m0), g == hg(m0), fits(g), g > 0, tall(m0, g), sz(g) < 0x4000_0000, to == m0.next_leaf_idx.0, shape(*self), hg(*self) == g, tall(*self, g), *self == (BeeKem { inner_nodes: self.inner_nodes, leaves: self.leaves, next_leaf_idx: self.next_leaf_idx, ..m0 }), self.next_leaf_idx.0 <= to, self.inner_nodes@ == trimmed(w, self.next_leaf_idx.0 as int, to, g), self.leaves@ == below_only(m0.leaves@, self.next_leaf_idx.0 as int), leaves_to_sort@ == listed(m0.leaves@, self.next_leaf_idx.0 as int, to), cut(m0.leaves@, added_ids@, self.next_leaf_idx.0 as nat) == cut(m0.leaves@, a1, to as nat) ensures self.next_leaf_idx.0 as nat == cut(m0.leaves@, a1, to as nat) decreases self.next_leaf_idx.0", "let ghost b0 = *self;", "proof { hgt(*self, g); assert(self.leaves@ =~= below_only(m0.leaves@, self.next_leaf_idx.0 as int)); }"),
              ("for", "it", "invariant twf(m0), g == hg(m0), fits(g), g > 0, tall(m0, g), sz(g) < 0x4000_0000, to == m0.next_leaf_idx.0, to < 0x0800_0000, it.seq() == q, shape(*self), hg(*self) == g, self.doc_id == m0.doc_id, self.tree_size == m0.tree_size, 0 <= p, p + q.len() <= to, self.next_leaf_idx.0 == p + it.index@, self.leaves@ == laid(m0.leaves@, p, q, it.index@ as int), self.inner_nodes@ == trimmed(w, p, to, g), self.id_to_leaf_idx@ == mapped(m0.id_to_leaf_idx@, p, q, it.index@ as int), it.index@ == it.seq().len() ==> self.next_leaf_idx.0 == p + q.len() && self.leaves@ == laid(m0.leaves@, p, q, q.len() as int) && self.id_to_leaf_idx@ == mapped(m0.id_to_leaf_idx@, p, q, q.len() as int)", "let ghost b0 = *self; proof { hs(b0); trim_again(w, p, p + it.index@, to, g); }",
               "proof { hs(*self); assert(tall(m0, g)); lg_size(self.tree_size.0, g); assert(ext(b0.leaves@, rt(g) + 1) =~= b0.leaves@); assert(ext(b0.inner_nodes@, rt(g)) =~= b0.inner_nodes@); assert(self.leaves@ =~= laid(m0.leaves@, p, q, it.index@ as int + 1)); }")],
       post="""proof { assert(settled(m0, *self, p, q, rl@)); settled_ok(m0, *self, p, q, rl@);
          assert(a1 =~= arrived(m0, add0, rem0)) by { assert forall|id: MemberId| #[trigger] a1.contains(id) == arrived(m0, add0, rem0).contains(id) by { if dropped(m0, rl@, rl@.len() as int, id) { let k = choose|k: int| 0 <= k < rl@.len() && (#[trigger] rl@[k]).0 == id && !member(m0, id); assert(rl@.contains(rl@[k])); assert(rem0.contains((id, rl@[k].1))); } if fell_out(m0, rem0, id) { let i = choose|i: u32| #[trigger] rem0.contains((id, i)); assert(rl@.contains((id, i))); let k = rl@.index_of((id, i)); assert(rl@[k].0 == id); } } } }"""),
]
tree = Unit("tree", core.std("ax_sharekey::key_model", "ax_memberid::key_model") + POS + PATHS + MATH + stubs(math_fns) + KEYS + LISTS + KEYM + STORE + STOREM + stubs(key_fns + store_fns) + TREE + TREEL + REM + RES + RES2 + ENC + DEC + APP, inner_sigs + rem_fns + res_fns + enc_fns + dec_fns + app_fns)
sort = Unit("tree_sort", core.std("ax_sharekey::key_model", "ax_memberid::key_model") + POS + PATHS + MATH + stubs(math_fns) + KEYS + LISTS + KEYM + STORE + STOREM + stubs(key_fns + store_fns) + TREE + TREEL + REM + SORT + stubs(inner_sigs + rem_fns), sort_fns)
