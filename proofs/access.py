"""P04: effective access."""
from vp.verus import Fn, Unit
from . import core

PRELUDE = core.std("ax_identifier::key_model") + core.ACCESS + core.IDS + r"""
#[verifier::external_body] pub struct Membered { x: u64 }
pub struct Agent { pub the_id: Identifier, pub mem: Option<Membered> }
impl Clone for Membered { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Clone for Agent { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl Agent {
    pub fn id(&self) -> (r: Identifier) ensures r == self.the_id { self.the_id }
    pub fn as_membered(&self) -> (r: Option<&Membered>) ensures r is Some == self.mem is Some, r is Some ==> *r->0 == self.mem->0 { self.mem.as_ref() }
}
pub struct Signed<P> { pub payload: P }
pub struct Delegation { pub delegate: Agent, pub can: Access }
impl<P> Signed<P> { pub fn payload(&self) -> (r: &P) ensures *r == self.payload { &self.payload } }
impl Delegation { pub fn can(&self) -> (r: Access) ensures r == self.can { self.can } }
pub type Dlg = Arc<Signed<Delegation>>;
/// HashMap<Identifier, NonEmpty<Arc<Signed<Delegation>>>>: only that its values can be walked matters here
#[verifier::external_body] pub struct Members { x: u64 }
#[verifier::external_body] pub struct Dlgs { x: u64 }
pub uninterp spec fn rows(m: Members) -> Seq<Dlgs>;
pub uninterp spec fn row(d: Dlgs) -> Seq<Dlg>;
impl Members { #[verifier::external_body] pub fn values(&self) -> (r: Vec<Dlgs>) ensures r@ == rows(*self) { unimplemented!() } }
impl Dlgs { #[verifier::external_body] pub fn iter(&self) -> (r: Vec<Dlg>) ensures r@ == row(*self) { unimplemented!() } }
/// direct members of a group or document at the time of the query
pub uninterp spec fn members_of(m: Membered) -> Members;
impl Membered { #[verifier::external_body] pub fn members(&self) -> (r: Members) ensures r == members_of(*self) { unimplemented!() } }
pub struct Group { pub the_id: Identifier, pub members: Members }
impl Group { pub fn id(&self) -> (r: Identifier) ensures r == self.the_id { self.the_id } }

pub open spec fn has_edge(m: Members, k: Agent, c: Access) -> bool {
    exists|i: int, j: int| 0 <= i < rows(m).len() && 0 <= j < row(rows(m)[i]).len() && (#[trigger] row(rows(m)[i])[j]).payload.delegate == k && row(rows(m)[i])[j].payload.can == c
}
pub open spec fn to_of(d: Dlg) -> Agent { d.payload.delegate }
pub open spec fn can_of(d: Dlg) -> Access { d.payload.can }
pub open spec fn kid(a: Agent, k: Agent, c: Access) -> bool { a.mem is Some && has_edge(members_of(a.mem->0), k, c) }
pub open spec fn min2(a: int, b: int) -> int { if a < b { a } else { b } }

/// a membership chain from the group: agents with the access of each delegation
pub open spec fn is_chain(g: Group, outside: Identifier, p: Seq<(Agent, Access)>) -> bool {
    p.len() > 0 && has_edge(g.members, p[0].0, p[0].1)
    && forall|i: int| 0 <= i < p.len() - 1 ==> kid((#[trigger] p[i]).0, p[i + 1].0, p[i + 1].1) && p[i].0.the_id != g.the_id && p[i].0.the_id != outside
}
pub open spec fn weakest(p: Seq<(Agent, Access)>) -> int decreases p.len() { if p.len() <= 1 { lvl(p[0].1) } else { min2(weakest(p.drop_last()), lvl(p.last().1)) } }
pub open spec fn chain_to(g: Group, outside: Identifier, a: Agent, l: int) -> bool {
    exists|p: Seq<(Agent, Access)>| #[trigger] is_chain(g, outside, p) && p.last().0 == a && weakest(p) == l
}
pub proof fn chain_extend(g: Group, outside: Identifier, a: Agent, l: int, k: Agent, c: Access)
    requires chain_to(g, outside, a, l), kid(a, k, c), a.the_id != g.the_id, a.the_id != outside
    ensures chain_to(g, outside, k, min2(l, lvl(c)))
{
    let p = choose|p: Seq<(Agent, Access)>| #[trigger] is_chain(g, outside, p) && p.last().0 == a && weakest(p) == l;
    let q = p.push((k, c));
    assert(q.drop_last() =~= p);
    assert forall|i: int| 0 <= i < q.len() - 1 implies kid((#[trigger] q[i]).0, q[i + 1].0, q[i + 1].1) && q[i].0.the_id != g.the_id && q[i].0.the_id != outside by {
        if i < p.len() - 1 { assert(q[i] == p[i]); assert(q[i + 1] == p[i + 1]); } else { assert(q[i] == p.last()); }
    }
    assert(q[0] == p[0]);
    assert(is_chain(g, outside, q));
}
pub proof fn chain_start(g: Group, outside: Identifier, k: Agent, c: Access)
    requires has_edge(g.members, k, c) ensures chain_to(g, outside, k, lvl(c))
{ let p = seq![(k, c)]; assert(is_chain(g, outside, p)); assert(p.last().0 == k); }

/// one agent value per identifier (a group first met as a person is the stale-agent limitation in DESIGN.md)
pub open spec fn one_agent_per_id(g: Group) -> bool {
    forall|o: Identifier, a: Agent, l: int, b: Agent, m: int| #[trigger] chain_to(g, o, a, l) && #[trigger] chain_to(g, o, b, m) && a.the_id == b.the_id ==> a == b
}
pub open spec fn covered(g: Group, caps: Map<Identifier, (Agent, Access)>, todo: Seq<(Agent, Access)>, k: Agent, l: int) -> bool {
    k.the_id == g.the_id || (caps.dom().contains(k.the_id) && lvl(caps[k.the_id].1) >= l)
    || exists|i: int| 0 <= i < todo.len() && (#[trigger] todo[i]).0.the_id == k.the_id && lvl(todo[i].1) >= l
}
pub open spec fn sound(g: Group, outside: Identifier, caps: Map<Identifier, (Agent, Access)>) -> bool {
    forall|id: Identifier| #[trigger] caps.dom().contains(id) ==> caps[id].0.the_id == id && id != g.the_id && chain_to(g, outside, caps[id].0, lvl(caps[id].1))
}
pub open spec fn todo_sound(g: Group, outside: Identifier, todo: Seq<(Agent, Access)>) -> bool { forall|i: int| 0 <= i < todo.len() ==> chain_to(g, outside, (#[trigger] todo[i]).0, lvl(todo[i].1)) }
pub open spec fn roots_covered(g: Group, caps: Map<Identifier, (Agent, Access)>, todo: Seq<(Agent, Access)>) -> bool {
    forall|k: Agent, c: Access| #[trigger] has_edge(g.members, k, c) ==> covered(g, caps, todo, k, lvl(c))
}
/// `skip`: the one agent whose members are just being pushed
pub open spec fn kids_covered(g: Group, outside: Identifier, caps: Map<Identifier, (Agent, Access)>, todo: Seq<(Agent, Access)>, skip: Option<Identifier>) -> bool {
    forall|id: Identifier, k: Agent, c: Access| caps.dom().contains(id) && id != outside && Some(id) != skip && #[trigger] kid(caps[id].0, k, c) ==> covered(g, caps, todo, k, min2(lvl(c), lvl(caps[id].1)))
}
/// the access found for everybody is at least that of any chain
pub proof fn complete(g: Group, outside: Identifier, caps: Map<Identifier, (Agent, Access)>, p: Seq<(Agent, Access)>)
    requires is_chain(g, outside, p), p.last().0.the_id != g.the_id, sound(g, outside, caps), one_agent_per_id(g),
        roots_covered(g, caps, seq![]), kids_covered(g, outside, caps, seq![], None)
    ensures caps.dom().contains(p.last().0.the_id), lvl(caps[p.last().0.the_id].1) >= weakest(p)
    decreases p.len()
{
    if p.len() == 1 { assert(has_edge(g.members, p[0].0, p[0].1)); assert(covered(g, caps, seq![], p[0].0, lvl(p[0].1))); }
    else {
        let q = p.drop_last();
        let n = q.len() - 1;
        assert(p[n] == q[n]);
        assert(kid(p[n].0, p[n + 1].0, p[n + 1].1));
        assert(is_chain(g, outside, q)) by { assert forall|i: int| 0 <= i < q.len() - 1 implies kid((#[trigger] q[i]).0, q[i + 1].0, q[i + 1].1) && q[i].0.the_id != g.the_id && q[i].0.the_id != outside by { assert(p[i] == q[i]); assert(p[i + 1] == q[i + 1]); } }
        complete(g, outside, caps, q);
        let a = q.last().0;
        assert(chain_to(g, outside, a, weakest(q)));
        assert(chain_to(g, outside, caps[a.the_id].0, lvl(caps[a.the_id].1)));
        assert(caps[a.the_id].0 == a);
        assert(kid(caps[a.the_id].0, p.last().0, p.last().1));
        assert(covered(g, caps, seq![], p.last().0, min2(lvl(p.last().1), lvl(caps[a.the_id].1))));
    }
}
"""
GP = "keyhive_core/src/principal/group.rs"
R = [(".dupe()", ".clone()")]
PRELUDE += r"""
pub proof fn todo_grows(g: Group, caps: Map<Identifier, (Agent, Access)>, a: Seq<(Agent, Access)>, b: Seq<(Agent, Access)>)
    requires a.len() <= b.len(), a =~= b.subrange(0, a.len() as int)
    ensures forall|k: Agent, l: int| #[trigger] covered(g, caps, a, k, l) ==> covered(g, caps, b, k, l)
{
    assert forall|k: Agent, l: int| #[trigger] covered(g, caps, a, k, l) implies covered(g, caps, b, k, l) by {
        if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.the_id == k.the_id && lvl(a[i].1) >= l {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0.the_id == k.the_id && lvl(a[i].1) >= l;
            assert(b[i] == a[i]);
        }
    }
}
"""
PRELUDE += r"""
pub open spec fn was(e: Seq<(Agent, Access)>, e1: Seq<(Agent, Access)>, x: (Agent, Access)) -> bool { e.len() > 0 && e[e.len() - 1] == x && e1 == e.subrange(0, e.len() - 1) }
pub proof fn popped(g: Group, outside: Identifier, caps: Map<Identifier, (Agent, Access)>, e1: Seq<(Agent, Access)>, agent: Agent, access: Access)
    ensures
        agent.the_id == g.the_id || (caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) ==>
            forall|e: Seq<(Agent, Access)>, k: Agent, l: int| was(e, e1, (agent, access)) && #[trigger] covered(g, caps, e, k, l) ==> covered(g, caps, e1, k, l),
        !(caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) ==>
            forall|e: Seq<(Agent, Access)>, k: Agent, l: int| was(e, e1, (agent, access)) && #[trigger] covered(g, caps, e, k, l) ==> covered(g, caps.insert(agent.the_id, (agent, access)), e1, k, l),
{
    let c2 = caps.insert(agent.the_id, (agent, access));
    assert forall|e: Seq<(Agent, Access)>, k: Agent, l: int| was(e, e1, (agent, access)) && #[trigger] covered(g, caps, e, k, l)
        implies covered(g, caps, e1, k, l) || (k.the_id == agent.the_id && lvl(access) >= l) by {
        if exists|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.the_id == k.the_id && lvl(e[i].1) >= l {
            let i = choose|i: int| 0 <= i < e.len() && (#[trigger] e[i]).0.the_id == k.the_id && lvl(e[i].1) >= l;
            if i < e.len() - 1 { assert(e1[i] == e[i]); }
        }
    }
    if !(caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) {
        assert forall|e: Seq<(Agent, Access)>, k: Agent, l: int| was(e, e1, (agent, access)) && #[trigger] covered(g, caps, e, k, l) implies covered(g, c2, e1, k, l) by {
            if covered(g, caps, e1, k, l) { if k.the_id != agent.the_id { assert(c2.dom().contains(k.the_id) == caps.dom().contains(k.the_id)); } }
        }
    }
}
"""
PRELUDE += r"""
pub type Caps = Map<Identifier, (Agent, Access)>;
pub type Todo = Seq<(Agent, Access)>;
#[verifier::opaque]
pub open spec fn inv(g: Group, o: Identifier, caps: Caps, todo: Todo, skip: Option<Identifier>) -> bool {
    one_agent_per_id(g) && sound(g, o, caps) && todo_sound(g, o, todo) && roots_covered(g, caps, todo) && kids_covered(g, o, caps, todo, skip)
}
/// the delegations of rows < i, and the first j of row i, are covered (through an agent of access `acc`)
#[verifier::opaque]
pub open spec fn rows_cov(g: Group, caps: Caps, todo: Todo, m: Members, acc: int, i: int, j: int) -> bool {
    forall|a: int, b: int| 0 <= a < rows(m).len() && 0 <= b < row(rows(m)[a]).len() && (a < i || (a == i && b < j)) ==>
        covered(g, caps, todo, (#[trigger] row(rows(m)[a])[b]).payload.delegate, min2(lvl(row(rows(m)[a])[b].payload.can), acc))
}
pub proof fn rows_start(g: Group, caps: Caps, todo: Todo, m: Members, acc: int) ensures rows_cov(g, caps, todo, m, acc, 0, 0) { reveal(rows_cov); }
pub proof fn rows_next(g: Group, caps: Caps, todo: Todo, m: Members, acc: int, i: int)
    requires 0 <= i < rows(m).len(), rows_cov(g, caps, todo, m, acc, i, row(rows(m)[i]).len() as int) ensures rows_cov(g, caps, todo, m, acc, i + 1, 0) { reveal(rows_cov); }
pub proof fn rows_push(g: Group, caps: Caps, todo: Todo, m: Members, acc: int, i: int, j: int, x: (Agent, Access))
    requires 0 <= i < rows(m).len(), 0 <= j < row(rows(m)[i]).len(), rows_cov(g, caps, todo, m, acc, i, j),
        x.0 == row(rows(m)[i])[j].payload.delegate, lvl(x.1) == min2(lvl(row(rows(m)[i])[j].payload.can), acc)
    ensures rows_cov(g, caps, todo.push(x), m, acc, i, j + 1)
{
    reveal(rows_cov); todo_grows(g, caps, todo, todo.push(x));
    assert forall|a: int, b: int| 0 <= a < rows(m).len() && 0 <= b < row(rows(m)[a]).len() && (a < i || (a == i && b < j + 1)) implies
        covered(g, caps, todo.push(x), (#[trigger] row(rows(m)[a])[b]).payload.delegate, min2(lvl(row(rows(m)[a])[b].payload.can), acc)) by {
        if a == i && b == j { assert(todo.push(x)[todo.len() as int] == x); }
        else { assert(covered(g, caps, todo, row(rows(m)[a])[b].payload.delegate, min2(lvl(row(rows(m)[a])[b].payload.can), acc))); }
    }
}
pub proof fn rows_all(g: Group, caps: Caps, todo: Todo, m: Members, acc: int)
    requires rows_cov(g, caps, todo, m, acc, rows(m).len() as int, 0)
    ensures forall|k: Agent, c: Access| #[trigger] has_edge(m, k, c) ==> covered(g, caps, todo, k, min2(lvl(c), acc))
{ reveal(rows_cov); }
pub open spec fn start_inv(g: Group, o: Identifier, caps: Caps, todo: Todo) -> bool { one_agent_per_id(g) && caps == Map::<Identifier, (Agent, Access)>::empty() && todo_sound(g, o, todo) }
pub proof fn start_push(g: Group, o: Identifier, caps: Caps, todo: Todo, i: int, j: int, x: (Agent, Access))
    requires start_inv(g, o, caps, todo), 0 <= i < rows(g.members).len(), 0 <= j < row(rows(g.members)[i]).len(), x.0 == row(rows(g.members)[i])[j].payload.delegate, x.1 == row(rows(g.members)[i])[j].payload.can,
        rows_cov(g, caps, todo, g.members, 4, i, j)
    ensures start_inv(g, o, caps, todo.push(x)), rows_cov(g, caps, todo.push(x), g.members, 4, i, j + 1)
{
    assert(has_edge(g.members, x.0, x.1)); chain_start(g, o, x.0, x.1);
    rows_push(g, caps, todo, g.members, 4, i, j, x);
}
pub proof fn start_done(g: Group, o: Identifier, caps: Caps, todo: Todo)
    requires start_inv(g, o, caps, todo), rows_cov(g, caps, todo, g.members, 4, rows(g.members).len() as int, 0)
    ensures inv(g, o, caps, todo, None)
{ reveal(inv); rows_all(g, caps, todo, g.members, 4); 
  assert(roots_covered(g, caps, todo)) by { assert forall|k: Agent, c: Access| #[trigger] has_edge(g.members, k, c) implies covered(g, caps, todo, k, lvl(c)) by { assert(min2(lvl(c), 4) == lvl(c)); } } }
pub proof fn pop_step(g: Group, o: Identifier, caps: Caps, e1: Todo, agent: Agent, access: Access)
    ensures
        agent.the_id == g.the_id || (caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) ==>
            forall|e: Todo| was(e, e1, (agent, access)) && #[trigger] inv(g, o, caps, e, None) ==> inv(g, o, caps, e1, None),
        agent.the_id != g.the_id && !(caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) ==>
            forall|e: Todo| was(e, e1, (agent, access)) && #[trigger] inv(g, o, caps, e, None) ==> inv(g, o, caps.insert(agent.the_id, (agent, access)), e1, Some(agent.the_id)) && chain_to(g, o, agent, lvl(access)),
{
    popped(g, o, caps, e1, agent, access);
    reveal(inv);
    let c2 = caps.insert(agent.the_id, (agent, access));
    if agent.the_id == g.the_id || (caps.dom().contains(agent.the_id) && lvl(caps[agent.the_id].1) >= lvl(access)) {
        assert forall|e: Todo| was(e, e1, (agent, access)) && #[trigger] inv(g, o, caps, e, None) implies inv(g, o, caps, e1, None) by {
            assert forall|i: int| 0 <= i < e1.len() implies chain_to(g, o, (#[trigger] e1[i]).0, lvl(e1[i].1)) by { assert(e1[i] == e[i]); }
            assert forall|k: Agent, c: Access| #[trigger] has_edge(g.members, k, c) implies covered(g, caps, e1, k, lvl(c)) by { assert(covered(g, caps, e, k, lvl(c))); }
            assert forall|id: Identifier, k: Agent, c: Access| caps.dom().contains(id) && id != o && #[trigger] kid(caps[id].0, k, c) implies covered(g, caps, e1, k, min2(lvl(c), lvl(caps[id].1))) by { assert(covered(g, caps, e, k, min2(lvl(c), lvl(caps[id].1)))); }
        }
    } else {
        assert forall|e: Todo| was(e, e1, (agent, access)) && #[trigger] inv(g, o, caps, e, None) implies inv(g, o, c2, e1, Some(agent.the_id)) && chain_to(g, o, agent, lvl(access)) by {
            let n = e.len() - 1;
            assert(e[n] == (agent, access));
            assert(chain_to(g, o, e[n].0, lvl(e[n].1)));
            assert forall|i: int| 0 <= i < e1.len() implies chain_to(g, o, (#[trigger] e1[i]).0, lvl(e1[i].1)) by { assert(e1[i] == e[i]); }
            assert forall|k: Agent, c: Access| #[trigger] has_edge(g.members, k, c) implies covered(g, c2, e1, k, lvl(c)) by { assert(covered(g, caps, e, k, lvl(c))); }
            assert forall|id: Identifier, k: Agent, c: Access| c2.dom().contains(id) && id != o && Some(id) != Some(agent.the_id) && #[trigger] kid(c2[id].0, k, c) implies covered(g, c2, e1, k, min2(lvl(c), lvl(c2[id].1))) by {
                assert(caps.dom().contains(id) && c2[id] == caps[id]); assert(kid(caps[id].0, k, c));
                assert(covered(g, caps, e, k, min2(lvl(c), lvl(caps[id].1))));
            }
            assert forall|id: Identifier| #[trigger] c2.dom().contains(id) implies c2[id].0.the_id == id && id != g.the_id && chain_to(g, o, c2[id].0, lvl(c2[id].1)) by { if id != agent.the_id { assert(caps.dom().contains(id)); } }
        }
    }
}
pub proof fn kid_push(g: Group, o: Identifier, caps: Caps, todo: Todo, agent: Agent, access: Access, i: int, j: int, x: (Agent, Access))
    requires inv(g, o, caps, todo, Some(agent.the_id)), chain_to(g, o, agent, lvl(access)), agent.mem is Some, agent.the_id != g.the_id, agent.the_id != o,
        0 <= i < rows(kids_of(agent)).len(), 0 <= j < row(rows(kids_of(agent))[i]).len(),
        x.0 == row(rows(kids_of(agent))[i])[j].payload.delegate, lvl(x.1) == min2(lvl(row(rows(kids_of(agent))[i])[j].payload.can), lvl(access)),
        rows_cov(g, caps, todo, kids_of(agent), lvl(access), i, j)
    ensures inv(g, o, caps, todo.push(x), Some(agent.the_id)), rows_cov(g, caps, todo.push(x), kids_of(agent), lvl(access), i, j + 1)
{
    let d = row(rows(kids_of(agent))[i])[j];
    assert(kid(agent, d.payload.delegate, d.payload.can));
    chain_extend(g, o, agent, lvl(access), to_of(d), can_of(d));
    assert(chain_to(g, o, x.0, lvl(x.1)));
    rows_push(g, caps, todo, kids_of(agent), lvl(access), i, j, x);
    todo_grows(g, caps, todo, todo.push(x));
    reveal(inv);
    assert forall|id: Identifier, k: Agent, c: Access| caps.dom().contains(id) && id != o && Some(id) != Some(agent.the_id) && #[trigger] kid(caps[id].0, k, c) implies covered(g, caps, todo.push(x), k, min2(lvl(c), lvl(caps[id].1))) by { assert(covered(g, caps, todo, k, min2(lvl(c), lvl(caps[id].1)))); }
    assert forall|k: Agent, c: Access| #[trigger] has_edge(g.members, k, c) implies covered(g, caps, todo.push(x), k, lvl(c)) by { assert(covered(g, caps, todo, k, lvl(c))); }
}
pub open spec fn kids_of(a: Agent) -> Members { members_of(a.mem->0) }
pub proof fn close_leaf(g: Group, o: Identifier, caps: Caps, todo: Todo, agent: Agent)
    requires inv(g, o, caps, todo, Some(agent.the_id)), caps.dom().contains(agent.the_id), caps[agent.the_id].0 == agent, agent.the_id == o || agent.mem is None
    ensures inv(g, o, caps, todo, None)
{ reveal(inv); }
pub proof fn close_kids(g: Group, o: Identifier, caps: Caps, todo: Todo, agent: Agent, access: Access)
    requires inv(g, o, caps, todo, Some(agent.the_id)), caps.dom().contains(agent.the_id), caps[agent.the_id] == (agent, access), agent.mem is Some,
        rows_cov(g, caps, todo, kids_of(agent), lvl(access), rows(kids_of(agent)).len() as int, 0)
    ensures inv(g, o, caps, todo, None)
{ reveal(inv); rows_all(g, caps, todo, kids_of(agent), lvl(access)); }
pub proof fn all_done(g: Group, o: Identifier, caps: Caps, todo: Todo)
    requires inv(g, o, caps, todo, None), todo.len() == 0
    ensures sound(g, o, caps), forall|p: Todo| #[trigger] is_chain(g, o, p) && p.last().0.the_id != g.the_id ==> caps.dom().contains(p.last().0.the_id) && lvl(caps[p.last().0.the_id].1) >= weakest(p)
{
    reveal(inv);
    assert(todo =~= seq![]);
    assert forall|p: Todo| #[trigger] is_chain(g, o, p) && p.last().0.the_id != g.the_id implies caps.dom().contains(p.last().0.the_id) && lvl(caps[p.last().0.the_id].1) >= weakest(p) by { complete(g, o, caps, p); }
}
/// the steps of the search that need no data from the code
pub open spec fn closings(g: Group, o: Identifier) -> bool {
    (forall|caps: Caps, todo: Todo, m: Members, acc: int| #[trigger] rows_cov(g, caps, todo, m, acc, 0, 0))
    && (forall|caps: Caps, todo: Todo| start_inv(g, o, caps, todo) && rows_cov(g, caps, todo, g.members, 4, rows(g.members).len() as int, 0) ==> #[trigger] inv(g, o, caps, todo, None))
    && (forall|caps: Caps, todo: Todo, id: Identifier| #[trigger] inv(g, o, caps, todo, Some(id)) && caps.dom().contains(id) && caps[id].0.the_id == id
            && (id == o || caps[id].0.mem is None || rows_cov(g, caps, todo, kids_of(caps[id].0), lvl(caps[id].1), rows(kids_of(caps[id].0)).len() as int, 0)) ==> inv(g, o, caps, todo, None))
    && (forall|caps: Caps, todo: Todo| #[trigger] inv(g, o, caps, todo, None) && todo.len() == 0 ==> sound(g, o, caps)
            && forall|p: Todo| #[trigger] is_chain(g, o, p) && p.last().0.the_id != g.the_id ==> caps.dom().contains(p.last().0.the_id) && lvl(caps[p.last().0.the_id].1) >= weakest(p))
}
pub proof fn facts(g: Group, o: Identifier) ensures closings(g, o)
{
    assert forall|caps: Caps, todo: Todo, m: Members, acc: int| #[trigger] rows_cov(g, caps, todo, m, acc, 0, 0) by { rows_start(g, caps, todo, m, acc); }
    assert forall|caps: Caps, todo: Todo| start_inv(g, o, caps, todo) && rows_cov(g, caps, todo, g.members, 4, rows(g.members).len() as int, 0) implies #[trigger] inv(g, o, caps, todo, None) by { start_done(g, o, caps, todo); }
    assert forall|caps: Caps, todo: Todo, id: Identifier| #[trigger] inv(g, o, caps, todo, Some(id)) && caps.dom().contains(id) && caps[id].0.the_id == id
            && (id == o || caps[id].0.mem is None || rows_cov(g, caps, todo, kids_of(caps[id].0), lvl(caps[id].1), rows(kids_of(caps[id].0)).len() as int, 0)) implies inv(g, o, caps, todo, None) by {
        if id == o || caps[id].0.mem is None { close_leaf(g, o, caps, todo, caps[id].0); } else { close_kids(g, o, caps, todo, caps[id].0, caps[id].1); }
    }
    assert forall|caps: Caps, todo: Todo| #[trigger] inv(g, o, caps, todo, None) && todo.len() == 0 implies sound(g, o, caps)
            && forall|p: Todo| #[trigger] is_chain(g, o, p) && p.last().0.the_id != g.the_id ==> caps.dom().contains(p.last().0.the_id) && lvl(caps[p.last().0.the_id].1) >= weakest(p) by { all_done(g, o, caps, todo); }
}
"""
ENS = """
        // nothing but what some chain gives
        forall|id: Identifier| #[trigger] caps@.dom().contains(id) ==> caps@[id].0.the_id == id && id != self.the_id && chain_to(*self, outside, caps@[id].0, lvl(caps@[id].1)),
        // at least what every chain gives
        forall|p: Seq<(Agent, Access)>| #[trigger] is_chain(*self, outside, p) && p.last().0.the_id != self.the_id ==> caps@.dom().contains(p.last().0.the_id) && lvl(caps@[p.last().0.the_id].1) >= weakest(p)"""
ROOT = "start_inv(*self, outside, caps@, explore@), "
KIDS = "closings(*self, outside), inv(*self, outside, caps@, explore@, Some(id)), chain_to(*self, outside, agent, lvl(access)), agent.mem == Some(*membered), id == agent.the_id, id != outside, id != self.the_id, caps@.dom().contains(id), caps@[id] == (agent, access), "
transitive_members = Fn(GP, "Group", "transitive_members_outside", """fn transitive_members_outside(&self, outside: Identifier) -> (caps: HashMap<Identifier, (Agent, Access)>)
    requires one_agent_per_id(*self)
    ensures""" + ENS,
    ["self", "outside"], R, pre="proof { facts(*self, outside); }", attrs="#[verifier::exec_allows_no_decreases_clause]", loops=[
    ("for", "it", f"invariant closings(*self, outside), {ROOT} it.seq() == rows(self.members), rows_cov(*self, caps@, explore@, self.members, 4, it.index@ as int, 0)", "let ghost i0 = it.index@ as int;", "proof { rows_next(*self, caps@, explore@, self.members, 4, i0); }"),
    ("for", "it2", f"invariant closings(*self, outside), {ROOT} 0 <= i0 < rows(self.members).len(), dlgs == rows(self.members)[i0], it2.seq() == row(dlgs), rows_cov(*self, caps@, explore@, self.members, 4, i0, it2.index@ as int)",
        "let ghost e0 = explore@;", "proof { start_push(*self, outside, caps@, e0, i0, it2.index@ as int, explore@.last()); assert(explore@ =~= e0.push(explore@.last())); }"),
    ("while", None, """invariant closings(*self, outside), inv(*self, outside, caps@, explore@, None)
        ensures sound(*self, outside, caps@), forall|p: Seq<(Agent, Access)>| #[trigger] is_chain(*self, outside, p) && p.last().0.the_id != self.the_id ==> caps@.dom().contains(p.last().0.the_id) && lvl(caps@[p.last().0.the_id].1) >= weakest(p)""",
        "proof { pop_step(*self, outside, caps@, explore@, agent, access); }"),
    ("for", "it", f"invariant {KIDS} it.seq() == rows(kids_of(agent)), rows_cov(*self, caps@, explore@, kids_of(agent), lvl(access), it.index@ as int, 0)", "let ghost i0 = it.index@ as int;", "proof { rows_next(*self, caps@, explore@, kids_of(agent), lvl(access), i0); }"),
    ("for", "it2", f"invariant {KIDS} 0 <= i0 < rows(kids_of(agent)).len(), dlgs == rows(kids_of(agent))[i0], it2.seq() == row(dlgs), rows_cov(*self, caps@, explore@, kids_of(agent), lvl(access), i0, it2.index@ as int)",
        "let ghost e0 = explore@;", "proof { kid_push(*self, outside, caps@, e0, agent, access, i0, it2.index@ as int, explore@.last()); assert(explore@ =~= e0.push(explore@.last())); }"),
    ], wrap="impl Group")
effective_access = Unit("effective_access", PRELUDE, [transitive_members])

# the queries on top of the search
DOC, MEM, KH = "keyhive_core/src/principal/document.rs", "keyhive_core/src/principal/membered.rs", "keyhive_core/src/keyhive.rs"
QPRE = core.std("ax_identifier::key_model") + core.ACCESS + core.IDS + r"""
#[verifier::external_body] pub struct Agent { x: u64 }
#[derive(Clone, Copy)] pub struct DocumentId(pub Identifier);
pub struct Signed<P> { pub payload: P }
pub struct Delegation { pub delegate: Agent, pub can: Access }
impl<P> Signed<P> { pub fn payload(&self) -> (r: &P) ensures *r == self.payload { &self.payload } }
pub type Dlg = Arc<Signed<Delegation>>;
pub type Caps = HashMap<Identifier, (Agent, Access)>;
pub open spec fn not_greater<F: Fn(&Dlg, &Dlg) -> Ordering>(f: F, a: Dlg, b: Dlg) -> bool { exists|o: Ordering| #[trigger] f.ensures((&a, &b), o) && o != Ordering::Greater }
/// std: NonEmpty
#[verifier::external_body] pub struct NonEmpty { x: u64 }
impl NonEmpty { pub uninterp spec fn view(&self) -> Seq<Dlg>;
    /// iter().max_by(f)
    #[verifier::external_body] pub fn max_by<F: Fn(&Dlg, &Dlg) -> Ordering>(&self, f: F) -> (r: Option<&Dlg>)
        requires forall|a: &Dlg, b: &Dlg| f.requires((a, b))
        ensures r is Some, self@.contains(*(r->0)), forall|i: int| 0 <= i < self@.len() ==> not_greater(f, #[trigger] self@[i], *(r->0)) { unimplemented!() } }
pub struct Group { pub the_id: GroupId, pub members: HashMap<Identifier, NonEmpty> }
pub struct Document { pub group: Group }
pub enum Membered { Group(GroupId, Group), Document(DocumentId, Document) }
/// what the search returns (contract of Group::transitive_members_outside, proved above)
pub uninterp spec fn found(g: Group, outside: Identifier) -> Map<Identifier, (Agent, Access)>;
impl Group { pub fn id(&self) -> (r: Identifier) ensures r == self.the_id.0 { self.the_id.0 }
    #[verifier::external_body] pub fn transitive_members_outside(&self, outside: Identifier) -> (r: Caps) ensures r@ == found(*self, outside) { unimplemented!() } }
pub struct AgentId(pub Identifier);
impl FromSpecImpl<AgentId> for Identifier { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(k: AgentId) -> Identifier { k.0 } }
impl From<AgentId> for Identifier { fn from(k: AgentId) -> Identifier { k.0 } }
pub open spec fn ident(m: Membered) -> Identifier { match m { Membered::Group(g, _) => g.0, Membered::Document(d, _) => d.0 } }
impl Membered { pub fn agent_id(&self) -> (r: AgentId) ensures r.0 == ident(*self) { match self { Membered::Group(g, _) => AgentId(g.0), Membered::Document(d, _) => AgentId(d.0) } } }
pub open spec fn grp(m: Membered) -> Group { match m { Membered::Group(_, g) => g, Membered::Document(_, d) => d.group } }
pub open spec fn can(d: Dlg) -> int { lvl(d.payload.can) }
/// the best of somebody's own delegations
pub open spec fn best(g: Group, id: Identifier, r: Option<Dlg>) -> bool {
    &&& r is Some == g.members@.dom().contains(id)
    &&& r is Some ==> g.members@[id]@.contains(r->0) && forall|i: int| 0 <= i < g.members@[id]@.len() ==> can(#[trigger] g.members@[id]@[i]) <= can(r->0) }
pub open spec fn deref(r: Option<&Dlg>) -> Option<Dlg> { match r { Some(d) => Some(*d), None => None } }
pub fn duped(r: Option<&Dlg>) -> (o: Option<Dlg>) ensures o == deref(r) { match r { Some(d) => Some(d.clone()), None => None } }
#[verifier::external_body] pub fn no_caps() -> (r: Caps) ensures r@ == Map::<Identifier, (Agent, Access)>::empty() { unimplemented!() }
pub struct Keyhive { pub x: u64 }
"""
QR = [(".lock()", ""), ("HashMap::new()", "no_caps()"), ("let locked = group;", "let locked = group;")]
group_tm = Fn(GP, "Group", "transitive_members", "pub fn transitive_members(&self) -> (r: Caps) ensures r@ == found(*self, self.the_id.0)", ["self"], QR, wrap="impl Group")
doc_tm = Fn(DOC, "Document", "transitive_members", "pub fn transitive_members(&self) -> (r: Caps) ensures r@ == found(self.group, self.group.the_id.0)", ["self"], QR, wrap="impl Document")
mem_tm = Fn(MEM, "Membered", "transitive_members", "pub fn transitive_members(&self) -> (r: Caps) ensures r@ == found(grp(*self), grp(*self).the_id.0)", ["self"], QR, wrap="impl Membered")
mem_tmo = Fn(MEM, "Membered", "transitive_members_outside", """pub fn transitive_members_outside(&self, outside: Identifier) -> (r: Caps)
    ensures ident(*self) == outside ==> r@ == Map::<Identifier, (Agent, Access)>::empty(), ident(*self) != outside ==> r@ == found(grp(*self), outside)""", ["self", "outside"], QR, wrap="impl Membered")
kh_rm = Fn(KH, "Keyhive", "reachable_members", "pub fn reachable_members(&self, membered: Membered) -> (r: Caps) ensures r@ == found(grp(membered), grp(membered).the_id.0)", ["self", "membered"], QR, wrap="impl Keyhive")
group_cap = Fn(GP, "Group", "get_capability", "pub fn get_capability(&self, member_id: &Identifier) -> (r: Option<&Dlg>) ensures best(*self, *member_id, deref(r))", ["self", "member_id"], [
    ("self.members.get(member_id).and_then(|$$d| { $x })", "match self.members.get(member_id) { Some($$d) => { $x } None => None }"),
    (".iter().max_by(|$$a, $$b| $c)", ".max_by(|$$a: &Dlg, $$b: &Dlg| -> (o: Ordering) ensures o == ord_of(can(*$$a), can(*$$b)) { $c })")], wrap="impl Group")
doc_cap = Fn(DOC, "Document", "get_capability", "pub fn get_capability(&self, member_id: &Identifier) -> (r: Option<&Dlg>) ensures best(self.group, *member_id, deref(r))", ["self", "member_id"], [], wrap="impl Document")
mem_cap = Fn(MEM, "Membered", "get_capability", "pub fn get_capability(&self, agent_id: &Identifier) -> (r: Option<Dlg>) ensures best(grp(*self), *agent_id, r)", ["self", "agent_id"], QR + [("locked.get_capability(agent_id).duped()", "duped(locked.get_capability(agent_id))")], wrap="impl Membered")
queries = Unit("access_queries", QPRE, [group_tm, doc_tm, mem_tm, mem_tmo, kh_rm, group_cap, doc_cap, mem_cap])
