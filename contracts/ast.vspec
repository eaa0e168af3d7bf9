@module ast
@use base lexer
@file gv/parser/ast.rs
@struct NodeId
@struct AttributeList
@enum AttrStmtTarget derive=Clone,Copy
@struct AttrStmt
@struct NodeStmt
@enum ArrowKind derive=Clone,Copy
@struct EdgeStmt
@enum Stmt derive=
@struct StmtList
@struct Graph
@code
// ---- the tree as plain data ----
pub struct IdV { pub name: Seq<char>, pub port: Option<Seq<char>> }
pub type AttrsV = Seq<(Seq<char>, Seq<char>)>;
pub enum StV { Edge(IdV, Seq<(IdV, ArrowKind)>, AttrsV), Node(IdV, AttrsV), Attribute(AttrStmtTarget, AttrsV), Sub(Seq<char>, Seq<StV>) }
pub open spec fn otxt(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s@) } }
pub open spec fn nid(n: NodeId) -> IdV { IdV { name: n.name@, port: otxt(n.port) } }
pub open spec fn pairv(p: (String, String)) -> (Seq<char>, Seq<char>) { (p.0@, p.1@) }
pub open spec fn attrs(l: AttributeList) -> AttrsV { l.list@.map_values(|p: (String, String)| pairv(p)) }
pub open spec fn hopv(p: (NodeId, ArrowKind)) -> (IdV, ArrowKind) { (nid(p.0), p.1) }
pub open spec fn hops(s: Seq<(NodeId, ArrowKind)>) -> Seq<(IdV, ArrowKind)> { s.map_values(|p: (NodeId, ArrowKind)| hopv(p)) }
pub open spec fn stv(s: Stmt) -> StV decreases s {
    match s {
        Stmt::Edge(e) => StV::Edge(nid(e.from), hops(e.to@), attrs(e.list)),
        Stmt::Node(n) => StV::Node(nid(n.id), attrs(n.list)),
        Stmt::Attribute(a) => StV::Attribute(a.target, attrs(a.list)),
        Stmt::SubGraph(g) => StV::Sub(g.name@, Seq::new(g.list.list@.len(), |i: int| if 0 <= i < g.list.list@.len() { stv(g.list.list@[i]) } else { arbitrary() })),
    }
}
pub open spec fn stvs(s: Seq<Stmt>) -> Seq<StV> { s.map_values(|x: Stmt| stv(x)) }
pub broadcast proof fn lemma_sub(g: Graph) ensures #[trigger] stv(Stmt::SubGraph(g)) == StV::Sub(g.name@, stvs(g.list.list@))
{ reveal_with_fuel(stv, 2); let a = Seq::new(g.list.list@.len(), |i: int| if 0 <= i < g.list.list@.len() { stv(g.list.list@[i]) } else { arbitrary() }); assert(a =~= stvs(g.list.list@)); assert(stv(Stmt::SubGraph(g))->Sub_1 =~= a); }
@end
@fn NodeId::new vxclone
ret r
ensures nid(r).name == name@, nid(r).port == otxt(*port),
@fn AttributeList::new
ret r
ensures attrs(r) =~= Seq::empty(),
@fn AttributeList::add_attr
ensures attrs(*final(self)) =~= attrs(*old(self)).push((from@, to@)),
@fn AttrStmt::new
ret r
ensures r.target == target, r.list == list,
@fn NodeStmt::new
ret r
ensures r.id == id, attrs(r.list) =~= Seq::empty(),
@fn NodeStmt::new_with_list
ret r
ensures r.id == id, r.list == list,
@fn EdgeStmt::new
ret r
ensures r.from == from, hops(r.to@) =~= Seq::empty(), attrs(r.list) =~= Seq::empty(),
@fn EdgeStmt::insert
ensures final(self).from == old(self).from, final(self).list == old(self).list, hops(final(self).to@) =~= hops(old(self).to@).push((nid(n), ak)),
@fn StmtList::new
ret r
ensures stvs(r.list@) =~= Seq::empty(),
@fn Graph::new
ret r
ensures r.name@ == name@, stvs(r.list.list@) =~= Seq::empty(),
@fn AttributeList::iter
ret r
ensures runs(r, self.list@, 0),
