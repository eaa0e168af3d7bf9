@module ast0
@use base
@file gv/parser/ast.rs
@struct NodeId
@struct AttributeList
@enum AttrStmtTarget derive=Clone,Copy
@struct AttrStmt
@struct NodeStmt
@enum ArrowKind derive=Clone,Copy
@struct EdgeStmt
@enum Stmt derive=
@struct StmtList
@struct Graph
@fn NodeId::new vxclone
@fn AttributeList::new
@fn AttributeList::add_attr
@fn AttrStmt::new
@fn NodeStmt::new
@fn NodeStmt::new_with_list
@fn EdgeStmt::new
@fn EdgeStmt::insert
@fn StmtList::new
@fn Graph::new
