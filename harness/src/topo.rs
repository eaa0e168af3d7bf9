//! P09-P15, P25: the layout pipeline.
use crate::gen::*; use crate::rng::*; use crate::{desc, Case, R};
use layout::adt::dag::{NodeHandle, DAG};
use layout::core::format::Visible;
use layout::core::geometry::Point;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::topo::optimizer::{EdgeCrossOptimizer, RankOptimizer};
use layout::topo::placer::Placer;

fn h(i: usize) -> NodeHandle { NodeHandle::new(i) }
fn hs(v: &[NodeHandle]) -> Vec<usize> { v.iter().map(|x| x.get_index()).collect() }
fn succs(g: &DAG) -> Vec<Vec<usize>> { (0..g.len()).map(|i| hs(g.successors(h(i)))).collect() }
fn preds(g: &DAG) -> Vec<Vec<usize>> { (0..g.len()).map(|i| hs(g.predecessors(h(i)))).collect() }
pub fn ranks(g: &DAG) -> Vec<Vec<usize>> { g.ranks().iter().map(|r| hs(r)).collect() }
fn a2s(a: &Arrow) -> String { format!("{:?}", a) }
fn rev(a: &Arrow) -> Arrow { let mut b = a.clone(); b.start = a.end; b.end = a.start; b.src_port = a.dst_port.clone(); b.dst_port = a.src_port.clone(); b }
fn reach(s: &[Vec<usize>], a: usize, b: usize) -> bool { let mut seen = vec![false; s.len()]; let mut q = vec![a]; seen[a] = true; while let Some(x) = q.pop() { if x == b { return true } for &y in &s[x] { if !seen[y] { seen[y] = true; q.push(y) } } } false }
fn std_opt(c: &Case) -> Opt { Opt { max_n: 3 + c.size, labels: true, selfs: true, none_shape: false, natural: false } }
/// all small multigraphs first: 3 nodes and up to 3 edges
pub fn some_graph(c: &mut Case, o: &Opt) -> G {
    if c.idx < 820 { let mut e = c.idx; let mut ps = vec![]; while e > 0 && ps.len() < 3 { e -= 1; ps.push((((e % 9) / 3) as usize, (e % 3) as usize)); e /= 9; } let mut g = graph(&mut c.r, o); while g.nodes.len() < 3 { let n = g.nodes[0].clone(); g.nodes.push(n); } g.edges.clear(); for (i, (a, b)) in ps.into_iter().enumerate() { if a == b && !o.selfs { continue } let ar = arrow(&mut c.r, i, o.labels); g.edges.push(E { from: a, to: b, arrow: ar }); } return g }
    graph(&mut c.r, o)
}
pub fn p09(c: &mut Case) -> R {
    let o = std_opt(c); let g = some_graph(c, &o); desc(|| show(&g));
    let mut vg = build(&g);
    vg.dag.set_validate(c.r.chance(1, 2));
    vg.to_valid_dag();
    let s = succs(&vg.dag);
    if crate::adt::longest(&s).is_none() { return Err(format!("the result has a cycle: {:?}", s)) }
    if vg.num_nodes() != g.nodes.len() { return Err("number of nodes changed".into()) }
    let total: usize = s.iter().map(|x| x.len()).sum();
    let non: Vec<&E> = g.edges.iter().filter(|e| e.from != e.to).collect();
    if total != non.len() { return Err(format!("{} links for {} edges", total, non.len())) }
    #[cfg(verif_hooks)]
    {
        let es = vg.verif_edges();
        if es.len() != non.len() { return Err(format!("{} edges, expected {}", es.len(), non.len())) }
        let mut cur: Vec<Vec<usize>> = vec![vec![]; g.nodes.len()];
        for (i, e) in non.iter().enumerate() {
            let ends = hs(&es[i].1);
            let turned = reach(&cur, e.to, e.from);
            let (f, t, a) = if turned { (e.to, e.from, rev(&e.arrow)) } else { (e.from, e.to, e.arrow.clone()) };
            if ends != vec![f, t] || a2s(&es[i].0) != a2s(&a) { return Err(format!("edge {} -> {} (number {}): expected {} -> {} {:?}, got {:?} {:?}", e.from, e.to, i, f, t, a, ends, es[i].0)) }
            cur[f].push(t);
        }
        for i in 0..cur.len() { let (mut x, mut y) = (cur[i].clone(), s[i].clone()); x.sort(); y.sort(); if x != y { return Err(format!("links of node {}: {:?} expected {:?}", i, y, x)) } }
        let se = vg.verif_self_edges(); let want: Vec<&E> = g.edges.iter().filter(|e| e.from == e.to).collect();
        if se.len() != want.len() { return Err(format!("{} self edges, expected {}", se.len(), want.len())) }
        for (x, w) in se.iter().zip(&want) { if x.1.get_index() != w.from || a2s(&x.0) != a2s(&w.arrow) { return Err(format!("self edge changed: {:?}", x)) } }
    }
    Ok(ghash(&g))
}
/// lowers the graph like do_it does
fn lower(vg: &mut VisualGraph, no_opt: bool) { vg.to_valid_dag(); vg.split_text_edges(); vg.split_long_edges(no_opt); for e in vg.iter_nodes() { vg.element_mut(e).resize(); } }
#[cfg(verif_hooks)]
fn check_chains(vg: &VisualGraph, before: &[(Arrow, Vec<usize>)], selfs: &[(Arrow, usize)], n: usize) -> Result<(), String> {
    let es = vg.verif_edges();
    if es.len() != before.len() + selfs.len() { return Err(format!("{} edges, expected {}", es.len(), before.len() + selfs.len())) }
    let total = vg.num_nodes(); let mut owner = vec![None; total];
    let mut links = vec![vec![]; total];
    for (i, e) in es.iter().enumerate() {
        let ch = hs(&e.1);
        let (arrow, a, b) = if i < before.len() { (&before[i].0, before[i].1[0], before[i].1[1]) } else { let s = &selfs[i - before.len()]; (&s.0, s.1, s.1) };
        if ch[0] != a || *ch.last().unwrap() != b { return Err(format!("edge {} runs {:?}, expected from {} to {}", i, ch, a, b)) }
        for &k in &ch[1..ch.len() - 1] {
            if k < n || !vg.is_connector(h(k)) { return Err(format!("edge {} passes node {} which is not a connector: {:?}", i, k, ch)) }
            if owner[k].is_some() { return Err(format!("connector {} belongs to edges {:?} and {}", k, owner[k], i)) }
            owner[k] = Some(i);
        }
        let mut ea = arrow.clone(); ea.text = String::new();
        if a2s(&ea) != a2s(&e.0) { return Err(format!("edge {} changed:\n  expected {:?}\n  got      {:?}", i, ea, e.0)) }
        let labels: Vec<String> = ch[1..ch.len() - 1].iter().filter_map(|k| if let ShapeKind::Connector(Some(t)) = &vg.element(h(*k)).shape { Some(format!("{:?} {:?}", t, vg.element(h(*k)).look)) } else { None }).collect();
        let want: Vec<String> = if arrow.text.is_empty() { vec![] } else { vec![format!("{:?} {:?}", arrow.text, arrow.look)] };
        if labels != want { return Err(format!("labels of edge {}: {:?} expected {:?}", i, labels, want)) }
        if a != b {
            for w in ch.windows(2) { links[w[0]].push(w[1]); let (x, y) = (vg.dag.level(h(w[0])), vg.dag.level(h(w[1]))); if x + 1 != y { return Err(format!("edge {} steps from rank {} to rank {}: {:?}", i, x, y, ch)) } }
        } else {
            if ch.len() != 3 { return Err(format!("self edge {}: {:?}", i, ch)) }
            let l = vg.dag.level(h(a)); if vg.dag.level(h(ch[1])) != l { return Err("self edge connector on another rank".into()) }
            let row = hs(vg.dag.row(l)); let (mut p, q) = (row.iter().position(|x| *x == ch[1]).unwrap(), row.iter().position(|x| *x == a).unwrap());
            if p > q { return Err(format!("connector {} of the self edge is behind node {} in {:?}", ch[1], a, row)) }
            p += 1; while p < q { let k = row[p]; if !es.iter().skip(before.len()).any(|e| hs(&e.1) == vec![a, k, a]) { return Err(format!("connector {} of the self edge of node {} is not next to it: {:?}", ch[1], a, row)) } p += 1; }
        }
    }
    for k in n..total { if owner[k].is_none() { return Err(format!("element {} belongs to no edge", k)) } }
    let s = succs(&vg.dag); let p = preds(&vg.dag);
    for i in 0..total { let (mut x, mut y) = (links[i].clone(), s[i].clone()); x.sort(); y.sort(); if x != y { return Err(format!("links of node {} are {:?}, the edges have {:?}", i, y, x)) } for j in 0..total { if s[i].iter().filter(|z| **z == j).count() != p[j].iter().filter(|z| **z == i).count() { return Err("successors and predecessors differ".into()) } } }
    let mut all = ranks(&vg.dag).concat(); all.sort(); if all != (0..total).collect::<Vec<_>>() { return Err("ranks are not a partition".into()) }
    Ok(())
}
pub fn p10(c: &mut Case) -> R {
    let o = std_opt(c); let g = some_graph(c, &o); desc(|| show(&g));
    let mut vg = build(&g); vg.to_valid_dag();
    #[cfg(verif_hooks)]
    {
        let before: Vec<(Arrow, Vec<usize>)> = vg.verif_edges().iter().map(|e| (e.0.clone(), hs(&e.1))).collect();
        let selfs: Vec<(Arrow, usize)> = vg.verif_self_edges().iter().map(|e| (e.0.clone(), e.1.get_index())).collect();
        let els: Vec<String> = (0..g.nodes.len()).map(|i| format!("{:?}", vg.element(h(i)))).collect();
        vg.split_text_edges();
        let no = c.r.chance(1, 3); desc(|| format!("optimisations disabled: {}", no));
        vg.split_long_edges(no);
        check_chains(&vg, &before, &selfs, g.nodes.len())?;
        // every self edge was expanded: there is nothing left to expand
        let (n, k) = (vg.num_nodes(), vg.verif_edges().len()); vg.expand_self_edges();
        if (vg.num_nodes(), vg.verif_edges().len()) != (n, k) { return Err("a self edge is expanded twice".into()) }
        for i in 0..g.nodes.len() { if els[i] != format!("{:?}", vg.element(h(i))) { return Err(format!("node {} changed", i)) } }
    }
    #[cfg(not(verif_hooks))]
    {
        let no = c.r.chance(1, 3); vg.split_text_edges(); vg.split_long_edges(no);
        for (a, s) in succs(&vg.dag).iter().enumerate() { for b in s { if vg.dag.level(h(a)) + 1 != vg.dag.level(h(*b)) { return Err("edge does not step one rank".into()) } } }
    }
    Ok(ghash(&g))
}
fn dagraph(c: &mut Case) -> (usize, Vec<(usize, usize)>) {
    if c.idx < 1024 { // all dags on 5 ordered nodes
        let mut v = vec![]; let mut k = 0; for i in 0..5 { for j in i + 1..5 { if c.idx >> k & 1 == 1 { v.push((i, j)) } k += 1; } } return (5, v) }
    let n = 2 + c.r.n(4 + c.size); let mut v = pairs(&mut c.r, n); for e in v.iter_mut() { if e.0 > e.1 { *e = (e.1, e.0) } }
    v.retain(|e| e.0 != e.1);
    let mut p: Vec<usize> = (0..n).collect(); for i in (1..n).rev() { p.swap(i, c.r.n(i + 1)); } for e in v.iter_mut() { *e = (p[e.0], p[e.1]) }
    (n, v)
}
pub fn p11(c: &mut Case) -> R {
    let (n, es) = dagraph(c); desc(|| format!("{} nodes, edges {:?}", n, es));
    let mut g = DAG::new(); for _ in 0..n { g.new_node(); } for (a, b) in &es { g.add_edge(h(*a), h(*b)); }
    g.recompute_node_ranks();
    let (s0, p0, r0) = (succs(&g), preds(&g), ranks(&g));
    let len = |r: &Vec<Vec<usize>>| -> i64 { let lv = |x: usize| r.iter().position(|w| w.contains(&x)).unwrap() as i64; es.iter().map(|(a, b)| lv(*b) - lv(*a)).sum() };
    let l0 = len(&r0);
    if c.r.chance(1, 2) { RankOptimizer::new(&mut g).optimize(); } else {
        for _ in 0..c.r.n(8) { let x = c.r.n(n); let before = ranks(&g); let t = RankOptimizer::new(&mut g).try_to_sink_node(h(x)); let after = ranks(&g); if t == (before == after) { return Err(format!("try_to_sink_node({}) returned {} but ranks went from {:?} to {:?}", x, t, before, after)) } }
    }
    let r1 = ranks(&g);
    let mut all = r1.concat(); all.sort(); if all != (0..n).collect::<Vec<_>>() { return Err(format!("ranks are not a partition: {:?}", r1)) }
    if succs(&g) != s0 || preds(&g) != p0 { return Err("an edge changed".into()) }
    if r1.len() != r0.len() { return Err(format!("{} ranks, before {}", r1.len(), r0.len())) }
    if r1.iter().any(|r| r.is_empty()) { return Err(format!("an empty rank: {:?}", r1)) }
    for (a, b) in &es { if g.level(h(*a)) >= g.level(h(*b)) { return Err(format!("edge {} -> {} does not lead to a later rank: {:?}", a, b, r1)) } }
    let l1 = len(&r1); if l1 > l0 { return Err(format!("the edges span {} ranks, before {}: {:?} -> {:?}", l1, l0, r0, r1)) }
    g.verify();
    Ok(if es.is_empty() { None } else { Some(hash(&format!("{:?}", es))) })
}
/// crossings between adjacent ranks, parallel edges counted once
fn crossings(r: &[Vec<usize>], s: &[Vec<usize>]) -> usize {
    let mut k = 0;
    for i in 0..r.len().saturating_sub(1) {
        let mut e: Vec<(usize, usize)> = vec![];
        for (x, a) in r[i].iter().enumerate() { for (y, b) in r[i + 1].iter().enumerate() { if s[*a].contains(b) { e.push((x, y)) } } }
        for a in 0..e.len() { for b in 0..e.len() { if e[a].0 < e[b].0 && e[a].1 > e[b].1 { k += 1 } } }
    }
    k
}
pub fn p12(c: &mut Case) -> R {
    let mut g = DAG::new();
    let nr = 1 + c.r.k(4).min(20); let w = 2 + c.r.k(3).min(10); let mut rows: Vec<Vec<usize>> = vec![]; let mut n = 0; let mut es = vec![];
    for _ in 0..nr { let k = 1 + c.r.n(w); rows.push((n..n + k).collect()); n += k; }
    for _ in 0..n { g.new_node(); }
    for i in 0..nr - 1 { let d = 1 + c.r.n(3); for &a in &rows[i] { for &b in &rows[i + 1] { if c.r.chance(d, 4) { es.push((a, b)); if c.r.chance(1, 12) { es.push((a, b)) } } } } }
    for i in (1..es.len()).rev() { es.swap(i, c.r.n(i + 1)); }
    for (a, b) in &es { g.add_edge(h(*a), h(*b)); }
    for r in rows.iter_mut() { for i in (1..r.len()).rev() { r.swap(i, c.r.n(i + 1)); } }
    for (l, r) in rows.iter().enumerate() { for x in r { g.update_node_rank_level(h(*x), l, None); } }
    desc(|| format!("ranks {:?}, edges {:?}", rows, es));
    let (s0, p0) = (succs(&g), preds(&g)); let c0 = crossings(&rows, &s0);
    let what = c.r.n(4);
    { let mut o = EdgeCrossOptimizer::new(&mut g); match what { 0 => o.perturb_rank(), 1 => o.rotate_rank(), _ => o.optimize() } }
    let r1 = ranks(&g);
    if r1.len() != rows.len() { return Err("number of ranks changed".into()) }
    for (a, b) in r1.iter().zip(&rows) { let (mut x, mut y) = (a.clone(), b.clone()); x.sort(); y.sort(); if x != y { return Err(format!("a rank changed from {:?} to {:?}", b, a)) } }
    if succs(&g) != s0 || preds(&g) != p0 { return Err("an edge changed".into()) }
    let c1 = crossings(&r1, &s0); if what > 1 && c1 > c0 { return Err(format!("{} crossings, before {}: {:?}", c1, c0, r1)) }
    Ok(if c0 > 0 { Some(hash(&format!("{:?} {:?}", rows, es))) } else { None })
}
fn tr(p: Point, lr: bool) -> Point { if lr { Point::new(p.y, p.x) } else { p } }
pub fn p13(c: &mut Case) -> R {
    let o = Opt { max_n: 3 + c.size, labels: c.idx % 2 == 0, selfs: true, none_shape: false, natural: false };
    let g = some_graph(c, &o); let (no_opt, no_layout) = (c.r.chance(1, 3), c.r.chance(1, 3));
    desc(|| format!("{}optimisation disabled: {}, layout disabled: {}", show(&g), no_opt, no_layout));
    let mut vg = build(&g); lower(&mut vg, no_opt);
    let n = vg.num_nodes(); let (s0, p0, r0) = (succs(&vg.dag), preds(&vg.dag), ranks(&vg.dag));
    let before: Vec<String> = (0..n).map(|i| { let e = vg.element(h(i)); format!("{:?} {:?} {:?} {:?}", e.shape, e.look, e.orientation, e.properties) }).collect();
    let sz: Vec<Point> = (0..n).map(|i| vg.pos(h(i)).size(false)).collect();
    Placer::new(&mut vg).layout(no_layout);
    if succs(&vg.dag) != s0 || preds(&vg.dag) != p0 || ranks(&vg.dag) != r0 { return Err("the graph changed".into()) }
    for i in 0..n { if vg.is_connector(h(i)) { continue } let e = vg.element(h(i)); if before[i] != format!("{:?} {:?} {:?} {:?}", e.shape, e.look, e.orientation, e.properties) { return Err(format!("node {} changed: {} -> {:?}", i, before[i], e)) } let s = vg.pos(h(i)).size(false); if s != sz[i] { return Err(format!("size of node {} changed from {:?} to {:?}", i, sz[i], s)) } }
    let bb = |i: usize, halo: bool| { let b = vg.pos(h(i)).bbox(halo); (tr(b.0, g.lr), tr(b.1, g.lr)) };
    let consider = |i: usize| no_layout || !vg.is_connector(h(i));
    for i in 0..n { let b = bb(i, no_layout); if !b.0.x.is_finite() || !b.0.y.is_finite() { return Err(format!("node {} has no position: {:?}", i, b)) } if consider(i) && (b.0.x < -1e-6 || b.0.y < -1e-6) { return Err(format!("node {} has a negative coordinate: {:?}", i, b)) } }
    let eps = |a: f64| 1e-7 * (1. + a.abs());
    let mut low: Option<(f64, usize)> = None;
    for row in &r0 {
        let nodes: Vec<usize> = row.iter().copied().filter(|i| consider(*i)).collect();
        for w in nodes.windows(2) { let (a, b) = (bb(w[0], no_layout), bb(w[1], no_layout)); if a.1.x > b.0.x + eps(a.1.x) { return Err(format!("nodes {} and {} of one rank overlap or are out of order: {:?} {:?}", w[0], w[1], a, b)) } }
        let mut bot = low;
        for &i in &nodes { let b = bb(i, no_layout); if let Some((y, j)) = low { if b.0.y < y - eps(y) { return Err(format!("node {} of a later rank starts at {} above the end {} of node {}", i, b.0.y, y, j)) } } if bot.map_or(true, |x| x.0 < b.1.y) { bot = Some((b.1.y, i)) } }
        low = bot;
    }
    Ok(ghash(&g))
}
pub fn p14(c: &mut Case) -> R {
    if c.idx == 0 { for k in 0..8 { let mut w = layout::backends::svg::SVGWriter::new(); VisualGraph::new(ori(k & 1 == 1)).do_it(k & 2 == 2, k & 4 == 4, false, &mut w); w.finalize(); } return Ok(None) }
    if c.idx == 1 { // the example files of the repository
        if let Ok(d) = std::fs::read_dir("/repo/inputs") { let mut fs: Vec<_> = d.flatten().map(|f| f.path()).collect(); fs.sort(); for f in fs { if f.extension().map_or(true, |x| x != "dot") || f.metadata().map_or(true, |m| m.len() > 6000) { continue } if let Ok(s) = std::fs::read_to_string(&f) { desc(|| format!("{:?}", f)); dot(&s, 0); } } } return Ok(None) }
    if c.idx % 5 == 4 { let s = dot_text(&mut c.r); let k = c.r.n(8); desc(|| format!("switches {} text: {}", k, s)); dot(&s, k); return Ok(Some(hash(&s))) }
    let o = Opt { max_n: if c.r.chance(1, 40) { 25 } else { 2 + c.size }, labels: c.r.chance(2, 3), selfs: c.r.chance(2, 3), none_shape: true, natural: false };
    let g = some_graph(c, &o); let k = c.r.n(8);
    desc(|| format!("{}debug: {}, optimisation disabled: {}, layout disabled: {}", show(&g), k & 1 == 1, k & 2 == 2, k & 4 == 4));
    let mut vg = build(&g); let mut w = layout::backends::svg::SVGWriter::new();
    vg.do_it(k & 1 == 1, k & 2 == 2, k & 4 == 4, &mut w);
    let s = w.finalize(); if s.is_empty() { return Err("no output".into()) }
    Ok(ghash(&g))
}
fn dot_text(r: &mut Rng) -> String {
    let mut s = String::from("digraph {\n"); if r.chance(1, 3) { s.push_str("rankdir=LR;\n") } let n = 1 + r.n(7);
    for i in 0..n { s.push_str(&format!("n{} [label=\"{}\" shape={} fontsize={}];\n", i, r.pick(&["x", "a|b", "{a|<p>b|c}", "", "a\\nb", "{}", "<p>"]), r.pick(&["box", "circle", "record", "Mrecord", "doublecircle"]), r.pick(&["14", "0", "1", "100", "x"]))); }
    for (a, b) in pairs(r, n) { s.push_str(&format!("n{}{} -> n{}{} [label=\"{}\"];\n", a, r.pick(&["", ":p", ":q"]), b, r.pick(&["", ":p"]), r.pick(&["", "", "l", "two\\nlines"]))); }
    s.push('}'); s
}
fn dot(s: &str, k: usize) { let g = layout::gv::DotParser::new(s).process(); if let Ok(g) = g { let mut b = layout::gv::GraphBuilder::new(); b.visit_graph(&g); let mut vg = b.get(); let mut w = layout::backends::svg::SVGWriter::new(); vg.do_it(k & 1 == 1, k & 2 == 2, k & 4 == 4, &mut w); w.finalize(); } }
pub fn p15(c: &mut Case) -> R {
    let o = std_opt(c); let g = some_graph(c, &o); let no_opt = c.r.chance(1, 3); desc(|| format!("{}optimisation disabled: {}", show(&g), no_opt));
    let mut vg = build(&g); lower(&mut vg, no_opt);
    if g.lr { vg.transpose(); }
    #[cfg(verif_hooks)]
    {
        use layout::topo::placer::verif_hooks as vh;
        vh::initial_placement(&mut vg);
        let n = vg.num_nodes();
        let r = ranks(&vg.dag); let mut lv = vec![0; n]; let mut px = vec![0; n]; for (l, row) in r.iter().enumerate() { for (i, x) in row.iter().enumerate() { lv[*x] = l; px[*x] = i } }
        for lr in [false, true] {
            let (above, below, verts) = vh::alignment(&mut vg, lr);
            let above: Vec<Option<usize>> = above.iter().map(|x| x.map(|y| y.get_index())).collect(); let below: Vec<Option<usize>> = below.iter().map(|x| x.map(|y| y.get_index())).collect();
            if above.len() != n || below.len() != n { return Err("alignment has the wrong size".into()) }
            let mut pairs: Vec<(usize, usize)> = vec![];
            for i in 0..n {
                if let Some(a) = above[i] {
                    if below[a] != Some(i) { return Err(format!("node {} aligns to {} above, which aligns to {:?} below", i, a, below[a])) }
                    if lv[a] + 1 != lv[i] { return Err(format!("node {} on rank {} aligns to node {} on rank {}", i, lv[i], a, lv[a])) }
                    if !hs(vg.preds(h(i))).contains(&a) { return Err(format!("node {} aligns to {} without an edge", i, a)) }
                    pairs.push((a, i));
                }
                if let Some(b) = below[i] { if above[b] != Some(i) { return Err(format!("node {} aligns to {} below, which aligns to {:?} above", i, b, above[b])) } }
            }
            for x in &pairs { for y in &pairs { if lv[x.0] == lv[y.0] && px[x.0] < px[y.0] && px[x.1] > px[y.1] { return Err(format!("aligned pairs {:?} and {:?} cross; ranks {:?}", x, y, r)) } } }
            let vs: Vec<Vec<usize>> = verts.iter().map(|v| hs(v)).collect();
            let mut all = vs.concat(); all.sort(); if all != (0..n).collect::<Vec<_>>() { return Err(format!("the blocks {:?} do not contain every node once", vs)) }
            for v in &vs { if v.is_empty() { return Err("empty block".into()) } for w in v.windows(2) { if lv[w[1]] + 1 != lv[w[0]] || above[w[0]] != Some(w[1]) { return Err(format!("block {:?} does not follow the alignment", v)) } } if above[*v.last().unwrap()].is_some() || below[v[0]].is_some() { return Err(format!("block {:?} is not maximal", v)) } }
            for dir in [false, true] {
                let (xs, sched) = vh::schedule(&vg, verts.clone(), dir);
                if xs.len() != n || xs.iter().any(|x| !x.is_finite()) { return Err("a node got no coordinate".into()) }
                for l in 0..r.len() { if sched[l] != r[l].len() { return Err(format!("{} of {} nodes of rank {} are scheduled", sched[l], r[l].len(), l)) } }
                for v in &vs { if v.iter().any(|k| xs[*k] != xs[v[0]]) { return Err(format!("block {:?} is not vertical", v)) } }
            }
        }
    }
    #[cfg(not(verif_hooks))]
    { Placer::new(&mut vg).layout(false); for i in vg.iter_nodes() { if !vg.pos(i).center().x.is_finite() { return Err("no coordinate".into()) } } }
    Ok(ghash(&g))
}
pub fn p25(c: &mut Case) -> R {
    let mut o = std_opt(c); o.selfs = c.r.chance(1, 2);
    let mut g = some_graph(c, &o);
    // more labels, of very different widths
    for e in g.edges.iter_mut() { if c.r.chance(1, 2) { e.arrow.text = match c.r.n(3) { 0 => "x".into(), 1 => "w".repeat(1 + c.r.n(60)), _ => label(&mut c.r) }; } }
    let no_opt = c.r.chance(1, 2); desc(|| format!("{}optimisation disabled: {}", show(&g), no_opt));
    let mut vg = build(&g); lower(&mut vg, no_opt);
    let n = vg.num_nodes(); let (s0, r0) = (succs(&vg.dag), ranks(&vg.dag));
    // a label with its style
    let lab = |vg: &VisualGraph, i: usize| if let ShapeKind::Connector(Some(t)) = &vg.element(h(i)).shape { Some(format!("{:?} {:?}", t, vg.element(h(i)).look)) } else { None };
    for e in 0..n { if let ShapeKind::Connector(Some(_)) = &vg.element(h(e)).shape { vg.element_mut(h(e)).look.font_size = 5 + c.r.n(40); vg.element_mut(h(e)).look.line_width = c.r.n(5); vg.element_mut(h(e)).resize(); } }
    let before: Vec<Option<String>> = (0..n).map(|i| lab(&vg, i)).collect();
    let kinds: Vec<String> = (0..g.nodes.len()).map(|i| format!("{:?}", vg.element(h(i)).shape)).collect();
    Placer::new(&mut vg).layout(true);
    if succs(&vg.dag) != s0 || ranks(&vg.dag) != r0 { return Err("the graph changed".into()) }
    for i in 0..g.nodes.len() { if kinds[i] != format!("{:?}", vg.element(h(i)).shape) { return Err(format!("node {} changed", i)) } }
    // chains of connectors linked to each other belong to one edge
    let p0 = preds(&vg.dag); let mut moved = 0; let mut seen = vec![false; n];
    for i in g.nodes.len()..n {
        if !vg.is_connector(h(i)) { return Err(format!("connector {} became {:?}", i, vg.element(h(i)).shape)) }
        if seen[i] || p0[i].iter().any(|x| *x >= g.nodes.len()) { continue }
        let mut k = i; let (mut a, mut b) = (vec![], vec![]);
        loop { seen[k] = true; if let Some(t) = &before[k] { a.push(t.clone()) } if let Some(t) = lab(&vg, k) { b.push(t) } if before[k] != lab(&vg, k) { moved += 1 } match s0[k].first() { Some(&x) if x >= g.nodes.len() => k = x, _ => break } }
        if a != b { return Err(format!("the labels of the edge through connector {} went from {:?} to {:?}", i, a, b)) }
    }
    for i in g.nodes.len()..n { let e = vg.element(h(i)); let want = layout::std_shapes::render::get_shape_size(e.orientation, &e.shape, e.look.font_size, false); let got = e.position().size(false); if want != got { return Err(format!("connector {} {:?} has size {:?}, expected {:?}", i, e.shape, got, want)) } }
    Ok(if moved > 0 { ghash(&g) } else { None })
}
