L = "layout/src/"
SEEDS = []
def seed(id, prop, edits, needs, breaks, demo):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo))

seed("attr-recovery", "P01", [(L+"gv/parser/parser.rs",
'''                return to_error("Expected property name");
''', '''                // Skip over stray tokens.
                self.lex();
                continue;
''')], "an attribute list that is cut off where a property name would start",
"Parsing panics (\"can't parse after EOF\") instead of returning an error",
r'''
use layout::gv::DotParser;
fn main() {
    for s in ["digraph { a [", "digraph { a [x=y,", "digraph { a [x=y; ", "digraph { a [x=y $"] {
        let r = DotParser::new(s).process();
        assert!(r.is_err());
    }
}
''')

seed("comment-prev", "P02", [(L+"gv/parser/lexer.rs", "let mut prev = '\\0';", "let mut prev = self.ch;")],
"a block comment whose first character after the opening is a slash",
"The comment ends at its own opening star, and the rest of it is read as tokens",
r'''
use layout::gv::{Lexer, Token};
fn toks(s: &str) -> Vec<String> {
    let mut l = Lexer::from_string(s);
    let mut v = Vec::new();
    loop {
        let t = l.next_token();
        if let Token::EOF = t { return v; }
        v.push(format!("{:?}", t));
        if v.len() > 50 { return v; }
    }
}
fn main() {
    assert_eq!(toks("a /* x */ b"), toks("a b"));
    assert_eq!(toks("a /*/ x */ b"), toks("a b"));
}
''')

seed("arrow-hoist", "P03", [(L+"gv/parser/parser.rs",
'''        while self.is_edge_token() {
            let ak = match self.tok {
                Token::ArrowLine => ast::ArrowKind::Line,
                Token::ArrowRight => ast::ArrowKind::Arrow,
                _ => {
                    return to_error("Expected '->' or '--' ");
                }
            };
''', '''        // All of the arrows in the chain are of the same kind.
        let ak = match self.tok {
            Token::ArrowLine => ast::ArrowKind::Line,
            Token::ArrowRight => ast::ArrowKind::Arrow,
            _ => {
                return to_error("Expected '->' or '--' ");
            }
        };
        while self.is_edge_token() {
'''), (L+"gv/parser/parser.rs", "es.insert(id, ak);", "es.insert(id, ak.clone());")],
"one edge chain that mixes -> and --", "Every edge of the chain gets the kind of its first operator",
r'''
use layout::gv::{DotParser};
use layout::gv::parser::ast::{Stmt, ArrowKind};
fn main() {
    let g = DotParser::new("digraph { a -> b -- c -> d }").process().unwrap();
    if let Stmt::Edge(e) = &g.list.list[0] {
        let k: Vec<bool> = e.to.iter().map(|x| matches!(x.1, ArrowKind::Arrow)).collect();
        assert_eq!(k, [true, false, true]);
    } else { panic!(); }
}
''')

seed("map-last", "P04", [(L+"adt/map.rs",
'''        for pair in scope {
            if pair.0 == *key {
                pair.1 = val.clone();
                return;
            }
        }

        self.stack''', '''        // Overwrite the value that was just stored.
        if let Some(pair) = scope.last_mut() {
            if pair.0 == *key {
                pair.1 = val.clone();
                return;
            }
        }

        self.stack''')],
"a key stored twice in the same scope with another key stored in between",
"The lookup returns the first value while the flattened map has the last one",
r'''
use layout::adt::map::ScopedMap;
fn main() {
    let mut m: ScopedMap<usize, usize> = ScopedMap::new();
    m.push();
    m.insert(&1, &10);
    m.insert(&2, &20);
    m.insert(&1, &11);
    assert_eq!(m.get(&1), Some(11));
    assert_eq!(m.flatten()[&1], 11);
}
''')

seed("edge-dedup", "P05", [(L+"gv/builder.rs",
'''            self.edges.push(edge);
''', '''            // Ignore edges that are declared again.
            let is_dup = self.edges.iter().any(|e| {
                e.from == edge.from
                    && e.to == edge.to
                    && e.from_port == edge.from_port
                    && e.to_port == edge.to_port
                    && e.props == edge.props
            });
            if !is_dup {
                self.edges.push(edge);
            }
''')], "the same edge declared twice with the same attributes",
"The second of two identical parallel edges is dropped",
r'''
use layout::gv::{DotParser, GraphBuilder};
use layout::backends::svg::SVGWriter;
fn count(s: &str) -> usize {
    let g = DotParser::new(s).process().unwrap();
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut vg = b.get();
    let mut svg = SVGWriter::new();
    vg.do_it(false, false, false, &mut svg);
    svg.finalize().matches("<path ").count()
}
fn main() {
    assert_eq!(count("digraph { a -> b; a -> b [label=x]; }"), 2);
    assert_eq!(count("digraph { a -> b; b -> c; a -> b; }"), 3);
}
''')

seed("penwidth-zero", "P06", [(L+"gv/builder.rs",
'''            if let Result::Ok(x) = pw.parse::<usize>() {
                line_width = x;
            } else {
                #[cfg(feature = "log")]
                log::info!("Can't parse integer \\"{}\\"", pw);
            }
        }

        if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
            if let Result::Ok(x) = fx.parse::<usize>() {
                font_size = x;
            } else {
                #[cfg(feature = "log")]
                log::info!("Can't parse integer \\"{}\\"", fx);
            }
        }

        let color = Color::fast(&color);
''', '''            line_width = pw.parse::<usize>().unwrap_or_default();
        }

        if let Option::Some(fx) = lst.get(&"fontsize".to_string()) {
            if let Result::Ok(x) = fx.parse::<usize>() {
                font_size = x;
            } else {
                #[cfg(feature = "log")]
                log::info!("Can't parse integer \\"{}\\"", fx);
            }
        }

        let color = Color::fast(&color);
''')], "an edge with a penwidth that is not an integer",
"The edge is drawn with width 0 (invisible) instead of the default width",
r'''
use layout::gv::{DotParser, GraphBuilder};
use layout::backends::svg::SVGWriter;
fn draw(s: &str) -> String {
    let g = DotParser::new(s).process().unwrap();
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut vg = b.get();
    let mut svg = SVGWriter::new();
    vg.do_it(false, false, false, &mut svg);
    svg.finalize()
}
fn main() {
    assert_eq!(draw("digraph { a -> b [penwidth=1.5]; }"), draw("digraph { a -> b; }"));
    assert_ne!(draw("digraph { a -> b [penwidth=4]; }"), draw("digraph { a -> b; }"));
}
''')

seed("remove-all", "P07", [(L+"adt/dag.rs",
'''        if let Some(pos) = succ.iter().position(|x| *x == to) {
            succ.remove(pos);
            removed_succ = true;
        }
''', '''        if let Some(pos) = succ.iter().position(|x| *x == to) {
            succ.swap_remove(pos);
            removed_succ = true;
        }
''')], "removing an edge of a node that has at least two later successors",
"The order of the remaining successors changes",
r'''
use layout::adt::dag::DAG;
fn main() {
    let mut d = DAG::new();
    let n: Vec<_> = (0..5).map(|_| d.new_node()).collect();
    for i in 1..5 { d.add_edge(n[0], n[i]); }
    assert!(d.remove_edge(n[0], n[1]));
    assert_eq!(d.successors(n[0]), &vec![n[2], n[3], n[4]]);
}
''')

seed("level-nomax", "P08", [(L+"adt/dag.rs",
'''                levels[dest.idx] =
                    cmp::max(levels[dest.idx], levels[src.idx] + 1);
''', '''                // The nodes are sorted, so the last visit is the deepest one.
                levels[dest.idx] = levels[src.idx] + 1;
'''), (L+"adt/dag.rs", "use std::cmp;\n", "")],
"a node whose last predecessor in the topological order is not the deepest one",
"The node gets a level that is not the longest path, so edges stay on one level or go up",
r'''
use layout::adt::dag::DAG;
fn main() {
    // All DAGs over five nodes with edges from smaller to larger labels under some relabelling.
    for perm in [[0usize,1,2,3,4],[4,3,2,1,0],[2,0,4,1,3],[1,4,0,3,2]] {
        for mask in 0u32..1024 {
            let mut d = DAG::new();
            d.set_validate(false);
            let n: Vec<_> = (0..5).map(|_| d.new_node()).collect();
            let mut e = Vec::new();
            let mut b = 0;
            for i in 0..5 { for j in i+1..5 {
                if mask >> b & 1 == 1 { e.push((i, j)); d.add_edge(n[perm[i]], n[perm[j]]); }
                b += 1;
            } }
            d.recompute_node_ranks();
            let mut lv = [0usize; 5];
            for i in 0..5 { for &(a, c) in &e { if c == i { lv[c] = lv[c].max(lv[a] + 1); } } }
            for i in 0..5 { assert_eq!(d.level(n[perm[i]]), lv[i]); }
        }
    }
}
''')

seed("reverse-ports", "P09", [(L+"std_shapes/shapes.rs",
'''            src_port: self.dst_port.clone(),
            dst_port: self.src_port.clone(),
''', '''            src_port: self.src_port.clone(),
            dst_port: self.dst_port.clone(),
''')], "an edge with ports that closes a cycle (a back edge)",
"The turned around edge keeps its ports in the old order, so it is attached to the wrong fields",
r'''
use layout::std_shapes::shapes::*;
use layout::core::style::*;
fn main() {
    let a = Arrow::new(LineEndKind::Arrow, LineEndKind::None, LineStyleKind::Normal, "t", &StyleAttr::simple(),
        &Some("p".to_string()), &Some("q".to_string()));
    let r = a.reverse();
    assert_eq!(r.src_port.as_deref(), Some("q"));
    assert_eq!(r.dst_port.as_deref(), Some("p"));
    assert!(matches!(r.end, LineEndKind::Arrow) && matches!(r.start, LineEndKind::None));
}
''')

seed("stale-edge", "P10", [(L+"topo/layout.rs",
'''                self.dag.remove_edge(prev, curr);
                self.dag.add_edge(prev, conn);
''', '''                // The first segment replaces the original edge.
                if i == 1 {
                    self.dag.remove_edge(prev, curr);
                }
                self.dag.add_edge(prev, conn);
''')], "an edge that has to be split more than once (it spans at least three ranks)",
"The graph keeps links from inner connectors straight to the end node, skipping ranks",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
fn main() {
    let mut vg = VisualGraph::new(Orientation::TopToBottom);
    let n: Vec<_> = (0..5).map(|_| vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(),
        Orientation::TopToBottom, Point::new(20., 20.)))).collect();
    for i in 1..5 { vg.add_edge(Arrow::simple(""), n[i-1], n[i]); }
    vg.add_edge(Arrow::simple(""), n[0], n[4]);
    vg.to_valid_dag();
    vg.split_text_edges();
    vg.split_long_edges(true);
    for a in vg.iter_nodes() {
        for b in vg.succ(a) {
            assert_eq!(vg.dag.level(a) + 1, vg.dag.level(*b));
        }
    }
}
''')

seed("sink-more", "P11", [(L+"topo/optimizer.rs",
"if backs.len() > fwds.len() || backs.len() + fwds.len() == 0 {",
"if backs.len() > fwds.len() + 1 || fwds.is_empty() {")],
"a node with one more incoming than outgoing edge and slack below it",
"Sinking that node lengthens more edges than it shortens, so the total span grows",
r'''
use layout::adt::dag::DAG;
use layout::topo::optimizer::RankOptimizer;
fn main() {
    let mut d = DAG::new();
    let n: Vec<_> = (0..9).map(|_| d.new_node()).collect();
    for i in 1..5 { d.add_edge(n[i-1], n[i]); }     // long path 0..4
    d.add_edge(n[5], n[7]); d.add_edge(n[6], n[7]); // two roots, one middle node
    d.add_edge(n[7], n[4]);
    d.add_edge(n[0], n[8]);
    for (a, b) in [(5, 8), (6, 8), (5, 1), (6, 1)] { d.add_edge(n[a], n[b]); }
    d.recompute_node_ranks();
    let span = |d: &DAG| -> usize { d.iter().map(|a| d.successors(a).iter().map(|b| d.level(*b) - d.level(a)).sum::<usize>()).sum() };
    let s0 = span(&d);
    RankOptimizer::new(&mut d).optimize();
    let s1 = span(&d);
    assert!(s1 <= s0, "{} > {}", s1, s0);
}
''')

seed("rotate-first", "P12", [(L+"topo/optimizer.rs",
'''            self.swap_crossed_edges(dir);
            let new_cnt = self.count_crossed_edges();
            if new_cnt < best_cnt {
                #[cfg(feature = "log")]
                log::info!("Found a rank with {} crossings.", new_cnt);
                best_rank = self.dag.ranks().clone();
                best_cnt = new_cnt;
            }
            self.rotate_rank();
''', '''            self.swap_crossed_edges(dir);
            let new_cnt = self.count_crossed_edges();
            self.rotate_rank();
            if new_cnt < best_cnt {
                #[cfg(feature = "log")]
                log::info!("Found a rank with {} crossings.", new_cnt);
                best_rank = self.dag.ranks().clone();
                best_cnt = new_cnt;
            }
''')], "a graph in which the optimisation finds an improvement and rotating the rows by one adds crossings",
"The rotated order is kept, which can have more crossings than the order before the optimisation",
r'''
use layout::adt::dag::{DAG, NodeHandle};
use layout::topo::optimizer::EdgeCrossOptimizer;
fn crossings(d: &DAG) -> usize {
    let mut c = 0;
    for r in 0..d.num_levels().saturating_sub(1) {
        let (a, b) = (d.row(r), d.row(r + 1));
        let mut e = Vec::new();
        for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() {
            if d.successors(*x).contains(y) { e.push((i, j)); }
        } }
        for p in &e { for q in &e { if p.0 < q.0 && p.1 > q.1 { c += 1; } } }
    }
    c
}
fn main() {
    let mut s: u64 = 12345;
    let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
    for _ in 0..400 {
        let mut d = DAG::new();
        let (k, w) = (2 + rnd(3) as usize, 2 + rnd(4) as usize);
        d.new_nodes(k * w);
        for r in 0..k - 1 { for i in 0..w { for j in 0..w {
            if rnd(10) < 4 || i == 0 && j == 0 { d.add_edge(NodeHandle::new(r * w + i), NodeHandle::new((r + 1) * w + j)); }
        } } }
        d.recompute_node_ranks();
        // only adjacent ranks are compared
        let c0 = crossings(&d);
        EdgeCrossOptimizer::new(&mut d).optimize();
        let c1 = crossings(&d);
        assert!(c1 <= c0, "{} -> {}", c0, c1);
    }
}
''')

seed("lr-nolayout", "P13", [(L+"topo/placer/place.rs",
'''            log::info!("Skipping the layout phase.");
            // Finalize left-to-right graphs.
            if need_transpose {
                self.vg.transpose();
            }
            return;
''', '''            log::info!("Skipping the layout phase.");
            return;
''')], "a left-to-right graph that is rendered with the layout phase disabled",
"The axes are not exchanged: ranks are stacked from top to bottom and sizes stay transposed",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::backends::svg::SVGWriter;
fn main() {
    let o = Orientation::LeftToRight;
    for off in [false, true] {
        let mut vg = VisualGraph::new(o);
        let a = vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(), o, Point::new(90., 20.)));
        let b = vg.add_node(Element::create(ShapeKind::new_box("y"), StyleAttr::simple(), o, Point::new(90., 20.)));
        vg.add_edge(Arrow::simple(""), a, b);
        let mut svg = SVGWriter::new();
        vg.do_it(false, false, off, &mut svg);
        assert!(vg.pos(a).right(false) < vg.pos(b).left(false));
        assert_eq!(vg.pos(a).size(false), Point::new(90., 20.));
    }
}
''')

seed("sweep-dir", "P14", [(L+"topo/optimizer.rs",
'''                for i in 0..self.dag.num_levels() {
                    changed |= self.swap_crossed_edges_on_row(i, dir);
                }
''', '''                // The downwards sweep only looks at the rows below.
                for i in 0..self.dag.num_levels() {
                    changed |=
                        self.swap_crossed_edges_on_row(i, Direction::Down);
                }
'''), (L+"topo/optimizer.rs",
'''                for i in (0..self.dag.num_levels()).rev() {
                    changed |= self.swap_crossed_edges_on_row(i, dir);
                }
''', '''                // The upwards sweep only looks at the rows above.
                for i in (0..self.dag.num_levels()).rev() {
                    changed |=
                        self.swap_crossed_edges_on_row(i, Direction::Up);
                }
''')], "two neighbours in a row whose edges upwards ask for one order and whose edges downwards for the other",
"The two sweeps undo each other forever: the layout never finishes",
r'''
use layout::adt::dag::{DAG, NodeHandle};
use layout::topo::optimizer::EdgeCrossOptimizer;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s: u64 = 4242;
        let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
        for _ in 0..300 {
            let mut d = DAG::new();
            d.new_nodes(12);
            for r in 0..2 { for i in 0..4 { for j in 0..4 {
                if rnd(10) < 5 || i == j { d.add_edge(NodeHandle::new(r * 4 + i), NodeHandle::new((r + 1) * 4 + j)); }
            } } }
            d.recompute_node_ranks();
            EdgeCrossOptimizer::new(&mut d).optimize();
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(30)).expect("the optimisation does not finish");
}
''')

seed("align-used", "P15", [(L+"topo/placer/bk.rs",
'''                    for i in 0..(idx + 1) {
                        used[i] = true;
                    }
''', '''                    used[idx] = true;
''')], "two neighbours in a row whose closest free predecessors are in the opposite order",
"Two aligned pairs cross, the blocks wait for each other and the placement never finishes",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::backends::svg::SVGWriter;
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s: u64 = 77;
        let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
        for _ in 0..200 {
            let mut vg = VisualGraph::new(Orientation::TopToBottom);
            let k = 4 + rnd(6) as usize;
            let n: Vec<_> = (0..k).map(|_| vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(),
                Orientation::TopToBottom, Point::new(20., 20.)))).collect();
            for _ in 0..12 {
                let (a, b) = (rnd(k as u64) as usize, rnd(k as u64) as usize);
                vg.add_edge(Arrow::simple(""), n[a], n[b]);
            }
            let mut svg = SVGWriter::new();
            vg.do_it(false, true, false, &mut svg);
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(40)).expect("the layout does not finish");
}
''')

seed("side-gain", "P16", [(L+"core/geometry.rs", "if gain_y.abs() < box_y {", "if gain_y.abs() < size.y {")],
"an edge that leaves a box through its top or bottom side at a slope between one and two half heights per half width",
"The edge ends beside the box, above or below its corner",
r'''
use layout::core::geometry::*;
fn main() {
    let (c, sz) = (Point::new(100., 100.), Point::new(40., 40.));
    for i in 0..360 {
        let t = (i as f64 + 0.5).to_radians();
        let from = Point::new(c.x + 300. * t.cos(), c.y + 300. * t.sin());
        let p = get_connection_point_for_box(c, sz, from, 30.).0;
        let (dx, dy) = ((p.x - c.x).abs() - 20., (p.y - c.y).abs() - 20.);
        assert!(dx < 1e-6 && dy < 1e-6, "{} outside", p);
        assert!(dx > -20.1 && (dx.abs() < 1e-6 || dy.abs() < 1e-6 || (p.x - c.x).abs() < 1e-6), "{} inside", p);
    }
}
''')

seed("seg-yrange", "P17", [(L+"core/geometry.rs",
'''    // Check if the lives are outside of the y range.
    let above = seg.0.y < rect.0.y && seg.1.y < rect.0.y;
    let below = seg.0.y > rect.1.y && seg.1.y > rect.1.y;
    if above || below {
        return false;
    }

''', '')], "a sloped segment that ends before it reaches the rectangle, while the line through it hits the rectangle",
"The test answers yes for a segment that does not touch the rectangle",
r'''
use layout::core::geometry::*;
fn main() {
    let rect = (Point::new(0., 0.), Point::new(10., 10.));
    assert!(!segment_rect_intersection((Point::new(2., -20.), Point::new(4., -5.)), rect));
    assert!(segment_rect_intersection((Point::new(2., -20.), Point::new(4., 5.)), rect));
}
''')

seed("halo-transpose", "P18", [(L+"core/geometry.rs",
'''        self.halo = self.halo.transpose();
''', '')], "an element with a halo that is not the same in both directions",
"Transposing leaves the halo, so left-to-right layouts reserve the wrong space",
r'''
use layout::core::geometry::*;
fn main() {
    let mut p = Position::new(Point::new(1., 2.), Point::new(30., 40.), Point::new(3., 4.), Point::new(10., 20.));
    let a = p.bbox(true);
    p.transpose();
    let b = p.bbox(true);
    assert_eq!((a.0.transpose(), a.1.transpose()), b);
}
''')

seed("port-rfind", "P19", [(L+"gv/record.rs", "str.find('>')", "str.rfind('>')")],
"a field with a port whose text contains another '>'",
"The port name swallows the text up to the last '>'",
r'''
use layout::gv::record::parse_record_string;
use layout::std_shapes::shapes::RecordDef;
fn main() {
    if let RecordDef::Array(a) = parse_record_string("<p> a > b | c") {
        if let RecordDef::Text(t, p) = &a[0] {
            assert_eq!(t, "a > b");
            assert_eq!(p.as_deref(), Some("p"));
            return;
        }
    }
    panic!();
}
''')

seed("record-start", "P20", [(L+"std_shapes/render.rs",
"let mut starty = loc.y - size.y / 2.;", "let mut starty = loc.y - sum.y / 2.;")],
"a record with stacked fields in a box that is taller than the sum of the field sizes (every padded or nested record)",
"The stacked fields start too low and stick out of the bottom of the record",
r'''
use layout::gv::{DotParser, GraphBuilder};
use layout::core::format::*;
use layout::core::geometry::*;
use layout::core::style::StyleAttr;
#[derive(Default)]
struct R { rects: Vec<(Point, Point)> }
impl RenderBackend for R {
    fn draw_rect(&mut self, xy: Point, size: Point, _: &StyleAttr, _: Option<String>, _: Option<ClipHandle>) { self.rects.push((xy, xy.add(size))); }
    fn draw_line(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_circle(&mut self, _: Point, _: Point, _: &StyleAttr, _: Option<String>) {}
    fn draw_text(&mut self, _: Point, _: &str, _: &StyleAttr) {}
    fn draw_arrow(&mut self, _: &[(Point, Point)], _: bool, _: (bool, bool), _: &StyleAttr, _: Option<String>, _: &str) {}
    fn create_clip(&mut self, _: Point, _: Point, _: usize) -> ClipHandle { 0 }
}
fn main() {
    for s in ["digraph { a [shape=record, label=\"{a|b|c}|{d|e}\"]; }", "digraph { rankdir=LR; a [shape=record, label=\"a|b|{c|d}\"]; }"] {
        let g = DotParser::new(s).process().unwrap();
        let mut b = GraphBuilder::new();
        b.visit_graph(&g);
        let mut r = R::default();
        b.get().do_it(false, false, false, &mut r);
        let o = *r.rects.last().unwrap();
        for x in &r.rects {
            assert!(x.0.x >= o.0.x - 1e-6 && x.0.y >= o.0.y - 1e-6 && x.1.x <= o.1.x + 1e-6 && x.1.y <= o.1.y + 1e-6);
        }
    }
}
''')

seed("no-double-escape", "P21", [(L+"backends/svg.rs",
'''    for c in x.chars() {
        match c {
            '&' => {
                res.push_str("&amp;");
            }
''', '''    for (i, c) in x.char_indices() {
        match c {
            '&' => {
                // Don't escape entities twice.
                let rest = &x[i + 1..];
                if rest.starts_with("amp;") || rest.starts_with("lt;") {
                    res.push(c);
                } else {
                    res.push_str("&amp;");
                }
            }
''')], "a label that contains the characters of an entity, such as a literal &lt;",
"The label is shown decoded once too often",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn main() {
    let mut w = SVGWriter::new();
    w.draw_text(Point::new(50., 50.), "a &lt; b", &StyleAttr::simple());
    assert!(w.finalize().contains("a &amp;lt; b"));
}
''')

seed("skip-empty-label", "P22", [(L+"backends/svg.rs",
'''        self.content.push_str(&line);

        let font_class = self.get_or_create_font_style(look.font_size);
        let line = format!(
            "<text><textPath''', '''        self.content.push_str(&line);

        // There is no text to draw on this path.
        if text.trim().is_empty() {
            return;
        }

        let font_class = self.get_or_create_font_style(look.font_size);
        let line = format!(
            "<text><textPath''')],
"at least two arrows of which an earlier one has no label",
"The identifiers of the paths repeat, and labels are attached to another edge",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn main() {
    let mut w = SVGWriter::new();
    let p = [(Point::new(1., 1.), Point::new(2., 2.)), (Point::new(3., 3.), Point::new(4., 4.))];
    for t in ["", "x", "y", "", "z"] {
        w.draw_arrow(&p, false, (false, true), &StyleAttr::simple(), None, t);
    }
    let s = w.finalize();
    let mut ids: Vec<&str> = s.split("id=\"").skip(1).map(|x| x.split('"').next().unwrap()).collect();
    let n = ids.len();
    ids.sort(); ids.dedup();
    assert_eq!(n, ids.len());
}
''')

seed("canvas-control", "P23", [(L+"backends/svg.rs",
'''            self.grow_window(point.0, Point::zero());
            self.grow_window(point.1, Point::zero());
''', '''            self.grow_window(point.1, Point::zero());
''')], "an arrow whose start or whose control points reach further than its other points",
"The start point of the arrow is outside of the declared canvas",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn main() {
    let mut w = SVGWriter::new();
    let p = [(Point::new(500., 400.), Point::new(470., 370.)), (Point::new(130., 130.), Point::new(100., 100.))];
    w.draw_arrow(&p, false, (false, true), &StyleAttr::simple(), None, "");
    let s = w.finalize();
    let width: f64 = s.split("width=\"").nth(1).unwrap().split('"').next().unwrap().parse().unwrap();
    assert!(width >= 500., "{}", width);
}
''')

seed("double-props", "P24", [(L+"std_shapes/render.rs",
'''                    self.pos.size(false).sub(Point::splat(15.)),
                    &self.look,
                    Option::None,
''', '''                    self.pos.size(false).sub(Point::splat(15.)),
                    &self.look,
                    self.properties.clone(),
''')], "a double circle with properties (set through the API)",
"The properties (for example an id) of the node are written twice",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
fn main() {
    let mut vg = VisualGraph::new(Orientation::TopToBottom);
    let o = Orientation::TopToBottom;
    vg.add_node(Element::create_with_properties(ShapeKind::new_double_circle("x"), StyleAttr::simple(), o, Point::new(60., 60.), "id=\"node7\""));
    let mut svg = SVGWriter::new();
    vg.do_it(false, false, false, &mut svg);
    assert_eq!(svg.finalize().matches("node7").count(), 1);
}
''')

seed("label-onto-node", "P25", [(L+"topo/placer/move_between_rows.rs",
'''    if let ShapeKind::Connector(txt) = pred_shape {
        if txt.is_some() {
            return false;
        }
    } else {
        return false;
    }
''', '''    if let ShapeKind::Connector(Some(_)) = pred_shape {
        return false;
    }
'''), (L+"topo/placer/move_between_rows.rs", '''            // The predecessor must also be a label.
            let pred = vg.dag.predecessors(*elem)[0];
            if !vg.is_connector(pred) {
                continue;
            }
''', '''            // The predecessor must also be a label.
            let pred = vg.dag.predecessors(*elem)[0];
''')], "a labelled edge whose label sits in a row that is much wider than the row of its source node",
"The label replaces the source node",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::backends::svg::SVGWriter;
fn main() {
    let o = Orientation::TopToBottom;
    let mut s: u64 = 31;
    let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
    for _ in 0..2000 {
        let mut vg = VisualGraph::new(o);
        let k = 2 + rnd(7) as usize;
        let n: Vec<_> = (0..k).map(|_| vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(), o,
            Point::new(20. + rnd(200) as f64, 20.)))).collect();
        let m = 1 + rnd(9) as usize;
        let mut edges: Vec<String> = Vec::new();
        for i in 0..m {
            let (a, b) = (rnd(k as u64) as usize, rnd(k as u64) as usize);
            if a == b { continue; }
            vg.add_edge(Arrow::simple(&format!("edge{}#", i)), n[a], n[b]);
            edges.push(format!("edge{}#", i));
        }
        let mut svg = SVGWriter::new();
        vg.do_it(false, false, false, &mut svg);
        let out = svg.finalize();
        for e in &edges { assert_eq!(out.matches(e.as_str()).count(), 1); }
    }
}
''')

seed("no-truncate", "P26", [(L+"core/utils.rs",
'''    let f = File::create(filename)?;
''', '''    let f = File::options().write(true).create(true).open(filename)?;
''')], "saving over an existing file that is longer than the new content",
"The tail of the old file stays behind the new content although success is reported",
r'''
use layout::core::utils::save_to_file;
fn main() {
    save_to_file("demo_out.svg", "a much longer content").unwrap();
    save_to_file("demo_out.svg", "short").unwrap();
    let s = std::fs::read_to_string("demo_out.svg").unwrap();
    std::fs::remove_file("demo_out.svg").unwrap();
    assert_eq!(s, "short");
}
''')

# ---- second batch ----
PIPE = r'''
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
fn svg(s: &str) -> String {
    let g = DotParser::new(s).process().unwrap();
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    let mut vg = b.get();
    let mut w = SVGWriter::new();
    vg.do_it(false, false, false, &mut w);
    w.finalize()
}
'''
seed("unicode-port", "P01", [(L+"gv/record.rs", "str.find('>')", "str.chars().position(|c| c == '>')")],
"a record field with a port whose name has a character outside ASCII",
"The index of a character is used as a byte offset: splitting the label panics",
r'''
use layout::gv::record::parse_record_string;
fn main() {
    parse_record_string("{<f0> a|<f1> b}");
    parse_record_string("{<\u{e9}> a|b}");
}
''')
seed("number-period", "P02", [(L+"gv/parser/lexer.rs",
'''                } else {
                    break;
                }
            }
            result.push(self.ch);''',
'''                } else {
                    self.read_char();
                    break;
                }
            }
            result.push(self.ch);''')], "a number that is followed directly by a second period",
"The second period belongs to no token and is not reported",
r'''
use layout::gv::parser::lexer::{Lexer, Token};
fn main() {
    let mut l = Lexer::from_string("a=1.2.3");
    let mut v = Vec::new();
    for _ in 0..10 {
        let t = l.next_token();
        if let Token::EOF = t { break; }
        v.push(format!("{:?}", t));
        if let Token::Error(_) = t { return; }
    }
    panic!("no error: {:?}", v);
}
''')
seed("eof-nested", "P03", [(L+"gv/parser/parser.rs",
'''            let stmt = self.parse_stmt()?;
            lst.list.push(stmt);
''', '''            // The last brace of the file may be missing.
            if matches!(self.tok, Token::EOF) && !lst.list.is_empty() {
                return Result::Ok(lst);
            }
            let stmt = self.parse_stmt()?;
            lst.list.push(stmt);
''')], "a text that ends after a complete statement, with a brace still open",
"The text is accepted and repaired instead of being rejected",
r'''
use layout::gv::DotParser;
fn main() {
    assert!(DotParser::new("digraph { subgraph x { a -> b; } c [x=y] }").process().is_ok());
    for s in ["digraph { a -> b;", "digraph { subgraph x { a -> b; } c [x=y]", "graph {", "graph { { a; }"] {
        assert!(DotParser::new(s).process().is_err(), "{}", s);
    }
}
''')
seed("attr-dup", "P03", [(L+"gv/parser/ast.rs",
'''        self.list.push((from.to_string(), to.to_string()));
''', '''        // The last value of a repeated attribute wins.
        for pair in self.list.iter_mut() {
            if pair.0 == from {
                pair.1 = to.to_string();
                return;
            }
        }
        self.list.push((from.to_string(), to.to_string()));
''')], "an attribute list that assigns the same attribute twice",
"The syntax tree has one pair fewer than the text spells",
r'''
use layout::gv::DotParser;
use layout::gv::parser::ast::Stmt;
fn main() {
    let g = DotParser::new("digraph { a [x=1, y=2, x=3] }").process().unwrap();
    if let Stmt::Node(n) = &g.list.list[0] {
        let l: Vec<(&str, &str)> = n.list.iter().map(|p| (&p.0[..], &p.1[..])).collect();
        assert_eq!(l, [("x", "1"), ("y", "2"), ("x", "3")]);
    } else { panic!() }
}
''')
seed("recent-keys", "P04", [(L+"adt/map.rs",
'''        for pair in scope {
            if pair.0 == *key {
                pair.1 = val.clone();
                return;
            }
        }

        self.stack
''', '''        // Attributes are overwritten shortly after they are set.
        for pair in scope.iter_mut().rev().take(8) {
            if pair.0 == *key {
                pair.1 = val.clone();
                return;
            }
        }

        self.stack
''')], "storing a key again after at least eight other keys in the same scope",
"Looking the key up gives the old value (flattening gives the new one)",
r'''
use layout::adt::map::ScopedMap;
fn main() {
    let mut m: ScopedMap<usize, usize> = ScopedMap::new();
    m.push();
    for i in 0..12 { m.insert(&i, &i); }
    m.insert(&11, &100);
    assert_eq!(m.get(&11), Some(100));
    m.insert(&0, &200);
    assert_eq!(m.get(&0), Some(200));
}
''')
seed("rankdir-inner", "P05", [(L+"gv/builder.rs",
'''        self.global_state = self.global_attr.flatten();
''', '''        if self.global_state.is_empty() {
            self.global_state = self.global_attr.flatten();
        }
''')], "a subgraph in which graph attributes are visible and that closes before the outermost graph declares rankdir",
"The orientation is the one that was visible in the first subgraph",
r'''
use layout::gv::{DotParser, GraphBuilder};
fn lr(s: &str) -> bool {
    let g = DotParser::new(s).process().unwrap();
    let mut b = GraphBuilder::new();
    b.visit_graph(&g);
    !b.get().orientation().is_top_to_bottom()
}
fn main() {
    assert!(lr("digraph { rankdir=LR; subgraph x { a; } }"));
    assert!(!lr("digraph { subgraph x { rankdir=LR; a; } b; }"));
    assert!(lr("digraph { label=x; subgraph x { a; } rankdir=LR; b; }"));
}
''')
seed("hex-magnitude", "P06", [(L+"core/color.rs",
"                if name.len() <= 7 {", "                if color <= 0x00ff_ffff {")],
"a colour with an alpha channel and no red in it (#00rrggbb)",
"#00112233 is read as the colour #112233",
r'''
use layout::core::color::Color;
fn main() {
    assert_eq!(Color::fast("#112233").to_web_color(), "#112233ff");
    assert_eq!(Color::fast("#ff112233").to_web_color(), "#ff112233");
    assert_eq!(Color::fast("#00112233").to_web_color(), "#00112233");
}
''')
seed("swap-remove", "P07", [(L+"adt/dag.rs", "        level.remove(idx);\n", "        level.swap_remove(idx);\n")],
"moving a node that is neither the last nor the last but one of its rank",
"The order of the nodes that stay in the rank changes",
r'''
use layout::adt::dag::{DAG, NodeHandle};
fn main() {
    let mut d = DAG::new();
    d.new_nodes(4);
    d.update_node_rank_level(NodeHandle::new(0), 1, None);
    let r: Vec<usize> = d.row(0).iter().map(|x| x.get_index()).collect();
    assert_eq!(r, [1, 2, 3]);
}
''')
seed("same-rank-move", "P07", [(L+"adt/dag.rs",
'''        let curr_level = self.level(node);
        let level = &mut self.ranks[curr_level];
''', '''        let curr_level = self.level(node);
        // The node is in that rank already.
        if curr_level == new_level {
            return;
        }
        let level = &mut self.ranks[curr_level];
''')], "moving a node within its own rank (what happens for the connector of a self edge on the first rank)",
"The node is not placed where it was requested",
r'''
use layout::adt::dag::{DAG, NodeHandle};
fn main() {
    let mut d = DAG::new();
    d.new_nodes(4);
    d.update_node_rank_level(NodeHandle::new(3), 0, Some(NodeHandle::new(1)));
    let r: Vec<usize> = d.row(0).iter().map(|x| x.get_index()).collect();
    assert_eq!(r, [0, 3, 1, 2]);
}
''')
seed("reach-rank", "P08", [(L+"adt/dag.rs",
'''        if from == to {
            return true;
        }

        let mut visited = Vec::new();
''', '''        if from == to {
            return true;
        }

        // Edges lead to later ranks.
        if self.level(from) > self.level(to) {
            return false;
        }

        let mut visited = Vec::new();
''')], "a query after ranking, on an edge that was added afterwards (or moved nodes)",
"A path that leads against the current ranks is not found",
r'''
use layout::adt::dag::{DAG, NodeHandle};
fn main() {
    let mut d = DAG::new();
    d.new_nodes(4);
    let n: Vec<NodeHandle> = (0..4).map(NodeHandle::new).collect();
    d.add_edge(n[0], n[1]);
    d.recompute_node_ranks();
    d.add_edge(n[1], n[2]);
    assert!(d.is_reachable(n[0], n[2]));
    assert!(d.is_reachable(n[1], n[2]));
    assert!(!d.is_reachable(n[2], n[1]));
}
''')
seed("undirected-ports", "P09", [(L+"topo/layout.rs",
'''                arrow = arrow.reverse();
''', '''                if !matches!(arrow.start, LineEndKind::None)
                    || !matches!(arrow.end, LineEndKind::None)
                {
                    arrow = arrow.reverse();
                }
''')], "an undirected edge with a port that closes a cycle",
"The edge is turned around but its ports are not",
PIPE + r'''
fn path(s: &str) -> String {
    let i = s.rfind("d=\"M").unwrap();
    s[i..i + 40].to_string()
}
fn main() {
    // the second edge closes a cycle; its port is the third field of a
    let d = svg("digraph { a [shape=record, label=\"<x> aaaaaa|<y> bbbbbb|<z> cccccc\"]; b; a -> b; b -> a:z }");
    let u = svg("digraph { a [shape=record, label=\"<x> aaaaaa|<y> bbbbbb|<z> cccccc\"]; b; a -> b; b -- a:z }");
    assert_eq!(path(&d), path(&u));
}
''')
seed("blank-label", "P10", [(L+"topo/layout.rs",
"            if edge.0.text.is_empty() {", "            if edge.0.text.trim().is_empty() {")],
"an edge label that consists of blanks only",
"The label stays on the edge instead of moving to a connector",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
fn main() {
    let o = Orientation::TopToBottom;
    for (t, n) in [("x", 3), ("", 2), ("  ", 3)] {
        let mut vg = VisualGraph::new(o);
        let a = vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(), o, Point::new(20., 20.)));
        let b = vg.add_node(Element::create(ShapeKind::new_box("y"), StyleAttr::simple(), o, Point::new(20., 20.)));
        vg.add_edge(Arrow::simple(t), a, b);
        vg.to_valid_dag();
        vg.split_text_edges();
        assert_eq!(vg.num_nodes(), n);
    }
}
''')
seed("isolated-sink", "P11", [(L+"topo/optimizer.rs",
"if backs.len() > fwds.len() || backs.len() + fwds.len() == 0 {",
"if backs.len() > fwds.len() {")],
"a node without any edges",
"The node sinks to a rank of its own far below, and the ranks between are empty",
r'''
use layout::adt::dag::{DAG, NodeHandle};
use layout::topo::optimizer::RankOptimizer;
fn main() {
    let mut d = DAG::new();
    d.new_nodes(6);
    d.add_edge(NodeHandle::new(0), NodeHandle::new(1));
    d.add_edge(NodeHandle::new(1), NodeHandle::new(2));
    d.recompute_node_ranks();
    assert_eq!(d.num_levels(), 3);
    RankOptimizer::new(&mut d).optimize();
    assert_eq!(d.num_levels(), 3);
}
''')
seed("pre-sweep", "P12", [(L+"topo/optimizer.rs",
'''        let mut best_rank = self.dag.ranks().clone();
        let mut best_cnt = self.count_crossed_edges();
''', '''        // Start from a reasonable order.
        self.swap_crossed_edges(Direction::Down);
        let mut best_rank = self.dag.ranks().clone();
        let mut best_cnt = self.count_crossed_edges();
''')], "a graph in which ordering by the edges below adds more crossings above, and no later round gets back",
"The order before the optimisation is forgotten, and the result can have more crossings",
r'''
use layout::adt::dag::{DAG, NodeHandle};
use layout::topo::optimizer::EdgeCrossOptimizer;
fn crossings(d: &DAG) -> usize {
    let mut c = 0;
    for r in 0..d.num_levels().saturating_sub(1) {
        let (a, b) = (d.row(r), d.row(r + 1));
        let mut e = Vec::new();
        for (i, x) in a.iter().enumerate() { for (j, y) in b.iter().enumerate() {
            if d.successors(*x).contains(y) { e.push((i, j)); }
        } }
        for p in &e { for q in &e { if p.0 < q.0 && p.1 > q.1 { c += 1; } } }
    }
    c
}
fn main() {
    let mut s: u64 = 777;
    let mut rnd = |n: u64| { s ^= s << 13; s ^= s >> 7; s ^= s << 17; s % n };
    for _ in 0..2500 {
        let mut d = DAG::new();
        let (k, w) = (3 + rnd(4) as usize, 4 + rnd(4) as usize);
        d.new_nodes(k * w);
        for r in 0..k - 1 { for i in 0..w { for j in 0..w {
            if rnd(10) < 3 || i == j { d.add_edge(NodeHandle::new(r * w + i), NodeHandle::new((r + 1) * w + j)); }
        } } }
        d.recompute_node_ranks();
        // run to a good order first: a second run has little to gain
        EdgeCrossOptimizer::new(&mut d).optimize();
        let c0 = crossings(&d);
        EdgeCrossOptimizer::new(&mut d).optimize();
        let c1 = crossings(&d);
        assert!(c1 <= c0, "{} -> {}", c0, c1);
    }
}
''')
seed("connector-height", "P13", [(L+"topo/placer/simple.rs",
'''        for idx in current_row.iter() {
            let height = vg.pos(*idx).size(true).y;
            max_height''', '''        for idx in current_row.iter() {
            if vg.is_connector(*idx) {
                continue;
            }
            let height = vg.pos(*idx).size(true).y;
            max_height''')],
"an edge label with many lines on a rank of its own",
"The rank gets no height: its neighbours are placed on top of each other",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
use layout::backends::svg::SVGWriter;
fn main() {
    let o = Orientation::TopToBottom;
    for off in [true, false] {
        let mut vg = VisualGraph::new(o);
        let mk = |s: &str| Element::create(ShapeKind::new_box(s), StyleAttr::simple(), o, Point::new(60., 60.));
        let a = vg.add_node(mk("x"));
        let b = vg.add_node(mk("y"));
        vg.add_edge(Arrow::simple("1\n2\n3\n4\n5\n6\n7\n8\n9"), a, b);
        let mut svg = SVGWriter::new();
        vg.do_it(false, false, off, &mut svg);
        let ids: Vec<_> = vg.iter_nodes().collect();
        for i in 0..ids.len() { for j in 0..i {
            let (p, q) = (vg.pos(ids[i]).bbox(false), vg.pos(ids[j]).bbox(false));
            assert!(!layout::core::geometry::do_boxes_intersect(p, q), "{:?} {:?}", p, q);
        } }
    }
}
''')
seed("empty-label", "P14", [(L+"core/geometry.rs",
'''    let max_line_len = if !label.is_empty() {
        label.lines().map(|x| x.chars().count()).max().unwrap()
    } else {
        0
    };
''', '''    let max_line_len =
        label.lines().map(|x| x.chars().count()).max().unwrap();
''')], "a node with an empty label",
"Computing the size of the text panics",
PIPE + r'''
fn main() {
    svg("digraph { a [label=\"x\"]; a -> b; }");
    svg("digraph { a [label=\"\"]; a -> b; }");
}
''')
seed("pass-limit", "P15", [(L+"topo/placer/bk.rs",
'''        while to_place > 0 {
            for i in 0..self.vl.len() {''', '''        // Every pass places the verticals that are ready.
        let mut passes = 0;
        while to_place > 0 && passes < 60 {
            passes += 1;
            for i in 0..self.vl.len() {''')],
"more than 60 blocks in one rank that become ready one after the other",
"The blocks that are left when the limit is reached are never scheduled and stay on top of each other",
PIPE + r'''
fn main() {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = String::from("digraph { rt; ");
        for i in 0..90 { s.push_str(&format!("n{} [shape=box]; rt -> n{};", i, i)); }
        s.push('}');
        let g = DotParser::new(&s).process().unwrap();
        let mut b = GraphBuilder::new();
        b.visit_graph(&g);
        let mut vg = b.get();
        let mut w = SVGWriter::new();
        vg.do_it(false, false, false, &mut w);
        let row = vg.dag.row(1).clone();
        for i in 1..row.len() {
            assert!(vg.pos(row[i - 1]).right(false) < vg.pos(row[i]).left(false));
        }
        tx.send(()).unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(50)).expect("failed");
}
''')
seed("port-prefix", "P16", [(L+"std_shapes/render.rs",
"if *port_name == self.port_name {", "if port_name.starts_with(&self.port_name) {")],
"a record with a port whose name is the beginning of the name of a later port",
"The edge ends on the outline of the later field",
r'''
use layout::core::base::Orientation;
use layout::core::format::Renderable;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::gv::record::record_builder;
use layout::std_shapes::shapes::*;
fn main() {
    let s = record_builder("<f1> aaaa|<f2> bbbb|<f10> cccc");
    let e = Element::create(s, StyleAttr::simple(), Orientation::LeftToRight, Point::new(300., 40.));
    let c = |p: &str| e.get_connector_location(Point::new(0., 500.), 30., &Some(p.to_string())).0.x;
    assert!(c("f1") < -50.);
    assert!(c("f2").abs() < 51.);
    assert!(c("f10") > 49.);
}
''')
seed("median-three", "P17", [(L+"core/geometry.rs",
'''    vec.sort_by(|a, b| a.partial_cmp(b).unwrap());
''', '''    // Short lists don't need to be sorted.
    if vec.len() > 3 {
        vec.sort_by(|a, b| a.partial_cmp(b).unwrap());
    }
''')], "a list of three values whose middle one is not the median",
"The median of three values depends on their order",
r'''
use layout::core::geometry::weighted_median;
fn main() {
    assert_eq!(weighted_median(&[4., 1.]), 2.5);
    assert_eq!(weighted_median(&[4., 1., 3., 2.]), 2.5);
    for v in [[1., 2., 3.], [2., 1., 3.], [3., 1., 2.], [1., 3., 2.]] {
        assert_eq!(weighted_median(&v), 2.);
    }
}
''')
seed("set-y", "P18", [(L+"core/geometry.rs",
"        self.middle.y = y - self.center.y;", "        self.middle.y = y - self.center.x;")],
"an element whose center is not in its middle",
"set_y puts the center at another coordinate",
r'''
use layout::core::geometry::{Point, Position};
fn main() {
    let mut p = Position::new(Point::new(1., 2.), Point::new(10., 20.), Point::zero(), Point::zero());
    p.set_y(30.);
    assert_eq!(p.center().y, 30.);
    p.set_new_center_point(Point::new(0., 5.));
    p.set_y(30.);
    assert_eq!(p.center().y, 30.);
    assert_eq!(p.center().x, 1.);
}
''')
seed("port-only", "P19", [(L+"gv/record.rs",
'''            let text = RecordDef::Text(ret.0, ret.1);
            self.arr.push(text);
            self.label.clear();
''', '''            self.label.clear();
            // Blank fields are dropped.
            if !ret.0.is_empty() {
                self.arr.push(RecordDef::Text(ret.0, ret.1));
            }
''')], "a field that has a port name and no text",
"The field and its port are lost",
r'''
use layout::gv::record::parse_record_string;
use layout::std_shapes::shapes::RecordDef;
fn main() {
    if let RecordDef::Array(a) = parse_record_string("<p>|x") { assert_eq!(a.len(), 2); } else { panic!() }
}
''')
seed("record-noflip", "P20", [(L+"std_shapes/render.rs",
'''                let ret = get_record_size(elem, dir.flip(), font_size);
''', '''                let ret = get_record_size(elem, dir, font_size);
''')], "a record with fields nested in fields",
"The sizes of nested fields are computed along the wrong axis: fields are too small for their text",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::format::{ClipHandle, RenderBackend, Renderable};
use layout::core::style::StyleAttr;
use layout::gv::record::record_builder;
use layout::std_shapes::render::get_shape_size;
use layout::std_shapes::shapes::*;
struct R { rect: Vec<Point>, bad: bool }
impl RenderBackend for R {
    fn draw_rect(&mut self, _xy: Point, size: Point, _l: &StyleAttr, _p: Option<String>, _c: Option<ClipHandle>) { self.rect.push(size); }
    fn draw_line(&mut self, _a: Point, _b: Point, _l: &StyleAttr, _p: Option<String>) {}
    fn draw_circle(&mut self, _xy: Point, _s: Point, _l: &StyleAttr, _p: Option<String>) {}
    fn draw_text(&mut self, _xy: Point, t: &str, l: &StyleAttr) {
        let s = self.rect.last().unwrap();
        if s.x < (t.len() * l.font_size) as f64 - 0.01 { self.bad = true; }
    }
    fn draw_arrow(&mut self, _p: &[(Point, Point)], _d: bool, _h: (bool, bool), _l: &StyleAttr, _pr: Option<String>, _t: &str) {}
    fn create_clip(&mut self, _xy: Point, _s: Point, _r: usize) -> ClipHandle { 0 }
}
fn main() {
    for s in ["a|b", "{aaaaaa|bbbbbb|{cccccc|dddddd}}", "x|{y|{zzzz|wwww}|t}"] {
        let shape = record_builder(s);
        for o in [Orientation::LeftToRight, Orientation::TopToBottom] {
            let sz = get_shape_size(o, &shape, 15, false);
            let e = Element::create(shape.clone(), StyleAttr::simple(), o, sz);
            let mut r = R { rect: vec![], bad: false };
            e.render(false, &mut r);
            assert!(!r.bad, "{}", s);
        }
    }
}
''')
seed("trim-lines", "P21", [(L+"backends/svg.rs",
"            content.push_str(&escape_string(line));", "            content.push_str(&escape_string(line.trim_end()));")],
"a label with a line that ends in a blank",
"The text of the output is not the label any more",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn main() {
    let mut w = SVGWriter::new();
    w.draw_text(Point::new(50., 50.), "ab \ncd", &StyleAttr::simple());
    let s = w.finalize();
    assert!(s.contains(">ab </tspan>") && s.contains(">cd</tspan>"));
}
''')
seed("font-cap", "P22", [(L+"backends/svg.rs",
'''        if let Option::Some(x) = self.font_style_map.get(&font_size) {
''', '''        // Very large fonts are not useful.
        let font_size = font_size.min(200);
        if let Option::Some(x) = self.font_style_map.get(&font_size) {
''')], "a font larger than 200",
"The class of the text stands for another font size than the one it was drawn with",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::color::Color;
use layout::core::style::StyleAttr;
fn main() {
    for n in [12usize, 72, 201, 500] {
        let mut w = SVGWriter::new();
        let l = StyleAttr::new(Color::fast("black"), 1, None, 0, n);
        w.draw_text(Point::new(50., 50.), "ab", &l);
        assert!(w.finalize().contains(&format!("font-size: {}px", n)), "{}", n);
    }
}
''')
seed("arrow-first", "P23", [(L+"backends/svg.rs",
'''        for point in path {
            self.grow_window(point.0, Point::zero());
            self.grow_window(point.1, Point::zero());
        }
''', '''        // The exit point is on the outline of a shape that is drawn as well.
        for point in path.iter().skip(1) {
            self.grow_window(point.0, Point::zero());
            self.grow_window(point.1, Point::zero());
        }
''')], "an edge whose first control point lies beyond everything else",
"The view box does not cover the first two points of the edge",
r'''
use layout::backends::svg::SVGWriter;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn main() {
    let mut w = SVGWriter::new();
    let p = |x, y| Point::new(x, y);
    w.draw_arrow(&[(p(300., 10.), p(250., 20.)), (p(100., 30.), p(90., 40.))], false, (false, true), &StyleAttr::simple(), None, "");
    let s = w.finalize();
    let i = s.find("<svg width=\"").unwrap() + 12;
    let wd: f64 = s[i..].split('"').next().unwrap().parse().unwrap();
    assert!(wd >= 300., "{}", wd);
}
''')
seed("debug-skip", "P24", [(L+"std_shapes/render.rs",
'''                        &StyleAttr::debug1(),
                        Option::None,
                        Option::None,
                    );
                }
                if let''', '''                        &StyleAttr::debug1(),
                        Option::None,
                        Option::None,
                    );
                } else if let''')],
"a labelled edge rendered in debug mode",
"Debug mode leaves out the label",
r'''
use layout::backends::svg::SVGWriter;
use layout::gv::{DotParser, GraphBuilder};
fn main() {
    for debug in [false, true] {
        let g = DotParser::new("digraph { a -> b [label=hello] }").process().unwrap();
        let mut b = GraphBuilder::new();
        b.visit_graph(&g);
        let mut vg = b.get();
        let mut w = SVGWriter::new();
        vg.do_it(debug, false, false, &mut w);
        assert!(w.finalize().contains("hello"));
    }
}
''')
seed("label-copy", "P25", [(L+"topo/placer/move_between_rows.rs",
'''        vg.element_mut(curr).shape = ShapeKind::Connector(None);
''', '')], "a long labelled edge next to wide nodes, so that its label moves to another row",
"The label is drawn twice",
PIPE + r'''
fn main() {
    let mut moved = String::from("digraph { a -> b; b -> c; c -> d; a -> d [label=hello]; ");
    for i in 0..8 { moved.push_str(&format!("a -> w{} [style=dashed]; w{} [label=\"wwwwwwwwwwwwwwwwww\"]; ", i, i)); }
    moved.push('}');
    let mut m2 = String::from("digraph { a -> b; b -> c; c -> d; a -> d [label=hello]; ");
    for i in 0..8 { m2.push_str(&format!("b -> w{}; w{} [label=\"wwwwwwwwwwwwwwwwww\"]; ", i, i)); }
    m2.push('}');
    for s in [moved, m2] {
        assert_eq!(svg(&s).matches("hello").count(), 1);
    }
}
''')
seed("empty-content", "P26", [(L+"core/utils.rs",
'''    let f = File::create(filename)?;
''', '''    // There is nothing to write.
    if content.is_empty() {
        return Result::Ok(());
    }
    let f = File::create(filename)?;
''')], "saving an empty text over an existing file (or to a name that cannot be created)",
"Success is reported although the file still has the old content",
r'''
use layout::core::utils::save_to_file;
fn main() {
    save_to_file("x.svg", "hello").unwrap();
    save_to_file("x.svg", "").unwrap();
    assert_eq!(std::fs::read_to_string("x.svg").unwrap(), "");
}
''')
SVGD = r'''
use layout::backends::svg::SVGWriter;
use layout::core::color::Color;
use layout::core::format::RenderBackend;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
fn look() -> StyleAttr { StyleAttr::new(Color::fast("black"), 2, Option::None, 0, 10) }
// the value of an attribute of the first element of the kind that follows the given place
fn attr<'a>(s: &'a str, el: &str, name: &str) -> &'a str {
    let a = s.rfind(&format!("<{}", el)).unwrap();
    let t = &s[a..];
    let t = &t[..t.find('>').unwrap()];
    let k = format!(" {}=\"", name);
    let b = t.find(&k).unwrap() + k.len();
    &t[b..b + t[b..].find('"').unwrap()]
}
'''
seed("still-segment", "P27", [(L+"backends/svg.rs",
'''        for point in path.iter().skip(2) {
''', '''        for (i, point) in path.iter().enumerate().skip(2) {
            // Don't emit segments that don't move the pen.
            if point.1 == path[i - 1].1 {
                continue;
            }
''')], "an edge of at least three points, two of which in a row are the same",
"The path of the edge loses a point and its control point, so the rest of the curve bends differently",
SVGD + r'''
fn main() {
    let p = |x: f64, y: f64| Point::new(x, y);
    let mut w = SVGWriter::new();
    let path = vec![(p(1., 2.), p(3., 4.)), (p(5., 6.), p(7., 8.)), (p(9., 30.), p(7., 8.)), (p(11., 12.), p(13., 14.))];
    w.draw_arrow(&path, false, (false, true), &look(), Option::None, "x");
    let s = w.finalize();
    let d: Vec<String> = attr(&s, "path id=\"arrow0\"", "d").replace(',', " ").split_whitespace().map(|x| x.to_string()).collect();
    assert_eq!(d.join(" "), "M 1 2 C 3 4 5 6 7 8 S 9 30 7 8 S 11 12 13 14");
}
''')
seed("blank-line-center", "P27", [(L+"backends/svg.rs",
'''        let cnt = 1 + text.lines().count();
''', '''        let cnt = 1 + text.lines().filter(|l| !l.is_empty()).count();
''')], "a label with an empty line in it",
"The text is not centered at its anchor any more: the empty line takes room that was not counted",
SVGD + r'''
fn main() {
    for (t, y) in [("a", 90.), ("a\nb", 85.), ("a\n\nb", 80.)] {
        let mut w = SVGWriter::new();
        w.draw_text(Point::new(50., 100.), t, &look());
        let s = w.finalize();
        let got: f64 = attr(&s, "text ", "y").parse().unwrap();
        assert_eq!(got, y);
    }
}
''')
seed("line-order", "P27", [(L+"backends/svg.rs",
'''            start.x,
            start.y,
            stop.x,
            stop.y,
            stroke_width,
''', '''            // From left to right.
            start.x.min(stop.x),
            start.y,
            start.x.max(stop.x),
            stop.y,
            stroke_width,
''')], "a line drawn from right to left that is not horizontal",
"The line is mirrored: its end points are exchanged on one axis only",
SVGD + r'''
fn main() {
    for (a, b) in [((1., 2.), (3., 4.)), ((3., 2.), (1., 2.)), ((3., 2.), (1., 4.))] {
        let mut w = SVGWriter::new();
        w.draw_line(Point::new(a.0, a.1), Point::new(b.0, b.1), &look(), Option::None);
        let s = w.finalize();
        let f = |n: &str| -> f64 { attr(&s, "line ", n).parse().unwrap() };
        let (p, q) = ((f("x1"), f("y1")), (f("x2"), f("y2")));
        assert!((p, q) == (a, b) || (p, q) == (b, a), "{:?} {:?}", p, q);
    }
}
''')
seed("many-defaults", "P05", [(L+"adt/map.rs",
'''            for pair in scope.iter() {
                map.insert''', '''            for pair in scope.iter().rev().take(8).rev() {
                map.insert''')], "an attribute statement list with more than eight assignments in one scope",
"Default attributes that were assigned early in the scope are not applied",
PIPE + r'''
fn main() {
    let a = svg("digraph { node [color=red]; a }");
    let b = svg("digraph { node [color=red, k1=1, k2=1, k3=1, k4=1, k5=1, k6=1, k7=1, k8=1, k9=1]; a }");
    assert_eq!(a, b);
}
''')
seed("turned-properties", "P09", [(L+"std_shapes/shapes.rs",
'''            properties: self.properties.clone(),
            src_port: self.dst_port.clone(),''', '''            properties: Option::None,
            src_port: self.dst_port.clone(),''')],
"an edge with properties that closes a cycle",
"The edge that is turned around loses its properties",
r'''
use layout::core::style::*;
use layout::std_shapes::shapes::*;
fn main() {
    let look = StyleAttr::simple();
    let a = Arrow::with_properties(LineEndKind::None, LineEndKind::Arrow, LineStyleKind::Dashed, "t", &look, "id=\"e\"", &Some("p".to_string()), &None);
    let r = a.reverse();
    assert_eq!(r.properties, a.properties);
    assert_eq!(r.src_port, a.dst_port);
}
''')
seed("blank-lines-size", "P20", [(L+"core/geometry.rs",
'''label.lines().count().max(1));''', '''label.lines().filter(|x| !x.is_empty()).count().max(1));''')],
"a record field whose text has an empty line in it",
"The field is not high enough for its text",
r'''
use layout::core::base::Orientation;
use layout::std_shapes::render::get_shape_size;
use layout::gv::record::record_builder;
fn main() {
    let s = |t: &str| get_shape_size(Orientation::LeftToRight, &record_builder(t), 14, false);
    assert!(s("a\n\nb|c").y >= s("a\nx\nb|c").y);
    assert!(s("a\nb|c").y < s("a\nx\nb|c").y);
}
''')
seed("connector-flip", "P18", [(L+"std_shapes/shapes.rs",
'''        self.orientation = self.orientation.flip();
        self.pos.transpose();''', '''        self.pos.transpose();
        // Connectors look the same in both directions.
        if !self.is_connector() {
            self.orientation = self.orientation.flip();
        }''')], "transposing a connector",
"The orientation of a transposed connector does not match its axes",
r'''
use layout::core::base::Orientation;
use layout::core::format::Visible;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
fn main() {
    let o = Orientation::TopToBottom;
    for t in ["", "label"] {
        let mut e = Element::create_connector(t, &StyleAttr::simple(), o);
        e.transpose();
        assert!(!e.orientation.is_top_to_bottom());
        e.transpose();
        assert!(e.orientation.is_top_to_bottom());
    }
}
''')
seed("one-self-edge", "P10", [(L+"topo/layout.rs",
'''        // Wipe out the self edges.
        self.self_edges.clear();''', '''        // Wipe out the self edges.
        self.self_edges.pop();''')], "a graph with at least two self edges whose expansion runs again",
"The self edges that are left are expanded again: the edge gets a second loop of its own",
r'''
use layout::core::base::Orientation;
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
use layout::std_shapes::shapes::*;
use layout::topo::layout::VisualGraph;
fn main() {
    let o = Orientation::TopToBottom;
    let mut vg = VisualGraph::new(o);
    let a = vg.add_node(Element::create(ShapeKind::new_box("x"), StyleAttr::simple(), o, Point::new(20., 20.)));
    vg.add_edge(Arrow::simple("p"), a, a);
    vg.add_edge(Arrow::simple("q"), a, a);
    vg.to_valid_dag();
    vg.expand_self_edges();
    let n = vg.num_nodes();
    vg.expand_self_edges();
    assert_eq!(vg.num_nodes(), n);
}
''')
