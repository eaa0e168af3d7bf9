//! P17 (predicates) and P18 (positions).
use crate::gen::*; use crate::rng::*; use crate::{desc, Case, R};
use layout::core::geometry::*;
use layout::std_shapes::shapes::*;
use layout::topo::placer::Placer;
fn pt(x: f64, y: f64) -> Point { Point::new(x, y) }
/// exact test on integers: does the segment meet the rectangle scaled by k and widened by d?
fn meets(s: [i128; 4], r: [i128; 4], k: i128, d: i128) -> bool {
    let s = s.map(|x| x * k); let r = [r[0] * k - d, r[1] * k - d, r[2] * k + d, r[3] * k + d];
    if r[0] > r[2] || r[1] > r[3] { return false }
    if s[0].max(s[2]) < r[0] || s[0].min(s[2]) > r[2] || s[1].max(s[3]) < r[1] || s[1].min(s[3]) > r[3] { return false }
    // separating line of the segment
    let side = |x: i128, y: i128| ((s[2] - s[0]) * (y - s[1]) - (s[3] - s[1]) * (x - s[0])).signum();
    let v = [side(r[0], r[1]), side(r[0], r[3]), side(r[2], r[1]), side(r[2], r[3])];
    !(v.iter().all(|x| *x > 0) || v.iter().all(|x| *x < 0))
}
pub fn p17(c: &mut Case) -> R {
    let r = &mut c.r;
    // segments and rectangles
    let m = *r.pick(&[3i64, 6, 20, 200]);
    let mut g = |_: ()| r.range(-m, m);
    let (a, b, cc, d) = (g(()), g(()), g(()), g(()));
    let (x0, x1, y0, y1) = (a.min(b), a.max(b), cc.min(d), cc.max(d));
    let s = [g(()), g(()), g(()), g(())];
    let seg = (pt(s[0] as f64, s[1] as f64), pt(s[2] as f64, s[3] as f64)); let rect = (pt(x0 as f64, y0 as f64), pt(x1 as f64, y1 as f64));
    desc(|| format!("segment {:?} rectangle {:?}", seg, rect));
    let si = s.map(|x| x as i128); let ri = [x0, y0, x1, y1].map(|x| x as i128);
    let want = meets(si, ri, 1, 0);
    let k = 1 << 20; let dx = (s[0] - s[2]).unsigned_abs() as u64;
    let exact = dx == 0 || dx.is_power_of_two() || s[1] == s[3];
    if exact || (meets(si, ri, k, 1) == want && meets(si, ri, k, -1) == want) {
        if segment_rect_intersection(seg, rect) != want { return Err(format!("segment_rect_intersection is {}, expected {}", !want, want)) }
        if segment_rect_intersection((seg.1, seg.0), rect) != want { return Err(format!("segment_rect_intersection of the reversed segment is {}, expected {}", !want, want)) }
    }
    // boxes
    let mut bx = |r: &mut Rng| { let (x, y) = (r.range(-m, m), r.range(-m, m)); let (w, h) = (1 + r.n(m as usize) as i64, 1 + r.n(m as usize) as i64); ([x, y, x + w, y + h], (pt(x as f64, y as f64), pt((x + w) as f64, (y + h) as f64))) };
    let (p, pb) = bx(r); let (q, qb) = bx(r);
    desc(|| format!("boxes {:?} {:?}", pb, qb));
    let want = p[0].max(q[0]) < p[2].min(q[2]) && p[1].max(q[1]) < p[3].min(q[3]);
    if do_boxes_intersect(pb, qb) != want { return Err(format!("do_boxes_intersect is {}, expected {}", !want, want)) }
    // ranges
    let (lo, hi, x) = (r.range(-m, m), r.range(-m, m), r.range(-m, m));
    desc(|| format!("range {} {} value {}", lo, hi, x));
    if in_range((lo as f64 / 4., hi as f64 / 4.), x as f64 / 4.) != (lo <= x && x <= hi) { return Err("in_range".into()) }
    let f = lo as f64 / 4.; if !in_range((f, f), f) || in_range((f, f), f + f64::EPSILON * (1. + f.abs()) * 2.) { return Err("in_range at the boundary".into()) }
    // median
    let k = if r.chance(1, 4) { 40 } else { 7 }; let n = 1 + r.n(k); let mut v: Vec<f64> = (0..n).map(|_| if r.chance(1, 8) { r.f01() * 1e6 - 5e5 } else { r.range(-m, m) as f64 / 2. }).collect();
    if r.chance(1, 20) { v[0] = f64::INFINITY; v.truncate(1); }
    desc(|| format!("median of {:?}", v));
    let got = weighted_median(&v);
    let mut w = v.clone(); w.sort_by(|a, b| a.total_cmp(b));
    let n = w.len(); let want = if n % 2 == 1 { w[n / 2] } else { (w[n / 2 - 1] + w[n / 2]) / 2. };
    if !(got == want || (got - want).abs() <= 1e-9 * (1. + want.abs())) { return Err(format!("weighted_median is {}, expected {}", got, want)) }
    Ok(Some(hash(&format!("{:?}{:?}{:?}{:?}{:?}", seg, rect, pb, qb, v))))
}
#[derive(Clone, Copy, Debug)]
struct P { m: [f64; 2], s: [f64; 2], c: [f64; 2], h: [f64; 2] }
fn view(p: &Position) -> P {
    let m = p.middle(); let s = p.size(false); let h = p.size(true); let c = p.center();
    P { m: [m.x, m.y], s: [s.x, s.y], c: [c.x - m.x, c.y - m.y], h: [h.x - s.x, h.y - s.y] }
}
fn peq(a: &P, b: &P) -> bool { let f = |x: &[f64; 2], y: &[f64; 2]| (x[0] - y[0]).abs() < 1e-6 && (x[1] - y[1]).abs() < 1e-6; f(&a.m, &b.m) && f(&a.s, &b.s) && f(&a.c, &b.c) && f(&a.h, &b.h) }
pub fn p18(c: &mut Case) -> R {
    if c.idx % 4 == 3 { return mirror(c) }
    let r = &mut c.r;
    let mut q = |lo: i64, hi: i64| r.range(lo * 4, hi * 4) as f64 / 4.;
    let s = [q(1, 300), q(1, 300)];
    let mut p = P { m: [q(-500, 500), q(-500, 500)], s, c: [q(-8, 8) / 8.1 * s[0].min(8.) / 8., 0.], h: [q(0, 100), q(0, 100)] };
    p.c = [(p.c[0] * 4.).round() / 4., (q(-8, 8) / 8.1 * s[1].min(8.) / 8. * 4.).round() / 4.];
    let mut x = Position::new(pt(p.m[0], p.m[1]), pt(p.s[0], p.s[1]), pt(p.c[0], p.c[1]), pt(p.h[0], p.h[1]));
    desc(|| format!("{:?}", x));
    let mut log = String::new();
    for _ in 0..6 {
        let v = [r.range(-800, 800) as f64 / 4., r.range(-800, 800) as f64 / 4.];
        let k = r.n(12);
        let half = |p: &P, i: usize| p.s[i] / 2. + p.h[i] / 2.;
        match k {
            0 => { x.move_to(pt(v[0], v[1])); for i in 0..2 { p.m[i] = v[i] - p.c[i] } }
            1 => { x.align_to_top(v[1]); p.m[1] = v[1] + half(&p, 1) }
            2 => { x.align_to_left(v[0]); p.m[0] = v[0] + half(&p, 0) }
            3 => { x.align_to_right(v[0]); p.m[0] = v[0] - half(&p, 0) }
            4 => { x.translate(pt(v[0], v[1])); for i in 0..2 { p.m[i] += v[i] } }
            5 => { x.align_x(v[0], true); p.m[0] = v[0] + half(&p, 0) }
            6 => { x.align_x(v[0], false); p.m[0] = v[0] - half(&p, 0) }
            7 => { x.set_x(v[0]); p.m[0] = v[0] - p.c[0] }
            8 => { x.set_y(v[1]); p.m[1] = v[1] - p.c[1] }
            9 => { x.transpose(); p.m.swap(0, 1); p.s.swap(0, 1); p.c.swap(0, 1); p.h.swap(0, 1) }
            10 => { let n = [p.c[0].abs() + 1. + v[0].abs(), p.c[1].abs() + 1. + v[1].abs()]; x.set_size(pt(n[0], n[1])); p.s = n }
            _ => { let n = [p.s[0] * (v[0] / 201.), p.s[1] * (v[1] / 201.)]; x.set_new_center_point(pt(n[0], n[1])); p.c = n }
        }
        log.push_str(&format!("op {} with {:?}; ", k, v));
        if !peq(&view(&x), &p) { return Err(format!("after {}: {:?}, expected {:?}", log, x, p)) }
        for halo in [false, true] {
            let sz = [p.s[0] + if halo { p.h[0] } else { 0. }, p.s[1] + if halo { p.h[1] } else { 0. }];
            let tl = [p.m[0] - sz[0] / 2., p.m[1] - sz[1] / 2.]; let br = [p.m[0] + sz[0] / 2., p.m[1] + sz[1] / 2.];
            let ctr = [p.m[0] + p.c[0], p.m[1] + p.c[1]];
            let bb = x.bbox(halo);
            let pairs = [("bbox left", bb.0.x, tl[0]), ("bbox top", bb.0.y, tl[1]), ("bbox right", bb.1.x, br[0]), ("bbox bottom", bb.1.y, br[1]), ("left", x.left(halo), tl[0]), ("right", x.right(halo), br[0]), ("top", x.top(halo), tl[1]), ("bottom", x.bottom(halo), br[1]),
                ("center.x", x.center().x, ctr[0]), ("center.y", x.center().y, ctr[1]), ("distance_to_left", x.distance_to_left(halo), ctr[0] - tl[0]), ("distance_to_right", x.distance_to_right(halo), br[0] - ctr[0]), ("size.x", x.size(halo).x, sz[0]), ("size.y", x.size(halo).y, sz[1])];
            for (n, g, w) in pairs { if (g - w).abs() > 1e-6 { return Err(format!("{}({}) is {}, expected {} after {}", n, halo, g, w, log)) } }
            if !x.in_x_range((x.left(halo), x.right(halo)), halo) { return Err(format!("the box with halo {} is not within its own sides after {}", halo, log)) }
            for (lo, hi) in [(tl[0] - 1., br[0] + 1.), (tl[0] + 0.5, br[0] + 1.), (tl[0] - 1., br[0] - 0.5), (v[0].min(v[1]), v[0].max(v[1]))] { let want = tl[0] >= lo && br[0] <= hi; if (tl[0] - lo).abs() > 1e-6 && (br[0] - hi).abs() > 1e-6 && x.in_x_range((lo, hi), halo) != want { return Err(format!("in_x_range({:?},{}) should be {}", (lo, hi), halo, want)) } }
        }
    }
    // elements of every kind
    {
        use layout::core::format::Visible;
        let d = ori(r.chance(1, 2)); let look = layout::core::style::StyleAttr::simple();
        let mut e = match r.n(3) { 0 => Element::create_connector(["", "a label"][r.n(2)], &look, d), 1 => Element::create(ShapeKind::new_box("b"), look, d, pt(p.s[0], p.s[1])), _ => Element::create(ShapeKind::new_double_circle("c"), look, d, pt(p.s[0], p.s[1])) };
        e.move_to(pt(p.m[0], p.m[1])); let e0 = e.clone(); let v0 = view(&e.pos); desc(|| format!("element {:?}", e0));
        e.transpose(); let v = view(&e.pos);
        if e.orientation.is_left_right() == d.is_left_right() || format!("{:?}", e.shape) != format!("{:?}", e0.shape) { return Err(format!("transposing an element gives {:?}", e)) }
        let sw = |q: [f64; 2]| [q[1], q[0]];
        if !peq(&v, &P { m: sw(v0.m), s: sw(v0.s), c: sw(v0.c), h: sw(v0.h) }) { return Err(format!("transposing an element at {:?} puts it at {:?}", v0, v)) }
        e.transpose(); if e.orientation.is_left_right() != d.is_left_right() || !peq(&view(&e.pos), &v0) { return Err(format!("transposing an element twice gives {:?}", e)) }
    }
    // points
    let (a, b) = (pt(p.m[0], p.m[1]), pt(p.s[0], p.c[1]));
    let t = a.transpose(); if t.x != a.y || t.y != a.x || a.transpose().transpose() != a { return Err("Point::transpose".into()) }
    if a.add(b) != pt(a.x + b.x, a.y + b.y) || a.sub(b) != pt(a.x - b.x, a.y - b.y) || a.neg() != pt(-a.x, -a.y) || a.scale(2.) != pt(a.x * 2., a.y * 2.) || Point::splat(3.) != pt(3., 3.) { return Err("point arithmetic".into()) }
    Ok(Some(hash(&log)))
}
/// a left-to-right layout is the mirror image of the top-to-bottom layout
fn mirror(c: &mut Case) -> R {
    let o = Opt { max_n: 3 + c.size, labels: false, selfs: true, none_shape: false, natural: false };
    let mut g = graph(&mut c.r, &o); g.lr = false; for n in g.nodes.iter_mut() { n.dir = ori(true) }
    let (no_opt, no_layout) = (c.r.chance(1, 3), c.r.chance(1, 4)); desc(|| format!("{}optimisation disabled: {}, layout disabled: {}", show(&g), no_opt, no_layout));
    let mut g2 = g.clone(); g2.lr = true; for n in g2.nodes.iter_mut() { n.dir = ori(false); n.size = n.size.transpose() }
    let run = |g: &G| { use layout::core::format::Visible; let mut vg = build(g); vg.to_valid_dag(); vg.split_text_edges(); vg.split_long_edges(no_opt); for e in vg.iter_nodes() { vg.element_mut(e).resize(); } Placer::new(&mut vg).layout(no_layout); vg };
    let (a, b) = (run(&g), run(&g2));
    if a.num_nodes() != b.num_nodes() { return Err("number of elements differs".into()) }
    for n in a.iter_nodes() { let (x, y) = (a.element(n), b.element(n)); if x.orientation.is_left_right() == y.orientation.is_left_right() { return Err(format!("element {} ends as {:?} top-to-bottom and as {:?} left-to-right", n.get_index(), x.orientation, y.orientation)) } }
    for n in a.iter_nodes() { let (p, q) = (a.pos(n), b.pos(n)); for h in [false, true] { let (x, y) = (p.bbox(h), q.bbox(h)); let e = |u: f64, v: f64| (u - v).abs() > 1e-6 * (1. + u.abs()); if e(x.0.x, y.0.y) || e(x.0.y, y.0.x) || e(x.1.x, y.1.y) || e(x.1.y, y.1.x) { return Err(format!("element {} is at {:?} top-to-bottom and at {:?} left-to-right", n.get_index(), x, y)) } } let (x, y) = (p.center(), q.center()); if (x.x - y.y).abs() > 1e-6 * (1. + x.x.abs()) || (x.y - y.x).abs() > 1e-6 * (1. + x.y.abs()) { return Err(format!("center of element {}", n.get_index())) } }
    Ok(ghash(&g))
}
