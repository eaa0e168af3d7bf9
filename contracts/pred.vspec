@module pred
@use base dag types geom
@file core/geometry.rs
@code
broadcast use ax_fr;
pub open spec fn within(a: real, x: real, b: real) -> bool { a <= x && x <= b }
// the point at t of the segment
pub open spec fn along(a: real, b: real, t: real) -> real { a + t * (b - a) }
// the closed segment and the closed rectangle share a point
pub open spec fn touch(ax: real, ay: real, bx: real, by: real, x0: real, y0: real, x1: real, y1: real) -> bool {
    exists|t: real| within(0real, t, 1real) && within(x0, #[trigger] along(ax, bx, t), x1) && within(y0, along(ay, by, t), y1)
}
// the boxes share a point of their interior
pub open spec fn inside(p: (Point, Point), x: real, y: real) -> bool { rv(p.0.x) < x < rv(p.1.x) && rv(p.0.y) < y < rv(p.1.y) }
pub open spec fn proper(p: (Point, Point)) -> bool { rv(p.0.x) < rv(p.1.x) && rv(p.0.y) < rv(p.1.y) }
pub open spec fn line(a: real, b: real, x: real) -> real { a * x + b }
pub proof fn lemma_line_mono(a: real, b: real, l: real, x: real, r: real) requires within(l, x, r) ensures a >= 0real ==> line(a, b, l) <= line(a, b, x) <= line(a, b, r), a <= 0real ==> line(a, b, r) <= line(a, b, x) <= line(a, b, l)
{
    if a >= 0real { assert(a * l <= a * x && a * x <= a * r) by(nonlinear_arith) requires a >= 0real, l <= x, x <= r; }
    if a <= 0real { assert(a * l >= a * x && a * x >= a * r) by(nonlinear_arith) requires a <= 0real, l <= x, x <= r; }
}
pub proof fn lemma_line_meets(a: real, b: real, l: real, r: real, y0: real, y1: real) -> (x: real)
    requires l <= r, y0 <= y1, !(line(a, b, l) < y0 && line(a, b, r) < y0), !(line(a, b, l) > y1 && line(a, b, r) > y1),
    ensures within(l, x, r), within(y0, line(a, b, x), y1)
{
    let u = line(a, b, l); let v = line(a, b, r);
    if within(y0, u, y1) { l } else if within(y0, v, y1) { r } else {
        if a == 0real { assert(a * l == 0real && a * r == 0real) by(nonlinear_arith) requires a == 0real; assert(false); }
        let x = (y0 - b) / a;
        assert(a * x == y0 - b) by(nonlinear_arith) requires a != 0real, x == (y0 - b) / a;
        if x < l { lemma_line_mono(a, b, x, l, r); } else if x > r { lemma_line_mono(a, b, l, r, x); }
        x
    }
}
pub proof fn lemma_div_mul(a: real, d: real) requires d != 0real ensures (a / d) * d == a { assert((a / d) * d == a) by(nonlinear_arith) requires d != 0real; }
// the line through both ends of a segment that is not vertical
pub proof fn lemma_on_line(ax: real, ay: real, bx: real, by: real, t: real, a: real, b: real)
    requires ax != bx, a == (by - ay) / (bx - ax), b == ay - a * ax,
    ensures along(ay, by, t) == line(a, b, along(ax, bx, t)), line(a, b, ax) == ay, line(a, b, bx) == by
{
    lemma_div_mul(by - ay, bx - ax); let d = bx - ax; let x = ax + t * d;
    assert(a * x == a * ax + t * (a * d)) by(nonlinear_arith) requires x == ax + t * d;
    assert(a * bx == a * ax + a * d) by(nonlinear_arith) requires d == bx - ax;
}
pub proof fn lemma_along(a: real, b: real, t: real) requires within(0real, t, 1real) ensures along(a, b, t) == line(b - a, a, t), a <= b ==> a <= along(a, b, t) <= b, b <= a ==> b <= along(a, b, t) <= a
{
    lemma_line_mono(b - a, a, 0real, t, 1real);
    assert(t * (b - a) == (b - a) * t) by(nonlinear_arith);
    assert((b - a) * 0real == 0real && (b - a) * 1real == b - a) by(nonlinear_arith);
}
pub proof fn lemma_vertical(ax: real, ay: real, by: real, x0: real, y0: real, x1: real, y1: real)
    requires x0 <= x1, y0 <= y1
    ensures touch(ax, ay, ax, by, x0, y0, x1, y1) == (within(x0, ax, x1) && !(ay < y0 && by < y0) && !(ay > y1 && by > y1))
{
    if touch(ax, ay, ax, by, x0, y0, x1, y1) {
        let t = choose|t: real| within(0real, t, 1real) && within(x0, #[trigger] along(ax, ax, t), x1) && within(y0, along(ay, by, t), y1);
        lemma_along(ax, ax, t); lemma_along(ay, by, t);
    }
    if within(x0, ax, x1) && !(ay < y0 && by < y0) && !(ay > y1 && by > y1) {
        assert((by - ay) * 0real == 0real && (by - ay) * 1real == by - ay) by(nonlinear_arith);
        let t = lemma_line_meets(by - ay, ay, 0real, 1real, y0, y1);
        lemma_along(ay, by, t); lemma_along(ax, ax, t);
        assert(within(0real, t, 1real) && within(x0, along(ax, ax, t), x1) && within(y0, along(ay, by, t), y1));
    }
}
pub open spec fn apart1(a: real, b: real, x0: real, x1: real) -> bool { a < x0 && b < x0 || a > x1 && b > x1 }
pub proof fn lemma_slanted(ax: real, ay: real, bx: real, by: real, x0: real, y0: real, x1: real, y1: real, a: real, b: real)
    requires ax != bx, x0 <= x1, y0 <= y1, a == (by - ay) / (bx - ax), b == ay - a * ax,
    ensures touch(ax, ay, bx, by, x0, y0, x1, y1) == (!apart1(ax, bx, x0, x1) && !apart1(ay, by, y0, y1) && !apart1(line(a, b, x0), line(a, b, x1), y0, y1))
{
    lemma_on_line(ax, ay, bx, by, 0real, a, b);
    if touch(ax, ay, bx, by, x0, y0, x1, y1) {
        let t = choose|t: real| within(0real, t, 1real) && within(x0, #[trigger] along(ax, bx, t), x1) && within(y0, along(ay, by, t), y1);
        lemma_along(ax, bx, t); lemma_along(ay, by, t); lemma_on_line(ax, ay, bx, by, t, a, b);
        lemma_line_mono(a, b, x0, along(ax, bx, t), x1);
    }
    if !apart1(ax, bx, x0, x1) && !apart1(ay, by, y0, y1) && !apart1(line(a, b, x0), line(a, b, x1), y0, y1) {
        let m = rmin(ax, bx); let n = rmax(ax, bx);
        let l = rmax(m, x0); let r = rmin(n, x1);
        lemma_line_mono(a, b, l, l, r);
        lemma_line_mono(a, b, m, m, n); lemma_line_mono(a, b, x0, x0, x1);
        let x = lemma_line_meets(a, b, l, r, y0, y1);
        let t = (x - ax) / (bx - ax);
        lemma_div_mul(x - ax, bx - ax);
        assert(within(0real, t, 1real)) by(nonlinear_arith) requires t * (bx - ax) == x - ax, ax < bx ==> ax <= x <= bx, bx < ax ==> bx <= x <= ax, ax != bx;
        lemma_on_line(ax, ay, bx, by, t, a, b);
        assert(within(0real, t, 1real) && within(x0, along(ax, bx, t), x1) && within(y0, along(ay, by, t), y1));
    }
}
@end
@fn in_range
ret r
ensures r == within(rv(range.0), rv(x), rv(range.1)),
@fn do_boxes_intersect
ret r
ensures proper(p1) && proper(p2) ==> r == exists|x: real, y: real| #[trigger] inside(p1, x, y) && inside(p2, x, y),
    rv(p1.1.x) <= rv(p2.0.x) ==> !r,
@end_fn
proof {
    if overlap_x && overlap_y {
        let x0 = rmax(rv(p1.0.x), rv(p2.0.x)); let x1 = rmin(rv(p1.1.x), rv(p2.1.x)); let y0 = rmax(rv(p1.0.y), rv(p2.0.y)); let y1 = rmin(rv(p1.1.y), rv(p2.1.y));
        if proper(p1) && proper(p2) { assert(inside(p1, (x0 + x1) / 2real, (y0 + y1) / 2real) && inside(p2, (x0 + x1) / 2real, (y0 + y1) / 2real)); }
    }
}
@fn segment_rect_intersection float
ret r
requires rv(rect.0.x) <= rv(rect.1.x), rv(rect.0.y) <= rv(rect.1.y),
ensures r == touch(rv(seg.0.x), rv(seg.0.y), rv(seg.1.x), rv(seg.1.y), rv(rect.0.x), rv(rect.0.y), rv(rect.1.x), rv(rect.1.y)),
@start
proof {
    let ax = rv(seg.0.x); let ay = rv(seg.0.y); let bx = rv(seg.1.x); let by = rv(seg.1.y); let x0 = rv(rect.0.x); let y0 = rv(rect.0.y); let x1 = rv(rect.1.x); let y1 = rv(rect.1.y);
    if ax == bx { lemma_vertical(ax, ay, by, x0, y0, x1, y1); } else { let a = (by - ay) / (bx - ax); lemma_slanted(ax, ay, bx, by, x0, y0, x1, y1, a, ay - a * ax); }
}
@code
pub open spec fn sorted(s: Seq<Fl>) -> bool { forall|i: int, j: int| 0 <= i <= j < s.len() ==> rv(#[trigger] s[i]) <= rv(#[trigger] s[j]) }
// the middle of a sorted list: its middle element, or the mean of the two
pub open spec fn median(s: Seq<Fl>) -> real { if s.len() % 2 == 1 { rv(s[(s.len() / 2) as int]) } else { (rv(s[s.len() / 2 - 1]) + rv(s[(s.len() / 2) as int])) / 2real } }
// stands for Vec::sort_by with the order of the numbers
#[verifier::external_body] pub fn vx_sort(v: &mut Vec<Fl>) ensures sorted(final(v)@), final(v)@.to_multiset() == old(v)@.to_multiset(), final(v).len() == old(v).len() { v.sort_by(|a, b| a.partial_cmp(b).unwrap()) }
@end
@fn weighted_median float
ret r
requires vec.len() > 0,
ensures exists|s: Seq<Fl>| #[trigger] sorted(s) && s.to_multiset() == vec@.to_multiset() && s.len() == vec.len() && rv(r) == median(s),
@subst "vec.sort_by(|a, b| a.partial_cmp(b).unwrap())" "vx_sort(&mut vec)"
@start
let ghost v0 = vec@;
@after "let mut vec = vec.to_vec()"
proof { assert(v0 =~= vec@); }
@after "vx_sort(&mut vec)"
proof { assert(sorted(vec@)); }
