@module outline
@use base text dag types geom sizes
@file core/geometry.rs
@code
broadcast use ax_fr;
pub open spec fn sq(a: real) -> real { a * a }
// the point is on the border of the rectangle with this center and size
pub open spec fn on_box(p: (real, real), loc: (real, real), size: (real, real)) -> bool {
    let dx = p.0 - loc.0; let dy = p.1 - loc.1; let a = size.0 / 2real; let b = size.1 / 2real;
    0real - a <= dx <= a && 0real - b <= dy <= b && (dx == a || dx == 0real - a || dy == b || dy == 0real - b)
}
// the point is on the ellipse with this center and size: (dx / a)^2 + (dy / b)^2 == 1
pub open spec fn on_ellipse(p: (real, real), loc: (real, real), size: (real, real)) -> bool {
    let dx = p.0 - loc.0; let dy = p.1 - loc.1; let a = size.0 / 2real; let b = size.1 / 2real;
    sq(b) * sq(dx) + sq(a) * sq(dy) == sq(a) * sq(b)
}
pub open spec fn big(s: (real, real)) -> bool { s.0 > 0real && s.1 > 0real }
pub proof fn lemma_sq(a: real) ensures sq(a) >= 0real, a != 0real ==> sq(a) > 0real
{ assert(a * a >= 0real) by(nonlinear_arith); if a != 0real { assert(a * a > 0real) by(nonlinear_arith) requires a != 0real; } }
pub proof fn lemma_sqrt(l: real, n: real) requires l >= 0real, l * l == n ensures n > 0real ==> l > 0real { if n > 0real && l == 0real { assert(l * l == 0real) by(nonlinear_arith) requires l == 0real; } }
pub proof fn lemma_ellipse(a: real, b: real, m: real, x: real)
    requires a > 0real, b > 0real, x * x == (a * a * b * b) / (b * b + a * a * m * m),
    ensures sq(b) * sq(x) + sq(a) * sq(m * x) == sq(a) * sq(b)
{
    let d = b * b + a * a * m * m; let n = a * a * b * b; let q = n / d;
    assert(d > 0real) by { assert(b * b > 0real) by(nonlinear_arith) requires b > 0real; assert(a * a * m * m >= 0real) by { assert(a * a * m * m == (a * m) * (a * m)) by(nonlinear_arith); assert((a * m) * (a * m) >= 0real) by(nonlinear_arith); } }
    assert(q * d == n) by(nonlinear_arith) requires d > 0real, q == n / d;
    let xx = x * x;
    assert(sq(b) * sq(x) + sq(a) * sq(m * x) == xx * d) by(nonlinear_arith) requires xx == x * x, d == b * b + a * a * m * m, sq(b) == b * b, sq(x) == x * x, sq(a) == a * a, sq(m * x) == (m * x) * (m * x);
    assert(n == sq(a) * sq(b)) by(nonlinear_arith) requires n == a * a * b * b, sq(a) == a * a, sq(b) == b * b;
}
// the ratio under the root is not negative
pub proof fn lemma_ratio(a: real, b: real, m: real) requires a > 0real, b > 0real ensures (a * a * b * b) / (b * b + a * a * m * m) >= 0real, b * b + a * a * m * m > 0real
{
    let d = b * b + a * a * m * m; let n = a * a * b * b;
    assert(d > 0real) by { assert(b * b > 0real) by(nonlinear_arith) requires b > 0real; assert(a * a * m * m >= 0real) by { assert(a * a * m * m == (a * m) * (a * m)) by(nonlinear_arith); assert((a * m) * (a * m) >= 0real) by(nonlinear_arith); } }
    assert(n >= 0real) by { assert(n == (a * b) * (a * b)) by(nonlinear_arith) requires n == a * a * b * b; assert((a * b) * (a * b) >= 0real) by(nonlinear_arith); }
    assert(n / d >= 0real) by(nonlinear_arith) requires n >= 0real, d > 0real;
}
pub proof fn lemma_neg_sq(a: real) ensures sq(0real - a) == sq(a) { assert((0real - a) * (0real - a) == a * a) by(nonlinear_arith); }
pub proof fn lemma_zero_sq() ensures sq(0real) == 0real {}
// a line that leaves the box through the top or bottom
pub proof fn lemma_side(bx: real, by: real, s: real)
    requires bx > 0real, by > 0real, rabs(bx * s) >= by,
    ensures s != 0real, 0real - bx <= by / s <= bx
{
    assert(s != 0real) by { if s == 0real { assert(bx * s == 0real) by(nonlinear_arith) requires s == 0real; } }
    if s > 0real { assert(bx * s >= 0real) by(nonlinear_arith) requires bx > 0real, s > 0real; assert(0real <= by / s <= bx) by(nonlinear_arith) requires s > 0real, bx * s >= by, by > 0real; }
    else { assert(bx * s <= 0real) by(nonlinear_arith) requires bx > 0real, s < 0real; assert(0real - bx <= by / s <= 0real) by(nonlinear_arith) requires s < 0real, 0real - bx * s >= by, by > 0real; }
}
@end
@fn Point::distance_to float
ret r
ensures rv(r) >= 0real, sq(rv(r)) == sq(rv(self.x) - rv(other.x)) + sq(rv(self.y) - rv(other.y)), xy(*self) != xy(other) ==> rv(r) > 0real,
@start
proof {
    let a = rv(self.x) - rv(other.x); let b = rv(self.y) - rv(other.y); lemma_sq(a); lemma_sq(b);
    assert forall|l: real| #[trigger] sq(l) == sq(a) + sq(b) && l >= 0real && (a != 0real || b != 0real) implies l > 0real by { lemma_sqrt(l, sq(a) + sq(b)); }
}
@fn Point::length float
ret r
ensures rv(r) >= 0real, xy(*self) != (0real, 0real) ==> rv(r) > 0real,
@fn Point::rotate float
@fn interpolate float
ret r
ensures xy(r) == (rv(v0.x) * rv(w) + rv(v1.x) * (1real - rv(w)), rv(v0.y) * rv(w) + rv(v1.y) * (1real - rv(w))),
@fn normalize_scale_vector float
ret r
requires xy(v) != (0real, 0real),
@fn create_vector_of_length float
ret r
ensures r.0 == from,
@fn ellipse_line_intersection float
ret r
ensures rv(a) > 0real && rv(b) > 0real ==> sq(rv(b)) * sq(rv(r.x)) + sq(rv(a)) * sq(rv(r.y)) == sq(rv(a)) * sq(rv(b)),
@start
proof { if rv(a) > 0real && rv(b) > 0real {
    lemma_ratio(rv(a), rv(b), rv(m));
    assert forall|x: real| #[trigger] sq(x) == (rv(a) * rv(a) * rv(b) * rv(b)) / (rv(b) * rv(b) + rv(a) * rv(a) * rv(m) * rv(m)) implies sq(rv(b)) * sq(x) + sq(rv(a)) * sq(rv(m) * x) == sq(rv(a)) * sq(rv(b)) by { lemma_ellipse(rv(a), rv(b), rv(m), x); }
} }
@before "Point::new(x, y)"
proof { assert(sq(rv(x)) == rv(x) * rv(x)); }
@fn get_connection_point_for_circle float
ret r
ensures big(xy(size)) ==> on_ellipse(xy(r.0), xy(loc), xy(size)),
@start
proof {
    lemma_zero_sq(); assert forall|a: real| #[trigger] sq(0real - a) == sq(a) by { lemma_neg_sq(a); }
    let b = rv(size.y) / 2real;
    assert(b * 1real == b) by(nonlinear_arith); assert(b * (0real - 1real) == 0real - b) by(nonlinear_arith);
    assert(1real * b == b) by(nonlinear_arith); assert((0real - 1real) * b == 0real - b) by(nonlinear_arith);
    lemma_neg_sq(b); let a = sq(rv(size.x) / 2real); let c = sq(b); assert(c * 0real + a * c == a * c) by(nonlinear_arith);
}
@fn get_connection_point_for_box float
ret r
ensures big(xy(size)) ==> on_box(xy(r.0), xy(loc), xy(size)),
@after "let slope_from = dy / dx"
proof { let a = rv(size.x) / 2real; let b = rv(size.y) / 2real; let m = rv(slope_from); if a > 0real && b > 0real && rabs(a * m) >= b { lemma_side(a, b, m); } }
@fn get_passthrough_path_invisible float
ret r
ensures xy(r.0) == xy(center),
