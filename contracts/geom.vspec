@module geom
@use base dag types
@file core/geometry.rs
@code
broadcast use ax_fr;
// ---- points as pairs of real numbers ----
pub open spec fn at_xy(p: Point, x: real, y: real) -> bool { rv(p.x) == x && rv(p.y) == y }
// stands for the derived == of Point
impl vstd::std_specs::cmp::PartialEqSpecImpl for Point { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Point) -> bool { rv(self.x) == rv(o.x) && rv(self.y) == rv(o.y) } }
impl PartialEq for Point { fn eq(&self, o: &Point) -> bool { self.x == o.x && self.y == o.y } }
@end
@fn Point::zero float
ret r
ensures at_xy(r, 0real, 0real),
@fn Point::new
ret r
ensures r.x == x, r.y == y,
@fn Point::splat
ret r
ensures r.x == s, r.y == s,
@fn Point::neg float
ret r
ensures at_xy(r, 0real - rv(self.x), 0real - rv(self.y)),
@fn Point::add float
ret r
ensures at_xy(r, rv(self.x) + rv(other.x), rv(self.y) + rv(other.y)),
@fn Point::sub float
ret r
ensures at_xy(r, rv(self.x) - rv(other.x), rv(self.y) - rv(other.y)),
@fn Point::scale float
ret r
ensures at_xy(r, rv(self.x) * rv(s), rv(self.y) * rv(s)),
@fn Point::transpose
ret r
ensures r.x == self.y, r.y == self.x,
@code
pub open spec fn xy(p: Point) -> (real, real) { (rv(p.x), rv(p.y)) }
pub open spec fn hv(p: Position, h: bool) -> (real, real) { if h { (rv(p.size.x) + rv(p.halo.x), rv(p.size.y) + rv(p.halo.y)) } else { (rv(p.size.x), rv(p.size.y)) } }
// the sides of the box of a position: its size, plus the halo when asked for, around the middle
pub open spec fn lx(p: Position, h: bool) -> real { rv(p.middle.x) - hv(p, h).0 / 2real }
pub open spec fn rx(p: Position, h: bool) -> real { rv(p.middle.x) + hv(p, h).0 / 2real }
pub open spec fn ty(p: Position, h: bool) -> real { rv(p.middle.y) - hv(p, h).1 / 2real }
pub open spec fn by(p: Position, h: bool) -> real { rv(p.middle.y) + hv(p, h).1 / 2real }
pub open spec fn cx(p: Position) -> real { rv(p.middle.x) + rv(p.center.x) }
pub open spec fn cy(p: Position) -> real { rv(p.middle.y) + rv(p.center.y) }
pub open spec fn only_x(o: Position, p: Position) -> bool { p == Position { middle: Point { x: p.middle.x, ..o.middle }, ..o } }
pub open spec fn only_y(o: Position, p: Position) -> bool { p == Position { middle: Point { y: p.middle.y, ..o.middle }, ..o } }
pub open spec fn flip(p: Point) -> Point { Point { x: p.y, y: p.x } }
pub open spec fn flipped(p: Position) -> Position { Position { middle: flip(p.middle), size: flip(p.size), center: flip(p.center), halo: flip(p.halo) } }
pub proof fn lemma_flip_twice(p: Position) ensures flipped(flipped(p)) == p {}
pub proof fn lemma_flip_box(p: Position, h: bool) ensures lx(flipped(p), h) == ty(p, h), rx(flipped(p), h) == by(p, h), ty(flipped(p), h) == lx(p, h), by(flipped(p), h) == rx(p, h), cx(flipped(p)) == cy(p), cy(flipped(p)) == cx(p) {}
@end
@fn Position::new
ret r
ensures r.middle == middle, r.size == size, r.center == center, r.halo == halo,
@fn Position::distance_to_left float
ret r
ensures rv(r) == cx(*self) - lx(*self, with_halo),
@fn Position::distance_to_right float
ret r
ensures rv(r) == rx(*self, with_halo) - cx(*self),
@fn Position::left
ret r
ensures rv(r) == lx(*self, with_halo),
@fn Position::right
ret r
ensures rv(r) == rx(*self, with_halo),
@fn Position::top
ret r
ensures rv(r) == ty(*self, with_halo),
@fn Position::bottom
ret r
ensures rv(r) == by(*self, with_halo),
@fn Position::bbox float
ret r
ensures at_xy(r.0, lx(*self, with_halo), ty(*self, with_halo)), at_xy(r.1, rx(*self, with_halo), by(*self, with_halo)),
@fn Position::center
ret r
ensures at_xy(r, cx(*self), cy(*self)),
@fn Position::middle
ret r
ensures r == self.middle,
@fn Position::size
ret r
ensures at_xy(r, hv(*self, with_halo).0, hv(*self, with_halo).1), !with_halo ==> r == self.size,
@fn Position::in_x_range float
ret r
ensures r == (rv(range.0) <= lx(*self, with_halo) && rx(*self, with_halo) <= rv(range.1)),
@fn Position::set_size
ensures *final(self) == (Position { size: size, ..*old(self) }),
@fn Position::set_new_center_point float
requires rabs(rv(center.x)) < rv(old(self).size.x), rabs(rv(center.y)) < rv(old(self).size.y),
ensures *final(self) == (Position { center: center, ..*old(self) }),
@fn Position::move_to
ensures cx(*final(self)) == rv(p.x), cy(*final(self)) == rv(p.y), *final(self) == (Position { middle: final(self).middle, ..*old(self) }),
@fn Position::align_to_top float
ensures ty(*final(self), true) == rv(y), only_y(*old(self), *final(self)),
@fn Position::align_to_left float
ensures lx(*final(self), true) == rv(x), only_x(*old(self), *final(self)),
@fn Position::align_to_right float
ensures rx(*final(self), true) == rv(x), only_x(*old(self), *final(self)),
@fn Position::translate
ensures at_xy(final(self).middle, rv(old(self).middle.x) + rv(d.x), rv(old(self).middle.y) + rv(d.y)), *final(self) == (Position { middle: final(self).middle, ..*old(self) }),
@fn Position::align_x float
ensures to_left ==> lx(*final(self), true) == rv(x), !to_left ==> rx(*final(self), true) == rv(x), only_x(*old(self), *final(self)),
@fn Position::set_x float
ensures cx(*final(self)) == rv(x), only_x(*old(self), *final(self)),
@fn Position::set_y float
ensures cy(*final(self)) == rv(y), only_y(*old(self), *final(self)),
@fn Position::transpose
ensures *final(self) == flipped(*old(self)),
