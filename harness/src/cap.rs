//! A rendering backend that records the calls.
use layout::core::format::{ClipHandle, RenderBackend};
use layout::core::geometry::Point;
use layout::core::style::StyleAttr;
#[derive(Debug, Clone)]
pub enum Op {
    Rect { xy: Point, size: Point, look: String, props: Option<String>, clip: Option<usize> },
    Line { a: Point, b: Point, look: String, props: Option<String> },
    Circle { xy: Point, size: Point, look: String, props: Option<String> },
    Text { xy: Point, text: String, look: String },
    Arrow { path: Vec<(Point, Point)>, dashed: bool, head: (bool, bool), look: String, props: Option<String>, text: String },
    Clip { xy: Point, size: Point, rounded: usize },
}
#[derive(Default)]
pub struct Cap { pub ops: Vec<Op>, pub clips: usize }
pub fn lk(l: &StyleAttr) -> String { format!("{:?}", l) }
impl RenderBackend for Cap {
    fn draw_rect(&mut self, xy: Point, size: Point, look: &StyleAttr, properties: Option<String>, clip: Option<ClipHandle>) { self.ops.push(Op::Rect { xy, size, look: lk(look), props: properties, clip }) }
    fn draw_line(&mut self, start: Point, stop: Point, look: &StyleAttr, properties: Option<String>) { self.ops.push(Op::Line { a: start, b: stop, look: lk(look), props: properties }) }
    fn draw_circle(&mut self, xy: Point, size: Point, look: &StyleAttr, properties: Option<String>) { self.ops.push(Op::Circle { xy, size, look: lk(look), props: properties }) }
    fn draw_text(&mut self, xy: Point, text: &str, look: &StyleAttr) { self.ops.push(Op::Text { xy, text: text.to_string(), look: lk(look) }) }
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), look: &StyleAttr, properties: Option<String>, text: &str) {
        self.ops.push(Op::Arrow { path: path.to_vec(), dashed, head, look: lk(look), props: properties, text: text.to_string() })
    }
    fn create_clip(&mut self, xy: Point, size: Point, rounded_px: usize) -> ClipHandle { self.ops.push(Op::Clip { xy, size, rounded: rounded_px }); self.clips += 1; self.clips - 1 }
}
pub fn close(a: f64, b: f64) -> bool { a == b || (a - b).abs() <= 1e-6 + 1e-9 * a.abs().max(b.abs()) }
pub fn pclose(a: Point, b: Point) -> bool { close(a.x, b.x) && close(a.y, b.y) }
pub fn op_eq(a: &Op, b: &Op) -> bool {
    match (a, b) {
        (Op::Rect { xy, size, look, props, clip }, Op::Rect { xy: x2, size: s2, look: l2, props: p2, clip: c2 }) => pclose(*xy, *x2) && pclose(*size, *s2) && look == l2 && props == p2 && clip == c2,
        (Op::Line { a, b, look, props }, Op::Line { a: a2, b: b2, look: l2, props: p2 }) => pclose(*a, *a2) && pclose(*b, *b2) && look == l2 && props == p2,
        (Op::Circle { xy, size, look, props }, Op::Circle { xy: x2, size: s2, look: l2, props: p2 }) => pclose(*xy, *x2) && pclose(*size, *s2) && look == l2 && props == p2,
        (Op::Text { xy, text, look }, Op::Text { xy: x2, text: t2, look: l2 }) => pclose(*xy, *x2) && text == t2 && look == l2,
        (Op::Arrow { path, dashed, head, look, props, text }, Op::Arrow { path: p2, dashed: d2, head: h2, look: l2, props: r2, text: t2 }) =>
            path.len() == p2.len() && path.iter().zip(p2).all(|(x, y)| pclose(x.0, y.0) && pclose(x.1, y.1)) && dashed == d2 && head == h2 && look == l2 && props == r2 && text == t2,
        (Op::Clip { xy, size, rounded }, Op::Clip { xy: x2, size: s2, rounded: r2 }) => pclose(*xy, *x2) && pclose(*size, *s2) && rounded == r2,
        _ => false,
    }
}
