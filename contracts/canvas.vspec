@module canvas
@use base text dag types geom sizes
@file core/format.rs
@type ClipHandle
@code
// what is asked of a canvas, in order
pub enum Cmd {
    Rect((real, real), (real, real), StyleAttr, Option<Seq<char>>, Option<usize>),
    Line((real, real), (real, real), StyleAttr, Option<Seq<char>>),
    Circle((real, real), (real, real), StyleAttr, Option<Seq<char>>),
    Text((real, real), Seq<char>, StyleAttr),
    Arrow(Seq<((real, real), (real, real))>, bool, (bool, bool), StyleAttr, Option<Seq<char>>, Seq<char>),
    Clip((real, real), (real, real), usize, usize),
}
pub open spec fn otext(o: Option<String>) -> Option<Seq<char>> { match o { None => None, Some(s) => Some(s@) } }
pub open spec fn seg(p: (Point, Point)) -> ((real, real), (real, real)) { (xy(p.0), xy(p.1)) }
pub open spec fn segs(v: Seq<(Point, Point)>) -> Seq<((real, real), (real, real))> { v.map_values(|p: (Point, Point)| seg(p)) }
// any implementation of RenderBackend; log() is the history of the calls made so far
pub trait RenderBackend {
    spec fn log(&self) -> Seq<Cmd>;
    fn draw_rect(&mut self, at: Point, size: Point, look: &StyleAttr, properties: Option<String>, clip: Option<ClipHandle>)
        ensures final(self).log() == old(self).log().push(Cmd::Rect(xy(at), xy(size), *look, otext(properties), clip));
    fn draw_line(&mut self, start: Point, stop: Point, look: &StyleAttr, properties: Option<String>)
        ensures final(self).log() == old(self).log().push(Cmd::Line(xy(start), xy(stop), *look, otext(properties)));
    fn draw_circle(&mut self, at: Point, size: Point, look: &StyleAttr, properties: Option<String>)
        ensures final(self).log() == old(self).log().push(Cmd::Circle(xy(at), xy(size), *look, otext(properties)));
    fn draw_text(&mut self, at: Point, text: &str, look: &StyleAttr)
        ensures final(self).log() == old(self).log().push(Cmd::Text(xy(at), text@, *look));
    fn draw_arrow(&mut self, path: &[(Point, Point)], dashed: bool, head: (bool, bool), look: &StyleAttr, properties: Option<String>, text: &str)
        requires path@.len() >= 2,
        ensures final(self).log() == old(self).log().push(Cmd::Arrow(segs(path@), dashed, head, *look, otext(properties), text@));
    fn create_clip(&mut self, at: Point, size: Point, rounded_px: usize) -> (r: ClipHandle)
        ensures final(self).log() == old(self).log().push(Cmd::Clip(xy(at), xy(size), rounded_px, r));
}
@end
