@module tile
@use base text dag types geom orient sizes canvas visit
@file std_shapes/render.rs
@struct Renderer
@code
broadcast use ax_fr;
pub open spec fn corner(loc: (real, real), size: (real, real)) -> (real, real) { (loc.0 - size.0 / 2real, loc.1 - size.1 / 2real) }
// what is drawn for a field
pub open spec fn shown(e: Ev, look: StyleAttr, clip: Option<usize>) -> Cmd {
    match e { Ev::Box(l, s) => Cmd::Rect(corner(l, s), s, look, None, clip), Ev::Text(l, _, t, _) => Cmd::Text(l, t, look) }
}
pub open spec fn all_shown(e: Seq<Ev>, look: StyleAttr, clip: Option<usize>) -> Seq<Cmd> { e.map_values(|x: Ev| shown(x, look, clip)) }
impl<'a, VxD: RenderBackend> RecordVisitor for Renderer<'a, VxD> {
    type St = (StyleAttr, Option<usize>, Seq<Cmd>, VxD);
    #[verifier::prophetic] open spec fn st(&self) -> Self::St { (self.look, self.clip_handle, self.canvas.log(), *final(self.canvas)) }
    open spec fn step(s: Self::St, e: Ev) -> Self::St { (s.0, s.1, s.2.push(shown(e, s.0, s.1)), s.3) }
    fn handle_box(&mut self, loc: Point, size: Point) { Renderer::handle_box(self, loc, size) }
    fn handle_text(&mut self, loc: Point, size: Point, label: &str, port: &Option<String>) { Renderer::handle_text(self, loc, size, label, port) }
}
pub proof fn lemma_shown<'a, V: RenderBackend>(s: (StyleAttr, Option<usize>, Seq<Cmd>, V), e: Seq<Ev>)
    ensures run::<Renderer<'a, V>>(s, e) == (s.0, s.1, s.2 + all_shown(e, s.0, s.1), s.3)
    decreases e.len()
{
    if e.len() == 0 { assert(s.2 + all_shown(e, s.0, s.1) =~= s.2); }
    else { lemma_shown::<V>(s, e.drop_last()); assert((s.2 + all_shown(e.drop_last(), s.0, s.1)).push(shown(e.last(), s.0, s.1)) =~= s.2 + all_shown(e, s.0, s.1)); }
}
// a record: its fields with square corners (kept inside the rounded outline, if any), then the outline
pub open spec fn record_drawn(r: RecordDef, dir: Orientation, loc: (real, real), size: (real, real), look: StyleAttr, p: Option<Seq<char>>, c: usize, d: Seq<Cmd>) -> bool {
    let plain = StyleAttr { rounded: 0, ..look };
    let outline = Cmd::Rect(corner(loc, size), size, StyleAttr { fill_color: None, ..look }, p, None);
    let e = events(r, dir, loc, size, look.font_size);
    if look.rounded > 0 { d == (seq![Cmd::Clip(corner(loc, size), size, 15, c)] + all_shown(e, plain, Some(c))).push(outline) }
    else { d == all_shown(e, plain, None).push(outline) }
}
@end
@fn Renderer::RecordVisitor::handle_box float impl="impl<'a, VxD: RenderBackend> Renderer<'a, VxD>"
ensures final(self).look == old(self).look, final(self).clip_handle == old(self).clip_handle, *final(final(self).canvas) == *final(old(self).canvas),
    final(self).canvas.log() == old(self).canvas.log().push(shown(Ev::Box(xy(loc), xy(size)), old(self).look, old(self).clip_handle)),
@fn Renderer::RecordVisitor::handle_text float impl="impl<'a, VxD: RenderBackend> Renderer<'a, VxD>"
ensures final(self).look == old(self).look, final(self).clip_handle == old(self).clip_handle, *final(final(self).canvas) == *final(old(self).canvas),
    final(self).canvas.log() == old(self).canvas.log().push(Cmd::Text(xy(loc), label@, old(self).look)),
@fn render_record float
ensures filled(*rec) ==> exists|c: usize, d: Seq<Cmd>| final(canvas).log() == old(canvas).log() + d && record_drawn(*rec, dir, xy(loc), xy(size), *look, otext(properties), c, d),
@start
let ghost log0 = canvas.log(); let ghost look0 = *look; let ghost mut cl: usize = 0;
@before "visit_record"
let ghost s0 = visitor.st();
proof { if visitor.clip_handle is Some { cl = visitor.clip_handle->Some_0; } }
@after "visit_record"
proof { lemma_shown::<VxD>(s0, events(*rec, dir, xy(loc), xy(size), look.font_size)); }
@end_fn
proof { if filled(*rec) {
    let e = events(*rec, dir, xy(loc), xy(size), look0.font_size); let plain = StyleAttr { rounded: 0, ..look0 };
    let outline = Cmd::Rect(corner(xy(loc), xy(size)), xy(size), StyleAttr { fill_color: None, ..look0 }, otext(properties), None);
    let d = if look0.rounded > 0 { (seq![Cmd::Clip(corner(xy(loc), xy(size)), xy(size), 15, cl)] + all_shown(e, plain, Some(cl))).push(outline) } else { all_shown(e, plain, None).push(outline) };
    assert(final(canvas).log() =~= log0 + d);
    assert(record_drawn(*rec, dir, xy(loc), xy(size), look0, otext(properties), cl, d));
} }
