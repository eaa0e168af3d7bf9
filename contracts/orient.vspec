@module orient
@use base dag types
@file core/base.rs
@code
pub open spec fn other(o: Orientation) -> Orientation { match o { Orientation::TopToBottom => Orientation::LeftToRight, _ => Orientation::TopToBottom } }
@end
@fn Orientation::is_top_to_bottom
ret r
ensures r == (self is TopToBottom),
@fn Orientation::is_left_right
ret r
ensures r == (self is LeftToRight),
@fn Orientation::flip
ret r
ensures r == other(*self),
