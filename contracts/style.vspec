@module style
@use base text types color
@file core/style.rs
@fn StyleAttr::new
ret r
ensures r == (StyleAttr { line_color: line_color, line_width: line_width, fill_color: fill_color, rounded: rounded, font_size: font_size }),
@fn StyleAttr::simple
ret r
ensures r.line_width == 2, r.fill_color is Some, r.rounded == 0, r.font_size == 15,
@fn StyleAttr::debug0
ret r
ensures r.fill_color is Some, r.font_size == 15, r.line_width == 1, r.rounded == 0,
@fn StyleAttr::debug1
ret r
ensures r.fill_color is Some, r.font_size == 15, r.line_width == 1, r.rounded == 0,
@fn StyleAttr::debug2
ret r
ensures r.fill_color is Some, r.font_size == 15, r.line_width == 1, r.rounded == 0,
