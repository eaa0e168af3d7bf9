@module color
@use base text dag types
@code
// ---- the named colors of CSS (an independent copy of the table) ----
pub open spec fn named(n: Seq<char>, v: u32) -> bool {
    ||| n == "aliceblue"@ && v == 0xf0f8ff
    ||| n == "antiquewhite"@ && v == 0xfaebd7
    ||| n == "aqua"@ && v == 0x00ffff
    ||| n == "aquamarine"@ && v == 0x7fffd4
    ||| n == "azure"@ && v == 0xf0ffff
    ||| n == "beige"@ && v == 0xf5f5dc
    ||| n == "bisque"@ && v == 0xffe4c4
    ||| n == "black"@ && v == 0x000000
    ||| n == "blanchedalmond"@ && v == 0xffebcd
    ||| n == "blue"@ && v == 0x0000ff
    ||| n == "blueviolet"@ && v == 0x8a2be2
    ||| n == "brown"@ && v == 0xa52a2a
    ||| n == "burlywood"@ && v == 0xdeb887
    ||| n == "cadetblue"@ && v == 0x5f9ea0
    ||| n == "chartreuse"@ && v == 0x7fff00
    ||| n == "chocolate"@ && v == 0xd2691e
    ||| n == "coral"@ && v == 0xff7f50
    ||| n == "cornflowerblue"@ && v == 0x6495ed
    ||| n == "cornsilk"@ && v == 0xfff8dc
    ||| n == "crimson"@ && v == 0xdc143c
    ||| n == "cyan"@ && v == 0x00ffff
    ||| n == "darkblue"@ && v == 0x00008b
    ||| n == "darkcyan"@ && v == 0x008b8b
    ||| n == "darkgoldenrod"@ && v == 0xb8860b
    ||| n == "darkgray"@ && v == 0xa9a9a9
    ||| n == "darkgreen"@ && v == 0x006400
    ||| n == "darkgrey"@ && v == 0xa9a9a9
    ||| n == "darkkhaki"@ && v == 0xbdb76b
    ||| n == "darkmagenta"@ && v == 0x8b008b
    ||| n == "darkolivegreen"@ && v == 0x556b2f
    ||| n == "darkorange"@ && v == 0xff8c00
    ||| n == "darkorchid"@ && v == 0x9932cc
    ||| n == "darkred"@ && v == 0x8b0000
    ||| n == "darksalmon"@ && v == 0xe9967a
    ||| n == "darkseagreen"@ && v == 0x8fbc8f
    ||| n == "darkslateblue"@ && v == 0x483d8b
    ||| n == "darkslategray"@ && v == 0x2f4f4f
    ||| n == "darkslategrey"@ && v == 0x2f4f4f
    ||| n == "darkturquoise"@ && v == 0x00ced1
    ||| n == "darkviolet"@ && v == 0x9400d3
    ||| n == "deeppink"@ && v == 0xff1493
    ||| n == "deepskyblue"@ && v == 0x00bfff
    ||| n == "dimgray"@ && v == 0x696969
    ||| n == "dimgrey"@ && v == 0x696969
    ||| n == "dodgerblue"@ && v == 0x1e90ff
    ||| n == "firebrick"@ && v == 0xb22222
    ||| n == "floralwhite"@ && v == 0xfffaf0
    ||| n == "forestgreen"@ && v == 0x228b22
    ||| n == "fuchsia"@ && v == 0xff00ff
    ||| n == "gainsboro"@ && v == 0xdcdcdc
    ||| n == "ghostwhite"@ && v == 0xf8f8ff
    ||| n == "gold"@ && v == 0xffd700
    ||| n == "goldenrod"@ && v == 0xdaa520
    ||| n == "gray"@ && v == 0x808080
    ||| n == "green"@ && v == 0x008000
    ||| n == "greenyellow"@ && v == 0xadff2f
    ||| n == "grey"@ && v == 0x808080
    ||| n == "honeydew"@ && v == 0xf0fff0
    ||| n == "hotpink"@ && v == 0xff69b4
    ||| n == "indianred"@ && v == 0xcd5c5c
    ||| n == "indigo"@ && v == 0x4b0082
    ||| n == "ivory"@ && v == 0xfffff0
    ||| n == "khaki"@ && v == 0xf0e68c
    ||| n == "lavender"@ && v == 0xe6e6fa
    ||| n == "lavenderblush"@ && v == 0xfff0f5
    ||| n == "lawngreen"@ && v == 0x7cfc00
    ||| n == "lemonchiffon"@ && v == 0xfffacd
    ||| n == "lightblue"@ && v == 0xadd8e6
    ||| n == "lightcoral"@ && v == 0xf08080
    ||| n == "lightcyan"@ && v == 0xe0ffff
    ||| n == "lightgoldenrodyellow"@ && v == 0xfafad2
    ||| n == "lightgray"@ && v == 0xd3d3d3
    ||| n == "lightgreen"@ && v == 0x90ee90
    ||| n == "lightgrey"@ && v == 0xd3d3d3
    ||| n == "lightpink"@ && v == 0xffb6c1
    ||| n == "lightsalmon"@ && v == 0xffa07a
    ||| n == "lightseagreen"@ && v == 0x20b2aa
    ||| n == "lightskyblue"@ && v == 0x87cefa
    ||| n == "lightslategray"@ && v == 0x778899
    ||| n == "lightslategrey"@ && v == 0x778899
    ||| n == "lightsteelblue"@ && v == 0xb0c4de
    ||| n == "lightyellow"@ && v == 0xffffe0
    ||| n == "lime"@ && v == 0x00ff00
    ||| n == "limegreen"@ && v == 0x32cd32
    ||| n == "linen"@ && v == 0xfaf0e6
    ||| n == "magenta"@ && v == 0xff00ff
    ||| n == "maroon"@ && v == 0x800000
    ||| n == "mediumaquamarine"@ && v == 0x66cdaa
    ||| n == "mediumblue"@ && v == 0x0000cd
    ||| n == "mediumorchid"@ && v == 0xba55d3
    ||| n == "mediumpurple"@ && v == 0x9370db
    ||| n == "mediumseagreen"@ && v == 0x3cb371
    ||| n == "mediumslateblue"@ && v == 0x7b68ee
    ||| n == "mediumspringgreen"@ && v == 0x00fa9a
    ||| n == "mediumturquoise"@ && v == 0x48d1cc
    ||| n == "mediumvioletred"@ && v == 0xc71585
    ||| n == "midnightblue"@ && v == 0x191970
    ||| n == "mintcream"@ && v == 0xf5fffa
    ||| n == "mistyrose"@ && v == 0xffe4e1
    ||| n == "moccasin"@ && v == 0xffe4b5
    ||| n == "navajowhite"@ && v == 0xffdead
    ||| n == "navy"@ && v == 0x000080
    ||| n == "oldlace"@ && v == 0xfdf5e6
    ||| n == "olive"@ && v == 0x808000
    ||| n == "olivedrab"@ && v == 0x6b8e23
    ||| n == "orange"@ && v == 0xffa500
    ||| n == "orangered"@ && v == 0xff4500
    ||| n == "orchid"@ && v == 0xda70d6
    ||| n == "palegoldenrod"@ && v == 0xeee8aa
    ||| n == "palegreen"@ && v == 0x98fb98
    ||| n == "paleturquoise"@ && v == 0xafeeee
    ||| n == "palevioletred"@ && v == 0xdb7093
    ||| n == "papayawhip"@ && v == 0xffefd5
    ||| n == "peachpuff"@ && v == 0xffdab9
    ||| n == "peru"@ && v == 0xcd853f
    ||| n == "pink"@ && v == 0xffc0cb
    ||| n == "plum"@ && v == 0xdda0dd
    ||| n == "powderblue"@ && v == 0xb0e0e6
    ||| n == "purple"@ && v == 0x800080
    ||| n == "rebeccapurple"@ && v == 0x663399
    ||| n == "red"@ && v == 0xff0000
    ||| n == "rosybrown"@ && v == 0xbc8f8f
    ||| n == "royalblue"@ && v == 0x4169e1
    ||| n == "saddlebrown"@ && v == 0x8b4513
    ||| n == "salmon"@ && v == 0xfa8072
    ||| n == "sandybrown"@ && v == 0xf4a460
    ||| n == "seagreen"@ && v == 0x2e8b57
    ||| n == "seashell"@ && v == 0xfff5ee
    ||| n == "sienna"@ && v == 0xa0522d
    ||| n == "silver"@ && v == 0xc0c0c0
    ||| n == "skyblue"@ && v == 0x87ceeb
    ||| n == "slateblue"@ && v == 0x6a5acd
    ||| n == "slategray"@ && v == 0x708090
    ||| n == "slategrey"@ && v == 0x708090
    ||| n == "snow"@ && v == 0xfffafa
    ||| n == "springgreen"@ && v == 0x00ff7f
    ||| n == "steelblue"@ && v == 0x4682b4
    ||| n == "tan"@ && v == 0xd2b48c
    ||| n == "teal"@ && v == 0x008080
    ||| n == "thistle"@ && v == 0xd8bfd8
    ||| n == "tomato"@ && v == 0xff6347
    ||| n == "turquoise"@ && v == 0x40e0d0
    ||| n == "violet"@ && v == 0xee82ee
    ||| n == "wheat"@ && v == 0xf5deb3
    ||| n == "white"@ && v == 0xffffff
    ||| n == "whitesmoke"@ && v == 0xf5f5f5
    ||| n == "yellow"@ && v == 0xffff00
    ||| n == "yellowgreen"@ && v == 0x9acd32
}
pub open spec fn is_named(n: Seq<char>) -> bool { exists|v: u32| named(n, v) }
// '#' and k hexadecimal digits
pub open spec fn hexed(n: Seq<char>, k: int) -> bool { n.len() == k + 1 && n[0] == '#' && digits(n.skip(1), 16) }
// the color a text stands for, 0xrrggbbaa
pub open spec fn painted(n: Seq<char>, r: Option<Color>) -> bool {
    if is_named(n) { r matches Some(c) && exists|v: u32| named(n, v) && c.color == v * 256 + 255 }
    else if hexed(n, 6) { r matches Some(c) && c.color == value(n.skip(1), 16) * 256 + 255 }
    else if hexed(n, 8) { r matches Some(c) && c.color == value(n.skip(1), 16) }
    else { !plain(n) || r is None }
}
pub proof fn lemma_value(s: Seq<char>)
    requires digits(s, 16),
    ensures 0 <= value(s, 16), bytes(s) == s.len(), s.len() <= 6 ==> value(s, 16) < 0x1000000, s.len() <= 8 ==> value(s, 16) < 0x1_0000_0000,
        s.len() <= 1 ==> value(s, 16) < 0x10, s.len() <= 2 ==> value(s, 16) < 0x100, s.len() <= 3 ==> value(s, 16) < 0x1000, s.len() <= 4 ==> value(s, 16) < 0x10000, s.len() <= 5 ==> value(s, 16) < 0x100000, s.len() <= 7 ==> value(s, 16) < 0x10000000, s.len() == 0 ==> value(s, 16) == 0,
    decreases s.len()
{
    broadcast use ax_ulen;
    if s.len() > 0 { let d = s.drop_last(); assert forall|i: int| 0 <= i < d.len() implies digit(#[trigger] d[i], 16) >= 0 by { assert(d[i] == s[i]); } lemma_value(d); assert(digit(s[s.len() - 1], 16) >= 0); }
}
// anything that is certainly no color: no '#' at the start, or something that is no digit behind it
pub open spec fn plain(n: Seq<char>) -> bool { n.len() == 0 || n[0] != '#' || (n.len() > 1 && n[1] != '#' && n[1] != '+' && !digits(n.skip(1), 16)) || (n.len() == 1) }
@end
@file core/color.rs
@static KNOWN_COLORS
@code
// every standard name is in the table
pub proof fn all_known(n: Seq<char>, v: u32) requires named(n, v) ensures exists|i: int| 0 <= i < KNOWN_COLORS@.len() && (#[trigger] KNOWN_COLORS[i]).0@ == n
{
    assert(KNOWN_COLORS[0].0@ == "aliceblue"@);
    assert(KNOWN_COLORS[1].0@ == "antiquewhite"@);
    assert(KNOWN_COLORS[2].0@ == "aqua"@);
    assert(KNOWN_COLORS[3].0@ == "aquamarine"@);
    assert(KNOWN_COLORS[4].0@ == "azure"@);
    assert(KNOWN_COLORS[5].0@ == "beige"@);
    assert(KNOWN_COLORS[6].0@ == "bisque"@);
    assert(KNOWN_COLORS[7].0@ == "black"@);
    assert(KNOWN_COLORS[8].0@ == "blanchedalmond"@);
    assert(KNOWN_COLORS[9].0@ == "blue"@);
    assert(KNOWN_COLORS[10].0@ == "blueviolet"@);
    assert(KNOWN_COLORS[11].0@ == "brown"@);
    assert(KNOWN_COLORS[12].0@ == "burlywood"@);
    assert(KNOWN_COLORS[13].0@ == "cadetblue"@);
    assert(KNOWN_COLORS[14].0@ == "chartreuse"@);
    assert(KNOWN_COLORS[15].0@ == "chocolate"@);
    assert(KNOWN_COLORS[16].0@ == "coral"@);
    assert(KNOWN_COLORS[17].0@ == "cornflowerblue"@);
    assert(KNOWN_COLORS[18].0@ == "cornsilk"@);
    assert(KNOWN_COLORS[19].0@ == "crimson"@);
    assert(KNOWN_COLORS[20].0@ == "cyan"@);
    assert(KNOWN_COLORS[21].0@ == "darkblue"@);
    assert(KNOWN_COLORS[22].0@ == "darkcyan"@);
    assert(KNOWN_COLORS[23].0@ == "darkgoldenrod"@);
    assert(KNOWN_COLORS[24].0@ == "darkgray"@);
    assert(KNOWN_COLORS[25].0@ == "darkgreen"@);
    assert(KNOWN_COLORS[26].0@ == "darkgrey"@);
    assert(KNOWN_COLORS[27].0@ == "darkkhaki"@);
    assert(KNOWN_COLORS[28].0@ == "darkmagenta"@);
    assert(KNOWN_COLORS[29].0@ == "darkolivegreen"@);
    assert(KNOWN_COLORS[30].0@ == "darkorange"@);
    assert(KNOWN_COLORS[31].0@ == "darkorchid"@);
    assert(KNOWN_COLORS[32].0@ == "darkred"@);
    assert(KNOWN_COLORS[33].0@ == "darksalmon"@);
    assert(KNOWN_COLORS[34].0@ == "darkseagreen"@);
    assert(KNOWN_COLORS[35].0@ == "darkslateblue"@);
    assert(KNOWN_COLORS[36].0@ == "darkslategray"@);
    assert(KNOWN_COLORS[37].0@ == "darkslategrey"@);
    assert(KNOWN_COLORS[38].0@ == "darkturquoise"@);
    assert(KNOWN_COLORS[39].0@ == "darkviolet"@);
    assert(KNOWN_COLORS[40].0@ == "deeppink"@);
    assert(KNOWN_COLORS[41].0@ == "deepskyblue"@);
    assert(KNOWN_COLORS[42].0@ == "dimgray"@);
    assert(KNOWN_COLORS[43].0@ == "dimgrey"@);
    assert(KNOWN_COLORS[44].0@ == "dodgerblue"@);
    assert(KNOWN_COLORS[45].0@ == "firebrick"@);
    assert(KNOWN_COLORS[46].0@ == "floralwhite"@);
    assert(KNOWN_COLORS[47].0@ == "forestgreen"@);
    assert(KNOWN_COLORS[48].0@ == "fuchsia"@);
    assert(KNOWN_COLORS[49].0@ == "gainsboro"@);
    assert(KNOWN_COLORS[50].0@ == "ghostwhite"@);
    assert(KNOWN_COLORS[51].0@ == "gold"@);
    assert(KNOWN_COLORS[52].0@ == "goldenrod"@);
    assert(KNOWN_COLORS[53].0@ == "gray"@);
    assert(KNOWN_COLORS[54].0@ == "green"@);
    assert(KNOWN_COLORS[55].0@ == "greenyellow"@);
    assert(KNOWN_COLORS[56].0@ == "grey"@);
    assert(KNOWN_COLORS[57].0@ == "honeydew"@);
    assert(KNOWN_COLORS[58].0@ == "hotpink"@);
    assert(KNOWN_COLORS[59].0@ == "indianred"@);
    assert(KNOWN_COLORS[60].0@ == "indigo"@);
    assert(KNOWN_COLORS[61].0@ == "ivory"@);
    assert(KNOWN_COLORS[62].0@ == "khaki"@);
    assert(KNOWN_COLORS[63].0@ == "lavender"@);
    assert(KNOWN_COLORS[64].0@ == "lavenderblush"@);
    assert(KNOWN_COLORS[65].0@ == "lawngreen"@);
    assert(KNOWN_COLORS[66].0@ == "lemonchiffon"@);
    assert(KNOWN_COLORS[67].0@ == "lightblue"@);
    assert(KNOWN_COLORS[68].0@ == "lightcoral"@);
    assert(KNOWN_COLORS[69].0@ == "lightcyan"@);
    assert(KNOWN_COLORS[70].0@ == "lightgoldenrodyellow"@);
    assert(KNOWN_COLORS[71].0@ == "lightgray"@);
    assert(KNOWN_COLORS[72].0@ == "lightgreen"@);
    assert(KNOWN_COLORS[73].0@ == "lightgrey"@);
    assert(KNOWN_COLORS[74].0@ == "lightpink"@);
    assert(KNOWN_COLORS[75].0@ == "lightsalmon"@);
    assert(KNOWN_COLORS[76].0@ == "lightseagreen"@);
    assert(KNOWN_COLORS[77].0@ == "lightskyblue"@);
    assert(KNOWN_COLORS[78].0@ == "lightslategray"@);
    assert(KNOWN_COLORS[79].0@ == "lightslategrey"@);
    assert(KNOWN_COLORS[80].0@ == "lightsteelblue"@);
    assert(KNOWN_COLORS[81].0@ == "lightyellow"@);
    assert(KNOWN_COLORS[82].0@ == "lime"@);
    assert(KNOWN_COLORS[83].0@ == "limegreen"@);
    assert(KNOWN_COLORS[84].0@ == "linen"@);
    assert(KNOWN_COLORS[85].0@ == "magenta"@);
    assert(KNOWN_COLORS[86].0@ == "maroon"@);
    assert(KNOWN_COLORS[87].0@ == "mediumaquamarine"@);
    assert(KNOWN_COLORS[88].0@ == "mediumblue"@);
    assert(KNOWN_COLORS[89].0@ == "mediumorchid"@);
    assert(KNOWN_COLORS[90].0@ == "mediumpurple"@);
    assert(KNOWN_COLORS[91].0@ == "mediumseagreen"@);
    assert(KNOWN_COLORS[92].0@ == "mediumslateblue"@);
    assert(KNOWN_COLORS[93].0@ == "mediumspringgreen"@);
    assert(KNOWN_COLORS[94].0@ == "mediumturquoise"@);
    assert(KNOWN_COLORS[95].0@ == "mediumvioletred"@);
    assert(KNOWN_COLORS[96].0@ == "midnightblue"@);
    assert(KNOWN_COLORS[97].0@ == "mintcream"@);
    assert(KNOWN_COLORS[98].0@ == "mistyrose"@);
    assert(KNOWN_COLORS[99].0@ == "moccasin"@);
    assert(KNOWN_COLORS[100].0@ == "navajowhite"@);
    assert(KNOWN_COLORS[101].0@ == "navy"@);
    assert(KNOWN_COLORS[102].0@ == "oldlace"@);
    assert(KNOWN_COLORS[103].0@ == "olive"@);
    assert(KNOWN_COLORS[104].0@ == "olivedrab"@);
    assert(KNOWN_COLORS[105].0@ == "orange"@);
    assert(KNOWN_COLORS[106].0@ == "orangered"@);
    assert(KNOWN_COLORS[107].0@ == "orchid"@);
    assert(KNOWN_COLORS[108].0@ == "palegoldenrod"@);
    assert(KNOWN_COLORS[109].0@ == "palegreen"@);
    assert(KNOWN_COLORS[110].0@ == "paleturquoise"@);
    assert(KNOWN_COLORS[111].0@ == "palevioletred"@);
    assert(KNOWN_COLORS[112].0@ == "papayawhip"@);
    assert(KNOWN_COLORS[113].0@ == "peachpuff"@);
    assert(KNOWN_COLORS[114].0@ == "peru"@);
    assert(KNOWN_COLORS[115].0@ == "pink"@);
    assert(KNOWN_COLORS[116].0@ == "plum"@);
    assert(KNOWN_COLORS[117].0@ == "powderblue"@);
    assert(KNOWN_COLORS[118].0@ == "purple"@);
    assert(KNOWN_COLORS[119].0@ == "rebeccapurple"@);
    assert(KNOWN_COLORS[120].0@ == "red"@);
    assert(KNOWN_COLORS[121].0@ == "rosybrown"@);
    assert(KNOWN_COLORS[122].0@ == "royalblue"@);
    assert(KNOWN_COLORS[123].0@ == "saddlebrown"@);
    assert(KNOWN_COLORS[124].0@ == "salmon"@);
    assert(KNOWN_COLORS[125].0@ == "sandybrown"@);
    assert(KNOWN_COLORS[126].0@ == "seagreen"@);
    assert(KNOWN_COLORS[127].0@ == "seashell"@);
    assert(KNOWN_COLORS[128].0@ == "sienna"@);
    assert(KNOWN_COLORS[129].0@ == "silver"@);
    assert(KNOWN_COLORS[130].0@ == "skyblue"@);
    assert(KNOWN_COLORS[131].0@ == "slateblue"@);
    assert(KNOWN_COLORS[132].0@ == "slategray"@);
    assert(KNOWN_COLORS[133].0@ == "slategrey"@);
    assert(KNOWN_COLORS[134].0@ == "snow"@);
    assert(KNOWN_COLORS[135].0@ == "springgreen"@);
    assert(KNOWN_COLORS[136].0@ == "steelblue"@);
    assert(KNOWN_COLORS[137].0@ == "tan"@);
    assert(KNOWN_COLORS[138].0@ == "teal"@);
    assert(KNOWN_COLORS[139].0@ == "thistle"@);
    assert(KNOWN_COLORS[140].0@ == "tomato"@);
    assert(KNOWN_COLORS[141].0@ == "turquoise"@);
    assert(KNOWN_COLORS[142].0@ == "violet"@);
    assert(KNOWN_COLORS[143].0@ == "wheat"@);
    assert(KNOWN_COLORS[144].0@ == "white"@);
    assert(KNOWN_COLORS[145].0@ == "whitesmoke"@);
    assert(KNOWN_COLORS[146].0@ == "yellow"@);
    assert(KNOWN_COLORS[147].0@ == "yellowgreen"@);
}
@end
@fn Color::new
ret r
ensures r.color == hex,
@fn Color::transparent
ret r
ensures r.color == 0,
@fn Color::from_name text blen
ret r
ensures painted(name@, r),
@start
let ghost name0 = name@;
proof {
    assert(forall|c: u32| (#[trigger] (c << 8u32)) <= 0xffffff00u32) by(bit_vector);
    assert(forall|c: u32| c < 0x1000000u32 ==> #[trigger] (c << 8u32) == c * 256) by(bit_vector);
    assert(forall|c: u32| #[trigger] ((c << 8u32) | 0xffu32) == add(c << 8u32, 255u32)) by(bit_vector);
    assert(forall|c: u32| #[trigger] ((c << 8u32) | 0xffu32) == (c << 8u32) + 255);
}
@loop 1 kind=vecval
invariant vx_s1 == KNOWN_COLORS, name@ == name0, forall|c: u32| (#[trigger] (c << 8u32)) <= 0xffffff00u32, forall|c: u32| c < 0x1000000u32 ==> #[trigger] (c << 8u32) == c * 256, forall|c: u32| #[trigger] ((c << 8u32) | 0xffu32) == (c << 8u32) + 255,
    forall|i: int| 0 <= i < vx_i1 ==> (#[trigger] vx_s1[i]).0@ != name@,
@loopstart 1
proof { let vx_p = vx_s1[vx_i1 - 1]; assert(named(vx_p.0@, vx_p.1)); assert(vx_p.1 < 0x1000000); }
@loopafter 1
proof {
    assert(!is_named(name0)) by { if is_named(name0) { let v = choose|v: u32| named(name0, v); all_known(name0, v); } }
    if name0.len() > 0 && name0[0] == '#' {
        let t = name0.skip(1);
        assert(digits(t, 16) ==> t.len() == 0 || (t[0] != '#' && t[0] != '+')) by { if t.len() > 0 { assert(digits(t, 16) ==> digit(t[0], 16) >= 0); } }
        if digits(t, 16) { lemma_value(t); }
        if t.len() > 0 && t[0] != '#' { assert(strip(name0, '#') == strip(t, '#')); assert(strip(t, '#') == t); }
        if t.len() == 0 { assert(strip(name0, '#') == strip(t, '#')); assert(strip(t, '#') == t); }
    }
}
@fn Color::fast
ret r
ensures exists|o: Option<Color>| painted(name@, o) && r.color == (match o { Some(c) => c.color, None => 255 }),
@fn Color::to_web_color
ret r
ensures r@ =~= seq!['#'] + hex_text(self.color as int, 8),
@start
proof { reveal_strlit("#"); }
