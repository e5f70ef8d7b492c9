// Generated by tools/gen_names.py from the palette of the specification.

/// calls `$m! { index Name method into_method on_method into_on_method ... }` for the sixteen ANSI colors with methods
#[macro_export]
macro_rules! ansi_methods {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 Black black into_black on_black into_on_black)
        (1 Red red into_red on_red into_on_red)
        (2 Green green into_green on_green into_on_green)
        (3 Yellow yellow into_yellow on_yellow into_on_yellow)
        (4 Blue blue into_blue on_blue into_on_blue)
        (5 Magenta magenta into_magenta on_magenta into_on_magenta)
        (6 Cyan cyan into_cyan on_cyan into_on_cyan)
        (7 White white into_white on_white into_on_white)
        (8 BrightBlack bright_black into_bright_black on_bright_black into_on_bright_black)
        (9 BrightRed bright_red into_bright_red on_bright_red into_on_bright_red)
        (10 BrightGreen bright_green into_bright_green on_bright_green into_on_bright_green)
        (11 BrightYellow bright_yellow into_bright_yellow on_bright_yellow into_on_bright_yellow)
        (12 BrightBlue bright_blue into_bright_blue on_bright_blue into_on_bright_blue)
        (13 BrightMagenta bright_magenta into_bright_magenta on_bright_magenta into_on_bright_magenta)
        (14 BrightCyan bright_cyan into_bright_cyan on_bright_cyan into_on_bright_cyan)
        (15 BrightWhite bright_white into_bright_white on_bright_white into_on_bright_white)
    } };
}
#[macro_export]
macro_rules! ansi_names {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 Black) (1 Red) (2 Green) (3 Yellow) (4 Blue) (5 Magenta) (6 Cyan) (7 White) (8 BrightBlack)
        (9 BrightRed) (10 BrightGreen) (11 BrightYellow) (12 BrightBlue) (13 BrightMagenta) (14 BrightCyan)
        (15 BrightWhite) (16 Default)
    } };
}
#[macro_export]
macro_rules! xterm_names {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 Black) (1 Red) (2 Green) (3 Yellow) (4 Blue) (5 Magenta) (6 Cyan) (7 White) (8 BrightBlack)
        (9 BrightRed) (10 BrightGreen) (11 BrightYellow) (12 BrightBlue) (13 BrightMagenta) (14 BrightCyan)
        (15 BrightWhite) (16 Gray0) (17 Navy) (18 DarkBlue) (19 Blue3) (20 MediumBlue) (21 Blue1) (22 DarkGreen)
        (23 Teal) (24 DeepSkyBlue4) (25 DodgerBlue4) (26 DodgerBlue3) (27 DodgerBlue2) (28 Green4) (29 SpringGreen4)
        (30 Turquoise4) (31 DarkCyan) (32 DeepSkyBlue3) (33 DodgerBlue) (34 ForestGreen) (35 SeaGreen)
        (36 Cyan4) (37 LightSeaGreen) (38 DeepSkyBlue2) (39 DeepSkyBlue) (40 Green3) (41 SpringGreen3)
        (42 SpringGreen2) (43 Cyan3) (44 DarkTurquoise) (45 Turquoise2) (46 Lime) (47 SpringGreen1) (48 SpringGreen)
        (49 MediumSpringGreen) (50 Cyan2) (51 Aqua) (52 Firebrick4) (53 DarkOrchid4) (54 Indigo) (55 Purple4)
        (56 Purple3) (57 BlueViolet) (58 Olive) (59 Gray37) (60 MediumPurple4) (61 SlateBlue) (62 SlateBlue3)
        (63 RoyalBlue1) (64 Chartreuse4) (65 DarkSeaGreen4) (66 PaleTurquoise4) (67 SteelBlue) (68 SteelBlue3)
        (69 CornflowerBlue) (70 OliveDrab) (71 PaleGreen4) (72 DarkSlateGray4) (73 CadetBlue) (74 SkyBlue3)
        (75 SteelBlue1) (76 Chartreuse3) (77 MediumSeaGreen) (78 SeaGreen3) (79 MediumAquamarine) (80 MediumTurquoise)
        (81 LightSkyBlue) (82 Chartreuse2) (83 LimeGreen) (84 SeaGreen2) (85 SeaGreen1) (86 Aquamarine1)
        (87 DarkSlateGray2) (88 DarkRed) (89 DeepPink4) (90 DarkMagenta) (91 Magenta4) (92 DarkViolet)
        (93 Purple2) (94 Orange4) (95 LightPink4) (96 Plum4) (97 Orchid4) (98 MediumPurple3) (99 SlateBlue1)
        (100 Yellow4) (101 Wheat4) (102 Gray53) (103 LightSlateGray) (104 MediumPurple) (105 LightSlateBlue)
        (106 OliveDrab4) (107 LemonChiffon4) (108 DarkSeaGreen) (109 Gray63) (110 LightSkyBlue3) (111 SkyBlue2)
        (112 LawnGreen) (113 YellowGreen) (114 PaleGreen3) (115 DarkSeaGreen3) (116 DarkSlateGray3) (117 SkyBlue1)
        (118 Chartreuse) (119 OliveDrab2) (120 LightGreen) (121 PaleGreen1) (122 Aquamarine) (123 DarkSlateGray1)
        (124 Red4) (125 Maroon4) (126 MediumVioletRed) (127 Maroon3) (128 DarkOrchid3) (129 Purple) (130 DarkGoldenrod4)
        (131 IndianRed3) (132 PaleVioletRed3) (133 MediumOrchid3) (134 MediumOrchid) (135 DarkOrchid1)
        (136 DarkGoldenrod) (137 NavajoWhite4) (138 RosyBrown) (139 Grey63) (140 MediumPurple2) (141 MediumPurple1)
        (142 DarkGoldenrod3) (143 DarkKhaki) (144 NavajoWhite3) (145 Gray69) (146 LightSteelBlue3) (147 LightSteelBlue)
        (148 OliveDrab3) (149 DarkOliveGreen3) (150 PaleGreen2) (151 Honeydew3) (152 LightCyan3) (153 LightSkyBlue1)
        (154 GreenYellow) (155 DarkOliveGreen2) (156 PaleGreen) (157 DarkSeaGreen2) (158 DarkSeaGreen1)
        (159 PaleTurquoise1) (160 Red3) (161 Crimson) (162 DeepPink3) (163 VioletRed) (164 Magenta3) (165 Magenta2)
        (166 DarkOrange3) (167 IndianRed) (168 HotPink3) (169 HotPink2) (170 Orchid) (171 MediumOrchid1)
        (172 Orange3) (173 LightSalmon3) (174 LightPink3) (175 Pink3) (176 Plum3) (177 Violet) (178 Gold3)
        (179 LightGoldenrod3) (180 Tan) (181 MistyRose3) (182 Thistle3) (183 Plum2) (184 Yellow3) (185 Khaki3)
        (186 LightGoldenrod) (187 LightYellow3) (188 Gray84) (189 LightSteelBlue1) (190 Yellow2) (191 DarkOliveGreen1)
        (192 Khaki2) (193 PaleGoldenrod) (194 Honeydew2) (195 LightCyan) (196 Red1) (197 DeepPink2) (198 DeepPink)
        (199 DeepPink1) (200 Magenta1) (201 Fuchsia) (202 OrangeRed) (203 IndianRed1) (204 VioletRed1)
        (205 HotPink) (206 HotPink1) (207 MediumOrchid2) (208 DarkOrange) (209 Salmon1) (210 LightCoral)
        (211 PaleVioletRed1) (212 Orchid2) (213 Orchid1) (214 Orange) (215 SandyBrown) (216 LightSalmon)
        (217 LightPink1) (218 Pink1) (219 Plum1) (220 Gold) (221 Khaki) (222 LightGoldenrod2) (223 NavajoWhite)
        (224 MistyRose) (225 Thistle1) (226 Yellow1) (227 LightGoldenrod1) (228 Khaki1) (229 Wheat1) (230 Cornsilk)
        (231 Gray100) (232 Gray3) (233 Gray7) (234 Gray11) (235 Gray15) (236 Gray19) (237 Gray23) (238 Gray27)
        (239 Gray30) (240 Gray34) (241 Gray38) (242 Gray42) (243 Gray46) (244 Gray50) (245 Gray54) (246 Gray58)
        (247 Gray62) (248 Gray66) (249 Gray70) (250 Gray74) (251 Gray78) (252 Gray81) (253 Gray85) (254 Gray89)
        (255 Gray93)
    } };
}
#[macro_export]
macro_rules! css_names {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 AliceBlue) (1 AntiqueWhite) (2 Aqua) (3 Aquamarine) (4 Azure) (5 Beige) (6 Bisque) (7 Black)
        (8 BlanchedAlmond) (9 Blue) (10 BlueViolet) (11 Brown) (12 BurlyWood) (13 CadetBlue) (14 Chartreuse)
        (15 Chocolate) (16 Coral) (17 CornflowerBlue) (18 Cornsilk) (19 Crimson) (20 DarkBlue) (21 DarkCyan)
        (22 DarkGoldenRod) (23 DarkGray) (24 DarkGrey) (25 DarkGreen) (26 DarkKhaki) (27 DarkMagenta)
        (28 DarkOliveGreen) (29 DarkOrange) (30 DarkOrchid) (31 DarkRed) (32 DarkSalmon) (33 DarkSeaGreen)
        (34 DarkSlateBlue) (35 DarkSlateGray) (36 DarkSlateGrey) (37 DarkTurquoise) (38 DarkViolet) (39 DeepPink)
        (40 DeepSkyBlue) (41 DimGray) (42 DimGrey) (43 DodgerBlue) (44 FireBrick) (45 FloralWhite) (46 ForestGreen)
        (47 Fuchsia) (48 Gainsboro) (49 GhostWhite) (50 Gold) (51 GoldenRod) (52 Gray) (53 Grey) (54 Green)
        (55 GreenYellow) (56 HoneyDew) (57 HotPink) (58 IndianRed) (59 Indigo) (60 Ivory) (61 Khaki) (62 Lavender)
        (63 LavenderBlush) (64 LawnGreen) (65 LemonChiffon) (66 LightBlue) (67 LightCoral) (68 LightCyan)
        (69 LightGoldenRodYellow) (70 LightGray) (71 LightGrey) (72 LightGreen) (73 LightPink) (74 LightSalmon)
        (75 LightSeaGreen) (76 LightSkyBlue) (77 LightSlateGray) (78 LightSlateGrey) (79 LightSteelBlue)
        (80 LightYellow) (81 Lime) (82 LimeGreen) (83 Linen) (84 Magenta) (85 Maroon) (86 MediumAquaMarine)
        (87 MediumBlue) (88 MediumOrchid) (89 MediumPurple) (90 MediumSeaGreen) (91 MediumSlateBlue) (92 MediumSpringGreen)
        (93 MediumTurquoise) (94 MediumVioletRed) (95 MidnightBlue) (96 MintCream) (97 MistyRose) (98 Moccasin)
        (99 NavajoWhite) (100 Navy) (101 OldLace) (102 Olive) (103 OliveDrab) (104 Orange) (105 OrangeRed)
        (106 Orchid) (107 PaleGoldenRod) (108 PaleGreen) (109 PaleTurquoise) (110 PaleVioletRed) (111 PapayaWhip)
        (112 PeachPuff) (113 Peru) (114 Pink) (115 Plum) (116 PowderBlue) (117 Purple) (118 RebeccaPurple)
        (119 Red) (120 RosyBrown) (121 RoyalBlue) (122 SaddleBrown) (123 Salmon) (124 SandyBrown) (125 SeaGreen)
        (126 SeaShell) (127 Sienna) (128 Silver) (129 SkyBlue) (130 SlateBlue) (131 SlateGray) (132 SlateGrey)
        (133 Snow) (134 SpringGreen) (135 SteelBlue) (136 Tan) (137 Teal) (138 Thistle) (139 Tomato) (140 Turquoise)
        (141 Violet) (142 Wheat) (143 White) (144 WhiteSmoke) (145 Yellow) (146 YellowGreen)
    } };
}
/// index, variant, builder method, into_ method
#[macro_export]
macro_rules! effect_names {
    ($m:ident $($x:tt)*) => { $m! { $($x)*
        (0 Bold bold into_bold)
        (1 Dimmed dimmed into_dimmed)
        (2 Italic italics into_italics)
        (3 Underline underline into_underline)
        (4 DoubleUnderline double_underline into_double_underline)
        (5 Blink blink into_blink)
        (6 BlinkFast blink_fast into_blink_fast)
        (7 Reversed reverse into_reverse)
        (8 Hidden hide into_hide)
        (9 Strikethrough strikethrough into_strikethrough)
        (10 Overline overline into_overline)
        (11 SuperScript superscript into_superscript)
        (12 SubScript subscript into_subscript)
    } };
}
