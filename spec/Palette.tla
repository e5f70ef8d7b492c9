------------------------------- MODULE Palette -------------------------------
(***************************************************************************)
(* The fixed vocabulary of colorz: color names, their codes, and effects.  *)
(*                                                                         *)
(* Sources: ANSI codes and SGR numbers from ECMA-48 / xterm ctlseqs (and   *)
(* mintty for 73/74/75); CSS names and values from the CSS Color standard  *)
(* (cross-checked against the npm package color-name); the 256-color names *)
(* are the documented name -> code list of the crate.                      *)
(***************************************************************************)
EXTENDS Integers, Sequences

\* ANSI colors, position = index + 1.  Index 16 is the terminal default.
AnsiNames == <<
    "Black", "Red", "Green", "Yellow", "Blue", "Magenta",
    "Cyan", "White", "BrightBlack", "BrightRed", "BrightGreen", "BrightYellow",
    "BrightBlue", "BrightMagenta", "BrightCyan", "BrightWhite", "Default" >>

AnsiIndices == 0..16

AnsiFgCode(i) == IF i = 16 THEN 39 ELSE IF i < 8 THEN 30 + i ELSE 82 + i
AnsiBgCode(i) == AnsiFgCode(i) + 10

\* The 256-color entry that "corresponds" to an ANSI color.  For the first
\* sixteen it is the same index.  Default has no real counterpart; the crate
\* maps it to entry 16 (documented deviation D1 in DESIGN.md).
AnsiToXterm(i) == i

XtermNames == <<
    "Black", "Red", "Green", "Yellow", "Blue",
    "Magenta", "Cyan", "White", "BrightBlack", "BrightRed",
    "BrightGreen", "BrightYellow", "BrightBlue", "BrightMagenta", "BrightCyan",
    "BrightWhite", "Gray0", "Navy", "DarkBlue", "Blue3",
    "MediumBlue", "Blue1", "DarkGreen", "Teal", "DeepSkyBlue4",
    "DodgerBlue4", "DodgerBlue3", "DodgerBlue2", "Green4", "SpringGreen4",
    "Turquoise4", "DarkCyan", "DeepSkyBlue3", "DodgerBlue", "ForestGreen",
    "SeaGreen", "Cyan4", "LightSeaGreen", "DeepSkyBlue2", "DeepSkyBlue",
    "Green3", "SpringGreen3", "SpringGreen2", "Cyan3", "DarkTurquoise",
    "Turquoise2", "Lime", "SpringGreen1", "SpringGreen", "MediumSpringGreen",
    "Cyan2", "Aqua", "Firebrick4", "DarkOrchid4", "Indigo",
    "Purple4", "Purple3", "BlueViolet", "Olive", "Gray37",
    "MediumPurple4", "SlateBlue", "SlateBlue3", "RoyalBlue1", "Chartreuse4",
    "DarkSeaGreen4", "PaleTurquoise4", "SteelBlue", "SteelBlue3", "CornflowerBlue",
    "OliveDrab", "PaleGreen4", "DarkSlateGray4", "CadetBlue", "SkyBlue3",
    "SteelBlue1", "Chartreuse3", "MediumSeaGreen", "SeaGreen3", "MediumAquamarine",
    "MediumTurquoise", "LightSkyBlue", "Chartreuse2", "LimeGreen", "SeaGreen2",
    "SeaGreen1", "Aquamarine1", "DarkSlateGray2", "DarkRed", "DeepPink4",
    "DarkMagenta", "Magenta4", "DarkViolet", "Purple2", "Orange4",
    "LightPink4", "Plum4", "Orchid4", "MediumPurple3", "SlateBlue1",
    "Yellow4", "Wheat4", "Gray53", "LightSlateGray", "MediumPurple",
    "LightSlateBlue", "OliveDrab4", "LemonChiffon4", "DarkSeaGreen", "Gray63",
    "LightSkyBlue3", "SkyBlue2", "LawnGreen", "YellowGreen", "PaleGreen3",
    "DarkSeaGreen3", "DarkSlateGray3", "SkyBlue1", "Chartreuse", "OliveDrab2",
    "LightGreen", "PaleGreen1", "Aquamarine", "DarkSlateGray1", "Red4",
    "Maroon4", "MediumVioletRed", "Maroon3", "DarkOrchid3", "Purple",
    "DarkGoldenrod4", "IndianRed3", "PaleVioletRed3", "MediumOrchid3", "MediumOrchid",
    "DarkOrchid1", "DarkGoldenrod", "NavajoWhite4", "RosyBrown", "Grey63",
    "MediumPurple2", "MediumPurple1", "DarkGoldenrod3", "DarkKhaki", "NavajoWhite3",
    "Gray69", "LightSteelBlue3", "LightSteelBlue", "OliveDrab3", "DarkOliveGreen3",
    "PaleGreen2", "Honeydew3", "LightCyan3", "LightSkyBlue1", "GreenYellow",
    "DarkOliveGreen2", "PaleGreen", "DarkSeaGreen2", "DarkSeaGreen1", "PaleTurquoise1",
    "Red3", "Crimson", "DeepPink3", "VioletRed", "Magenta3",
    "Magenta2", "DarkOrange3", "IndianRed", "HotPink3", "HotPink2",
    "Orchid", "MediumOrchid1", "Orange3", "LightSalmon3", "LightPink3",
    "Pink3", "Plum3", "Violet", "Gold3", "LightGoldenrod3",
    "Tan", "MistyRose3", "Thistle3", "Plum2", "Yellow3",
    "Khaki3", "LightGoldenrod", "LightYellow3", "Gray84", "LightSteelBlue1",
    "Yellow2", "DarkOliveGreen1", "Khaki2", "PaleGoldenrod", "Honeydew2",
    "LightCyan", "Red1", "DeepPink2", "DeepPink", "DeepPink1",
    "Magenta1", "Fuchsia", "OrangeRed", "IndianRed1", "VioletRed1",
    "HotPink", "HotPink1", "MediumOrchid2", "DarkOrange", "Salmon1",
    "LightCoral", "PaleVioletRed1", "Orchid2", "Orchid1", "Orange",
    "SandyBrown", "LightSalmon", "LightPink1", "Pink1", "Plum1",
    "Gold", "Khaki", "LightGoldenrod2", "NavajoWhite", "MistyRose",
    "Thistle1", "Yellow1", "LightGoldenrod1", "Khaki1", "Wheat1",
    "Cornsilk", "Gray100", "Gray3", "Gray7", "Gray11",
    "Gray15", "Gray19", "Gray23", "Gray27", "Gray30",
    "Gray34", "Gray38", "Gray42", "Gray46", "Gray50",
    "Gray54", "Gray58", "Gray62", "Gray66", "Gray70",
    "Gray74", "Gray78", "Gray81", "Gray85", "Gray89",
    "Gray93" >>

\* <<name, r, g, b>>
CssTable == <<
    <<"AliceBlue", 240, 248, 255>>, <<"AntiqueWhite", 250, 235, 215>>,
    <<"Aqua", 0, 255, 255>>, <<"Aquamarine", 127, 255, 212>>,
    <<"Azure", 240, 255, 255>>, <<"Beige", 245, 245, 220>>,
    <<"Bisque", 255, 228, 196>>, <<"Black", 0, 0, 0>>,
    <<"BlanchedAlmond", 255, 235, 205>>, <<"Blue", 0, 0, 255>>,
    <<"BlueViolet", 138, 43, 226>>, <<"Brown", 165, 42, 42>>,
    <<"BurlyWood", 222, 184, 135>>, <<"CadetBlue", 95, 158, 160>>,
    <<"Chartreuse", 127, 255, 0>>, <<"Chocolate", 210, 105, 30>>,
    <<"Coral", 255, 127, 80>>, <<"CornflowerBlue", 100, 149, 237>>,
    <<"Cornsilk", 255, 248, 220>>, <<"Crimson", 220, 20, 60>>,
    <<"DarkBlue", 0, 0, 139>>, <<"DarkCyan", 0, 139, 139>>,
    <<"DarkGoldenRod", 184, 134, 11>>, <<"DarkGray", 169, 169, 169>>,
    <<"DarkGrey", 169, 169, 169>>, <<"DarkGreen", 0, 100, 0>>,
    <<"DarkKhaki", 189, 183, 107>>, <<"DarkMagenta", 139, 0, 139>>,
    <<"DarkOliveGreen", 85, 107, 47>>, <<"DarkOrange", 255, 140, 0>>,
    <<"DarkOrchid", 153, 50, 204>>, <<"DarkRed", 139, 0, 0>>,
    <<"DarkSalmon", 233, 150, 122>>, <<"DarkSeaGreen", 143, 188, 143>>,
    <<"DarkSlateBlue", 72, 61, 139>>, <<"DarkSlateGray", 47, 79, 79>>,
    <<"DarkSlateGrey", 47, 79, 79>>, <<"DarkTurquoise", 0, 206, 209>>,
    <<"DarkViolet", 148, 0, 211>>, <<"DeepPink", 255, 20, 147>>,
    <<"DeepSkyBlue", 0, 191, 255>>, <<"DimGray", 105, 105, 105>>,
    <<"DimGrey", 105, 105, 105>>, <<"DodgerBlue", 30, 144, 255>>,
    <<"FireBrick", 178, 34, 34>>, <<"FloralWhite", 255, 250, 240>>,
    <<"ForestGreen", 34, 139, 34>>, <<"Fuchsia", 255, 0, 255>>,
    <<"Gainsboro", 220, 220, 220>>, <<"GhostWhite", 248, 248, 255>>,
    <<"Gold", 255, 215, 0>>, <<"GoldenRod", 218, 165, 32>>,
    <<"Gray", 128, 128, 128>>, <<"Grey", 128, 128, 128>>,
    <<"Green", 0, 128, 0>>, <<"GreenYellow", 173, 255, 47>>,
    <<"HoneyDew", 240, 255, 240>>, <<"HotPink", 255, 105, 180>>,
    <<"IndianRed", 205, 92, 92>>, <<"Indigo", 75, 0, 130>>,
    <<"Ivory", 255, 255, 240>>, <<"Khaki", 240, 230, 140>>,
    <<"Lavender", 230, 230, 250>>, <<"LavenderBlush", 255, 240, 245>>,
    <<"LawnGreen", 124, 252, 0>>, <<"LemonChiffon", 255, 250, 205>>,
    <<"LightBlue", 173, 216, 230>>, <<"LightCoral", 240, 128, 128>>,
    <<"LightCyan", 224, 255, 255>>, <<"LightGoldenRodYellow", 250, 250, 210>>,
    <<"LightGray", 211, 211, 211>>, <<"LightGrey", 211, 211, 211>>,
    <<"LightGreen", 144, 238, 144>>, <<"LightPink", 255, 182, 193>>,
    <<"LightSalmon", 255, 160, 122>>, <<"LightSeaGreen", 32, 178, 170>>,
    <<"LightSkyBlue", 135, 206, 250>>, <<"LightSlateGray", 119, 136, 153>>,
    <<"LightSlateGrey", 119, 136, 153>>, <<"LightSteelBlue", 176, 196, 222>>,
    <<"LightYellow", 255, 255, 224>>, <<"Lime", 0, 255, 0>>,
    <<"LimeGreen", 50, 205, 50>>, <<"Linen", 250, 240, 230>>,
    <<"Magenta", 255, 0, 255>>, <<"Maroon", 128, 0, 0>>,
    <<"MediumAquaMarine", 102, 205, 170>>, <<"MediumBlue", 0, 0, 205>>,
    <<"MediumOrchid", 186, 85, 211>>, <<"MediumPurple", 147, 112, 219>>,
    <<"MediumSeaGreen", 60, 179, 113>>, <<"MediumSlateBlue", 123, 104, 238>>,
    <<"MediumSpringGreen", 0, 250, 154>>, <<"MediumTurquoise", 72, 209, 204>>,
    <<"MediumVioletRed", 199, 21, 133>>, <<"MidnightBlue", 25, 25, 112>>,
    <<"MintCream", 245, 255, 250>>, <<"MistyRose", 255, 228, 225>>,
    <<"Moccasin", 255, 228, 181>>, <<"NavajoWhite", 255, 222, 173>>,
    <<"Navy", 0, 0, 128>>, <<"OldLace", 253, 245, 230>>,
    <<"Olive", 128, 128, 0>>, <<"OliveDrab", 107, 142, 35>>,
    <<"Orange", 255, 165, 0>>, <<"OrangeRed", 255, 69, 0>>,
    <<"Orchid", 218, 112, 214>>, <<"PaleGoldenRod", 238, 232, 170>>,
    <<"PaleGreen", 152, 251, 152>>, <<"PaleTurquoise", 175, 238, 238>>,
    <<"PaleVioletRed", 219, 112, 147>>, <<"PapayaWhip", 255, 239, 213>>,
    <<"PeachPuff", 255, 218, 185>>, <<"Peru", 205, 133, 63>>,
    <<"Pink", 255, 192, 203>>, <<"Plum", 221, 160, 221>>,
    <<"PowderBlue", 176, 224, 230>>, <<"Purple", 128, 0, 128>>,
    <<"RebeccaPurple", 102, 51, 153>>, <<"Red", 255, 0, 0>>,
    <<"RosyBrown", 188, 143, 143>>, <<"RoyalBlue", 65, 105, 225>>,
    <<"SaddleBrown", 139, 69, 19>>, <<"Salmon", 250, 128, 114>>,
    <<"SandyBrown", 244, 164, 96>>, <<"SeaGreen", 46, 139, 87>>,
    <<"SeaShell", 255, 245, 238>>, <<"Sienna", 160, 82, 45>>,
    <<"Silver", 192, 192, 192>>, <<"SkyBlue", 135, 206, 235>>,
    <<"SlateBlue", 106, 90, 205>>, <<"SlateGray", 112, 128, 144>>,
    <<"SlateGrey", 112, 128, 144>>, <<"Snow", 255, 250, 250>>,
    <<"SpringGreen", 0, 255, 127>>, <<"SteelBlue", 70, 130, 180>>,
    <<"Tan", 210, 180, 140>>, <<"Teal", 0, 128, 128>>,
    <<"Thistle", 216, 191, 216>>, <<"Tomato", 255, 99, 71>>,
    <<"Turquoise", 64, 224, 208>>, <<"Violet", 238, 130, 238>>,
    <<"Wheat", 245, 222, 179>>, <<"White", 255, 255, 255>>,
    <<"WhiteSmoke", 245, 245, 245>>, <<"Yellow", 255, 255, 0>>,
    <<"YellowGreen", 154, 205, 50>> >>

CssNames == [i \in 1..Len(CssTable) |-> CssTable[i][1]]
CssRgbOf == [n \in {CssNames[i] : i \in 1..Len(CssTable)} |->
               LET k == CHOOSE i \in 1..Len(CssTable) : CssNames[i] = n
               IN <<CssTable[k][2], CssTable[k][3], CssTable[k][4]>>]

\* <<name, SGR on, SGR off, builder method>> in declaration order
EffectTable == <<
    <<"Bold", 1, 22, "bold">>,
    <<"Dimmed", 2, 22, "dimmed">>,
    <<"Italic", 3, 23, "italics">>,
    <<"Underline", 4, 24, "underline">>,
    <<"DoubleUnderline", 21, 24, "double_underline">>,
    <<"Blink", 5, 25, "blink">>,
    <<"BlinkFast", 6, 25, "blink_fast">>,
    <<"Reversed", 7, 27, "reverse">>,
    <<"Hidden", 8, 28, "hide">>,
    <<"Strikethrough", 9, 29, "strikethrough">>,
    <<"Overline", 53, 55, "overline">>,
    <<"SuperScript", 73, 75, "superscript">>,
    <<"SubScript", 74, 75, "subscript">> >>

EffectSeq == [i \in 1..Len(EffectTable) |-> EffectTable[i][1]]
Effects == {EffectSeq[i] : i \in 1..Len(EffectTable)}
EffectIndex == [e \in Effects |-> (CHOOSE i \in 1..Len(EffectTable) : EffectSeq[i] = e) - 1]
EffectOn == [e \in Effects |-> EffectTable[EffectIndex[e] + 1][2]]
EffectOff == [e \in Effects |-> EffectTable[EffectIndex[e] + 1][3]]
AnyUnderline == {"Underline", "DoubleUnderline"}

\* The decimal text of 0..255, as byte sequences (48 = "0")
DecBytes(n) == IF n >= 100 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>>
               ELSE IF n >= 10 THEN <<48 + (n \div 10), 48 + (n % 10)>>
               ELSE <<48 + n>>
DecTable == [n \in 0..255 |-> DecBytes(n)]
=============================================================================
