------------------------------ MODULE MCSession ------------------------------
EXTENDS Session
C1 == {None, <<"ansi", 1>>, <<"rgb", 1, 20, 255>>}
C2 == {None, <<"xterm", 9>>}
MCCatalogue ==
    [fg : {None, <<"ansi", 1>>}, bg : {None, <<"rgb", 9, 20, 255>>}, ul : {None, <<"ansi", 12>>},
     eff : {{}, {"Bold"}, {"Dimmed"}, {"Underline", "Bold"}, {"DoubleUnderline", "Italic", "SubScript"}}]
=============================================================================
