------------------------------ MODULE MCPieces ------------------------------
EXTENDS Pieces
MCPieceSet ==
    {<<"on", e>> : e \in {"Bold", "Dimmed", "DoubleUnderline", "SubScript"}} \cup
    {<<"off", e>> : e \in {"Dimmed", "Underline", "SuperScript"}} \cup
    {<<"color", "fg", <<"ansi", 16>>>>, <<"color", "fg", <<"ansi", 9>>>>, <<"color", "bg", <<"rgb", 5, 38, 255>>>>,
     <<"color", "ul", <<"ansi", 1>>>>, <<"color", "ul", <<"xterm", 58>>>>} \cup
    {<<k, [fg |-> <<"ansi", 1>>, bg |-> None, ul |-> <<"ansi", 12>>, eff |-> {"Underline", "Bold"}]>> : k \in {"open", "close"}} \cup
    {<<"reset">>}
=============================================================================
