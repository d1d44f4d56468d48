------------------------------ MODULE MCDocWide ------------------------------
(* Two elements, every declaration, attribute and text atom: exhaustive. *)
EXTENDS MCDoc
D(p, u) == [pfx |-> p, uri |-> u]
A(p, l, v) == [pfx |-> p, local |-> l, val |-> v]
cDecls == {<<>>, <<D("", "u1")>>, <<D("p", "u1")>>, <<D("p", "u2")>>, <<D("q", "u1")>>, <<D("", "")>>,
           <<D("", "u1"), D("p", "u1")>>, <<D("q", "u2"), D("p", "u1")>>, <<D("", "u2"), D("q", "u2")>>,
           <<D("q", "u1"), D("p", "u1")>>, <<D("r", "u3"), D("", "u3")>>, <<D("r", "uq")>>}
cAttrs == {<<>>, <<A("", "x", "1")>>, <<A("p", "x", "q")>>, <<A("", "x", "nl"), A("p", "x", "u")>>,
           <<A("q", "y", "e"), A("p", "y", "gt")>>, <<A("xml", "lang", "1"), A("", "y", "q")>>,
           <<A("r", "x", "1"), A("", "y", "ws"), A("q", "x", "amp")>>}
=============================================================================
