----------------------------- MODULE MCDocSmall -----------------------------
EXTENDS MCDoc
D(p, u) == [pfx |-> p, uri |-> u]
A(p, l, v) == [pfx |-> p, local |-> l, val |-> v]
cDecls == {<<>>, <<D("", "u1")>>, <<D("p", "u1")>>, <<D("p", "u2")>>, <<D("q", "u1")>>, <<D("", "")>>,
           <<D("", "u1"), D("p", "u1")>>, <<D("q", "u2"), D("p", "u1")>>}
cAttrs == {<<>>}
=============================================================================
