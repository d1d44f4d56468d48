------------------------------ MODULE MCScopesX ------------------------------
EXTENDS MCScopes
C == INSTANCE EditCatalog
D(p, u) == [pfx |-> p, uri |-> u]
N(p, l, ds, ks) == [pfx |-> p, local |-> l, decls |-> ds, attrs |-> <<>>, text |-> "", pad |-> "", kids |-> ks]
cDocs == <<
  N("", "a", <<D("p", "u1")>>, <<N("", "b", <<D("q", "u2")>>, <<N("", "c", <<D("", "u1")>>, <<>>)>>),
                                 N("", "c", <<D("q", "u1")>>, <<>>)>>),
  N("", "a", <<D("", "u1"), D("p", "u1")>>, <<N("", "b", <<D("p", "u2")>>, <<>>)>>),
  N("", "a", <<D("q", "u1")>>, <<N("", "b", <<D("p", "u2"), D("q", "u2")>>, <<>>), N("", "b", <<D("", "u2")>>, <<>>)>>)>>
=============================================================================
