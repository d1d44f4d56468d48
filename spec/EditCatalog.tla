----------------------------- MODULE EditCatalog -----------------------------
EXTENDS XmlTree
D(p, u) == [pfx |-> p, uri |-> u]
A(p, l, v) == [pfx |-> p, local |-> l, val |-> v]
N(p, l, ds, as, ks) == [pfx |-> p, local |-> l, decls |-> ds, attrs |-> as, text |-> "", pad |-> "", kids |-> ks]
T(p, l, ds, as, t) == [pfx |-> p, local |-> l, decls |-> ds, attrs |-> as, text |-> t, pad |-> "", kids |-> <<>>]
cCatalog == <<
  N("", "a", <<D("", "u1")>>, <<>>, <<T("", "b", <<>>, <<A("", "x", "1")>>, "t")>>),
  N("", "a", <<>>, <<>>, <<T("p", "b", <<D("p", "u1")>>, <<A("p", "x", "q")>>, "amp")>>),
  N("p", "a", <<D("p", "u1")>>, <<>>,
    <<N("p", "b", <<D("p", "u2")>>, <<>>, <<T("p", "a", <<>>, <<>>, "u")>>)>>),
  N("", "a", <<D("", "u1"), D("p", "u1")>>, <<A("p", "x", "1")>>,
    <<T("p", "b", <<D("", "u2")>>, <<>>, "cd"), T("", "b", <<D("", "")>>, <<>>, "")>>),
  N("q", "a", <<D("p", "u2"), D("q", "u1")>>, <<A("p", "x", "1"), A("q", "x", "1")>>,
    <<T("p", "b", <<D("q", "u2")>>, <<>>, "t")>>)>>
=============================================================================
