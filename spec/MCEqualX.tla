------------------------------ MODULE MCEqualX ------------------------------
EXTENDS MCEqual
D(p, u) == [pfx |-> p, uri |-> u]
A(p, l, v) == [pfx |-> p, local |-> l, val |-> v]
N(p, l, ds, as, ks) == [pfx |-> p, local |-> l, decls |-> ds, attrs |-> as, text |-> "", pad |-> "", kids |-> ks]
T(p, l, ds, as, t) == [pfx |-> p, local |-> l, decls |-> ds, attrs |-> as, text |-> t, pad |-> "", kids |-> <<>>]
cCatalog == <<
  N("", "a", <<D("p", "u1"), D("q", "u2")>>, <<A("p", "x", "1")>>,
    <<T("", "b", <<>>, <<A("", "x", "1")>>, "t"), T("", "b", <<>>, <<A("", "x", "e")>>, "t"), T("p", "b", <<>>, <<>>, "")>>),
  N("p", "a", <<D("", "u1"), D("p", "u1")>>, <<>>,
    <<N("", "b", <<>>, <<>>, <<T("", "c", <<>>, <<>>, "u"), T("p", "b", <<>>, <<>>, "t")>>),
      N("p", "b", <<>>, <<>>, <<T("", "b", <<>>, <<>>, "t"), T("p", "c", <<>>, <<>>, "u")>>)>>),
  N("", "a", <<D("", "u1")>>, <<A("", "y", "q"), A("", "x", "1")>>, <<>>),
  N("", "a", <<>>, <<A("", "y", "q"), A("", "x", "1")>>, <<T("", "b", <<>>, <<>>, "t"), T("", "c", <<>>, <<>>, "t"), T("", "b", <<>>, <<>>, "u")>>)>>
=============================================================================
