------------------------------- MODULE MCEditX -------------------------------
EXTENDS MCEdit
C == INSTANCE EditCatalog
cCatalog == C!cCatalog
cCat4 == <<C!cCatalog[4], C!cCatalog[3]>>
=============================================================================
