SPECIFICATION Spec
CONSTANTS MaxLen = 5
 Kinds = {"h", "p", "li", "quote", "code", "shortp", "box"}
 MaxBs = {1, 2, 3}
INVARIANTS NothingLost Sized Full Under Agrees Limited Groups Emitted
