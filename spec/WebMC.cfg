SPECIFICATION Spec
CONSTANTS MaxLen = 3
 Kinds = {"h", "p", "li", "quote", "code", "table", "img", "long", "shortp", "skip", "box"}
 MaxBs = {1, 2}
INVARIANTS NothingLost Sized Full Under Agrees Limited Groups Emitted
