SPECIFICATION Spec
CONSTANTS MaxLen = 4
 EmitLen = 2
 MaxSlides = 3
 MaxLines = 4
 Room = 3
INVARIANTS ReadsBack Closed Emitted
