SPECIFICATION Spec
CONSTANTS MaxLen = 5
 EmitLen = 3
 MaxSlides = 4
 MaxLines = 5
 Room = 3
INVARIANTS ReadsBack Closed Emitted
