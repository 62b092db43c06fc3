SPECIFICATION Spec
CONSTANTS MaxLen = 3
 EmitLen = 2
INVARIANTS ReadsBack Emitted
