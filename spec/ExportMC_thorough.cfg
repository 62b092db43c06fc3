SPECIFICATION Spec
CONSTANTS MaxLen = 4
 EmitLen = 3
INVARIANTS ReadsBack Emitted
