SPECIFICATION Spec
CONSTANTS MaxLen = 2
 EmitLen = 2
INVARIANTS SameSlides Reset Limits Hidden Emitted
