SPECIFICATION Spec
CONSTANTS MaxLen = 4
 EmitLen = 4
INVARIANTS SameSlides Reset OneTable Count Emitted
