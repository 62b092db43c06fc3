SPECIFICATION Spec
CONSTANTS MaxLen = 3
 EmitLen = 3
INVARIANTS SameSlides Reset OneTable Count Emitted
