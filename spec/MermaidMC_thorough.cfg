SPECIFICATION Spec
CONSTANTS MaxLen = 4
 EmitLen = 4
INVARIANTS Stepwise Once NothingLost LastLabel Ends DrawnOnce OneGroup Twice Emitted
