SPECIFICATION Spec
CONSTANTS MaxLen = 3
 EmitLen = 3
INVARIANTS Stepwise Once NothingLost LastLabel Ends DrawnOnce OneGroup Twice Emitted
