SPECIFICATION Spec
INVARIANTS SameOrder LinksFollow NoDangling NotesFollow KeysUnique Emitted
CONSTANTS
  MaxInit = 3
  MaxSlides = 5
  MaxOps = 3
  Emit = TRUE
