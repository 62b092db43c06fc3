SPECIFICATION Spec
INVARIANTS SameOrder LinksFollow NoDangling NotesFollow KeysUnique Emitted
CONSTANTS
  MaxInit = 3
  MaxSlides = 4
  MaxOps = 2
  Emit = TRUE
