SPECIFICATION Spec
INVARIANTS TitleIsLast SettingsAreLast FileHasSlides Counted Emitted
PROPERTIES ThemeKeepsRest OthersKept
CONSTANTS
  NoSettings <- NoneMC
  WithTheme <- WithThemeMC
  Loaded <- LoadedMC
  MaxOps = 4
  Emit = TRUE
