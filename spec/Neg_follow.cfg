SPECIFICATION Spec
INVARIANTS Contained Bounded Right Kept
PROPERTY Ends
CHECK_DEADLOCK FALSE
CONSTANTS
  M0 <- MM0
  MFirst <- MMFirst
  MLast <- MMLast
  MFs <- MMFs
  MRootTree <- MMRootTree
  MChunkTree <- MMChunkTree
  Chars <- MChars
  SubName <- MSubName
  Mode = "follow"
  Options = {"none","D","file"}
