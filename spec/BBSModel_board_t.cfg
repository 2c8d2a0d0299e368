SPECIFICATION Spec
CONSTANTS
  Group = "board"
  MaxLen = 5
  Deep = TRUE
VIEW View
ACTION_CONSTRAINT ShowStep
CHECK_DEADLOCK FALSE
PROPERTIES FailureChangesNothing Isolated AddExtends AddBoardExtends UpdateIsLocal UpdateKeeps RemoveIsExact WriteThenRead AppendKeeps ReadOnly HandlesStay
