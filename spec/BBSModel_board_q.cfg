SPECIFICATION Spec
CONSTANTS
  Group = "board"
  MaxLen = 3
  Deep = FALSE
VIEW View
ACTION_CONSTRAINT ShowStep
CHECK_DEADLOCK FALSE
PROPERTIES FailureChangesNothing Isolated AddExtends AddBoardExtends UpdateIsLocal UpdateKeeps RemoveIsExact WriteThenRead AppendKeeps ReadOnly HandlesStay
