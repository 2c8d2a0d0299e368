SPECIFICATION Spec
CONSTANTS
  Group = "draft"
  MaxLen = 1
  Deep = TRUE
VIEW View
ACTION_CONSTRAINT ShowStep
CHECK_DEADLOCK FALSE
PROPERTIES FailureChangesNothing Isolated AddExtends AddBoardExtends UpdateIsLocal UpdateKeeps RemoveIsExact WriteThenRead AppendKeeps ReadOnly HandlesStay
