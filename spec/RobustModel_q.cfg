SPECIFICATION Spec
CONSTANTS
 Bytes = {"00", "01", "ff", "0a"}
 Atoms = {"61", "2f", "2e", "00", "20", "a4", "3f"}
 NameLen = 2
INVARIANTS Proper0 Shown
CHECK_DEADLOCK FALSE
