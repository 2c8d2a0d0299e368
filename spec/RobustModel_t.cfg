SPECIFICATION Spec
CONSTANTS
 Bytes = {"00", "01", "02", "03", "04", "1b", "20", "2f", "30", "39", "3a", "40", "5b", "5d", "6d", "7f", "80", "fe", "ff", "0a", "0d"}
 Atoms = {"61", "41", "2f", "2e", "00", "20", "a4", "3f", "25", "7e", "ff"}
 NameLen = 3
INVARIANTS Proper0 Shown
CHECK_DEADLOCK FALSE
