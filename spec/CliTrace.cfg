SPECIFICATION CliSpec
CHECK_DEADLOCK FALSE
