SPECIFICATION SSpec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
