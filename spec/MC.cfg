SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
INVARIANT InvOf
PROPERTY Steps
CHECK_DEADLOCK FALSE
