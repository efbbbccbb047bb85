CONSTANTS Width = 5 MaxTokens = 3
SPECIFICATION Spec
INVARIANT Ok
PROPERTY Confined
CHECK_DEADLOCK FALSE
