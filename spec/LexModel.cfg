SPECIFICATION Spec
INVARIANTS SaysWhatIsDeclared StandsInText
PROPERTY NeverTakesBack
CHECK_DEADLOCK FALSE
