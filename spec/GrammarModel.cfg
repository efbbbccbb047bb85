SPECIFICATION Spec
INVARIANTS EquationsMeanDerivations LeftRecursionMeansRepetition PredictionDecides
CHECK_DEADLOCK FALSE
