SPECIFICATION Spec
CONSTANTS Full = FALSE
          EMIT = TRUE
INVARIANTS SolvedOnlyWithTerm ResultsOnlyWhenSolved EmptyMeansNotOptimal FullMeansOptimal BuiltHasProblem
CHECK_DEADLOCK FALSE
