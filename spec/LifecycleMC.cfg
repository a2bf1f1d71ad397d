SPECIFICATION Spec
CONSTANTS Full = TRUE
          EMIT = FALSE
INVARIANTS SolvedOnlyWithTerm ResultsOnlyWhenSolved EmptyMeansNotOptimal FullMeansOptimal BuiltHasProblem CallLaws
CHECK_DEADLOCK FALSE
