SPECIFICATION Spec
CONSTANTS Iterations = 10 Crashes = 5 Atomic = TRUE
INVARIANTS Consistent Contiguous CanResume ResumesNewest YearsOK
PROPERTIES NeverLost Finishes
CHECK_DEADLOCK FALSE
