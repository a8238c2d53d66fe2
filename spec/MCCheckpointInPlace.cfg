SPECIFICATION Spec
CONSTANTS Iterations = 3 Crashes = 5 Atomic = FALSE
INVARIANTS Consistent Contiguous CanResume ResumesNewest YearsOK

CHECK_DEADLOCK FALSE
