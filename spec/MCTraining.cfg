SPECIFICATION Spec
CONSTANTS TrainGames = {1, 2, 3} ValGames = {7, 8} Batch = 2 Iterations = 2 MaxLosses = 2
INVARIANTS StepPerLoss WeightsByStep Evenly SameValidation
PROPERTIES ValidationKeeps
CONSTRAINT Bound
CHECK_DEADLOCK FALSE
