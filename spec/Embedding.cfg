SPECIFICATION EmbeddingSpec
INVARIANTS Report
CHECK_DEADLOCK FALSE
