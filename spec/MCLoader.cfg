SPECIFICATION Spec
CONSTANTS Games = {g1, g2, g3, g4, g5} MaxEpochs = 3
INVARIANTS OncePerEpoch AllDelivered Sizes
PROPERTIES EpochEnds
CHECK_DEADLOCK FALSE
