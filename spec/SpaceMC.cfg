SPECIFICATION Spec
CONSTANTS MaxSteps = 6
 Sizes = {0, 1, 64, 511, 512, 513, 4096, 65536, 65537, 1048576, 16777216}
INVARIANTS Exact Declared Fine Succinct
CHECK_DEADLOCK FALSE
