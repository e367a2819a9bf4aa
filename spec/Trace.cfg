SPECIFICATION Spec
INVARIANT Report
CHECK_DEADLOCK FALSE
CONSTANT Grids <- TraceGrids
