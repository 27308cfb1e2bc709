SPECIFICATION Spec
CONSTANTS
  Sweeps = 2
  Mode = "sequential"
INVARIANTS Energies Independent Lengths Accepted ForwardSchedule ReverseSchedule
PROPERTY Down
CHECK_DEADLOCK FALSE
