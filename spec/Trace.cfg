SPECIFICATION Spec
CONSTANTS
  Worlds <- TraceWorlds
  Configs <- TraceConfigs
  Substitutes <- TraceSubstitutes
INVARIANT Report
CHECK_DEADLOCK TRUE
