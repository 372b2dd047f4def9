SPECIFICATION Spec
CONSTANTS
  Worlds <- TraceWorlds
  Configs <- TraceConfigs
  Substitutes <- TraceSubstitutes
INVARIANT Report
INVARIANT C01_LinesKept
INVARIANT C02_Outline
INVARIANT C03_Size
INVARIANT C04_Padding
INVARIANT C05_Alignment
INVARIANT C06_Indentation
INVARIANT C07_Tabs
INVARIANT C10_OnlyBoxParts
INVARIANT C12_BlankLines
INVARIANT C11_Detection
INVARIANT C13_WellFormed
INVARIANT C14_Names
INVARIANT C15_Order
INVARIANT C16_Query
INVARIANT C18_LineBreaks
INVARIANT C24_Honest
PROPERTY C03_GivenUp
CHECK_DEADLOCK TRUE
