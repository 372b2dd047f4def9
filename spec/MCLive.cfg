SPECIFICATION Spec
CONSTANTS
  Worlds <- MCWorlds
  Configs <- MCConfigs
  Substitutes <- MCSubstitutes
PROPERTY C25_Terminates
CHECK_DEADLOCK TRUE
