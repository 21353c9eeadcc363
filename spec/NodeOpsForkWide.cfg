SPECIFICATION Spec
CONSTANTS P = 24  S = 2  Steps = 16  Forks = TRUE
