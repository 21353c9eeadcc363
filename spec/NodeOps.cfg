SPECIFICATION Spec
CONSTANTS P = 2  S = 2  Steps = 24  Forks = FALSE
