SPECIFICATION Spec
CONSTANTS P = 5  S = 5  Steps = 60  Forks = TRUE
