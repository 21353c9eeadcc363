SPECIFICATION MSpec
CONSTANTS Events = 3  Owners = {1, 2, 3}  Slots = 2
CONSTANT Emit <- Quiet
INVARIANTS ShowsLast NormLast
PROPERTY OneAtATime
