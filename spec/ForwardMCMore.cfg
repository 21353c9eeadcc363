SPECIFICATION MSpec
CONSTANTS Events = 4  Owners = {1, 2}  Slots = 2
CONSTANT Emit <- Quiet
INVARIANTS ShowsLast NormLast
PROPERTY OneAtATime
