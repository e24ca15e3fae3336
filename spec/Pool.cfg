CONSTANT Sizes = {48, 56}
CONSTANT B = 2
CONSTANT MaxLive = 4
CONSTANT MaxChunks = 3
INIT Init
NEXT Next
INVARIANT Fits
CHECK_DEADLOCK FALSE
