SPECIFICATION Spec
CONSTANTS
 B = 5
 W = 16
 Bits = 2
 MaxLen = 12
 Calls = 2
 NoCarry = FALSE
 NoHigh = TRUE
 RoomOff = FALSE
 FullStays = FALSE
INVARIANTS Padded Kept Room
