SPECIFICATION Spec
CONSTANTS
 B = 5
 W = 16
 Bits = 2
 MaxLen = 6
 Calls = 2
 NoCarry = FALSE
 NoHigh = FALSE
 RoomOff = TRUE
 FullStays = FALSE
INVARIANTS Padded Kept Room
