SPECIFICATION Spec
CONSTANTS
 B = 4
 W = 8
 Bits = 2
 MaxLen = 13
 Calls = 4
 NoCarry = FALSE
 NoHigh = FALSE
 RoomOff = FALSE
 FullStays = FALSE
INVARIANTS Padded Kept Room
