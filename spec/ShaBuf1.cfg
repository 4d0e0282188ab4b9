SPECIFICATION Spec
CONSTANTS
 B = 5
 W = 16
 Bits = 2
 MaxLen = 21
 Calls = 3
 NoCarry = FALSE
 NoHigh = FALSE
 RoomOff = FALSE
 FullStays = FALSE
INVARIANTS Padded Kept Room
