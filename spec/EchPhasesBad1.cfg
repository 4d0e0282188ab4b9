SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 MaxRound = 1
 Block = 1
 LocalBound = TRUE
 PrefixTest = FALSE
 ForgetRows = FALSE
 BoundTwice = FALSE
 KeepPivots = FALSE
 NoRetry = FALSE
INVARIANTS Sound Exact NothingLost
