SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 2
 MaxRound = 1
 Block = 1
 LocalBound = FALSE
 PrefixTest = FALSE
 ForgetRows = FALSE
 BoundTwice = FALSE
 KeepPivots = TRUE
 NoRetry = FALSE
INVARIANTS Sound Exact NothingLost
