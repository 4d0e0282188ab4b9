SPECIFICATION Spec
CONSTANTS
 N = 3
 M = 3
 MaxRound = 2
 Block = 2
 LocalBound = FALSE
 PrefixTest = FALSE
 ForgetRows = FALSE
 BoundTwice = FALSE
 KeepPivots = FALSE
 NoRetry = FALSE
INVARIANTS Sound Exact NothingLost
