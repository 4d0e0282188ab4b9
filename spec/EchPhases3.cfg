SPECIFICATION Spec
CONSTANTS
 N = 4
 M = 2
 MaxRound = 1
 Block = 2
 LocalBound = FALSE
 PrefixTest = FALSE
 ForgetRows = FALSE
 BoundTwice = FALSE
 KeepPivots = FALSE
 NoRetry = FALSE
INVARIANTS Sound Exact NothingLost
