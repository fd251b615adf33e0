INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
INVARIANT Reduced
INVARIANT Symmetric_
INVARIANT NonNegative
INVARIANT ZeroIffEqual
INVARIANT Monotone
INVARIANT SameImagePsnr
INVARIANT SsimLaws
INVARIANT MsLaws
