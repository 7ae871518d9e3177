INIT Init
NEXT Next
INVARIANTS SunInv SunNoonInv FrameInv MagInv DipInv UseInv EllInv
CHECK_DEADLOCK FALSE
