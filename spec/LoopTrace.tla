----------------------------- MODULE LoopTrace -----------------------------
EXTENDS Loop, TraceIO
VARIABLE l
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.ev = e
TInit == l = 1 /\ st = <<>>
THead == Is("init") /\ st' = <<>> /\ l' = l + 1
TEnd == Is("end") /\ l' = l + 1 /\ UNCHANGED st
TSet == Is("set") /\ st' = E.st /\ l' = l + 1
TLoop == /\ Is("loop")
         /\ Must(l, "the kernel runs once for each particle of the set", HitsOnce(E))
         /\ Must(l, "effects and indices of each particle", Visited(E, E.st))
         /\ E.var = 3 => Must(l, "cell reductions", Reduced(E))
         /\ st' = E.st /\ l' = l + 1
TNext == THead \/ TEnd \/ TSet \/ TLoop
TSpec == TInit /\ [][TNext]_<<st, l>>
TraceAccepted == TLCGet("stats").diameter - 1 = Len(Trace)
                 /\ Trace[Len(Trace)].ev = "end"
=============================================================================
