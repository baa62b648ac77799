SPECIFICATION MSpec
INVARIANT Inv
PROPERTIES FixedResults ReadyFinal FnForward DeadNeverRun
