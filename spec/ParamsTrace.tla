---------------------------- MODULE ParamsTrace ----------------------------
EXTENDS TraceBatch
P == INSTANCE Params WITH Vals <- {0}, MaxModels <- 1, Depth <- 0, w <- 0, n <- 0, act <- 0, res <- 0
Start(tr) == tr.w
Bad(tr, s, e) ==
  LET outs == P!Apply(s, e.a) IN
  Failing({ <<"result of " \o e.a.op, \E o \in outs : o.r = e.r>>,
            <<"parts after " \o e.a.op, \E o \in outs : o.w = e.w>>,
            <<"outcome of " \o e.a.op, \E o \in outs : o.w = e.w /\ o.r = e.r>> })
After(tr, s, e) == e.w
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
