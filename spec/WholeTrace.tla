---------------------------- MODULE WholeTrace ----------------------------
(* State: o, what the object in hand is (values by name, and the functions it    *)
(* refers to), or a model part; files, what each holds: [kind, p].               *)
(* Every event gives the object (now) and the files (disk) afterwards.           *)
EXTENDS TraceBatch
W == INSTANCE Whole WITH Names <- {}, Vals <- {}, Files <- {}, Nonsense <- {}, obj <- 0, file <- 0, req <- 0, todo <- 0, pre <- 0, prefile <- 0, told <- 0, was <- 0
S == INSTANCE Store WITH Vals <- 0, NObj <- 0, NFile <- 0, Depth <- 0, obj <- 0, file <- 0, n <- 0
Start(tr) == [o |-> tr.o, disk |-> tr.disk]
Is(f, v) == f = v \/ v = -1
(* values after e of the names in DOMAIN w are those in w (-1: any), all others as before *)
Sets(s, e, w) == DOMAIN e.now.f = DOMAIN s.o.f /\ \A k \in DOMAIN s.o.f : IF k \in DOMAIN w THEN Is(e.now.f[k], w[k]) ELSE e.now.f[k] = s.o.f[k]
Same(s, e) == S!Same(s.o, e.now)
Refusals(e) == CASE e.op \in {"data", "make", "update", "points", "declare", "switch"} -> {"ValueError"}
                 [] e.op = "owner" -> {"SrMiseStaticOwnerError"}
                 [] e.op = "set" -> {"ValueError", "SrMiseQmaxError"}
                 [] e.op = "load" -> {"SrMiseFileError", "FileNotFoundError", "IsADirectoryError"}
                 [] e.op = "read" -> {"SrMiseFileError", "SrMiseDataFormatError", "FileNotFoundError", "IsADirectoryError"}
                 [] e.op = "dataset" -> {"SrMiseFileError", "PDFDataFormatError", "FileNotFoundError", "IsADirectoryError"}
                 [] e.op = "item" -> {"KeyError", "IndexError"}
                 [] e.op = "pick" -> {"IndexError"}
                 [] OTHER -> {}
(* e.can was decided by the driver where it is plain (a file that is damaged, a place that does not exist) *)
Can(s, e) == CASE e.op = "data" -> W!DataCan(e)
               [] e.op = "set" -> W!SetCan(e.kind, e.names, e.super, e.auto, s.o.f.qmax_fromdata \notin W!SetOf(e.nones))
               [] e.op = "make" -> W!PartCan(e.n, e.np, e.nf)
               [] e.op = "update" -> W!UpdateCan(s.o, e.q)
               [] e.op = "owner" -> W!OwnerCan(s.o, e.to, e.n)
               [] e.op = "item" -> e.k \in 1..Len(s.o.pars)
               [] e.op = "points" -> W!ClusterCan(e.nx, e.ny, e.res)
               [] e.op = "declare" -> W!DeclareCan(e)
               [] e.op = "pick" -> e.i >= -e.n /\ e.i < e.n
               [] e.op = "switch" -> \A i \in 1..Len(e.yes) : e.yes[i]
               [] OTHER -> e.can
Refused(s, e) == Failing({ <<"what cannot be done is refused: " \o e.op, e.r # "done">>,
    <<"it is refused as what it is: " \o e.op, e.r = "done" \/ Refusals(e) = {} \/ \E i \in 1..Len(e.mro) : e.mro[i] \in Refusals(e)>>,
    <<"what is refused leaves the object as it was: " \o e.op, IF e.whole THEN Same(s, e) ELSE e.now = s.o>>,
    <<"what is refused leaves the files as they were: " \o e.op, e.disk = s.disk>>,
    <<"what is refused leaves what was handed in as it was: " \o e.op, e.kept>> })
Done(s, e) == Failing({ <<"what can be done is done: " \o e.op, e.r = "done">>,
    <<"what was handed in stays as it was: " \o e.op, e.kept>>,
    <<"everything asked for is set, and nothing else: " \o e.op,
      CASE e.op \in {"data", "pick"} -> Sets(s, e, e.want)
        [] e.op = "set" -> /\ Sets(s, e, [k \in DOMAIN e.want \cup { n \in DOMAIN s.o.f : s.o.f[n] \in W!SetOf(e.nones) } |-> IF k \in DOMAIN e.want THEN e.want[k] ELSE -1])
        [] e.op \in {"read"} -> S!Same(e.p, e.now)
        [] e.op = "make" -> e.now = e.given
        [] e.op = "update" -> e.now = W!Updated(s.o, e.q)
        [] e.op = "owner" -> e.now = [s.o EXCEPT !.owner = e.to]
        [] e.op = "item" -> e.now = [s.o EXCEPT !.free[e.k] = e.v]
        [] e.op = "points" -> e.now.n = e.nx /\ e.now.res = e.res
        [] e.op = "switch" -> e.now = e.given
        [] e.op \in {"write", "save"} -> IF e.whole THEN Same(s, e) ELSE e.now = s.o
        [] OTHER -> e.full>>,
    <<"files change only by being written, and then in full: " \o e.op,
      IF e.op \in {"write", "save"} THEN e.disk = [s.disk EXCEPT ![e.slot] = e.text] ELSE e.disk = s.disk>> })
Bad(tr, s, e) == IF e.op = "damage" THEN {} ELSE IF Can(s, e) THEN Done(s, e) ELSE Refused(s, e)
After(tr, s, e) == [o |-> e.now, disk |-> e.disk]
TInit == BatchInit(Start)
TNext == BatchNext(Bad, After)
=============================================================================
