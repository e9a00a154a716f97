-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Validation of executions recorded from the real generated code.         *)
(*                                                                         *)
(* The environment names two files: DECLS (the declarations, as the        *)
(* harness generated them) and TRACE (one JSON record per call: op,        *)
(* declaration d, arguments v f x y, reply k r, buffer n m afterwards).    *)
(* Every record must be a step of Bondrewd with exactly that reply and     *)
(* that buffer.  A record that is not is reported (DIVERGE), and the model *)
(* continues from the recorded buffer so that the rest is checked too.     *)
(***************************************************************************)
EXTENDS Bondrewd

TraceLog == TLCGet(43)
ASSUME TLCSet(43, TLCEval(ndJsonDeserialize(IOEnv.TRACE)))

VARIABLES l, bad

E == TraceLog[l]
ObsMem == [n |-> E.n, b |-> Range(E.m)]

(* arguments as the model wants them *)
NodeOfField(i, v, f) == FieldRef(NODE[i], v, f).nd
FieldOps == {"read", "write", "rs", "ws", "vr", "vmr", "vw", "ur", "umr", "uw"}
ValueArgOps == {"enc", "id", "ideq", "rt", "hexu", "hexl", "ip", "peq"}
ArgX(e) == CASE e.op \in {"write", "ws", "vw", "uw"} -> FromRaw(NodeOfField(e.d, e.v, e.f), e.x)
             [] e.op \in ValueArgOps -> FromRaw(NODE[e.d], e.x)
             [] e.op = "wid" -> Range(e.x)
             [] e.op \in {"has", "name"} -> e.x
             [] OTHER -> <<>>
ArgY(e) == CASE e.op = "load" -> ObsMem
             [] e.op \in {"fh", "fhs", "fhv"} -> e.y
             [] e.op \in {"ideq", "fp", "peq"} -> Range(e.y)
             [] OTHER -> {}

(* replies as the model gives them *)
ReplyV(e) ==
  IF e.k # "ok" THEN e.r
  ELSE CASE e.op \in {"read", "rs", "vr", "vmr", "ur", "umr"} -> FromRaw(NodeOfField(e.d, e.v, e.f), e.r)
         [] e.op \in {"dec", "fs", "fv", "rt", "redec", "fh", "fhs", "fhv", "fp"} -> FromRaw(NODE[e.d], e.r)
         [] e.op \in {"rid", "rids", "id", "ip"} -> Range(e.r)
         [] OTHER -> e.r

(* which part of an event a property is about: "r" reply, "m" buffer *)
Explains(p, e) == /\ p.r.k = e.k
                  /\ p.m = ObsMem
                  /\ p.r.v = ReplyV(e)

TraceInit == d = 1 /\ mem = [n |-> 0, b |-> {}] /\ reply = Done /\ l = 1 /\ bad = 0

Matches(e, a) == LAY[e.d].ok /\ Callable(e.op, e.d, mem, a)

Step ==
  /\ l <= Len(TraceLog)
  /\ LET e == E
         a == Arg(e.v, e.f, ArgX(e), ArgY(e))
         p == Post(e.op, e.d, mem, a)
         good == Matches(e, a) /\ Explains(p, e)
     IN  /\ d' = e.d
         /\ mem' = ObsMem
         /\ reply' = p.r
         /\ bad' = IF good THEN bad ELSE bad + 1
         /\ IF good THEN TRUE ELSE PrintT("DIVERGE " \o ToJson([line |-> l, want |-> p.r, mem |-> p.m.b, before |-> mem.b]))
  /\ l' = l + 1
TraceNext == Step
TraceSpec == TraceInit /\ [][TraceNext]_<<vars, l, bad>>

TraceAccepted == TLCGet("stats").diameter - 1 = Len(TraceLog)
=============================================================================
