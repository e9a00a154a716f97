--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Behaviours of the specification, for replay on the real code: TLC       *)
(* simulates Bondrewd, choosing the declaration, the functions and their   *)
(* arguments at random, and prints every call (CALL).  The calls are then  *)
(* made on the real code; the recorded replies and buffers must be the     *)
(* ones that Trace allows.                                                 *)
(***************************************************************************)
EXTENDS Bondrewd

VARIABLE seen        \* fields written since the buffer was loaded: histories come back to them
Pick(S) == TLCEval(RandomElement(S))
Mix(a, b, c, x) == LET q == Pick(1..6) IN CASE q = 1 -> a [] q = 2 -> b [] q = 3 -> c [] OTHER -> x
RndSet(n) == TLCEval(Mix({}, 0..(n - 1), {Pick(0..(n - 1))}, {b \in 0..(n - 1) : RandomElement({TRUE, FALSE})}))
Scalar == TLCEval(BitsOf(Pick({Pick(0..127), Pick(0..55295), Pick(57344..1114111), 55295, 57344, 65533, 1114111})))

RECURSIVE Rnd(_)
RndFields(fs) == TLCEval([j \in DOMAIN fs |-> Rnd(fs[j].nd)])
Rnd(nd) ==
  CASE nd.t = "L" -> IF nd.k = "c" THEN Scalar ELSE IF nd.k = "b" THEN Pick({{}, {0}}) ELSE RndSet(nd.w)
    [] nd.t = "P" -> LET v == Pick(DOMAIN nd.ids) IN <<v, IF nd.carries /\ v = nd.catch THEN RndSet(8) ELSE {}>>
    [] nd.t = "A" -> TLCEval([j \in DOMAIN nd.els |-> Rnd(nd.els[j])])
    [] nd.t = "S" -> RndFields(nd.fs)
    [] nd.t = "E" -> LET v == Pick(DOMAIN nd.vs) IN <<v, RndFields(nd.vs[v].fs)>>

Roots == {i \in DOMAIN DECLS : LAY[i].ok /\ LAY[i].kind # "prim"}
Refs == FieldRefs(NODE[d])
WRefs == {r \in Refs : Writable(NODE[d], r[1], r[2])}

Writes == IF WRefs = {} THEN <<>> ELSE <<"write", "ws", "vw", "write", "ws", "vw", "uw">>
Reads == IF Refs = {} THEN <<>> ELSE <<"read", "rs", "vr", "vmr", "ur", "umr">>
IdCalls == IF LAY[d].kind = "enum" THEN <<"wid", "rid", "rids">> ELSE <<>>
Whole == <<"dec", "fs", "chk", "redec", "enc", "rt">>
(* the stream is consumed rarely, and loaded when there is too little left of it *)
Calls == IF mem.n < Bytes(d) THEN <<"load", "load", "load", "rs", "ws", "fs", "fv", "chk", "vw", "ur", "umr">>
         ELSE Writes \o Reads \o IdCalls \o Whole \o <<"fv">>
Usable(op) == /\ op # "uw" => Callable(op, d, mem, FieldArg(0, 0))
              /\ op = "uw" => mem.n >= Bytes(d) /\ Offered(op, FEATS)
              /\ op \in {"read", "rs", "vr", "vmr", "ur", "umr"} => Refs # {}
              /\ op \in {"write", "ws", "vw", "uw"} => WRefs # {}
NewMem == LET n == Bytes(d) + Pick({0, 1, Bytes(d), Bytes(d) + 3}) IN [n |-> n, b |-> RndSet(8 * n)]
(* fields written before are read again more often *)
ReadRef == IF seen # {} /\ Pick(1..3) > 1 THEN Pick(seen) ELSE Pick(Refs)

Args(op) ==
  CASE op = "load" -> Arg(0, 0, <<>>, NewMem)
    [] op \in {"read", "rs", "vr", "vmr", "ur", "umr"} -> LET r == ReadRef IN FieldArg(r[1], r[2])
    [] op \in {"write", "ws", "vw", "uw"} -> LET r == Pick(WRefs) IN Arg(r[1], r[2], Rnd(FieldRef(NODE[d], r[1], r[2]).nd), {})
    [] op = "wid" -> Arg(0, 0, IF Pick(1..2) = 1 THEN NODE[d].vs[Pick(DOMAIN NODE[d].vs)].id ELSE RndSet(IdTyW(NODE[d].idn.n)), {})
    [] op \in {"enc", "rt"} -> Arg(0, 0, Rnd(NODE[d]), {})
    [] OTHER -> FieldArg(0, 0)

GenInit == d \in Roots /\ mem = [n |-> 0, b |-> {}] /\ reply = Done /\ seen = {}
(* \E over a single choice: the choice is made once *)
GenNext ==
  \E ops \in {SelectSeq(Calls, Usable)} :
  \E op \in {IF mem.n = 0 THEN "load" ELSE ops[Pick(DOMAIN ops)]} :
  \E a \in {Args(op)} :
      /\ PrintT("CALL " \o ToJson([d |-> d, op |-> op, v |-> a.v, f |-> a.f, x |-> a.x, y |-> a.y]))
      /\ Do(op, a)
      /\ seen' = IF op \in {"load", "enc", "fv"} THEN {} ELSE IF op \in {"write", "ws", "vw", "uw"} THEN seen \cup {<<a.v, a.f>>} ELSE seen
=============================================================================
