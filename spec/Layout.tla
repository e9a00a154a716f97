------------------------------- MODULE Layout -------------------------------
(***************************************************************************)
(* Resolves every declaration of a file and writes what it means: accepted *)
(* or not (and which rule it breaks), sizes, the bytes a slice must have   *)
(* for each field, and the shape of its values (which bits of every leaf   *)
(* are stored).  The drivers choose arguments with it; they know nothing   *)
(* about layouts themselves.                                               *)
(***************************************************************************)
EXTENDS Bondrewd

RECURSIVE Shape(_)
Shapes(fs) == [j \in DOMAIN fs |-> Shape(fs[j].nd)]
Shape(nd) ==
  CASE nd.t = "L" -> [t |-> "L", k |-> nd.k, w |-> nd.w, n |-> nd.n,
                         miss |-> LET p == nd.pos IN IF -1 \in Range(p) THEN {j - 1 : j \in {i \in DOMAIN p : p[i] = -1}} ELSE {}]
    [] nd.t = "P" -> [t |-> "P", n |-> nd.n, ids |-> nd.ids, catch |-> nd.catch, carries |-> nd.carries]
    [] nd.t = "A" -> [t |-> "A", els |-> [j \in DOMAIN nd.els |-> Shape(nd.els[j])]]
    [] nd.t = "S" -> [t |-> "S", fs |-> Shapes(nd.fs)]
    [] nd.t = "E" -> [t |-> "E", n |-> nd.idn.n, vs |-> [v \in DOMAIN nd.vs |-> Shapes(nd.vs[v].fs)]]

FieldOut(fs) == [j \in DOMAIN fs |-> [n |-> Cardinality(fs[j].own), need |-> NeedBytes(fs[j].own), shape |-> Shape(fs[j].nd)]]
Out(i) ==
  LET r == LAY[i] IN
  IF ~r.ok THEN [ok |-> FALSE, why |-> r.why]
  ELSE CASE r.kind = "struct" -> [ok |-> TRUE, bits |-> r.bits, bytes |-> r.bytes, fields |-> FieldOut(NODE[i].fs)]
         [] r.kind = "enum" -> [ok |-> TRUE, bits |-> r.bits, bytes |-> r.bytes, catch |-> r.catch, idb |-> r.idb,
              idneed |-> NeedBytes(Range(NODE[i].idn.pos)),
              variants |-> [v \in DOMAIN r.variants |-> [id |-> r.variants[v].id, cap |-> r.variants[v].cap,
                 bits |-> r.variants[v].bits, fields |-> FieldOut(NODE[i].vs[v].fs)]]]
         [] OTHER -> [ok |-> TRUE, bits |-> 8, bytes |-> 1, catch |-> r.catch, carries |-> r.carries, ids |-> r.ids]

Init == d = 0 /\ mem = 0 /\ reply = JsonSerialize(IOEnv.OUT, [i \in DOMAIN DECLS |-> Out(i)])
Next == FALSE /\ UNCHANGED vars
=============================================================================
