---------------------------- MODULE BondrewdCodec ----------------------------
(***************************************************************************)
(* What a resolved layout does to values: encode, decode, field access.    *)
(*                                                                         *)
(* Values are trees.  A leaf value is the set of its 1-bits (bit 0 is the  *)
(* least significant, two's complement at the width of the Rust type for   *)
(* signed types, the raw IEEE bits for floats, the scalar value for char,  *)
(* {0} or {} for bool).  Structs and arrays are sequences of values, enum  *)
(* values are <<variant, fields>>, primitive enum values are               *)
(* <<variant, carried bits>>.                                              *)
(*                                                                         *)
(* A byte buffer is the set of the positions of its 1-bits (see            *)
(* BondrewdLayout for the numbering); -1 stands for "stored nowhere".      *)
(***************************************************************************)
EXTENDS BondrewdLayout

(***************************************************************************)
(* Stream order of the bits of an n bit number.  Big endian: most          *)
(* significant first.  Little endian: the value is cut into bytes from the *)
(* least significant end (the last one short when 8 does not divide n),    *)
(* bytes follow each other least significant first, and inside each piece  *)
(* the most significant bit comes first.                                   *)
(***************************************************************************)
StreamIdx(n, en, k) ==
  IF en = "be" THEN n - 1 - k
  ELSE LET c == k \div 8
           w == IF c = n \div 8 THEN n % 8 ELSE 8
       IN  8 * c + w - 1 - (k % 8)

LeafNode(ty, win, en) ==
  LET n == Len(win) IN
  [t |-> "L", k |-> ty.k, w |-> NaturalBits(ty), n |-> n,
   pos |-> TLCEval([j \in 1..n |-> win[StreamIdx(n, en, j - 1) + 1]])]

PrimNode(lay, win, en) ==
  LET n == Len(win) IN
  [t |-> "P", n |-> n, ids |-> lay.ids, catch |-> lay.catch, carries |-> lay.carries,
   pos |-> TLCEval([j \in 1..n |-> win[StreamIdx(n, en, j - 1) + 1]])]

(* the leaf of an element of a window of positions, seen through an outer window *)
Thru(win, p) == IF p >= 0 /\ p < Len(win) THEN win[p + 1] ELSE -1

RECURSIVE Compose(_, _)
ComposeField(f, win) == [f EXCEPT !.nd = Compose(f.nd, win), !.own = {Thru(win, p) : p \in f.own} \ {-1}]
Compose(nd, win) ==
  CASE nd.t \in {"L", "P"} -> [nd EXCEPT !.pos = TLCEval([j \in DOMAIN nd.pos |-> Thru(win, nd.pos[j])])]
    [] nd.t = "A" -> [nd EXCEPT !.els = TLCEval([j \in DOMAIN nd.els |-> Compose(nd.els[j], win)])]
    [] nd.t = "S" -> [nd EXCEPT !.fs = TLCEval([j \in DOMAIN nd.fs |-> ComposeField(nd.fs[j], win)])]
    [] nd.t = "E" -> [nd EXCEPT !.idn = Compose(nd.idn, win),
                                !.vs = TLCEval([v \in DOMAIN nd.vs |->
                                   [nd.vs[v] EXCEPT !.fs = TLCEval([j \in DOMAIN nd.vs[v].fs |-> ComposeField(nd.vs[v].fs[j], win)])]])]

(* windows of the elements of an array field *)
ElemWins(win, cnt, mode, unit) ==
  LET n == Len(win)
      first == IF n % unit = 0 THEN unit ELSE n % unit
      m == n \div cnt
  IN  IF mode = "bl"
      THEN [i \in 1..cnt |-> IF i = 1 THEN SubSeq(win, 1, first)
                             ELSE SubSeq(win, first + (i - 2) * unit + 1, first + (i - 1) * unit)]
      ELSE [i \in 1..cnt |-> SubSeq(win, (i - 1) * m + 1, i * m)]

(* roots: the nodes of the declarations before this one; lays: their layouts *)
RECURSIVE TypeNode(_, _, _, _, _, _, _)
TypeNode(roots, lays, ty, win, en, mode, unit) ==
  CASE ty.k = "a" -> [t |-> "A", els |-> LET ws == ElemWins(win, ty.n, mode, unit) IN
                        TLCEval([i \in 1..ty.n |-> TypeNode(roots, lays, ty.of, TLCEval(ws[i]), en, "el", unit)])]
    [] ty.k = "s" -> Compose(roots[ty.ref], win)
    [] ty.k = "e" -> PrimNode(lays[ty.ref], win, en)
    [] OTHER -> LeafNode(ty, win, en)

FieldNode(roots, lays, f) ==
  [nd |-> TypeNode(roots, lays, f.ty, f.win, f.en, f.mode, f.unit),
   own |-> Range(f.win), wr |-> f.wr, dflt |-> f.dflt]

Root(roots, lays, l) ==
  CASE ~l.ok -> [t |-> "none"]
    [] l.kind = "struct" -> [t |-> "S", fs |-> TLCEval([i \in DOMAIN l.fields |-> FieldNode(roots, lays, l.fields[i])])]
    [] l.kind = "enum" ->
         [t |-> "E", idn |-> LeafNode(l.idf.ty, l.idf.win, l.idf.en), catch |-> l.catch,
          vs |-> TLCEval([v \in DOMAIN l.variants |->
             [id |-> l.variants[v].id, cap |-> l.variants[v].cap,
              fs |-> TLCEval([i \in DOMAIN l.variants[v].fields |-> FieldNode(roots, lays, l.variants[v].fields[i])])]])]
    [] OTHER -> PrimNode(l, [j \in 1..8 |-> j - 1], "be")

RECURSIVE BuildRoots(_, _, _)
BuildRoots(lays, i, acc) ==
  IF i > Len(lays) THEN acc
  ELSE BuildRoots(lays, i + 1, Append(acc, TLCEval(Root(acc, lays, lays[i]))))
NODE == TLCGet(42)
ASSUME TLCSet(42, TLCEval(BuildRoots(LAY, 1, <<>>)))

(***************************************************************************)
(* Leaves                                                                  *)
(***************************************************************************)
Replacement == {0} \cup 2..15                       \* U+FFFD
ScalarValue(b) == /\ b \subseteq 0..20
                  /\ ~(20 \in b /\ b \cap 16..19 # {})           \* at most 10FFFF
                  /\ ~(b \cap 16..20 = {} /\ {15, 14, 12, 11} \subseteq b /\ 13 \notin b) \* D800..DFFF
(* the value a typed leaf has when its n stored bits are b *)
FromStored(k, w, n, b) ==
  CASE k = "i" -> IF n > 0 /\ (n - 1) \in b THEN b \cup n..(w - 1) ELSE b
    [] k = "c" -> IF ScalarValue(b) THEN b ELSE Replacement
    [] k = "b" -> IF b = {} THEN {} ELSE {0}
    [] OTHER -> b
(* a value cut down to n bits: what remains of it after a round trip *)
TruncLeaf(k, w, n, x) == FromStored(k, w, n, x \cap 0..(n - 1))

(***************************************************************************)
(* Primitive enums                                                         *)
(***************************************************************************)
PrimBits(nd, val) == IF nd.carries /\ val[1] = nd.catch THEN val[2] ELSE nd.ids[val[1]]
PrimVal(nd, b) ==
  LET S == {v \in DOMAIN nd.ids : nd.ids[v] = b /\ ~(nd.carries /\ v = nd.catch)}
  IN  IF S # {} THEN <<CHOOSE v \in S : TRUE, {}>>
      ELSE <<nd.catch, IF nd.carries THEN b ELSE {}>>

(***************************************************************************)
(* Encode                                                                  *)
(***************************************************************************)
Stored(nd, b) == {nd.pos[k] : k \in {j \in DOMAIN nd.pos : (j - 1) \in b}} \ {-1}
RECURSIVE Enc(_, _)
EncFields(fs, vals) == UNION {Enc(fs[i].nd, vals[i]) : i \in {j \in DOMAIN fs : fs[j].wr}}
Enc(nd, val) ==
  CASE nd.t = "L" -> Stored(nd, val)
    [] nd.t = "P" -> Stored(nd, PrimBits(nd, val))
    [] nd.t = "A" -> UNION {Enc(nd.els[i], val[i]) : i \in DOMAIN nd.els}
    [] nd.t = "S" -> EncFields(nd.fs, val)
    [] nd.t = "E" -> (IF nd.vs[val[1]].cap THEN {} ELSE Stored(nd.idn, nd.vs[val[1]].id))
                     \cup EncFields(nd.vs[val[1]].fs, val[2])

(***************************************************************************)
(* Decode                                                                  *)
(***************************************************************************)
Fetch(nd, mem) == {j - 1 : j \in {i \in DOMAIN nd.pos : nd.pos[i] \in mem}}
RECURSIVE Dec(_, _)
RECURSIVE DefaultOf(_)
Variant(nd, id) == LET S == {v \in DOMAIN nd.vs : nd.vs[v].id = id} IN
                   IF S = {} THEN nd.catch ELSE CHOOSE v \in S : TRUE
DecFields(fs, mem) == TLCEval([i \in DOMAIN fs |-> IF fs[i].dflt THEN DefaultOf(fs[i].nd) ELSE Dec(fs[i].nd, mem)])
Dec(nd, mem) ==
  CASE nd.t = "L" -> FromStored(nd.k, nd.w, nd.n, Fetch(nd, mem))
    [] nd.t = "P" -> PrimVal(nd, Fetch(nd, mem))
    [] nd.t = "A" -> TLCEval([i \in DOMAIN nd.els |-> Dec(nd.els[i], mem)])
    [] nd.t = "S" -> DecFields(nd.fs, mem)
    [] nd.t = "E" -> LET v == Variant(nd, Fetch(nd.idn, mem)) IN <<v, DecFields(nd.vs[v].fs, mem)>>
(* Default::default() of a field type; only plain types and arrays of them can be `reserve` here *)
DefaultOf(nd) ==
  CASE nd.t = "L" -> {}
    [] nd.t = "A" -> [i \in DOMAIN nd.els |-> DefaultOf(nd.els[i])]
    [] nd.t = "S" -> [i \in DOMAIN nd.fs |-> DefaultOf(nd.fs[i].nd)]
    [] OTHER -> <<1, {}>>

(***************************************************************************)
(* What is left of a value after encoding it and decoding it again, said   *)
(* without mentioning where anything is stored (C01, C04).                 *)
(***************************************************************************)
RECURSIVE Trunc(_, _)
TruncFields(fs, vals) ==
  [i \in DOMAIN fs |-> IF fs[i].dflt THEN DefaultOf(fs[i].nd) ELSE Trunc(fs[i].nd, vals[i])]
Trunc(nd, val) ==
  CASE nd.t = "L" -> TruncLeaf(nd.k, nd.w, nd.n, val)
    [] nd.t = "P" -> PrimVal(nd, PrimBits(nd, val) \cap 0..(nd.n - 1))
    [] nd.t = "A" -> [i \in DOMAIN nd.els |-> Trunc(nd.els[i], val[i])]
    [] nd.t = "S" -> TruncFields(nd.fs, val)
    [] nd.t = "E" -> LET sid == IF nd.vs[val[1]].cap THEN val[2][1] \cap 0..(nd.idn.n - 1) ELSE nd.vs[val[1]].id
                         v == Variant(nd, sid)
                     IN  IF v = val[1] THEN <<v, TruncFields(nd.vs[v].fs, val[2])>>
                         ELSE Dec(nd, Enc(nd, val))   \* the value named another variant: reinterpreted

(***************************************************************************)
(* Values as they appear in logs: leaves are arrays of bit numbers.        *)
(***************************************************************************)
RECURSIVE FromRaw(_, _)
FromRaw(nd, raw) ==
  CASE nd.t = "L" -> Range(raw)
    [] nd.t = "P" -> <<raw[1], IF nd.carries /\ raw[1] = nd.catch THEN Range(raw[2]) ELSE {}>>
    [] nd.t = "A" -> TLCEval([i \in DOMAIN nd.els |-> FromRaw(nd.els[i], raw[i])])
    [] nd.t = "S" -> TLCEval([i \in DOMAIN nd.fs |-> FromRaw(nd.fs[i].nd, raw[i])])
    [] nd.t = "E" -> <<raw[1], TLCEval([i \in DOMAIN nd.vs[raw[1]].fs |-> FromRaw(nd.vs[raw[1]].fs[i].nd, raw[2][i])])>>

(* fields addressable through the generated API: <<variant (0 for structs), index>> *)
FieldRef(nd, v, f) == IF v = 0 THEN nd.fs[f] ELSE nd.vs[v].fs[f]
FieldRefs(nd) ==
  CASE nd.t = "S" -> {<<0, i>> : i \in DOMAIN nd.fs}
    [] nd.t = "E" -> UNION {{<<v, i>> : i \in DOMAIN nd.vs[v].fs} : v \in DOMAIN nd.vs}
    [] OTHER -> {}
Writable(nd, v, f) == IF v = 0 THEN TRUE ELSE ~(nd.vs[v].cap /\ f = 1)   \* captured ids have no write function
=============================================================================
