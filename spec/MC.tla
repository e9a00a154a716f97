--------------------------------- MODULE MC ---------------------------------
(***************************************************************************)
(* Exhaustive model checking of Bondrewd on small declarations.            *)
(*                                                                         *)
(* Every generated function is called with every argument (within the      *)
(* value domains below) in every reachable buffer.  For each property Cxx  *)
(* of /verif/properties.jsonl there is a state predicate Inv_Cxx and a     *)
(* step predicate Step_Cxx; wherever possible they are said with other     *)
(* means than the model they check: arithmetic instead of bit positions,   *)
(* a twin declaration, a ghost variable, or the wording of the rule.       *)
(*                                                                         *)
(* The environment gives DECLS (the small declarations) and PROP (which    *)
(* property, so that only the functions it is about are called).           *)
(***************************************************************************)
EXTENDS Bondrewd

VARIABLES last, ghost        \* the call made in this step; what the history says must be in the buffer
allvars == <<d, mem, reply, last, ghost>>
View == <<d, mem, ghost>>
PROP == IOEnv.PROP
DEEP == IOEnv.DEEP = "1"     \* wider value domains

Roots == {i \in DOMAIN DECLS : LAY[i].ok}
Structs == {i \in Roots : LAY[i].kind = "struct"}
Enums == {i \in Roots : LAY[i].kind = "enum"}
Prims == {i \in Roots : LAY[i].kind = "prim"}

(***************************************************************************)
(* Value domains: every value of narrow fields, corner values of wide      *)
(* ones.  Fit: what the declared length can hold; Over: also what not.     *)
(***************************************************************************)
Bits0(n) == 0..(n - 1)
Corner(n) == {{}, Bits0(n), {0}, {n - 1}, {k \in Bits0(n) : k % 2 = 0}, {k \in Bits0(n) : k % 3 = 0}}
Low(n) == IF n <= 3 THEN SUBSET Bits0(n) ELSE Corner(n)
LeafTruncOf(nd, x) == TruncLeaf(nd.k, nd.w, nd.n, x)
Missing(nd) == {k - 1 : k \in {k \in DOMAIN nd.pos : nd.pos[k] = -1}}      \* cut off by the length of a nesting field
FitLeaf(nd) == {x \in {FromStored(nd.k, nd.w, nd.n, b) : b \in Low(nd.n)} : LeafTruncOf(nd, x) = x /\ x \cap Missing(nd) = {}}
TypeHas(nd, x) == CASE nd.k = "c" -> ScalarValue(x) [] nd.k = "b" -> x \in {{}, {0}} [] OTHER -> x \subseteq Bits0(nd.w)
OverLeaf(nd) == FitLeaf(nd) \cup {x \in {Bits0(nd.w), {nd.w - 1}, {nd.n}, Bits0(nd.n + 1), {0, nd.n}, Bits0(nd.w) \ {nd.n - 1}} : TypeHas(nd, x)}

RECURSIVE Prod(_, _)
Prod(doms, i) == IF i > Len(doms) THEN {<<>>} ELSE LET rest == Prod(doms, i + 1) IN {<<x>> \o q : x \in doms[i], q \in rest}

PrimVals(nd, over) ==
  LET all == {<<v, {}>> : v \in {v \in DOMAIN nd.ids : ~(nd.carries /\ v = nd.catch)}}
             \cup (IF nd.carries THEN {<<nd.catch, b>> : b \in Low(nd.n) \cup (IF over THEN {Bits0(8), {7}} ELSE {})} ELSE {})
  IN  IF over THEN all ELSE {x \in all : PrimVal(nd, PrimBits(nd, x) \cap Bits0(nd.n)) = x}
OtherIds(nd, v) == {nd.vs[w].id : w \in DOMAIN nd.vs \ {v}}
IdFits(nd, v, x) == x \subseteq Bits0(nd.idn.n) /\ x \notin OtherIds(nd, v) /\ (v = nd.catch \/ x = nd.vs[v].id)
RECURSIVE Vals(_, _)
FVals(fs, over) == Prod([i \in DOMAIN fs |-> Vals(fs[i].nd, over)], 1)
Vals(nd, over) ==
  CASE nd.t = "L" -> IF over THEN OverLeaf(nd) ELSE FitLeaf(nd)
    [] nd.t = "P" -> PrimVals(nd, over)
    [] nd.t = "A" -> Prod([i \in DOMAIN nd.els |-> Vals(nd.els[i], over)], 1)
    [] nd.t = "S" -> FVals(nd.fs, over /\ DEEP)
    [] nd.t = "E" -> UNION {{<<v, q>> : q \in {q \in FVals(nd.vs[v].fs, over /\ DEEP) :
                                 (over /\ DEEP) \/ ~nd.vs[v].cap \/ IdFits(nd, v, q[1])}} : v \in DOMAIN nd.vs}
(* nested values only vary within what fits, unless DEEP *)
RootVals(nd, over) ==
  CASE nd.t = "S" -> FVals(nd.fs, over)
    [] nd.t = "E" -> UNION {{<<v, q>> : q \in {q \in FVals(nd.vs[v].fs, over) : over \/ ~nd.vs[v].cap \/ IdFits(nd, v, q[1])}} : v \in DOMAIN nd.vs}
    [] OTHER -> Vals(nd, over)
OverProps == {"C04", "C05", "C11", "C15"} \cup (IF DEEP THEN {"C16", "C20", "C21"} ELSE {})
(* all values, and for each field all values of it, of every declaration *)
ASSUME TLCSet(44, TLCEval([i \in DOMAIN DECLS |->
  IF ~LAY[i].ok THEN [all |-> {}, per |-> <<>>]
  ELSE [all |-> RootVals(NODE[i], PROP \in OverProps),
        per |-> [r \in FieldRefs(NODE[i]) |-> Vals(FieldRef(NODE[i], r[1], r[2]).nd, PROP \in OverProps)]]]))
VALS == TLCGet(44)

Buffers(n) == IF n <= 1 THEN SUBSET Bits0(8 * n)
              ELSE {{}, Bits0(8 * n), {k \in Bits0(8 * n) : k % 2 = 0}, {k \in Bits0(8 * n) : k % 3 = 1}, {k \in Bits0(8 * n) : k % 8 < 4}}

(***************************************************************************)
(* The functions a property is about                                       *)
(***************************************************************************)
Ops ==
  CASE PROP = "C01" -> {"enc", "rt", "dec"}
    [] PROP = "C02" -> {"enc", "write", "dec"}
    [] PROP = "C03" -> {"enc", "dec", "read", "write"}
    [] PROP = "C04" -> {"enc", "write", "rt"}
    [] PROP = "C05" -> {"write", "ws", "vw"}
    [] PROP = "C06" -> {"read", "dec", "rs", "vr", "vmr", "fs"}
    [] PROP = "C07" -> {"read", "dec"}
    [] PROP = "C08" -> {"rs", "ws"}
    [] PROP = "C09" -> {"chk", "vr", "vmr", "vw", "ur", "umr", "uw"}
    [] PROP = "C10" -> {"fs", "fv", "append"}
    [] PROP = "C11" -> {"enc", "dec", "rid", "wid", "id", "rids"}
    [] PROP = "C12" -> {"enc", "id", "ideq"}
    [] PROP = "C13" -> {"sizes", "vsizes", "enc"}
    [] PROP = "C14" -> {"sizes"}
    [] PROP = "C15" -> {"enc", "dec", "write", "read"}
    [] PROP = "C16" -> {"enc", "dec", "read", "write"}
    [] PROP = "C17" -> {"enc", "dec", "write"}
    [] PROP = "C18" -> {"hexu", "hexl", "fh", "fhs", "hsize"}
    [] PROP = "C19" -> {"fp", "ip", "peq", "enc", "read"}
    [] PROP = "C20" -> {"enc", "dec", "read", "rs", "ws", "vr", "vw", "fs", "fv", "redec", "chk", "wid", "rid", "rids"}
    [] PROP = "C22" -> {"enc", "rt", "dec", "read", "write", "redec", "rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "ur", "umr", "uw", "rid", "rids", "wid", "id",
                        "ideq", "sizes", "vsizes", "hsize", "hexu", "hexl", "fh", "fhs", "fp", "ip", "peq", "has", "name"}
    [] OTHER -> {"write", "ws", "vw", "wid", "enc", "read", "rs", "vr", "dec", "fs", "rid"}
PrimOps == {"fp", "ip", "peq"}
ConfigOps == {"has", "name"}
NeedEnum == {"rid", "rids", "wid", "id", "ideq", "vsizes"}

HexTexts(i) ==
  LET n == 2 * Bytes(i)
      some == {48, 57, 65, 70, 97, 102, 47, 58, 64, 71, 96, 103, 0, 255, 51, 67, 100}
      good == {HexOf(b, Bytes(i), u) : b \in Buffers(Bytes(i)), u \in BOOLEAN}
  IN  good \cup {[good0 EXCEPT ![j] = c] : good0 \in {HexOf({}, Bytes(i), TRUE), HexOf(Bits0(8 * Bytes(i)), Bytes(i), FALSE)}, j \in 1..n, c \in some}
      \cup {SubSeq(HexOf({}, Bytes(i), TRUE), 1, k) : k \in 0..(n - 1)} \cup {HexOf({}, Bytes(i), TRUE) \o <<103>>}

Refs == FieldRefs(NODE[d])
WRefs == {r \in Refs : Writable(NODE[d], r[1], r[2])}
Applies(op) == IF op \in ConfigOps THEN TRUE ELSE IF LAY[d].kind = "prim" THEN op \in PrimOps
               ELSE op \notin PrimOps /\ (op \in NeedEnum => LAY[d].kind = "enum")

(***************************************************************************)
(* Ghost: for C21 the value every field must have, for C10 the values      *)
(* waiting in the stream.                                                  *)
(***************************************************************************)
Tracked == PROP = "C21" /\ LAY[d].kind = "struct"
GhostInit(i, m) == IF PROP = "C21" /\ LAY[i].kind = "struct" THEN [r \in FieldRefs(NODE[i]) |-> Dec(FieldRef(NODE[i], r[1], r[2]).nd, m.b)] ELSE <<>>
GhostNext(op, a, p) ==
  IF Tracked /\ op \in {"write", "ws", "vw", "uw"} /\ p.r.k = "ok" THEN [ghost EXCEPT ![<<a.v, a.f>>] = Trunc(FieldRef(NODE[d], a.v, a.f).nd, a.x)]
  ELSE IF Tracked /\ op = "enc" THEN [r \in Refs |-> LET F == FieldRef(NODE[d], r[1], r[2]) IN IF F.wr THEN Trunc(F.nd, a.x[r[2]]) ELSE Dec(F.nd, {})]
  ELSE IF op = "append" THEN Append(ghost, Dec(NODE[d], Enc(NODE[d], a.x)))
  ELSE IF PROP = "C10" /\ op = "fv" /\ p.r.k = "ok" /\ ghost # <<>> THEN Tail(ghost)
  ELSE ghost

PostMC(op, a) ==
  IF op = "append"
  THEN [r |-> Done, m |-> [n |-> mem.n + Bytes(d), b |-> mem.b \cup {p + 8 * mem.n : p \in Enc(NODE[d], a.x)}]]
  ELSE Post(op, d, mem, a)

Lengths(i) == IF PROP \in {"C08", "C09", "C20", "C22"} THEN 0..(Bytes(i) + 1) ELSE IF PROP = "C10" THEN {0} ELSE {Bytes(i)}
Init == /\ d \in Roots
        /\ mem \in UNION {{[n |-> n, b |-> b] : b \in IF PROP \in {"C12", "C13", "C14"} THEN {{}} ELSE Buffers(n)} : n \in Lengths(d)}
        /\ reply = Done
        /\ last = [op |-> "load", a |-> FieldArg(0, 0)]
        /\ ghost = GhostInit(d, mem)
Call(op, a) == /\ Callable(op, d, mem, a)
               /\ LET p == PostMC(op, a) IN reply' = p.r /\ mem' = p.m /\ ghost' = GhostNext(op, a, p)
               /\ last' = [op |-> op, a |-> a]
               /\ UNCHANGED d
(* the functions of a value alone are called from one buffer only, unless the history matters *)
ValueOps == {"enc", "rt", "id", "ideq", "hexu", "hexl", "ip", "fp", "fh", "fhs", "peq", "sizes", "vsizes", "hsize", "has", "name"}
Next == \E op \in {o \in Ops : Applies(o)} :
  /\ (op \in ValueOps /\ PROP # "C21") => mem.b = {} /\ mem.n = Bytes(d)
  /\ CASE op \in {"read", "rs", "vr", "vmr", "ur", "umr"} -> \E r \in Refs : Call(op, FieldArg(r[1], r[2]))
       [] op \in {"write", "ws", "vw", "uw"} -> \E r \in WRefs : \E x \in VALS[d].per[r] : Call(op, Arg(r[1], r[2], x, {}))
       [] op \in {"enc", "rt", "id", "hexu", "hexl", "ip"} -> \E x \in VALS[d].all : Call(op, Arg(0, 0, x, {}))
       [] op = "append" -> Len(ghost) < 2 /\ \E x \in VALS[d].all : Call(op, Arg(0, 0, x, {}))
       [] op = "ideq" -> \E x \in VALS[d].all : \E y \in SUBSET Bits0(NODE[d].idn.n) : Call(op, Arg(0, 0, x, y))
       [] op = "wid" -> \E x \in SUBSET Bits0(Min(4, NODE[d].idn.n)) \cup {Bits0(IdTyW(NODE[d].idn.n)), Bits0(NODE[d].idn.n)} \cup {NODE[d].vs[v].id : v \in DOMAIN NODE[d].vs} : Call(op, Arg(0, 0, x, {}))
       [] op = "vsizes" -> \E v \in DOMAIN NODE[d].vs : Call(op, FieldArg(v, 0))
       [] op \in {"fh", "fhs"} -> \E t \in {t \in HexTexts(d) : op = "fhs" \/ Len(t) = 2 * Bytes(d)} : Call(op, Arg(0, 0, <<>>, t))
       [] op = "fp" -> \E y \in SUBSET Bits0(8) : Call(op, Arg(0, 0, <<>>, y))
       [] op = "peq" -> \E x \in VALS[d].all : \E y \in {Bits0(8)} \cup Range(NODE[d].ids) : Call(op, Arg(0, 0, x, y))
       [] op = "has" -> \E x \in (Ops \ (ConfigOps \cup PrimOps)) \cup {"unsafe"} : Call(op, Arg(0, 0, x, {}))
       [] op = "name" -> \E x \in {"Bitfields", "BitfieldsDyn", "BitfieldHex", "BitfieldHexDyn", "BitfieldLengthError", "BitfieldHexError",
                                    "BitfieldHexDynError", "BitfieldLengthError:Error"} : Call(op, Arg(0, 0, x, {}))
       [] OTHER -> Call(op, FieldArg(0, 0))
Spec == Init /\ [][Next]_allvars

(***************************************************************************)
(* Arithmetic view of a layout (C02, C07, C17): the buffer as one big      *)
(* endian number, a field as the number its stored bits make.              *)
(***************************************************************************)
BufNum(b, bytes) == ValOf({8 * bytes - 1 - p : p \in b})
PieceW(n, c) == IF c = n \div 8 THEN n % 8 ELSE 8
RECURSIVE LeNum(_, _, _)
LeNum(x, n, c) == IF 8 * c >= n THEN 0                    \* pieces c, c+1, ... one after the other
                  ELSE ((x \div 2^(8 * c)) % 2^PieceW(n, c)) * 2^(Max(0, n - 8 * (c + 1))) + LeNum(x, n, c + 1)
StoredNum(x, n, en) == IF en = "be" THEN x % 2^n ELSE LeNum(x % 2^n, n, 0)
(* the number a field of layout l holds for value x; arrays are their elements one after the other *)
ElemLen(l, i) == IF l.mode = "one" THEN l.n ELSE IF l.mode = "el" THEN l.n \div l.ty.n
                 ELSE IF i > 1 THEN l.unit ELSE l.n - l.unit * (l.ty.n - 1)
RECURSIVE ArrNum(_, _, _)
ArrNum(l, x, i) == IF i > l.ty.n THEN 0 ELSE LET n == ElemLen(l, i) IN
                   StoredNum(ValOf(x[i]), n, l.en) * 2^Sum([j \in 1..(l.ty.n - i) |-> ElemLen(l, i + j)]) + ArrNum(l, x, i + 1)
FieldNum(l, x) == IF l.ty.k = "a" THEN ArrNum(l, x, 1) ELSE StoredNum(ValOf(x), l.n, l.en)
Plain(i) == LAY[i].kind = "struct" /\ ~DECLS[i].at.rev /\ ~DECLS[i].at.lsb0 /\ (\A j \in DOMAIN DECLS[i].fields : DECLS[i].fields[j].ov = 0)
            /\ \A j \in DOMAIN LAY[i].fields : LET t == ElemTy(LAY[i].fields[j].ty) IN t.k \in {"u", "i", "b"} /\ (t.k # "b" => t.w <= 16)
ArithOf(i, x) == Sum([j \in DOMAIN LAY[i].fields |-> LET l == LAY[i].fields[j] IN
                       IF l.wr THEN FieldNum(l, x[j]) * 2^(8 * Bytes(i) - l.s - l.n) ELSE 0])
(* the signed number a type bit set stands for, and the two's complement reading of n stored bits *)
Signed(x, w) == ValOf(x \ {w - 1}) - (IF w - 1 \in x THEN 2^(w - 1) ELSE 0)
TwosComp(u, n) == IF u >= 2^(n - 1) THEN u - 2^n ELSE u
FieldBitsNum(l, b, bytes) == (BufNum(b, bytes) \div 2^(8 * bytes - l.s - l.n)) % 2^l.n
(* undo LeNum: least significant pieces come first *)
RECURSIVE UnLe(_, _, _)
UnLe(u, n, c) == IF 8 * c >= n THEN 0
                 ELSE LET w == PieceW(n, c) rest == Max(0, n - 8 * (c + 1)) IN
                      (u \div 2^rest) * 2^(8 * c) + UnLe(u % 2^rest, n, c + 1)

(***************************************************************************)
(* C01  round trip                                                         *)
(***************************************************************************)
RECURSIVE Back(_, _, _)
BackFs(fs, x, y) == \A i \in DOMAIN fs : (fs[i].wr => Back(fs[i].nd, x[i], y[i])) /\ (fs[i].dflt => y[i] = DefaultOf(fs[i].nd))
Back(nd, x, y) ==
  CASE nd.t = "A" -> \A i \in DOMAIN nd.els : Back(nd.els[i], x[i], y[i])
    [] nd.t = "S" -> BackFs(nd.fs, x, y)
    [] nd.t = "E" -> x[1] = y[1] /\ BackFs(nd.vs[x[1]].fs, x[2], y[2])
    [] OTHER -> x = y
(* fields declared to overlap come back if their values agree on the shared bits *)
Agree(nd, x) == nd.t = "S" => \A i, j \in {j \in DOMAIN nd.fs : nd.fs[j].wr} :
                   Enc(nd.fs[i].nd, x[i]) \cap nd.fs[j].own = Enc(nd.fs[j].nd, x[j]) \cap nd.fs[i].own
Inv_C01 == TRUE
Step_C01 == (last'.op \in {"enc", "rt"} /\ Agree(NODE[d], last'.a.x)) =>
            /\ last'.op = "rt" => Back(NODE[d], last'.a.x, reply'.v)
            /\ last'.op = "enc" => LET y == Dec(NODE[d], mem'.b) IN Back(NODE[d], last'.a.x, y) /\ Enc(NODE[d], y) = mem'.b

(* C02  place of the bits, by arithmetic *)
Inv_C02 == TRUE
Step_C02 == Plain(d) =>
   /\ last'.op = "enc" => BufNum(mem'.b, Bytes(d)) = ArithOf(d, last'.a.x)
   /\ last'.op = "dec" => \A j \in DOMAIN LAY[d].fields : LET l == LAY[d].fields[j] IN
         ~l.dflt => FieldNum(l, reply'.v[j]) = FieldBitsNum(l, mem.b, Bytes(d))
   /\ last'.op = "write" => LET l == LAY[d].fields[last'.a.f] IN
         FieldBitsNum(l, mem'.b, Bytes(d)) = FieldNum(l, last'.a.x)

(* C03  reverse and lsb0, against the twin declaration without the flag *)
SameBut(i, j, rev, lsb0) == /\ LAY[i].ok /\ LAY[j].ok /\ LAY[i].kind = LAY[j].kind
                            /\ DECLS[j] = [DECLS[i] EXCEPT !.at = [@ EXCEPT !.rev = rev, !.lsb0 = lsb0]]
FlipSet(b, bytes) == {Flip(TRUE, bytes, p) : p \in b}
HasTwin(i, rev, lsb0) == \E j \in DOMAIN DECLS : SameBut(i, j, rev, lsb0)
Twin(i, rev, lsb0) == CHOOSE j \in DOMAIN DECLS : SameBut(i, j, rev, lsb0)
LeafWins(l, j) == l.fields[j].win
Mirrored(f, g, bits) ==        \* the windows of the same field without and with lsb0
  \A k \in DOMAIN f.win : g.win[k] = (bits - (f.s + f.n)) + (k - 1)
Inv_C03 ==
  /\ (LAY[d].kind = "struct" /\ DECLS[d].at.lsb0 /\ ~DECLS[d].at.rev /\ HasTwin(d, FALSE, FALSE)) =>
        LET t == Twin(d, FALSE, FALSE) IN
        Bits(t) = Bits(d) /\ \A j \in DOMAIN LAY[d].fields : Mirrored(LAY[t].fields[j], LAY[d].fields[j], Bits(d))
  /\ (LAY[d].kind = "enum" /\ DECLS[d].at.lsb0 /\ ~DECLS[d].at.rev /\ HasTwin(d, FALSE, FALSE)) =>
        LET t == Twin(d, FALSE, FALSE) IN
        Bits(t) = Bits(d) /\ \A v \in DOMAIN LAY[d].variants : \A j \in DOMAIN LAY[d].variants[v].fields :
                                Mirrored(LAY[t].variants[v].fields[j], LAY[d].variants[v].fields[j], Bits(d))
Step_C03 ==
  (DECLS[d].at.rev /\ HasTwin(d, FALSE, DECLS[d].at.lsb0)) =>
    LET t == Twin(d, FALSE, DECLS[d].at.lsb0)
        m0 == [mem EXCEPT !.b = FlipSet(@, Bytes(d))]
        p == Post(last'.op, t, m0, last'.a)
    IN  reply' = p.r /\ mem' = [p.m EXCEPT !.b = FlipSet(@, Bytes(d))]

(* C04  truncation: only the low bits of every leaf matter *)
RECURSIVE Cut(_, _)
Cut(nd, x) == CASE nd.t = "L" -> x \cap Bits0(nd.n)
                [] nd.t = "P" -> IF nd.carries /\ x[1] = nd.catch THEN <<x[1], x[2] \cap Bits0(nd.n)>> ELSE x
                [] nd.t = "A" -> [i \in DOMAIN nd.els |-> Cut(nd.els[i], x[i])]
                [] nd.t = "S" -> [i \in DOMAIN nd.fs |-> Cut(nd.fs[i].nd, x[i])]
                [] nd.t = "E" -> <<x[1], [i \in DOMAIN nd.vs[x[1]].fs |-> Cut(nd.vs[x[1]].fs[i].nd, x[2][i])]>>
Inv_C04 == TRUE
Step_C04 ==
  /\ last'.op = "enc" => mem'.b = Enc(NODE[d], Cut(NODE[d], last'.a.x))
  /\ last'.op = "write" => LET F == FieldRef(NODE[d], last'.a.v, last'.a.f) IN
        /\ mem'.b = (mem.b \ F.own) \cup Enc(F.nd, Cut(F.nd, last'.a.x))
        /\ F.nd.t = "L" /\ F.nd.k \in {"u", "i"} =>
              Dec(F.nd, mem'.b) \cap Bits0(F.nd.n) = last'.a.x \cap Bits0(F.nd.n)
  /\ (last'.op = "rt" /\ LAY[d].kind = "struct" /\ \A j \in DOMAIN NODE[d].fs : NODE[d].fs[j].wr) => reply'.v = Trunc(NODE[d], last'.a.x)

(* C05  writes are isolated, readable and commute *)
Inv_C05 == (mem.b = {} \/ mem.b = Bits0(8 * mem.n) \/ DEEP) =>
  \A r, s \in WRefs : LET F == FieldRef(NODE[d], r[1], r[2]) G == FieldRef(NODE[d], s[1], s[2]) IN
     (F.own \cap G.own = {}) => \A x \in VALS[d].per[r] : \A y \in VALS[d].per[s] :
        WriteTo(F, x, WriteTo(G, y, mem.b)) = WriteTo(G, y, WriteTo(F, x, mem.b))
Step_C05 ==
  last'.op \in {"write", "ws", "vw"} =>
    LET F == FieldRef(NODE[d], last'.a.v, last'.a.f) IN
    /\ mem'.n = mem.n
    /\ reply'.k = "ok" => /\ mem'.b \ F.own = mem.b \ F.own
                          /\ Dec(F.nd, mem'.b) = Trunc(F.nd, last'.a.x)
    /\ reply'.k # "ok" => mem' = mem

(* C06  every way of reading gives the same, and depends on nothing but the field's own bits *)
FieldIn(v, r) == IF r[1] = 0 THEN v[r[2]] ELSE v[2][r[2]]
Inv_C06 == mem.n >= Bytes(d) =>
  LET whole == Dec(NODE[d], mem.b) IN
  \A r \in Refs : LET F == FieldRef(NODE[d], r[1], r[2]) one == Dec(F.nd, mem.b) IN
     /\ one = Dec(F.nd, mem.b \cap F.own)
     /\ one = Dec(F.nd, mem.b \cup (Bits0(8 * mem.n) \ F.own))
     /\ (~F.dflt /\ (r[1] = 0 \/ r[1] = whole[1])) => FieldIn(whole, r) = one
Step_C06 == mem' = mem /\ reply'.k = "ok" /\ last'.op \in {"read", "rs", "vr", "vmr"} =>
              reply'.v = Dec(FieldRef(NODE[d], last'.a.v, last'.a.f).nd, mem.b)

(* C07  two's complement, by arithmetic *)
Inv_C07 == Plain(d) =>
  \A j \in DOMAIN LAY[d].fields : LET l == LAY[d].fields[j] F == NODE[d].fs[j] IN
    l.ty.k = "i" =>
      LET raw == FieldBitsNum(l, mem.b, Bytes(d))
          u == IF l.en = "be" THEN raw ELSE UnLe(raw, l.n, 0)
      IN Signed(Dec(F.nd, mem.b), l.ty.w) = TwosComp(u, l.n)
Step_C07 == mem' = mem

(* C08  the slice functions need exactly the bytes the field reaches into *)
Inv_C08 == \A r \in Refs : LET own == FieldRef(NODE[d], r[1], r[2]).own need == NeedBytes(own) IN
             own \subseteq Bits0(8 * need) /\ (need > 0 => ~(own \subseteq Bits0(8 * (need - 1)))) /\ need <= Bytes(d)
Step_C08 == LET need == NeedBytes(FieldRef(NODE[d], last'.a.v, last'.a.f).own) IN
  /\ reply'.k \in {"ok", "len"}
  /\ (reply'.k = "ok") = (mem.n >= need)
  /\ reply'.k = "len" => reply'.v = <<mem.n, need>> /\ mem' = mem
  /\ last'.op = "rs" => mem' = mem
  /\ (last'.op = "ws" /\ mem.n >= Bytes(d)) => mem' = Post("write", d, mem, last'.a).m

(* C09  checked views *)
Inv_C09 == TRUE
Step_C09 ==
  IF last'.op \in {"ur", "umr", "uw"}
  THEN LET F == FieldRef(NODE[d], last'.a.v, last'.a.f) IN          \* the view promises nothing about the length
       /\ F.own \subseteq Bits0(8 * mem.n) => reply'.k = "ok"
       /\ mem.n < Bytes(d) => Post("vr", d, mem, last'.a).r.k = "len"
       /\ last'.op # "uw" => mem' = mem /\ (reply'.k = "ok" => reply' = Post("rs", d, mem, last'.a).r)
       /\ last'.op = "uw" => mem' = Post("ws", d, mem, last'.a).m
  ELSE
  /\ (reply'.k = "ok") = (mem.n >= Bytes(d))
  /\ reply'.k # "ok" => reply' = Short(mem.n, Bytes(d)) /\ mem' = mem
  /\ reply'.k = "ok" /\ last'.op \in {"vr", "vmr"} => reply'.v = Dec(FieldRef(NODE[d], last'.a.v, last'.a.f).nd, Prefix(mem.b, Bytes(d)))
  /\ last'.op # "vw" => mem' = mem
  /\ mem'.n = mem.n /\ mem'.b \ Bits0(8 * Bytes(d)) = mem.b \ Bits0(8 * Bytes(d))

(* C10  streams *)
Inv_C10 == mem.n = Len(ghost) * Bytes(d)
Step_C10 ==
  /\ last'.op = "fv" => IF mem.n < Bytes(d) THEN reply' = Short(mem.n, Bytes(d)) /\ mem' = mem
                        ELSE reply' = Ok(Head(ghost)) /\ mem'.n = mem.n - Bytes(d)
  /\ last'.op = "fs" => /\ mem' = mem
                        /\ IF mem.n < Bytes(d) THEN reply' = Short(mem.n, Bytes(d)) ELSE reply' = Ok(Head(ghost))

(* C11  ids and dispatch, the id read as a number *)
IdNum(i, b) == LET f == LAY[i].idf u == (BufNum(IF DECLS[i].at.rev THEN FlipSet(b, Bytes(i)) ELSE b, Bytes(i)) \div 2^(8 * Bytes(i) - f.s - f.n)) % 2^f.n
               IN IF f.en = "be" THEN u ELSE UnLe(u, f.n, 0)
WithId(i, k) == {v \in DOMAIN LAY[i].variants : LAY[i].variants[v].id = BitsOf(k)}
Inv_C11 == TRUE
Step_C11 ==
  /\ last'.op = "enc" => LET v == last'.a.x[1] IN
       IdNum(d, mem'.b) = IF LAY[d].variants[v].cap THEN ValOf(last'.a.x[2][1]) % 2^LAY[d].idb ELSE ValOf(LAY[d].variants[v].id)
  /\ last'.op = "dec" => LET k == IdNum(d, mem.b) IN
       /\ reply'.v[1] = IF WithId(d, k) # {} THEN CHOOSE v \in WithId(d, k) : TRUE ELSE LAY[d].catch
       /\ LAY[d].variants[reply'.v[1]].cap => reply'.v[2][1] = BitsOf(k)
  /\ last'.op \in {"rid", "rids"} /\ reply'.k = "ok" => reply'.v = BitsOf(IdNum(d, mem.b)) /\ mem' = mem
  /\ last'.op = "wid" => /\ IdNum(d, mem'.b) = ValOf(last'.a.x \cap Bits0(LAY[d].idb))
                         /\ mem'.b \ Range(NODE[d].idn.pos) = mem.b \ Range(NODE[d].idn.pos)
  /\ last'.op = "id" => reply'.v \cap Bits0(LAY[d].idb) = BitsOf(IdNum(d, Enc(NODE[d], last'.a.x)))

(* C12  ids: explicit or the least natural number that no explicit and no earlier implicit id is *)
IdRule(vs, ids) ==
  \A i \in DOMAIN vs :
     LET taken == {ValOf(vs[j].id) : j \in {j \in DOMAIN vs : ~vs[j].auto}} \cup {ValOf(ids[j]) : j \in {j \in DOMAIN vs : j < i}} IN
     IF vs[i].auto THEN ValOf(ids[i]) \notin taken /\ \A k \in 0..(ValOf(ids[i]) - 1) : k \in taken
     ELSE ids[i] = vs[i].id
Inv_C12 ==
  /\ LAY[d].kind = "enum" =>
       LET ids == [v \in DOMAIN LAY[d].variants |-> LAY[d].variants[v].id] IN
       /\ IdRule(DECLS[d].variants, ids)
       /\ \A v, w \in DOMAIN ids : v # w => ids[v] # ids[w]
       /\ \A v \in DOMAIN ids : ValOf(ids[v]) < 2^LAY[d].idb
Step_C12 == /\ last'.op = "ideq" => (reply'.v = TRUE) = (last'.a.y = IdOf(NODE[d], last'.a.x))
            /\ (last'.op = "id" /\ ~NODE[d].vs[last'.a.x[1]].cap) => reply'.v = LAY[d].variants[last'.a.x[1]].id

(* C13  sizes: the number of different bits the fields own, unless something is filled *)
Owned(fs) == UNION {fs[j].own : j \in DOMAIN fs}
Filled(i) == IF LAY[i].kind = "enum" THEN DECLS[i].at.fill > 0 \/ \E v \in DOMAIN DECLS[i].variants : DECLS[i].variants[v].at.fill > 0 ELSE DECLS[i].at.fill > 0
Inv_C13 ==
  /\ 8 * Bytes(d) >= Bits(d) /\ 8 * (Bytes(d) - 1) < Bits(d)
  /\ (LAY[d].kind = "struct" /\ ~Filled(d)) => Bits(d) = Cardinality(Owned(NODE[d].fs))
  /\ (LAY[d].kind = "struct" /\ Filled(d)) => Bits(d) = 8 * DECLS[d].at.fill
  /\ (LAY[d].kind = "enum" /\ ~Filled(d)) =>
        Bits(d) = SetMax({Cardinality(Owned(NODE[d].vs[v].fs) \cup Range(NODE[d].idn.pos)) : v \in DOMAIN NODE[d].vs})
Step_C13 == /\ last'.op = "sizes" => reply'.v = <<Bits(d), Bytes(d)>>
            /\ last'.op = "enc" => mem'.n = Bytes(d) /\ mem'.b \subseteq Bits0(8 * Bytes(d))

(* C14  the rules, for every declaration of the family (accepted or not) *)
RawRange(f, cur) == IF f.bs >= 0 THEN f.bs..(f.be - 1)
                    ELSE cur..(cur + (IF f.len >= 0 THEN f.len ELSE IF f.am # "-" THEN (IF f.am = "el" THEN f.al * f.ty.n ELSE f.al) ELSE DefaultBits(f)) - 1)
RECURSIVE RawRanges(_, _, _)
RawRanges(fs, i, cur) == IF i > Len(fs) THEN <<>>
                         ELSE LET q == RawRange(fs[i], cur) IN
                              <<q>> \o RawRanges(fs, i + 1, IF fs[i].res = "red" \/ q = {} THEN cur ELSE SetMax(q) + 1)
Breaks(i) ==
  LET fs == DECLS[i].fields
      rs == RawRanges(fs, 1, 0)
      bits == Sum([j \in DOMAIN fs |-> IF fs[j].res = "red" THEN 0 ELSE Cardinality(rs[j]) - fs[j].ov])
      at == DECLS[i].at IN
  \/ fs = <<>>
  \/ \E j, k \in DOMAIN fs : j # k /\ rs[j] \cap rs[k] # {} /\ fs[j].ov = 0 /\ fs[k].ov = 0 /\ fs[j].res # "red" /\ fs[k].res # "red"
  \/ \E j \in DOMAIN fs : fs[j].ty.k \in {"u", "i"} /\ Cardinality(rs[j]) > fs[j].ty.w
  \/ \E j \in DOMAIN fs : fs[j].ty.k = "f" /\ Cardinality(rs[j]) # fs[j].ty.w
  \/ \E j \in DOMAIN fs : fs[j].bs >= 0 /\ fs[j].len >= 0 /\ fs[j].be - fs[j].bs # fs[j].len
  \/ \E j \in DOMAIN fs : fs[j].cap \/ fs[j].bad # "-"
  \/ \E j \in DOMAIN fs : fs[j].ty.k = "a" /\ fs[j].am # "bl" /\ (Cardinality(rs[j]) % fs[j].ty.n # 0 \/ (fs[j].am = "el" /\ Cardinality(rs[j]) # fs[j].al * fs[j].ty.n))
  \/ \E j \in DOMAIN fs : fs[j].ty.k = "a" /\ fs[j].am # "bl" /\ fs[j].ty.of.k = "u" /\ Cardinality(rs[j]) > fs[j].ty.n * fs[j].ty.of.w
  \/ \E j \in DOMAIN fs : fs[j].ty.k = "a" /\ fs[j].am = "bl" /\ ~(fs[j].ty.of.w * (fs[j].ty.n - 1) < fs[j].al /\ fs[j].al <= fs[j].ty.of.w * fs[j].ty.n)
  \/ at.enf = "full" /\ bits % 8 # 0
  \/ at.enf = "bits" /\ bits # at.enfn
  \/ at.fill > 0 /\ 8 * at.fill < bits
  \/ DECLS[i].bad # "-"
VerdictsAgree == \A i \in DOMAIN DECLS : DECLS[i].kind = "struct" => LAY[i].ok = ~Breaks(i)
ASSUME PROP = "C14" => VerdictsAgree
Inv_C14 ==          \* what acceptance promises
  LAY[d].kind = "struct" =>
    LET fs == NODE[d].fs IN
    /\ Owned(fs) \subseteq Bits0(8 * Bytes(d))
    /\ \A j \in DOMAIN fs : Cardinality(fs[j].own) = LAY[d].fields[j].n
    /\ \A j, k \in DOMAIN fs : (j # k /\ ~Overlappable(DECLS[d].fields[j]) /\ ~Overlappable(DECLS[d].fields[k])) => fs[j].own \cap fs[k].own = {}
Step_C14 == TRUE

(* C15  special fields *)
Inv_C15 == TRUE
Step_C15 == LAY[d].kind = "struct" =>
  LET fs == NODE[d].fs written == UNION {fs[j].own : j \in {j \in DOMAIN fs : fs[j].wr}} IN
  /\ last'.op = "enc" => mem'.b \subseteq written
  /\ last'.op = "dec" => \A j \in DOMAIN fs : reply'.v[j] = IF fs[j].dflt THEN DefaultOf(fs[j].nd) ELSE Dec(fs[j].nd, mem.b \cap fs[j].own)
  /\ last'.op = "read" => reply'.v = Dec(fs[last'.a.f].nd, mem.b)
  /\ last'.op = "write" => Dec(fs[last'.a.f].nd, mem'.b) = Trunc(fs[last'.a.f].nd, last'.a.x)

(* C16  nesting: the inner declaration on the bits of the field's window *)
Inner(l, b) == {j - 1 : j \in {j \in DOMAIN l.win : l.win[j] \in b}}
Outer(l, b) == {l.win[p + 1] : p \in {p \in b : p < l.n}}
NestedFields(i) == IF LAY[i].kind = "struct" THEN {j \in DOMAIN LAY[i].fields : LAY[i].fields[j].ty.k = "s"} ELSE {}
Inv_C16 == \A j \in NestedFields(d) : LET l == LAY[d].fields[j] F == NODE[d].fs[j] IN
             Dec(F.nd, mem.b) = Dec(NODE[l.ty.ref], Inner(l, mem.b))
Step_C16 ==
  /\ (last'.op = "write" /\ last'.a.f \in NestedFields(d)) => LET l == LAY[d].fields[last'.a.f] IN
        mem'.b = (mem.b \ Range(l.win)) \cup Outer(l, Enc(NODE[l.ty.ref], last'.a.x))
  /\ (last'.op = "enc" /\ LAY[d].kind = "struct") => \A j \in NestedFields(d) : LET l == LAY[d].fields[j] IN
        l.wr => Inner(l, mem'.b) = Inner(l, Outer(l, Enc(NODE[l.ty.ref], last'.a.x[j])))

(* C17  arrays: the elements one after the other, by arithmetic, and independent of each other *)
ArrayFields(i) == IF LAY[i].kind = "struct" THEN {j \in DOMAIN LAY[i].fields : LAY[i].fields[j].ty.k = "a"} ELSE {}
Inv_C17 == \A j \in ArrayFields(d) : LET nd == NODE[d].fs[j].nd IN
   \A a, b \in DOMAIN nd.els : a # b => Range(nd.els[a].pos) \cap Range(nd.els[b].pos) = {}
Step_C17 == /\ Step_C02
            /\ last'.op = "write" => LET nd == NODE[d].fs[last'.a.f].nd IN
                 nd.t = "A" => \A e \in DOMAIN nd.els : Dec(nd.els[e], mem'.b) = TruncLeaf(nd.els[e].k, nd.els[e].w, nd.els[e].n, last'.a.x[e])

(* C18  hex text *)
Upper(c) == IF c \in 97..102 THEN c - 32 ELSE c
Inv_C18 == \A u \in BOOLEAN : BitsFromHex(HexOf(mem.b, mem.n, u), mem.n) = mem.b
TextStep ==
  LET t == last'.a.y n == 2 * Bytes(d) IN
  /\ last'.op \in {"hexu", "hexl"} =>
       /\ Len(reply'.v) = n /\ \A j \in 1..n : reply'.v[j] \in IF last'.op = "hexu" THEN (48..57) \cup (65..70) ELSE (48..57) \cup (97..102)
       /\ Dec(NODE[d], BitsFromHex(reply'.v, Bytes(d))) = Dec(NODE[d], Enc(NODE[d], last'.a.x))
  /\ last'.op \in {"fh", "fhs"} =>
       IF Len(t) < n THEN reply' = Short(Len(t), n)
       ELSE IF \A j \in 1..n : IsHex(t[j]) THEN reply' = Ok(Dec(NODE[d], BitsFromHex([j \in DOMAIN t |-> Upper(t[j])], Bytes(d))))
       ELSE /\ reply'.k = "hex" /\ reply'.v[1] = t[reply'.v[2] + 1] /\ ~IsHex(reply'.v[1])
            /\ \A j \in 1..reply'.v[2] : IsHex(t[j])
Step_C18 ==
  /\ last'.op = "hsize" => reply'.v = 2 * Bytes(d)
  /\ TextStep

(* C19  primitive enums *)
Inv_C19 == LAY[d].kind = "prim" =>
  LET plain == {v \in DOMAIN NODE[d].ids : ~(NODE[d].carries /\ v = NODE[d].catch)} IN
  /\ IdRule(DECLS[d].variants, NODE[d].ids)
  /\ \A v, w \in plain : v # w => NODE[d].ids[v] # NODE[d].ids[w]
Step_C19 ==
  /\ last'.op = "fp" => LET hit == {v \in DOMAIN NODE[d].ids : NODE[d].ids[v] = last'.a.y} IN
       /\ NODE[d].carries => PrimBits(NODE[d], reply'.v) = last'.a.y
       /\ (hit # {} /\ ~(NODE[d].carries /\ NODE[d].catch \in hit)) => {reply'.v[1]} = hit
       /\ hit = {} => reply'.v[1] = NODE[d].catch
  /\ last'.op = "ip" => (NODE[d].carries /\ last'.a.x[1] = NODE[d].catch) \/ PrimVal(NODE[d], reply'.v)[1] = last'.a.x[1]

(* C20  every call answers *)
RECURSIVE SettledFs(_)
SettledFs(nd) == CASE nd.t = "S" -> \A j \in DOMAIN nd.fs : (nd.fs[j].wr \/ nd.fs[j].dflt) /\ SettledFs(nd.fs[j].nd)
                   [] nd.t = "A" -> \A j \in DOMAIN nd.els : SettledFs(nd.els[j])
                   [] nd.t = "E" -> \A v \in DOMAIN nd.vs : \A j \in DOMAIN nd.vs[v].fs : (nd.vs[v].fs[j].wr \/ nd.vs[v].fs[j].dflt) /\ SettledFs(nd.vs[v].fs[j].nd)
                   [] OTHER -> TRUE
Inv_C20 == (mem.n >= Bytes(d) /\ SettledFs(NODE[d])) =>
   LET x == Dec(NODE[d], mem.b) IN Dec(NODE[d], Enc(NODE[d], x)) = x
Step_C20 == reply'.k \in {"ok", "len"}

(* C21  histories: what no call of the history has written keeps its value *)
Inv_C21 == (LAY[d].kind = "struct") => \A r \in Refs : Dec(FieldRef(NODE[d], r[1], r[2]).nd, mem.b) = ghost[r]
Step_C21 == last'.op \in {"read", "rs", "vr", "dec", "fs", "rid"} => mem' = mem

(* C22  configurations: a function exists from some set of features on, whatever else is there; without dyn_fns  *)
(* nothing takes a slice, and without features nothing can fail                                                *)
Configs == SUBSET {"std", "dyn", "hex"}
Inv_C22 == mem.b = {} => \A op \in Ops \ ConfigOps :
  /\ \A c, e \in Configs : (c \subseteq e /\ Offered(op, c)) => Offered(op, e)
  /\ \A c \in Configs : Offered(op, c) = Offered(op, c \ {"std"})
  /\ Offered(op, {"std", "dyn", "hex"})
  /\ Offered(op, {}) => Failures(op) = {}
  /\ Offered(op, {"hex"}) => Failures(op) \subseteq {"hex"}
  /\ Offered(op, {"dyn"}) => "hex" \notin Failures(op)
Step_C22 ==
  /\ last'.op \notin ConfigOps => reply'.k \in {"ok"} \cup Failures(last'.op) /\ (mem.n < Bytes(d) => ~Offered(last'.op, {"std", "hex"}))
  /\ last'.op = "has" => reply'.v = (last'.a.x \in Ops)          \* this model has every feature
  /\ last'.op = "name" => reply'.v = TRUE
  /\ last'.op \in ConfigOps \cup {"ur", "umr", "vr", "vmr", "rs", "read", "dec", "redec", "chk", "fs", "rid", "rids"} => mem' = mem

StepOf == CASE PROP = "C01" -> Step_C01 [] PROP = "C02" -> Step_C02 [] PROP = "C03" -> Step_C03 [] PROP = "C04" -> Step_C04 [] PROP = "C05" -> Step_C05
            [] PROP = "C06" -> Step_C06 [] PROP = "C07" -> Step_C07 [] PROP = "C08" -> Step_C08 [] PROP = "C09" -> Step_C09 [] PROP = "C10" -> Step_C10
            [] PROP = "C11" -> Step_C11 [] PROP = "C12" -> Step_C12 [] PROP = "C13" -> Step_C13 [] PROP = "C14" -> Step_C14 [] PROP = "C15" -> Step_C15
            [] PROP = "C16" -> Step_C16 [] PROP = "C17" -> Step_C17 [] PROP = "C18" -> Step_C18 [] PROP = "C19" -> Step_C19 [] PROP = "C20" -> Step_C20
            [] PROP = "C22" -> Step_C22 [] OTHER -> Step_C21
InvOf == CASE PROP = "C03" -> Inv_C03 [] PROP = "C05" -> Inv_C05 [] PROP = "C06" -> Inv_C06 [] PROP = "C07" -> Inv_C07 [] PROP = "C08" -> Inv_C08
           [] PROP = "C10" -> Inv_C10 [] PROP = "C12" -> Inv_C12 [] PROP = "C13" -> Inv_C13 [] PROP = "C14" -> Inv_C14 [] PROP = "C16" -> Inv_C16
           [] PROP = "C17" -> Inv_C17 [] PROP = "C18" -> Inv_C18 [] PROP = "C19" -> Inv_C19 [] PROP = "C20" -> Inv_C20 [] PROP = "C21" -> Inv_C21 [] PROP = "C22" -> Inv_C22 [] OTHER -> TRUE
TypeOK == mem.n \in Nat /\ mem.b \subseteq Bits0(8 * mem.n)
Steps == [][StepOf]_allvars
=============================================================================
