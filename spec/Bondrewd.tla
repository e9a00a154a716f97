------------------------------ MODULE Bondrewd ------------------------------
(***************************************************************************)
(* The API that bondrewd generates, as a state machine.                    *)
(*                                                                         *)
(* State: the declaration in use (d), one byte buffer (mem: n bytes, b the *)
(* positions of its 1-bits) and the reply of the last call.  Every         *)
(* generated function is one action; Post gives its effect as a function   *)
(* of the declaration, the arguments and the buffer, so the same           *)
(* definition drives the exhaustive model (MC), the behaviour generator    *)
(* (Gen) and the validation of recorded executions (Trace).                *)
(***************************************************************************)
EXTENDS BondrewdCodec

VARIABLES d, mem, reply
vars == <<d, mem, reply>>

Ok(v) == [k |-> "ok", v |-> v]
Done == [k |-> "ok", v |-> <<>>]
Panics == [k |-> "panic", v |-> <<>>]
Short(have, need) == [k |-> "len", v |-> <<have, need>>]
Bytes(i) == LAY[i].bytes
Bits(i) == LAY[i].bits

(* number of bytes a slice must have so that every bit of the field is inside it *)
NeedBytes(own) == IF own = {} THEN 0 ELSE SetMax({p \div 8 : p \in own}) + 1

WriteTo(f, x, b) == (b \ f.own) \cup Enc(f.nd, x)
Shift(b, bytes) == {p - 8 * bytes : p \in {q \in b : q >= 8 * bytes}}
Prefix(b, bytes) == b \cap 0..(8 * bytes - 1)

(***************************************************************************)
(* Hex text: character codes.                                              *)
(***************************************************************************)
Nibble(b, i) == LET B(j) == IF 4 * i + j \in b THEN 2^(3 - j) ELSE 0 IN B(0) + B(1) + B(2) + B(3)
Digit(n, upper) == IF n < 10 THEN 48 + n ELSE (IF upper THEN 55 ELSE 87) + n
HexOf(b, bytes, upper) == [i \in 1..(2 * bytes) |-> Digit(Nibble(b, i - 1), upper)]
IsHex(c) == c \in (48..57) \cup (65..70) \cup (97..102)
HexVal(c) == IF c <= 57 THEN c - 48 ELSE IF c <= 70 THEN c - 55 ELSE c - 87
BitsFromHex(t, bytes) ==
  {p \in 0..(8 * bytes - 1) : (HexVal(t[p \div 4 + 1]) \div 2^(3 - (p % 4))) % 2 = 1}
FirstBad(t, bytes) == LET B == {i \in 1..(2 * bytes) : ~IsHex(t[i])} IN
                      IF B = {} THEN 0 ELSE CHOOSE i \in B : \A j \in B : i <= j
FromHexPost(i, t) ==
  LET bytes == Bytes(i) bad == FirstBad(t, bytes) IN
  IF Len(t) < 2 * bytes THEN Short(Len(t), 2 * bytes)
  ELSE IF bad # 0 THEN [k |-> "hex", v |-> <<t[bad], bad - 1>>]
  ELSE Ok(Dec(NODE[i], BitsFromHex(t, bytes)))

(***************************************************************************)
(* Configurations.  The crate's features choose which functions are        *)
(* generated, never what they do: Post does not mention FEATS.  The        *)
(* environment names the configuration in force.                           *)
(***************************************************************************)
FeaturesOf(op) == CASE op \in {"rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "ur", "umr", "uw", "rids", "vsizes"} -> {"dyn"}
                    [] op \in {"hexu", "hexl", "fh", "hsize"} -> {"hex"}
                    [] op \in {"fhs", "fhv"} -> {"dyn", "hex"}
                    [] op = "unsafe" -> {"unsafe"}          \* unsafe code: in no configuration
                    [] OTHER -> {}
Config(name) == CASE name = "min" -> {} [] name = "dyn" -> {"dyn"} [] name = "hex" -> {"hex"} [] name = "all" -> {"dyn", "hex"}
                  [] name = "minstd" -> {"std"} [] name = "dynstd" -> {"std", "dyn"} [] name = "hexstd" -> {"std", "hex"} [] name = "allstd" -> {"std", "dyn", "hex"}
FEATS == Config(IOEnv.FEATS)
Offered(op, feats) == FeaturesOf(op) \subseteq feats
(* the kinds of reply a function can give *)
Failures(op) == CASE op \in {"rs", "ws", "fs", "fv", "chk", "vr", "vmr", "vw", "rids"} -> {"len"}
                  [] op \in {"ur", "umr"} -> {"panic"}
                  [] op = "fh" -> {"hex"}
                  [] op \in {"fhs", "fhv"} -> {"hex", "len"}
                  [] OTHER -> {}
(* names that the crate itself exports; a name with :Error is that type's std::error::Error implementation *)
NameFeatures(x) == CASE x \in {"Bitfields", "BitfieldEnum"} -> {}
                     [] x \in {"BitfieldsDyn", "BitfieldLengthError"} -> {"dyn"}
                     [] x \in {"BitfieldHex", "BitfieldHexError"} -> {"hex"}
                     [] x \in {"BitfieldHexDyn", "BitfieldHexDynError"} -> {"dyn", "hex"}
                     [] x = "BitfieldLengthError:Error" -> {"std", "dyn"}
                     [] x = "BitfieldHexError:Error" -> {"std", "hex"}
                     [] x = "BitfieldHexDynError:Error" -> {"std", "dyn", "hex"}

(***************************************************************************)
(* Post: op name, declaration, buffer, and an argument record              *)
(*   v, f  the field (variant, index)      x  a value     y  more          *)
(* gives [r |-> reply, m |-> buffer afterwards].                           *)
(***************************************************************************)
Same(m, r) == [r |-> r, m |-> m]
Checked(i, m, r) == IF m.n < Bytes(i) THEN Same(m, Short(m.n, Bytes(i))) ELSE r

IdOf(nd, x) == IF nd.vs[x[1]].cap THEN x[2][1] ELSE nd.vs[x[1]].id
IdTrunc(nd, b) == b \cap 0..(nd.idn.n - 1)

Post(op, i, m, a) ==
  LET nd == NODE[i]
      F == FieldRef(nd, a.v, a.f)
  IN
  CASE op = "load" -> [r |-> Done, m |-> a.y]
    \* fixed size array API
    [] op = "read" -> Same(m, Ok(Dec(F.nd, m.b)))
    [] op = "write" -> [r |-> Done, m |-> [m EXCEPT !.b = WriteTo(F, a.x, @)]]
    [] op = "dec" -> Same(m, Ok(Dec(nd, m.b)))
    [] op = "enc" -> [r |-> Done, m |-> [n |-> Bytes(i), b |-> Enc(nd, a.x)]]
    \* slice API
    [] op = "rs" -> Same(m, IF m.n < NeedBytes(F.own) THEN Short(m.n, NeedBytes(F.own)) ELSE Ok(Dec(F.nd, m.b)))
    [] op = "ws" -> IF m.n < NeedBytes(F.own) THEN Same(m, Short(m.n, NeedBytes(F.own)))
                    ELSE [r |-> Done, m |-> [m EXCEPT !.b = WriteTo(F, a.x, @)]]
    [] op = "fs" -> Checked(i, m, Same(m, Ok(Dec(nd, m.b))))
    [] op = "fv" -> Checked(i, m, [r |-> Ok(Dec(nd, m.b)),
                                   m |-> [n |-> m.n - Bytes(i), b |-> Shift(m.b, Bytes(i))]])
    \* checked views
    [] op = "chk" -> Checked(i, m, Same(m, Done))
    [] op = "vr" -> Checked(i, m, Same(m, Ok(Dec(F.nd, m.b))))
    [] op = "vmr" -> Checked(i, m, Same(m, Ok(Dec(F.nd, m.b))))
    [] op = "vw" -> Checked(i, m, [r |-> Done, m |-> [m EXCEPT !.b = WriteTo(F, a.x, @)]])
    \* views made without a check: good for every field whose bytes are there
    [] op \in {"ur", "umr"} -> Same(m, IF m.n < NeedBytes(F.own) THEN Panics ELSE Ok(Dec(F.nd, m.b)))
    [] op = "uw" -> [r |-> Done, m |-> [m EXCEPT !.b = WriteTo(F, a.x, @)]]
    \* variant ids
    [] op = "rid" -> Same(m, Ok(Dec(nd.idn, m.b)))
    [] op = "rids" -> LET own == Range(nd.idn.pos) IN
                      Same(m, IF m.n < NeedBytes(own) THEN Short(m.n, NeedBytes(own)) ELSE Ok(Dec(nd.idn, m.b)))
    [] op = "wid" -> [r |-> Done, m |-> [m EXCEPT !.b = (@ \ Range(nd.idn.pos)) \cup Stored(nd.idn, a.x)]]
    [] op = "id" -> Same(m, Ok(IdOf(nd, a.x)))
    [] op = "ideq" -> Same(m, Ok(IdOf(nd, a.x) = a.y))
    \* round trips (values only, the buffer is not involved)
    [] op = "rt" -> Same(m, Ok(Dec(nd, Enc(nd, a.x))))
    [] op = "redec" -> Same(m, Ok(Dec(nd, Enc(nd, Dec(nd, m.b)))))
    \* hex
    [] op = "hexu" -> Same(m, Ok(HexOf(Enc(nd, a.x), Bytes(i), TRUE)))
    [] op = "hexl" -> Same(m, Ok(HexOf(Enc(nd, a.x), Bytes(i), FALSE)))
    [] op \in {"fh", "fhs", "fhv"} -> Same(m, FromHexPost(i, a.y))
    \* sizes
    [] op = "sizes" -> Same(m, Ok(<<Bits(i), Bytes(i)>>))
    [] op = "hsize" -> Same(m, Ok(2 * Bytes(i)))
    [] op = "vsizes" -> Same(m, Ok(<<Bits(i), Bytes(i)>>))     \* every variant is padded to the largest one
    \* primitive enums
    [] op = "fp" -> Same(m, Ok(PrimVal(nd, a.y)))
    [] op = "ip" -> Same(m, Ok(PrimBits(nd, a.x)))
    \* which functions and names exist in this configuration
    [] op = "has" -> Same(m, Ok(Offered(a.x, FEATS)))
    [] op = "name" -> Same(m, Ok(NameFeatures(a.x) \subseteq FEATS))
    [] op = "peq" -> Same(m, Ok(a.x[1] # nd.catch /\ nd.ids[a.x[1]] = a.y))

(* the sized functions take a whole array: they are only callable when the buffer has the bytes *)
NeedsArray(op) == op \in {"read", "write", "dec", "rid", "wid", "redec"}
Callable(op, i, m, a) == /\ Offered(op, FEATS)
                         /\ NeedsArray(op) => m.n >= Bytes(i)
                         /\ op = "uw" => m.n >= NeedBytes(FieldRef(NODE[i], a.v, a.f).own)      \* else it panics, half way or not

Do(op, a) ==
  /\ Callable(op, d, mem, a)
  /\ LET p == Post(op, d, mem, a) IN reply' = p.r /\ mem' = p.m
  /\ UNCHANGED d

Arg(v, f, x, y) == [v |-> v, f |-> f, x |-> x, y |-> y]
FieldArg(v, f) == Arg(v, f, <<>>, {})

(***************************************************************************)
(* Named actions, one per generated function.                              *)
(***************************************************************************)
Load(m)              == Do("load", Arg(0, 0, <<>>, m))
ReadField(v, f)      == Do("read", FieldArg(v, f))
WriteField(v, f, x)  == Do("write", Arg(v, f, x, {}))
FromBytes            == Do("dec", FieldArg(0, 0))
IntoBytes(x)         == Do("enc", Arg(0, 0, x, {}))
ReadSlice(v, f)      == Do("rs", FieldArg(v, f))
WriteSlice(v, f, x)  == Do("ws", Arg(v, f, x, {}))
FromSlice            == Do("fs", FieldArg(0, 0))
FromVec              == Do("fv", FieldArg(0, 0))
CheckSlice           == Do("chk", FieldArg(0, 0))
ViewRead(v, f)       == Do("vr", FieldArg(v, f))
ViewMutRead(v, f)    == Do("vmr", FieldArg(v, f))
ViewWrite(v, f, x)   == Do("vw", Arg(v, f, x, {}))
UncheckedRead(v, f)  == Do("ur", FieldArg(v, f))
UncheckedMutRead(v, f) == Do("umr", FieldArg(v, f))
UncheckedWrite(v, f, x) == Do("uw", Arg(v, f, x, {}))
ReadVariantId        == Do("rid", FieldArg(0, 0))
ReadSliceVariantId   == Do("rids", FieldArg(0, 0))
WriteVariantId(x)    == Do("wid", Arg(0, 0, x, {}))
=============================================================================
