--------------------------- MODULE BondrewdLayout ---------------------------
(***************************************************************************)
(* The declaration language of bondrewd: what a #[derive(Bitfields)] or    *)
(* #[derive(BitfieldEnum)] declaration MEANS.                              *)
(*                                                                         *)
(* A declaration is the record the programmer wrote (attributes as given,  *)
(* nothing resolved).  Resolve maps it either to a rejection with the rule *)
(* it breaks or to a layout: the exact bit range every field owns, sizes,  *)
(* ids, and how each field takes part in encode and decode.                *)
(*                                                                         *)
(* Bit positions number the bits of the byte buffer: position p is bit     *)
(* 7-(p%8) (counted from the least significant) of byte p\div 8, so 0 is   *)
(* the most significant bit of byte 0.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

\* DECLS, the sequence of declarations (records, see below), is read from the file that the environment names

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE SumTo(_, _)
SumTo(f, i) == IF i = 0 THEN 0 ELSE f[i] + SumTo(f, i - 1)
Sum(f) == SumTo(f, Len(f))
RECURSIVE Concat(_, _)
Concat(ss, i) == IF i > Len(ss) THEN <<>> ELSE ss[i] \o Concat(ss, i + 1)
Range(s) == {s[i] : i \in DOMAIN s}
SetMax(S) == CHOOSE x \in S : \A y \in S : y <= x
(* the set of 1-bits of a (small) natural number and back *)
BitsOf(n) == {i \in 0..30 : (n \div 2^i) % 2 = 1}
RECURSIVE ValOf(_)
ValOf(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN 2^x + ValOf(S \ {x})
BitLen(S) == IF S = {} THEN 0 ELSE SetMax(S) + 1

(***************************************************************************)
(* Field types.  ty.k: "u" unsigned, "i" signed, "f" float, "c" char,      *)
(* "b" bool, "e" primitive enum (ref), "s" nested bitfield (ref),          *)
(* "a" array of ty.n elements ty.of.                                       *)
(***************************************************************************)
NaturalBits(ty) == CASE ty.k \in {"u", "i", "f"} -> ty.w
                     [] ty.k = "c" -> 32
                     [] ty.k = "b" -> 1
                     [] OTHER -> 0          \* nested types have no inherent size
IsNumberish(ty) == ty.k \in {"u", "i", "f", "c", "e"}
ElemTy(ty) == IF ty.k = "a" THEN ty.of ELSE ty

(***************************************************************************)
(* A field as declared: ty, len (bit/byte length in bits, -1 if absent),   *)
(* bs/be (bits = "bs..be", -1 if absent), en ("le","be","ne","-"),         *)
(* am ("-","el","bl" element/block length attribute) with al bits,         *)
(* res ("-","reserve","ro","red"), ov (overlapping_bits, 0 if absent),     *)
(* cap (capture_id), prim (enum_primitive width or 0), ss (struct_size     *)
(* bytes or -1), bad (unknown / malformed attribute present).              *)
(***************************************************************************)
Rejected(why) == [ok |-> FALSE, why |-> why]

(* the size of a field of this type when nothing is said about its length; 0 if it must be said *)
DefaultBits(f) ==
  LET e == ElemTy(f.ty)
      one == IF f.ss >= 0 THEN 8 * f.ss ELSE IF f.prim > 0 THEN f.prim ELSE NaturalBits(e)
  IN  IF f.ty.k = "a" THEN f.ty.n * one ELSE one

(* bits of one element as far as a block array is concerned *)
BlockUnit(f, n) ==
  LET e == ElemTy(f.ty) IN
  IF f.ss >= 0 THEN 8 * f.ss ELSE IF f.prim > 0 THEN f.prim
  ELSE IF e.k = "b" THEN 8 ELSE NaturalBits(e)

(* mode of an array field: equal elements or a block *)
ArrayMode(f) == IF f.ty.k # "a" THEN "one" ELSE IF f.am = "bl" THEN "bl" ELSE "el"

TooWide(f, e, n) == \/ e.k \in {"u", "i"} /\ n > e.w
                    \/ e.k = "c" /\ n > 32
                    \/ e.k = "e" /\ n > f.prim
BadFloat(e, n) == e.k = "f" /\ n # e.w

(* range of field f whose predecessor ends at bit cur, or a rejection *)
FieldRange(f, cur) ==
  LET given == f.bs >= 0 \/ f.len >= 0
      gs    == IF f.bs >= 0 THEN f.bs ELSE cur
      gn    == IF f.bs >= 0 THEN f.be - f.bs ELSE f.len
      mode  == ArrayMode(f)
      n     == IF mode = "one" THEN (IF given THEN gn ELSE DefaultBits(f))
               ELSE IF f.am = "el" THEN (IF given THEN gn ELSE f.al * f.ty.n)
               ELSE IF f.am = "bl" THEN (IF given THEN gn ELSE f.al)
               ELSE (IF given THEN gn ELSE DefaultBits(f))
      unit  == BlockUnit(f, n)
      en    == IF mode = "el" /\ f.ty.n > 0 THEN n \div f.ty.n ELSE n
      e     == ElemTy(f.ty)
  IN
  IF f.bad # "-" THEN Rejected("attribute")
  ELSE IF f.bs >= 0 /\ f.len >= 0 /\ f.be - f.bs # f.len THEN Rejected("length-contradicts-bits")
  ELSE IF n <= 0 THEN Rejected("no-length")
  ELSE IF mode = "el" /\ f.am = "el" /\ n # f.al * f.ty.n THEN Rejected("array-bits")
  ELSE IF mode = "el" /\ f.am = "-" /\ n % f.ty.n # 0 THEN Rejected("array-bits")
  ELSE IF mode = "bl" /\ n # f.al THEN Rejected("array-bits")
  ELSE IF mode = "bl" /\ unit = 0 THEN Rejected("no-length")
  ELSE IF mode = "bl" /\ CeilDiv(n, unit) # f.ty.n THEN Rejected("array-bits")
  ELSE IF BadFloat(e, IF mode = "bl" THEN (IF n % unit = 0 THEN unit ELSE n % unit) ELSE en) THEN Rejected("float-size")
  ELSE IF mode # "bl" /\ TooWide(f, e, en) THEN Rejected("too-wide")
  ELSE [ok |-> TRUE, why |-> "", s |-> gs, n |-> n, mode |-> mode, unit |-> unit]

Endian(f, default) ==
  IF f.en \in {"le", "be"} THEN f.en
  ELSE IF default \in {"le", "be"} THEN default ELSE "le"

Overlappable(f) == f.ov > 0 \/ f.res = "red"
Counted(f, n) == IF f.res = "red" THEN 0 ELSE n - f.ov

(***************************************************************************)
(* Sequential layout of fields starting at bit cur0.  The cursor is the    *)
(* end of the last field that is not redundant.                            *)
(***************************************************************************)
RECURSIVE Place(_, _, _, _)
Place(fs, i, cur, acc) ==
  IF i > Len(fs) THEN [ok |-> TRUE, why |-> "", rs |-> acc]
  ELSE LET r == FieldRange(fs[i], cur) IN
       IF ~r.ok THEN r
       ELSE Place(fs, i + 1, IF fs[i].res = "red" THEN cur ELSE r.s + r.n, Append(acc, r))

Clash(fs, rs) ==
  \E i, j \in DOMAIN rs :
     /\ i < j
     /\ ~Overlappable(fs[i]) /\ ~Overlappable(fs[j])
     /\ rs[i].s < rs[j].s + rs[j].n /\ rs[j].s < rs[i].s + rs[i].n

(* the byte flip of `reverse`, on absolute positions *)
Flip(rev, bytes, p) == IF rev THEN 8 * (bytes - 1 - p \div 8) + (p % 8) ELSE p

(* a resolved field: everything the codec needs; win[j] is the buffer position of stream bit j-1.
   read_from = "lsb0" mirrors the fields within the bits base..total-1 *)
Field(f, r, at, base, total) ==
  LET start == IF at.lsb0 THEN base + total - (r.s + r.n) ELSE r.s
      bytes == CeilDiv(total, 8) IN
  [ty |-> f.ty, s |-> start, n |-> r.n, mode |-> r.mode, unit |-> r.unit, en |-> Endian(f, at.en),
   wr |-> f.res = "-", dflt |-> f.res = "reserve",
   win |-> TLCEval([j \in 1..r.n |-> Flip(at.rev, bytes, start + j - 1)])]

Enforced(at, bits) ==
  CASE at.enf = "full" -> bits % 8 = 0
    [] at.enf = "bits" -> bits = at.enfn
    [] OTHER -> TRUE

(***************************************************************************)
(* Body resolution, shared by structs (base 0) and enum variants (base =   *)
(* id bits).  Result: rs (raw ranges), bits before fill and after fill.    *)
(***************************************************************************)
Body(fs, at, base) ==
  LET p == Place(fs, 1, base, <<>>) IN
  IF ~p.ok THEN p
  ELSE IF Clash(fs, p.rs) THEN Rejected("overlap")
  ELSE IF \E i \in DOMAIN fs : base > 0 /\ p.rs[i].s < base /\ ~Overlappable(fs[i]) THEN Rejected("overlap")
  ELSE IF \E i \in DOMAIN fs : fs[i].ov > p.rs[i].n THEN Rejected("overlap-size")
  ELSE LET bits == base + Sum([i \in DOMAIN fs |-> Counted(fs[i], p.rs[i].n)])
       IN  IF ~Enforced(at, bits) THEN Rejected("enforce")
           ELSE IF at.fill > 0 /\ 8 * at.fill < bits THEN Rejected("fill")
           ELSE [ok |-> TRUE, why |-> "", rs |-> p.rs, bits |-> bits,
                 total |-> IF at.fill > 0 THEN 8 * at.fill ELSE bits]

ResolveStruct(d) ==
  IF d.bad # "-" THEN Rejected("attribute")
  ELSE IF Len(d.fields) = 0 THEN Rejected("no-fields")
  ELSE IF \E i \in DOMAIN d.fields : d.fields[i].cap THEN Rejected("capture")
  ELSE LET b == Body(d.fields, d.at, 0) IN
       IF ~b.ok THEN b
       ELSE [ok |-> TRUE, why |-> "", kind |-> "struct", bits |-> b.total, bytes |-> CeilDiv(b.total, 8),
             rev |-> d.at.rev,
             fields |-> TLCEval([i \in DOMAIN d.fields |->
                          Field(d.fields[i], b.rs[i], d.at, 0, b.total)])]

(***************************************************************************)
(* Variant / primitive ids: explicit ones are kept, the others take the    *)
(* lowest value not used so far, in declaration order.  Ids are bit sets.  *)
(***************************************************************************)
Explicit(vs) == [i \in DOMAIN vs |-> ~vs[i].auto]
RECURSIVE LowestUnused(_, _)
LowestUnused(used, g) == IF BitsOf(g) \in used THEN LowestUnused(used, g + 1) ELSE g
RECURSIVE AssignIds(_, _, _, _)
AssignIds(vs, i, used, acc) ==
  IF i > Len(vs) THEN acc
  ELSE IF ~vs[i].auto THEN AssignIds(vs, i + 1, used, Append(acc, vs[i].id))
  ELSE LET g == BitsOf(LowestUnused(used, 0)) IN AssignIds(vs, i + 1, used \cup {g}, Append(acc, g))
Ids(vs) == AssignIds(vs, 1, {vs[i].id : i \in {j \in DOMAIN vs : ~vs[j].auto}}, <<>>)
DupIds(vs) == \E i, j \in DOMAIN vs : i < j /\ ~vs[i].auto /\ ~vs[j].auto /\ vs[i].id = vs[j].id
CatchAll(vs) == IF \E i \in DOMAIN vs : vs[i].inv THEN CHOOSE i \in DOMAIN vs : vs[i].inv ELSE Len(vs)

IdWidth(d) == IF d.idb >= 0 THEN d.idb
              ELSE IF d.payload >= 0 /\ d.total >= 0 THEN d.total - d.payload ELSE -1
IdTyW(n) == IF n <= 8 THEN 8 ELSE IF n <= 16 THEN 16 ELSE IF n <= 32 THEN 32 ELSE IF n <= 64 THEN 64 ELSE 128

(* a variant starts from the attributes of the enum; its own add to or replace them (the enum's
   enforce_bits / enforce_bytes is not passed on: for an enum it names the total, d.total) *)
Merge(at, v) ==
  [en |-> IF v.en # "-" THEN v.en ELSE at.en, lsb0 |-> at.lsb0 \/ v.lsb0, rev |-> at.rev \/ v.rev,
   fill |-> IF v.fill > 0 THEN v.fill ELSE at.fill, enf |-> IF v.enf # "none" THEN v.enf ELSE at.enf, enfn |-> v.enfn]

Captures(v) == Len(v.fields) > 0 /\ v.fields[1].cap
BadCapture(v, w) == \/ \E i \in DOMAIN v.fields : i > 1 /\ v.fields[i].cap
                    \/ Captures(v) /\ (v.fields[1].ty.k # "u" \/ v.fields[1].ty.w # IdTyW(w))
Rest(v) == IF Captures(v) THEN Tail(v.fields) ELSE v.fields

ResolveEnum(d) ==
  LET w == IdWidth(d) IN
  IF d.bad # "-" \/ \E i \in DOMAIN d.variants : d.variants[i].bad # "-" THEN Rejected("attribute")
  ELSE IF Len(d.variants) = 0 THEN Rejected("no-variants")
  ELSE IF w < 0 THEN Rejected("no-id-size")
  ELSE IF w > 128 THEN Rejected("id-size")
  ELSE IF \E i \in DOMAIN d.variants : BadCapture(d.variants[i], w) THEN Rejected("capture")
  ELSE IF DupIds(d.variants) THEN Rejected("duplicate-id")
  ELSE IF Cardinality({i \in DOMAIN d.variants : d.variants[i].inv}) > 1 THEN Rejected("two-invalid")
  ELSE IF d.at.fill > 0 /\ \E i \in DOMAIN d.variants : d.variants[i].at.fill > 0 THEN Rejected("two-fills")
  ELSE
  LET ats == [i \in DOMAIN d.variants |-> Merge(d.at, d.variants[i].at)]
      bodies == [i \in DOMAIN d.variants |-> Body(Rest(d.variants[i]), ats[i], w)] IN
  IF \E i \in DOMAIN bodies : ~bodies[i].ok
  THEN bodies[CHOOSE i \in DOMAIN bodies : ~bodies[i].ok]
  ELSE
  LET ids   == Ids(d.variants)
      total == SetMax({bodies[i].total : i \in DOMAIN bodies})
      bytes == CeilDiv(total, 8)
      iden  == IF d.at.en \in {"le", "be"} THEN d.at.en ELSE "le"
      (* read_from and reverse of the enum apply to the id too; those of a single variant only to its fields *)
      ids0  == IF d.at.lsb0 THEN total - w ELSE 0
      idwin == [j \in 1..w |-> Flip(d.at.rev, bytes, ids0 + j - 1)]
      base  == IF d.at.lsb0 THEN 0 ELSE w
      idfld == [ty |-> [k |-> "u", w |-> IdTyW(w)], s |-> ids0, n |-> w, mode |-> "one", unit |-> 0, en |-> iden,
                wr |-> TRUE, dflt |-> FALSE, win |-> idwin]
      VarFields(i) ==
        LET v == d.variants[i]
            fs == [j \in DOMAIN Rest(v) |-> Field(Rest(v)[j], bodies[i].rs[j], ats[i], base, total)]
        IN IF Captures(v) THEN <<idfld>> \o fs ELSE fs
  IN
  IF \E i \in DOMAIN ids : BitLen(ids[i]) > w THEN Rejected("id-too-small")
  ELSE IF d.payload >= 0 /\ \E i \in DOMAIN bodies : bodies[i].total - w > d.payload THEN Rejected("payload")
  ELSE IF d.total >= 0 /\ \E i \in DOMAIN bodies : bodies[i].total > d.total THEN Rejected("total")
  ELSE IF d.total >= 0 /\ d.payload >= 0 /\ w + d.payload # d.total THEN Rejected("total-sum")
  ELSE [ok |-> TRUE, why |-> "", kind |-> "enum", bits |-> total, bytes |-> bytes, rev |-> FALSE,
        idf |-> idfld, idb |-> w, catch |-> CatchAll(d.variants),
        variants |-> TLCEval([i \in DOMAIN d.variants |->
            [id |-> ids[i], cap |-> Captures(d.variants[i]), bits |-> bodies[i].total,
             fields |-> VarFields(i)]])]

(***************************************************************************)
(* Primitive (BitfieldEnum) enums: variants with lit values, at most one   *)
(* invalid marker, and possibly one variant carrying the primitive.        *)
(***************************************************************************)
ResolvePrimEnum(d) ==
  IF DupIds(d.variants) THEN Rejected("duplicate-id")
  ELSE IF Cardinality({i \in DOMAIN d.variants : d.variants[i].inv \/ d.variants[i].prim}) > 1 THEN Rejected("two-invalid")
  ELSE LET c == CatchAll(d.variants)
           pc == {i \in DOMAIN d.variants : d.variants[i].prim}
           catch == IF pc # {} THEN CHOOSE i \in pc : TRUE ELSE c IN
       [ok |-> TRUE, why |-> "", kind |-> "prim", bits |-> 8, bytes |-> 1, rev |-> FALSE,
        catch |-> catch, carries |-> pc # {}, ids |-> Ids(d.variants)]

Resolve(d) == CASE d.kind = "struct" -> ResolveStruct(d)
                [] d.kind = "enum" -> ResolveEnum(d)
                [] OTHER -> ResolvePrimEnum(d)

(* Reading and resolving is done once: TLC keeps the results in registers (an ASSUME is evaluated before
   the initial states, in the order of the modules) *)
ReadDecls(raw) == TLCEval([i \in DOMAIN raw |->
   IF raw[i].kind = "struct" THEN raw[i]
   ELSE [raw[i] EXCEPT !.variants = [v \in DOMAIN @ |-> [@[v] EXCEPT !.id = Range(@)]]]])
ASSUME TLCSet(40, ReadDecls(TLCEval(JsonDeserialize(IOEnv.DECLS))))
DECLS == TLCGet(40)
ASSUME TLCSet(41, TLCEval([i \in DOMAIN DECLS |-> Resolve(DECLS[i])]))
LAY == TLCGet(41)
=============================================================================
