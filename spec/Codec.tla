------------------------------- MODULE Codec -------------------------------
(* The wire format of speedy: for a schema t, what bytes a value has, and   *)
(* what reading any bytes yields.                                           *)
(*                                                                          *)
(* Schemas (records with a kind k), and the values they describe:           *)
(*  int w            w little endian bytes          bool       0 / 1        *)
(*  nz  w            same, not all zero             char       4 bytes      *)
(*  raw n            n bytes, no byte order         unit       <<>>         *)
(*  varint           8 bytes                        dur        <<8, 4>>     *)
(*  systime          <<8, 4>>, or <<>> for a time before the epoch          *)
(*  date             <<8, 4>>                                               *)
(*  tup ts           one value per element          opt t      <<>> / <<v>> *)
(*  res t e          <<1, v>> / <<0, e>>            arr n t    like seq     *)
(*  seq lt t         sequence; of ints: their bytes, concatenated           *)
(*  str lt           bytes                          regex      bytes        *)
(*  set lt o t       sequence of distinct elements                          *)
(*  map lt o a b     sequence of <<key, value>> with distinct keys          *)
(*  struct fs        one value per field                                    *)
(*  enum tt peek vs  <<variant number, field values>>                       *)
(*  rseq lt t sz al  a borrowed seq                 rstr lt    borrowed str *)
(*  rarr n t sz al   a borrowed array                                       *)
(*  mask n           a number below 2^n, as a byte                          *)
(*  el               an instrumented element: a byte; from 224 on reading it  *)
(*                   is refused, from 240 on it panics; elz has no byte      *)
(*  mark             an instrumented byte that looks at the context: from 224 *)
(*                   on reading it is refused by user code (from 240 on with  *)
(*                   an error that calls itself an end of input), from 208 to *)
(*                   223 writing it is                                        *)
(*  inv t            t in the other byte order                                *)
(*  any              not looked at (recursive types are unrolled so far)    *)
(* A field is [t, doe, skip, pre]; a length encoding lt is [l] with l one of*)
(* u7 u8 u16 u32 u64 varint eof, or "x" with an expression x over the       *)
(* fields read before.                                                      *)
EXTENDS Bytes

\* ------------------------------------------------------------------ schemas
LenWidth(l) == CASE l \in {"u7", "u8"} -> 1 [] l = "u16" -> 2 [] l = "u32" -> 4 [] l = "u64" -> 8

\* expressions over fields: 8 byte numbers, multiplied and divided by small ones
RECURSIVE DivFrom(_, _, _, _, _)
DivFrom(a, d, i, rem, acc) ==
  IF i = 0 THEN [q |-> acc, r |-> rem]
  ELSE LET x == rem * 256 + a[i] IN DivFrom(a, d, i - 1, x % d, <<x \div d>> \o acc)
RECURSIVE MulFrom(_, _, _, _, _)
MulFrom(a, m, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET x == a[i] * m + c IN MulFrom(a, m, i + 1, x \div 256, Append(acc, x % 256))
RECURSIVE Eval8(_, _)
Eval8(x, env) ==
  CASE x.x = "f" -> Extend(env[x.i], 8)
    [] x.x = "n" -> FromInt(x.n, 8)
    [] x.x = "add" -> Add(Eval8(x.a, env), Eval8(x.b, env)).v
    [] x.x = "mul" -> MulFrom(Eval8(x.a, env), x.b.n, 1, 0, <<>>)
    [] x.x = "div" -> DivFrom(Eval8(x.a, env), x.b.n, 8, 0, <<>>).q
    [] x.x = "mod" -> FromInt(DivFrom(Eval8(x.a, env), x.b.n, 8, 0, <<>>).r, 8)
Eval(x, env) == ToInt(Eval8(x, env))

LtMin(lt) == CASE lt.l \in {"eof", "x"} -> 0
               [] lt.l = "varint" -> 1
               [] OTHER -> LenWidth(lt.l)
TagMin(tt) == IF tt = "varint" THEN 1 ELSE LenWidth(tt)

\* The fewest bytes any acceptable input for t has.
RECURSIVE MinDec(_)
FieldMin(f) == IF f.skip \/ f.doe THEN 0 ELSE Len(f.pre) + MinDec(f.t)
FieldsMin(fs) == FoldLeft(LAMBDA s, f : SatAdd(s, FieldMin(f)), 0, fs)
MinDec(t) ==
  CASE t.k \in {"int", "nz"} -> t.w
    [] t.k \in {"bool", "mask", "el", "mark"} -> 1
    [] t.k = "inv" -> MinDec(t.t)
    [] t.k = "char" -> 4
    [] t.k = "raw" -> t.n
    [] t.k \in {"unit", "any", "elz"} -> 0
    [] t.k = "varint" -> 1
    [] t.k \in {"dur", "systime", "date"} -> 12
    [] t.k = "tup" -> FoldLeft(LAMBDA s, u : SatAdd(s, MinDec(u)), 0, t.ts)
    [] t.k \in {"arr", "rarr"} -> SatMul(t.n, MinDec(t.t))
    [] t.k = "opt" -> 1
    [] t.k = "res" -> 1 + Min2(MinDec(t.t), MinDec(t.e))
    [] t.k \in {"seq", "str", "set", "map", "rseq", "rstr"} -> LtMin(t.lt)
    [] t.k = "regex" -> 4
    [] t.k = "struct" -> FieldsMin(t.fs)
    [] t.k = "enum" ->
         LET ms == {FieldsMin(t.vs[i].fs) : i \in 1..Len(t.vs)}
             m == IF ms = {} THEN 0 ELSE CHOOSE x \in ms : \A y \in ms : x <= y
         IN IF t.peek THEN Max2(m, TagMin(t.tt)) ELSE m + TagMin(t.tt)

\* does t never have any byte?
RECURSIVE ZeroWidth(_)
ZeroWidth(t) ==
  CASE t.k = "unit" -> TRUE
    [] t.k \in {"raw"} -> t.n = 0
    [] t.k = "inv" -> ZeroWidth(t.t)
    [] t.k = "tup" -> \A i \in 1..Len(t.ts) : ZeroWidth(t.ts[i])
    [] t.k \in {"arr", "rarr"} -> t.n = 0 \/ ZeroWidth(t.t)
    [] t.k = "struct" -> \A i \in 1..Len(t.fs) :
                           t.fs[i].skip \/ (Len(t.fs[i].pre) = 0 /\ ZeroWidth(t.fs[i].t))
    [] OTHER -> FALSE

\* a run of plain integers: its value is the concatenation of their bytes
Flat(t) == t.k = "int"

\* the value of a defaulted field
RECURSIVE Def(_)
Def(t) ==
  CASE t.k = "int" -> Zeros(t.w)
    [] t.k \in {"bool", "mask", "el", "elz", "mark"} -> 0
    [] t.k = "inv" -> Def(t.t)
    [] t.k = "char" -> Zeros(4)
    [] t.k = "varint" -> Zeros(8)
    [] t.k = "raw" -> Zeros(t.n)
    [] t.k = "dur" -> <<Zeros(8), Zeros(4)>>
    [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> Def(t.ts[i])]
    [] t.k \in {"arr", "rarr"} -> IF Flat(t.t) THEN Zeros(t.n * t.t.w)
                                  ELSE [i \in 1..t.n |-> Def(t.t)]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> Def(t.fs[i].t)]
    [] t.k = "set" -> IF t.o = "ins" THEN <<>> ELSE {}
    [] t.k = "map" -> IF t.o = "ins" THEN <<>> ELSE {}
    [] OTHER -> <<>>

\* the same as the harness reports it
RECURSIVE DefV(_)
DefV(t) ==
  CASE t.k \in {"set", "map"} -> <<>>
    [] t.k = "inv" -> DefV(t.t)
    [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> DefV(t.ts[i])]
    [] t.k \in {"arr", "rarr"} /\ ~Flat(t.t) -> [i \in 1..t.n |-> DefV(t.t)]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> DefV(t.fs[i].t)]
    [] OTHER -> Def(t)

\* ------------------------------------------------------------ value order
\* order of keys, used for sorted collections
RECURSIVE KeyLt(_, _, _)
RECURSIVE SeqLt(_, _, _, _)
SeqLt(tt, a, b, i) ==       \* lexicographic; tt(i) is the schema of element i
  IF i > Len(a) THEN i <= Len(b)
  ELSE IF i > Len(b) THEN FALSE
  ELSE IF a[i] = b[i] THEN SeqLt(tt, a, b, i + 1)
  ELSE KeyLt(tt[IF Len(tt) = 1 THEN 1 ELSE i], a[i], b[i])
ByteT == [k |-> "byte"]
KeyLt(t, a, b) ==
  CASE t.k = "byte" -> a < b
    [] t.k \in {"bool", "el", "mark"} -> a < b
    [] t.k \in {"int", "nz"} -> IF "sg" \in DOMAIN t THEN SLt(a, b) ELSE ULt(a, b)
    [] t.k = "char" -> ULt(a, b)
    [] t.k \in {"str", "raw"} -> SeqLt(<<ByteT>>, a, b, 1)
    [] t.k = "tup" -> Len(t.ts) > 0 /\ SeqLt(t.ts, a, b, 1)
    [] t.k = "opt" -> SeqLt(<<t.t>>, a, b, 1)
    [] t.k \in {"seq", "arr"} /\ ~Flat(t.t) -> SeqLt(<<t.t>>, a, b, 1)
    [] t.k \in {"seq", "arr"} /\ t.t.w = 1 /\ "sg" \notin DOMAIN t.t -> SeqLt(<<ByteT>>, a, b, 1)
    [] OTHER -> TRUE                 \* order not modelled

\* ------------------------------------------------------- normalised values
\* Values as they are compared: unordered collections become sets.  The
\* values the harness reports are sequences in iteration order.
RECURSIVE Norm(_, _)
RECURSIVE HasColl(_)
HasColl(t) ==
  CASE t.k \in {"set", "map"} -> TRUE
    [] t.k = "tup" -> \E i \in 1..Len(t.ts) : HasColl(t.ts[i])
    [] t.k \in {"arr", "opt", "seq", "inv"} -> HasColl(t.t)
    [] t.k = "res" -> HasColl(t.t) \/ HasColl(t.e)
    [] t.k = "struct" -> \E i \in 1..Len(t.fs) : HasColl(t.fs[i].t)
    [] t.k = "enum" -> \E i \in 1..Len(t.vs) : \E j \in 1..Len(t.vs[i].fs) : HasColl(t.vs[i].fs[j].t)
    [] OTHER -> FALSE
\* the entries of a map after inserting es in this order, in order of first insertion
RECURSIVE Dedup(_, _, _)
Dedup(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE LET j == {q \in 1..Len(acc) : acc[q][1] = es[i][1]}
       IN IF j = {} THEN Dedup(es, i + 1, Append(acc, es[i]))
          ELSE Dedup(es, i + 1, [acc EXCEPT ![CHOOSE q \in j : TRUE] = es[i]])
RECURSIVE Distinct(_, _, _)
Distinct(es, i, acc) ==
  IF i > Len(es) THEN acc
  ELSE Distinct(es, i + 1, IF \E q \in 1..Len(acc) : acc[q] = es[i] THEN acc ELSE Append(acc, es[i]))
Entries(t, es) ==           \* es already normalised element-wise
  IF t.k = "set" THEN IF t.o = "ins" THEN Distinct(es, 1, <<>>) ELSE {es[i] : i \in 1..Len(es)}
  ELSE LET d == Dedup(es, 1, <<>>) IN IF t.o = "ins" THEN d ELSE {d[i] : i \in 1..Len(d)}
NormF(fs, v) == [i \in 1..Len(fs) |-> Norm(fs[i].t, v[i])]
Norm(t, v) ==
  IF ~HasColl(t) THEN v
  ELSE CASE t.k = "set" -> Entries(t, [i \in 1..Len(v) |-> Norm(t.t, v[i])])
         [] t.k = "map" -> Entries(t, [i \in 1..Len(v) |-> <<Norm(t.a, v[i][1]), Norm(t.b, v[i][2])>>])
         [] t.k = "inv" -> Norm(t.t, v)
         [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> Norm(t.ts[i], v[i])]
         [] t.k \in {"arr", "opt", "seq"} -> [i \in 1..Len(v) |-> Norm(t.t, v[i])]
         [] t.k = "res" -> <<v[1], Norm(IF v[1] = 1 THEN t.t ELSE t.e, v[2])>>
         [] t.k = "struct" -> NormF(t.fs, v)
         [] t.k = "enum" -> <<v[1], NormF(t.vs[v[1]].fs, v[2])>>

\* Is v (as reported, a sequence) a possible iteration of a collection?
RECURSIVE WellFormed(_, _)
WellFormed(t, v) ==
  IF ~HasColl(t) THEN TRUE
  ELSE CASE t.k = "set" ->
              /\ \A i \in 1..Len(v) : WellFormed(t.t, v[i])
              /\ t.o = "sorted" => \A i \in 2..Len(v) : KeyLt(t.t, v[i-1], v[i])
              /\ \A i, j \in 1..Len(v) : i < j => Norm(t.t, v[i]) # Norm(t.t, v[j])
         [] t.k = "map" ->
              /\ \A i \in 1..Len(v) : WellFormed(t.a, v[i][1]) /\ WellFormed(t.b, v[i][2])
              /\ t.o = "sorted" => \A i \in 2..Len(v) : KeyLt(t.a, v[i-1][1], v[i][1])
              /\ \A i, j \in 1..Len(v) : i < j => Norm(t.a, v[i][1]) # Norm(t.a, v[j][1])
         [] t.k = "inv" -> WellFormed(t.t, v)
         [] t.k = "tup" -> \A i \in 1..Len(t.ts) : WellFormed(t.ts[i], v[i])
         [] t.k \in {"arr", "opt", "seq"} -> \A i \in 1..Len(v) : WellFormed(t.t, v[i])
         [] t.k = "res" -> WellFormed(IF v[1] = 1 THEN t.t ELSE t.e, v[2])
         [] t.k = "struct" -> \A i \in 1..Len(t.fs) : WellFormed(t.fs[i].t, v[i])
         [] t.k = "enum" -> \A i \in 1..Len(t.vs[v[1]].fs) : WellFormed(t.vs[v[1]].fs[i].t, v[2][i])

\* what reading back the value v gives: skipped fields are defaulted
RECURSIVE HasSkip(_)
RECURSIVE Expect(_, _)
HasSkip(t) ==
  CASE t.k = "tup" -> \E i \in 1..Len(t.ts) : HasSkip(t.ts[i])
    [] t.k \in {"arr", "opt", "seq", "set", "rseq", "rarr", "inv"} -> HasSkip(t.t)
    [] t.k = "res" -> HasSkip(t.t) \/ HasSkip(t.e)
    [] t.k = "map" -> HasSkip(t.a) \/ HasSkip(t.b)
    [] t.k = "struct" -> \E i \in 1..Len(t.fs) : t.fs[i].skip \/ HasSkip(t.fs[i].t)
    [] t.k = "enum" -> \E i \in 1..Len(t.vs) : \E j \in 1..Len(t.vs[i].fs) :
                          t.vs[i].fs[j].skip \/ HasSkip(t.vs[i].fs[j].t)
    [] OTHER -> FALSE
ExpectF(fs, v) == [i \in 1..Len(fs) |-> IF fs[i].skip THEN DefV(fs[i].t) ELSE Expect(fs[i].t, v[i])]
Expect(t, v) ==
  IF ~HasSkip(t) THEN v
  ELSE CASE t.k = "inv" -> Expect(t.t, v)
         [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> Expect(t.ts[i], v[i])]
         [] t.k \in {"arr", "opt", "seq", "set", "rseq", "rarr"} -> [i \in 1..Len(v) |-> Expect(t.t, v[i])]
         [] t.k = "map" -> [i \in 1..Len(v) |-> <<Expect(t.a, v[i][1]), Expect(t.b, v[i][2])>>]
         [] t.k = "res" -> <<v[1], Expect(IF v[1] = 1 THEN t.t ELSE t.e, v[2])>>
         [] t.k = "struct" -> ExpectF(t.fs, v)
         [] t.k = "enum" -> <<v[1], ExpectF(t.vs[v[1]].fs, v[2])>>

\* does t contain borrowed parts / parts that read to the end of input
RECURSIVE Has(_, _)
HasFs(fs, p) == \E i \in 1..Len(fs) : (p = "open" /\ fs[i].doe) \/ Has(fs[i].t, p)
HasHere(t, p) == CASE p = "ref" -> t.k \in {"rseq", "rarr", "rstr"}
                   [] p = "open" -> "lt" \in DOMAIN t /\ t.lt.l = "eof"
Has(t, p) ==
  \/ HasHere(t, p)
  \/ CASE t.k = "tup" -> \E i \in 1..Len(t.ts) : Has(t.ts[i], p)
       [] t.k \in {"arr", "opt", "seq", "set", "rseq", "rarr", "inv"} -> Has(t.t, p)
       [] t.k = "res" -> Has(t.t, p) \/ Has(t.e, p)
       [] t.k = "map" -> Has(t.a, p) \/ Has(t.b, p)
       [] t.k = "struct" -> HasFs(t.fs, p)
       [] t.k = "enum" -> \E i \in 1..Len(t.vs) : HasFs(t.vs[i].fs, p)
       [] OTHER -> FALSE

\* Is v a value of t at all (text, characters, non-zero, times)?
RECURSIVE Valid(_, _)
ValidF(fs, v) == \A i \in 1..Len(fs) : Valid(fs[i].t, v[i])
Valid(t, v) ==
  CASE t.k \in {"str", "rstr"} -> Utf8Ok(v)
    [] t.k = "bool" -> v \in {0, 1}
    [] t.k = "char" -> CharOk(v)
    [] t.k = "nz" -> ~AllZero(v)
    [] t.k \in {"dur", "systime"} -> v = <<>> \/ ULt(v[2], <<0, 202, 154, 59>>)
    [] t.k = "tup" -> \A i \in 1..Len(t.ts) : Valid(t.ts[i], v[i])
    [] t.k \in {"arr", "seq", "rseq", "rarr"} -> Flat(t.t) \/ \A i \in 1..Len(v) : Valid(t.t, v[i])
    [] t.k = "inv" -> Valid(t.t, v)
    [] t.k = "mark" -> v < 224
    [] t.k \in {"opt", "set"} -> \A i \in 1..Len(v) : Valid(t.t, v[i])
    [] t.k = "map" -> \A i \in 1..Len(v) : Valid(t.a, v[i][1]) /\ Valid(t.b, v[i][2])
    [] t.k = "res" -> Valid(IF v[1] = 1 THEN t.t ELSE t.e, v[2])
    [] t.k = "struct" -> ValidF(t.fs, v)
    [] t.k = "enum" -> v[1] \in 1..Len(t.vs) /\ ValidF(t.vs[v[1]].fs, v[2])
    [] OTHER -> TRUE

\* ================================================================= encoding
\* [s |-> "ok", b |-> bytes] or [s |-> "err", c |-> possible error classes]
EOk(b) == [s |-> "ok", b |-> b, c |-> {}]
EErr(c) == [s |-> "err", b |-> <<>>, c |-> c]
ECat(x, y) == IF x.s = "ok" /\ y.s = "ok" THEN EOk(x.b \o y.b) ELSE EErr(x.c \cup y.c)

EncInt(b, e) == EOk(InOrder(b, Len(b), e))
EncCount(lt, n, e, env) ==
  CASE lt.l = "u7" -> IF n > 127 THEN EErr({"OutOfRangeLength"}) ELSE EOk(<<n>>)
    [] lt.l = "varint" -> EOk(VarEnc(FromInt(n, 8)))
    [] lt.l = "eof" -> EOk(<<>>)
    [] lt.l = "x" -> IF Eval(lt.x, env) = n THEN EOk(<<>>)
                     ELSE EErr({"LengthIsNotTheSameAsLengthAttribute:" \o (IF "nm" \in DOMAIN lt THEN lt.nm ELSE "")})
    [] OTHER -> IF FitsIn(n, LenWidth(lt.l)) THEN EncInt(FromInt(n, LenWidth(lt.l)), e)
                ELSE EErr({"OutOfRangeLength"})
EncTag(tt, tag, e) ==
  IF tt = "varint" THEN EOk(VarEnc(tag)) ELSE EncInt(SubSeq(tag, 1, LenWidth(tt)), e)

Turned(e) == IF e = "le" THEN "be" ELSE "le"
RECURSIVE Enc(_, _, _, _)
RECURSIVE EncElems(_, _, _, _, _)
EncElems(t, v, e, i, acc) ==
  IF i > Len(v) THEN EOk(acc)
  ELSE LET r == Enc(t, v[i], e, <<>>)
       IN IF r.s = "ok" THEN EncElems(t, v, e, i + 1, acc \o r.b)
          ELSE r
RECURSIVE EncPairs(_, _, _, _, _, _)
EncPairs(a, b, v, e, i, acc) ==
  IF i > Len(v) THEN EOk(acc)
  ELSE LET r == ECat(Enc(a, v[i][1], e, <<>>), Enc(b, v[i][2], e, <<>>))
       IN IF r.s = "ok" THEN EncPairs(a, b, v, e, i + 1, acc \o r.b) ELSE r
RECURSIVE EncFields(_, _, _, _, _)
EncFields(fs, v, e, i, acc) ==
  IF i > Len(fs) THEN acc
  ELSE LET r == IF fs[i].skip THEN EOk(<<>>)
                ELSE ECat(EOk(fs[i].pre), Enc(fs[i].t, v[i], e, SubSeq(v, 1, i - 1)))
       IN EncFields(fs, v, e, i + 1, ECat(acc, r))
RECURSIVE EncTup(_, _, _, _, _)
EncTup(ts, v, e, i, acc) ==
  IF i > Len(ts) THEN acc
  ELSE EncTup(ts, v, e, i + 1, ECat(acc, Enc(ts[i], v[i], e, <<>>)))

EncRun(t, v, e) == IF Flat(t) THEN EOk(InOrder(v, t.w, e)) ELSE EncElems(t, v, e, 1, <<>>)
RunLen(t, v) == IF Flat(t) THEN Len(v) \div t.w ELSE Len(v)

Enc(t, v, e, env) ==
  CASE t.k \in {"int", "nz", "char"} -> EncInt(v, e)
    [] t.k \in {"bool", "mask", "el"} -> EOk(<<v>>)
    [] t.k = "elz" -> EOk(<<>>)
    [] t.k = "mark" -> IF v >= 208 THEN EErr({"User"}) ELSE EOk(<<v>>)
    [] t.k = "inv" -> Enc(t.t, v, Turned(e), env)
    [] t.k = "raw" -> EOk(v)
    [] t.k = "unit" -> EOk(<<>>)
    [] t.k = "any" -> EErr({})
    [] t.k = "varint" -> EOk(VarEnc(v))
    [] t.k \in {"dur", "date"} -> ECat(EncInt(v[1], e), EncInt(v[2], e))
    [] t.k = "systime" -> IF v = <<>> THEN EErr({"InvalidSystemTime"})
                          ELSE ECat(EncInt(v[1], e), EncInt(v[2], e))
    [] t.k = "tup" -> EncTup(t.ts, v, e, 1, EOk(<<>>))
    [] t.k \in {"arr", "rarr"} -> EncRun(t.t, v, e)
    [] t.k = "opt" -> IF v = <<>> THEN EOk(<<0>>) ELSE ECat(EOk(<<1>>), Enc(t.t, v[1], e, env))
    [] t.k = "res" -> ECat(EOk(<<v[1]>>), Enc(IF v[1] = 1 THEN t.t ELSE t.e, v[2], e, <<>>))
    [] t.k \in {"seq", "rseq"} -> ECat(EncCount(t.lt, RunLen(t.t, v), e, env), EncRun(t.t, v, e))
    [] t.k \in {"str", "rstr"} -> ECat(EncCount(t.lt, Len(v), e, env), EOk(v))
    [] t.k = "regex" -> ECat(EncCount([l |-> "u32"], Len(v), e, env), EOk(v))
    [] t.k = "set" -> ECat(EncCount(t.lt, Len(v), e, env), EncElems(t.t, v, e, 1, <<>>))
    [] t.k = "map" -> ECat(EncCount(t.lt, Len(v), e, env), EncPairs(t.a, t.b, v, e, 1, <<>>))
    [] t.k = "struct" -> EncFields(t.fs, v, e, 1, EOk(<<>>))
    [] t.k = "enum" ->
         LET body == EncFields(t.vs[v[1]].fs, v[2], e, 1, EOk(<<>>))
         IN IF t.peek THEN body ELSE ECat(EncTag(t.tt, t.vs[v[1]].tag, e), body)

Encode(t, v, e) == Enc(t, v, e, <<>>)

\* ================================================================= decoding
\* ok:  the value v, the position p behind it, amb: an element cut off by the
\*      end of input was dropped, so that anything from p to the end may have
\*      been consumed; h: how far was looked ahead.
\* err: the input is malformed in one of the ways c, noticed at p, where at
\*      least need more bytes would have been required for a complete value:
\*      if these are not there either, end of input may be reported instead.
\*      (c = {} and need = BIG: the input just ends too early.)
\* any: not determined (which of several faults wins depends on the reader).
ROk(v, p) == [s |-> "ok", v |-> v, p |-> p, amb |-> FALSE, h |-> p, c |-> {}, need |-> 0]
RBad(c, p, need) == [s |-> "err", v |-> <<>>, p |-> p, amb |-> FALSE, h |-> p, c |-> c, need |-> need]
REof(p) == RBad({}, p, BIG)
\* what is dropped or defaulted depends on how far the reader looked ahead
RAmb == [s |-> "any", v |-> <<>>, p |-> 0, amb |-> TRUE, h |-> 0, c |-> {"ambiguous"}, need |-> 0]
\* not modelled
RAny == [RAmb EXCEPT !.c = {}]
MayEof(r, inp) == SatAdd(r.p, r.need) > Len(inp)
PureEof(r) == r.s = "err" /\ r.c = {}
Classes(r, inp) == r.c \cup (IF MayEof(r, inp) THEN {"eof"} ELSE {})
More(r, n) == [r EXCEPT !.need = SatAdd(@, n)]
Overflowing == {"OutOfRangeUsize", "OutOfRangeLength"}

\* cx: [e: byte order, zc: borrowing allowed, al: alignment of offset 0]
RBytes(inp, p, n) == IF SatAdd(p, n) > Len(inp) THEN REof(p) ELSE ROk(Take(inp, p, n), p + n)
RInt(inp, p, w, e) == IF p + w > Len(inp) THEN REof(p)
                      ELSE ROk(InOrder(Take(inp, p, w), w, e), p + w)
RVar(inp, p) == IF p + 1 > Len(inp) THEN REof(p)
                ELSE LET n == VarLead(inp[p + 1])
                     IN IF p + n > Len(inp) THEN REof(p) ELSE ROk(VarDecN(Take(inp, p, n)), p + n)
\* a count, as a TLC integer
RCount(lt, inp, p, e, env) ==
  CASE lt.l = "x" -> ROk(Eval(lt.x, env), p)
    [] lt.l = "varint" -> LET r == RVar(inp, p) IN IF r.s = "ok" THEN [r EXCEPT !.v = ToInt(@)] ELSE r
    [] OTHER -> LET r == RInt(inp, p, LenWidth(lt.l), e)
                IN IF r.s # "ok" THEN r
                   ELSE IF lt.l = "u7" /\ r.v[1] > 127 THEN RBad({"OutOfRangeLength"}, r.p, 0)
                   ELSE [r EXCEPT !.v = ToInt(@)]
RTag(tt, inp, p, e) ==
  IF tt = "varint" THEN RVar(inp, p)
  ELSE LET r == RInt(inp, p, LenWidth(tt), e)
       IN IF r.s = "ok" THEN [r EXCEPT !.v = Extend(@, 8)] ELSE r

\* durations: nanoseconds of a second or more carry over
Billion == <<0, 202, 154, 59>>
One8 == <<1, 0, 0, 0, 0, 0, 0, 0>>
RECURSIVE Carry(_, _, _)
Carry(s, n, ovf) == IF ULt(n, Billion) THEN [s |-> s, n |-> n, ovf |-> ovf]
                    ELSE LET a == Add(s, One8) IN Carry(a.v, Sub(n, Billion).v, ovf \/ a.c = 1)
RTime(k, inp, p, e) ==
  LET a == RInt(inp, p, 8, e) b == RInt(inp, p + 8, 4, e) c == Carry(a.v, b.v, FALSE)
  IN IF p + 12 > Len(inp) THEN REof(p)
     ELSE IF c.ovf \/ (k = "systime" /\ c.s[8] >= 128) THEN RBad({"InvalidSystemTime"}, p + 12, 0)
     ELSE ROk(<<c.s, c.n>>, p + 12)
\* chrono's range of representable instants, in seconds
DateMin == <<0,238,13,115,107,248,255,255>>
DateMax == <<127,107,10,154,119,7,0,0>>
\* is the signed 64-bit number of seconds 59 modulo 60?
Mod60(b) == FoldRight(LAMBDA x, m : (m * 256 + x) % 60, b, 0)
SecMod60(b) == LET m == Mod60(b)        \* 2^64 mod 60 = 16
               IN IF b[8] >= 128 THEN (m + 60 - 16) % 60 ELSE m
RDate(inp, p, e) ==
  LET a == RInt(inp, p, 8, e).v n == RInt(inp, p + 8, 4, e).v
      leap == SecMod60(a) = 59 /\ ~ULt(n, Billion) /\ ULt(Sub(n, Billion).v, Billion)
  IN IF p + 12 > Len(inp) THEN REof(p)
     ELSE IF ~SLe(DateMin, a) \/ ~SLe(a, DateMax) \/ ~(ULt(n, Billion) \/ leap)
          THEN RBad({"InvalidSystemTime"}, p + 12, 0)
     ELSE ROk(<<a, n>>, p + 12)

RECURSIVE Dec(_, _, _, _, _)
RECURSIVE DecElems(_, _, _, _, _, _, _)
RECURSIVE DecUntil(_, _, _, _, _, _)
RECURSIVE DecFields(_, _, _, _, _, _, _)
RECURSIVE DecTup(_, _, _, _, _, _)

\* decode t where the previous part ended as q says
After(q, t, inp, cx, env) ==
  IF ~q.amb THEN Dec(t, inp, q.p, cx, env)
  ELSE IF ZeroWidth(t) THEN [Dec(t, inp, q.p, cx, env) EXCEPT !.amb = TRUE]
  ELSE LET r(i) == Dec(t, inp, i, cx, env)
           ps == q.p..Len(inp)
       IN IF \A i \in ps : r(i).s = "ok" /\ r(i).v = r(q.p).v
          THEN [r(q.p) EXCEPT !.amb = TRUE, !.p = q.p]
          ELSE IF \A i \in ps : PureEof(r(i)) THEN REof(q.p)
          ELSE RAmb
Through(q, r) == [r EXCEPT !.h = Max2(@, q.h)]

\* elements i..n
DecElems(t, inp, q, n, cx, i, acc) ==
  IF i > n THEN [q EXCEPT !.v = acc]
  ELSE LET r == After(q, t, inp, cx, <<>>)
       IN CASE r.s = "any" -> r
            [] r.s = "err" -> RBad(r.c \cup (IF n >= BIG THEN Overflowing ELSE {}), r.p,
                                   SatAdd(r.need, SatMul(n - i, MinDec(t))))
            [] OTHER -> DecElems(t, inp, Through(q, r), n, cx, i + 1, Append(acc, r.v))
\* elements up to the end of input
DecUntil(t, inp, q, cx, i, acc) ==
  LET r == After(q, t, inp, cx, <<>>)
  IN CASE r.s = "any" -> r
       [] r.s = "ok" /\ r.p = q.p -> RAny
       [] PureEof(r) -> [q EXCEPT !.v = acc, !.amb = @ \/ q.p < Len(inp)]
       [] r.s = "err" -> IF MayEof(r, inp) \/ "UserEof" \in r.c THEN RAmb ELSE r
       [] OTHER -> DecUntil(t, inp, Through(q, r), cx, i + 1, Append(acc, r.v))
\* a run of elements; lt tells how many
DecRun(t, lt, inp, p, cx, env) ==
  IF lt.l = "eof"
  THEN IF Flat(t)
       THEN LET n == (Len(inp) - p) \div t.w
            IN [ROk(InOrder(Take(inp, p, n * t.w), t.w, cx.e), p + n * t.w)
                  EXCEPT !.amb = p + n * t.w < Len(inp)]
       ELSE DecUntil(t, inp, ROk(<<>>, p), cx, 1, <<>>)
  ELSE LET c == RCount(lt, inp, p, cx.e, env)
       IN IF c.s # "ok" THEN c
          ELSE IF Flat(t)
          THEN LET b == RBytes(inp, c.p, SatMul(c.v, t.w))
               IN IF b.s = "ok" THEN [b EXCEPT !.v = InOrder(@, t.w, cx.e)]
                  ELSE RBad(IF SatMul(c.v, t.w) >= BIG THEN Overflowing ELSE {}, c.p, BIG)
          ELSE IF c.v > 3000 /\ MinDec(t) = 0 THEN RAny
          ELSE DecElems(t, inp, [c EXCEPT !.v = <<>>], c.v, cx, 1, <<>>)
\* text; validity is only looked at once all of it is there
DecStr(lt, inp, p, cx, env) ==
  LET r == DecRun([k |-> "int", w |-> 1], lt, inp, p, cx, env)
  IN IF r.s = "ok" /\ ~Utf8Ok(r.v) THEN RBad({"InvalidUtf8"}, r.p, 0) ELSE r

DecField(f, inp, q, cx, env) ==
  LET has == Min2(Len(f.pre), Len(inp) - q.p)
      pre == IF q.amb THEN RAmb
             ELSE IF Take(inp, q.p, has) # SubSeq(f.pre, 1, has)
             THEN RBad({"ExpectedConstant:" \o ToString(Len(f.pre))}, q.p, Len(f.pre))
             ELSE IF has < Len(f.pre) THEN REof(q.p)
             ELSE [q EXCEPT !.p = @ + has]
      r == IF Len(f.pre) = 0 THEN After(q, f.t, inp, cx, env)
           ELSE IF pre.s = "any" THEN pre
           ELSE IF pre.s = "err" THEN More(pre, FieldMin([f EXCEPT !.pre = <<>>]))
           ELSE After(pre, f.t, inp, cx, env)
  IN CASE f.skip -> [q EXCEPT !.v = Def(f.t)]
       [] ~f.skip /\ f.doe /\ PureEof(r) ->
            [q EXCEPT !.v = Def(f.t), !.amb = @ \/ q.p < Len(inp)]
       [] ~f.skip /\ f.doe /\ r.s = "err" /\ ~PureEof(r) -> IF MayEof(r, inp) \/ "UserEof" \in r.c THEN RAmb ELSE r
       [] OTHER -> r
DecFields(fs, inp, q, cx, i, env, rest) ==
  IF i > Len(fs) THEN [q EXCEPT !.v = env]
  ELSE LET r == DecField(fs[i], inp, q, cx, env)
           left == rest - FieldMin(fs[i])
       IN CASE r.s = "any" -> r
            [] r.s = "err" -> More(r, left)
            [] OTHER -> DecFields(fs, inp, Through(q, r), cx, i + 1, Append(env, r.v), left)
DecTup(ts, inp, q, cx, i, acc) ==
  IF i > Len(ts) THEN [q EXCEPT !.v = acc]
  ELSE LET r == After(q, ts[i], inp, cx, <<>>)
       IN CASE r.s = "any" -> r
            [] r.s = "err" -> More(r, MinDec([k |-> "tup", ts |-> SubSeq(ts, i + 1, Len(ts))]))
            [] OTHER -> DecTup(ts, inp, Through(q, r), cx, i + 1, Append(acc, r.v))

\* borrowed run of n elements of sz bytes each, aligned to al
DecRef(t, n, sz, al, inp, c, cx) ==
  LET bytes == SatMul(n, sz)
      r == IF Flat(t) THEN ROk(InOrder(Take(inp, c.p, bytes), t.w, cx.e), c.p + bytes)
           ELSE DecElems(t, inp, [c EXCEPT !.v = <<>>], n, cx, 1, <<>>)
  IN IF ~cx.zc THEN RBad({"Unsized"} \cup (IF sz # 1 /\ cx.e = "be" THEN {"EndiannessMismatch"} ELSE {})
                            \cup (IF bytes >= BIG THEN Overflowing ELSE {}), c.p, bytes)
     ELSE IF sz # 1 /\ cx.e = "be" THEN RBad({"EndiannessMismatch"} \cup (IF bytes >= BIG THEN Overflowing ELSE {}), c.p, bytes)
     ELSE IF c.p + bytes > Len(inp) THEN RBad(IF bytes >= BIG THEN Overflowing ELSE {}, c.p, BIG)
     ELSE IF n > 0 /\ (cx.al + c.p) % al # 0 THEN RBad({"Unaligned"}, c.p, 0)
     ELSE r
RefFault(sz, cx) == (IF ~cx.zc THEN {"Unsized"} ELSE {})
                    \cup (IF sz # 1 /\ cx.e = "be" THEN {"EndiannessMismatch"} ELSE {})

Dec(t, inp, p, cx, env) ==
  CASE t.k = "int" -> RInt(inp, p, t.w, cx.e)
    [] t.k = "bool" -> LET r == RInt(inp, p, 1, cx.e)
                       IN IF r.s = "ok" THEN [r EXCEPT !.v = IF @[1] = 0 THEN 0 ELSE 1] ELSE r
    [] t.k = "mask" -> LET r == RInt(inp, p, 1, cx.e)
                       IN IF r.s = "ok" THEN [r EXCEPT !.v = @[1] % Pow2(t.n)] ELSE r
    [] t.k = "nz" -> LET r == RInt(inp, p, t.w, cx.e)
                     IN IF r.s = "ok" /\ AllZero(r.v) THEN RBad({"ZeroNonZero"}, r.p, 0) ELSE r
    [] t.k = "char" -> LET r == RInt(inp, p, 4, cx.e)
                       IN IF r.s = "ok" /\ ~CharOk(r.v) THEN RBad({"InvalidChar"}, r.p, 0) ELSE r
    [] t.k = "raw" -> RBytes(inp, p, t.n)
    [] t.k = "unit" -> ROk(<<>>, p)
    [] t.k = "el" -> LET r == RInt(inp, p, 1, cx.e)
                     IN IF r.s # "ok" THEN r
                        ELSE IF r.v[1] >= 240 THEN RBad({"panic"}, r.p, 0)
                        ELSE IF r.v[1] >= 224 THEN RBad({"Custom"}, r.p, 0)
                        ELSE [r EXCEPT !.v = @[1]]
    [] t.k = "mark" -> LET r == RInt(inp, p, 1, cx.e)
                       IN IF r.s # "ok" THEN r
                          ELSE IF r.v[1] >= 240 THEN RBad({"UserEof"}, r.p, 0)
                          ELSE IF r.v[1] >= 224 THEN RBad({"User"}, r.p, 0)
                          ELSE [r EXCEPT !.v = @[1]]
    [] t.k = "inv" -> Dec(t.t, inp, p, [cx EXCEPT !.e = Turned(@)], env)
    [] t.k \in {"any", "elz"} -> RAny
    [] t.k = "varint" -> RVar(inp, p)
    [] t.k \in {"dur", "systime"} -> RTime(t.k, inp, p, cx.e)
    [] t.k = "date" -> RDate(inp, p, cx.e)
    [] t.k = "tup" -> DecTup(t.ts, inp, ROk(<<>>, p), cx, 1, <<>>)
    [] t.k = "arr" -> IF Flat(t.t)
                      THEN LET r == RBytes(inp, p, t.n * t.t.w)
                           IN IF r.s = "ok" THEN [r EXCEPT !.v = InOrder(@, t.t.w, cx.e)] ELSE r
                      ELSE DecElems(t.t, inp, ROk(<<>>, p), t.n, cx, 1, <<>>)
    [] t.k = "opt" -> LET f == RInt(inp, p, 1, cx.e)
                          r == Dec(t.t, inp, p + 1, cx, env)
                      IN IF f.s # "ok" THEN f
                         ELSE IF f.v[1] = 0 THEN [f EXCEPT !.v = <<>>]
                         ELSE IF r.s = "ok" THEN [r EXCEPT !.v = <<@>>] ELSE r
    [] t.k = "res" -> LET f == RInt(inp, p, 1, cx.e)
                          g == IF f.v[1] = 0 THEN 0 ELSE 1
                          r == Dec(IF g = 1 THEN t.t ELSE t.e, inp, p + 1, cx, <<>>)
                      IN IF f.s # "ok" THEN f
                         ELSE IF r.s = "ok" THEN [r EXCEPT !.v = <<g, @>>] ELSE r
    [] t.k = "seq" -> DecRun(t.t, t.lt, inp, p, cx, env)
    [] t.k = "str" -> DecStr(t.lt, inp, p, cx, env)
    [] t.k = "regex" -> LET r == DecStr([l |-> "u32"], inp, p, cx, env)
                        IN IF r.s = "ok" /\ ~(\E i \in 1..Len(t.good) : t.good[i] = r.v)
                           THEN IF \E i \in 1..Len(t.bad) : t.bad[i] = r.v THEN RBad({"Custom"}, r.p, 0) ELSE RAny
                           ELSE r
    [] t.k = "set" -> LET r == DecRun(t.t, t.lt, inp, p, cx, env)
                          d == IF Flat(t.t) /\ r.s = "ok"
                               THEN [i \in 1..(Len(r.v) \div t.t.w) |-> Take(r.v, (i - 1) * t.t.w, t.t.w)]
                               ELSE r.v
                      IN IF r.s = "ok" THEN [r EXCEPT !.v = Entries(t, d)] ELSE r
    [] t.k = "map" -> LET r == DecRun([k |-> "tup", ts |-> <<t.a, t.b>>], t.lt, inp, p, cx, env)
                      IN IF r.s = "ok" THEN [r EXCEPT !.v = Entries(t, @)] ELSE r
    [] t.k = "struct" -> DecFields(t.fs, inp, ROk(<<>>, p), cx, 1, <<>>, FieldsMin(t.fs))
    [] t.k = "enum" ->
         LET g == RTag(t.tt, inp, p, cx.e)
             js == {j \in 1..Len(t.vs) : t.vs[j].tag = g.v}
             j == CHOOSE j \in js : TRUE
             start == IF t.peek THEN [ROk(<<>>, p) EXCEPT !.h = g.p] ELSE ROk(<<>>, g.p)
             r == DecFields(t.vs[j].fs, inp, start, cx, 1, <<>>, FieldsMin(t.vs[j].fs))
         IN IF g.s # "ok" THEN More(g, MinDec(t))
            ELSE IF js = {} THEN RBad({"InvalidEnumVariant"}, p, MinDec(t))
            ELSE IF r.s = "ok" THEN [r EXCEPT !.v = <<j, @>>] ELSE r
    [] t.k = "rstr" ->
         IF t.lt.l = "eof"
         THEN IF ~cx.zc THEN RBad({"Unsized"}, p, 0) ELSE DecStr(t.lt, inp, p, cx, env)
         ELSE LET c == RCount(t.lt, inp, p, cx.e, env)
                  b == DecStr(t.lt, inp, p, cx, env)
              IN IF c.s # "ok" THEN [c EXCEPT !.c = @ \cup RefFault(1, cx)]
                 ELSE IF ~cx.zc THEN RBad({"Unsized"}, c.p, c.v)
                 ELSE b
    [] t.k = "rseq" ->
         IF t.lt.l = "eof"
         THEN LET n == IF t.sz = 0 THEN 0 ELSE (Len(inp) - p) \div t.sz      \* a run of nothing has no end to find
                  f == RefFault(t.sz, cx)
                  r == DecRef(t.t, n, t.sz, t.al, inp, ROk(<<>>, p), cx)
              IN IF f # {} THEN RBad(f, p, 0)
                 ELSE IF r.s = "ok" THEN [r EXCEPT !.amb = @ \/ r.p < Len(inp)] ELSE r
         ELSE LET c == RCount(t.lt, inp, p, cx.e, env)
              IN IF c.s # "ok" THEN [c EXCEPT !.c = @ \cup RefFault(t.sz, cx)]
                 ELSE DecRef(t.t, c.v, t.sz, t.al, inp, c, cx)
    [] t.k = "rarr" -> DecRef(t.t, t.n, t.sz, t.al, inp, ROk(<<>>, p), cx)

Decode(t, inp, cx) == Dec(t, inp, 0, cx, <<>>)

\* the marks of a value in the order they are read and written; sets and maps: in iteration order
RECURSIVE Marks(_, _)
MarksAll(n, f(_)) == FoldLeft(LAMBDA acc, i : acc \o f(i), <<>>, [i \in 1..n |-> i])
MarksF(fs, v) == MarksAll(Len(fs), LAMBDA i : IF fs[i].skip THEN <<>> ELSE Marks(fs[i].t, v[i]))
Marks(t, v) ==
  CASE t.k = "mark" -> <<v>>
    [] t.k = "inv" -> Marks(t.t, v)
    [] t.k = "tup" -> MarksAll(Len(t.ts), LAMBDA i : Marks(t.ts[i], v[i]))
    [] t.k \in {"opt", "arr", "seq", "set"} /\ ~Flat(t.t) -> MarksAll(Len(v), LAMBDA i : Marks(t.t, v[i]))
    [] t.k = "map" -> MarksAll(Len(v), LAMBDA i : Marks(t.a, v[i][1]) \o Marks(t.b, v[i][2]))
    [] t.k = "res" -> Marks(IF v[1] = 1 THEN t.t ELSE t.e, v[2])
    [] t.k = "struct" -> MarksF(t.fs, v)
    [] t.k = "enum" -> MarksF(t.vs[v[1]].fs, v[2])
    [] OTHER -> <<>>
=============================================================================
