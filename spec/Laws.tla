-------------------------------- MODULE Laws --------------------------------
(* The codec itself, for small schemas and every input over a small         *)
(* alphabet up to a small length: an input grows byte by byte; what it      *)
(* decodes to obeys the laws the properties state.  (What is established    *)
(* here for the specification, Conform carries over to the implementation.) *)
EXTENDS Codec

CONSTANTS Group, Extra

U(w) == [k |-> "int", w |-> w]
L(l) == [l |-> l]
LX(x) == [l |-> "x", x |-> x]
Nth(i) == [x |-> "f", i |-> i]
Num(n) == [x |-> "n", n |-> n]
Op(o, a, b) == [x |-> o, a |-> a, b |-> b]
Bool == [k |-> "bool"]
Var == [k |-> "varint"]
Str(l) == [k |-> "str", lt |-> l]
Sq(l, t) == [k |-> "seq", lt |-> l, t |-> t]
St(l, o, t) == [k |-> "set", lt |-> l, o |-> o, t |-> t]
Mp(l, o, a, b) == [k |-> "map", lt |-> l, o |-> o, a |-> a, b |-> b]
Opt(t) == [k |-> "opt", t |-> t]
Res(t, e) == [k |-> "res", t |-> t, e |-> e]
Tup(ts) == [k |-> "tup", ts |-> ts]
Arr(n, t) == [k |-> "arr", n |-> n, t |-> t]
F(t) == [t |-> t, doe |-> FALSE, skip |-> FALSE, pre |-> <<>>]
FD(t) == [F(t) EXCEPT !.doe = TRUE]
FS(t) == [F(t) EXCEPT !.skip = TRUE]
FP(p, t) == [F(t) EXCEPT !.pre = p]
Struct(fs) == [k |-> "struct", fs |-> fs]
V(n, fs) == [tag |-> FromInt(n, 8), fs |-> fs]
Enum(tt, vs) == [k |-> "enum", tt |-> tt, peek |-> FALSE, vs |-> vs]
Peek(tt, vs) == [k |-> "enum", tt |-> tt, peek |-> TRUE, vs |-> vs]
Inv(t) == [k |-> "inv", t |-> t]

\* [t, alphabet, longest input]
Case(t, a, n) == [t |-> t, a |-> a, n |-> n + Extra - 1, s |-> <<>>]
From(s, t, a, n) == [t |-> t, a |-> a, n |-> n + Extra - 1, s |-> s]
Plain == << Case(U(1), {0, 7, 255}, 2), Case(U(2), {0, 1, 255}, 4), Case(U(4), {0, 1, 128}, 5), Case(U(8), {0, 129}, 8), Case(Bool, {0, 1, 2, 255}, 2),
            Case([k |-> "nz", w |-> 2], {0, 1, 255}, 4), Case([k |-> "char"], {0, 16, 65, 216, 223}, 5),
            From(<<255, 255, 255, 255, 255, 255, 255>>, [k |-> "dur"], {0, 202, 254, 255}, 12), From(<<>>, [k |-> "dur"], {7}, 14), From(<<255, 255, 255, 255, 255, 255, 255>>, [k |-> "systime"], {0, 127, 202, 255}, 12), Case([k |-> "mask", n |-> 2], {0, 3, 4, 255}, 2),
            Case(Tup(<<U(1), U(2), Bool>>), {0, 1, 200}, 6), Case(Arr(3, U(2)), {0, 3}, 8), Case(Arr(2, Bool), {0, 1, 2}, 4), Case(Arr(0, U(4)), {0, 1}, 2),
            Case(Opt(U(2)), {0, 1, 2, 9}, 5), Case(Opt(Opt(Bool)), {0, 1, 2}, 5), Case(Res(U(1), U(2)), {0, 1, 2, 9}, 5), Case(Res([k |-> "unit"], Bool), {0, 1, 2}, 4),
            Case(Inv(U(2)), {0, 1, 9}, 4), Case(Tup(<<U(2), Inv(Tup(<<U(2), Inv(U(2))>>))>>), {1, 9}, 8) >>
Colls == << Case(Sq(L("u32"), U(2)), {0, 1, 2}, 8), Case(Sq(L("u32"), Bool), {0, 1, 2}, 7), Case(Str(L("u32")), {0, 2, 97, 195, 169}, 6), Case(Str(L("u8")), {2, 3, 97, 195, 237, 160, 159}, 4),
            Case(Sq(L("u8"), Opt(U(1))), {0, 1, 2, 3}, 6), Case(Sq(L("u8"), Sq(L("u8"), U(1))), {0, 1, 2, 3}, 7), Case(Sq(L("u8"), [k |-> "unit"]), {0, 2, 200}, 2),
            Case(St(L("u8"), "ins", U(1)), {0, 1, 2, 3}, 6), Case(St(L("u8"), "hash", U(1)), {0, 1, 2, 3}, 6), Case(St(L("u8"), "sorted", U(2)), {0, 1, 2}, 8),
            Case(Mp(L("u8"), "ins", U(1), U(1)), {0, 1, 2, 3}, 7), Case(Mp(L("u8"), "sorted", Bool, U(1)), {0, 1, 2}, 7), Case(Mp(L("u8"), "hash", U(1), Opt(U(1))), {0, 1, 2}, 7),
            Case(Opt(Sq(L("u16"), U(1))), {0, 1, 2}, 6) >>
Lengths == << Case(Sq(L("u7"), U(1)), {0, 1, 2, 127, 128}, 5), Case(Sq(L("u8"), U(2)), {0, 1, 2, 255}, 6), Case(Sq(L("u16"), U(1)), {0, 1, 2, 255}, 6), Case(Sq(L("u64"), U(1)), {0, 1}, 10),
              Case(Sq(L("varint"), U(1)), {0, 1, 2, 128, 255}, 6), Case(Sq(L("eof"), U(2)), {0, 1, 2}, 6), Case(Sq(L("eof"), Tup(<<U(1), Bool>>)), {0, 1, 2}, 6), Case(Str(L("eof")), {97, 195, 169}, 5),
              Case(Struct(<<F(U(1)), F(Sq(LX(Nth(1)), U(1)))>>), {0, 1, 2, 3}, 6),
              Case(Struct(<<F(U(1)), F(U(1)), F(Sq(LX(Op("add", Op("div", Nth(1), Num(2)), Nth(2))), Bool))>>), {0, 1, 2, 3}, 6),
              Case(Struct(<<F(U(1)), F(Opt(Sq(LX(Op("mod", Nth(1), Num(3))), U(1)))), F(U(1))>>), {0, 1, 2, 5}, 6),
              Case(Struct(<<F(U(1)), F(Sq(L("eof"), U(2))), F(Sq(L("eof"), U(1)))>>), {0, 1}, 7),
              Case(Struct(<<F(Sq(L("eof"), U(1))), F(U(1))>>), {0, 1}, 4),
              Case(Struct(<<F(Mp(L("varint"), "ins", U(1), Bool)), F(Str(L("u7")))>>), {0, 1, 97, 129}, 6) >>
Tags == << Case(Enum("u8", <<V(0, <<>>), V(1, <<F(U(1))>>), V(255, <<F(U(2)), F(Bool)>>)>>), {0, 1, 2, 255}, 5), Case(Enum("u7", <<V(0, <<>>), V(127, <<F(U(1))>>)>>), {0, 1, 127, 255}, 4),
           Case(Enum("u16", <<V(1, <<F(U(1))>>), V(256, <<>>), V(257, <<F(U(2))>>)>>), {0, 1, 2}, 5), Case(Enum("u32", <<V(0, <<F(U(1))>>), V(2, <<>>)>>), {0, 1, 2}, 6),
           Case(Enum("varint", <<V(1, <<F(U(1))>>), V(128, <<>>), V(300, <<F(U(1))>>)>>), {0, 1, 128, 129, 172}, 5),
           Case(Peek("u8", <<V(1, <<F(U(1)), F(U(1))>>), V(2, <<F(U(1))>>), V(3, <<>>)>>), {0, 1, 2, 3}, 4), Case(Peek("u16", <<V(1, <<F(U(2)), F(U(1))>>), V(257, <<F(U(1))>>)>>), {0, 1, 2}, 5),
           Case(Sq(L("u8"), Enum("u8", <<V(0, <<>>), V(1, <<F(U(1))>>)>>)), {0, 1, 2, 3}, 6), Case(Sq(L("u8"), Peek("u8", <<V(1, <<F(U(1))>>), V(2, <<F(U(1)), F(U(1))>>)>>)), {0, 1, 2, 3}, 6),
           Case(Enum("u8", <<>>), {0, 1}, 3) >>
Attrs == << Case(Struct(<<FP(<<82, 85>>, U(1))>>), {0, 82, 85}, 5), Case(Struct(<<F(U(1)), FP(<<9>>, Str(L("u7")))>>), {0, 1, 9, 97}, 6), Case(Struct(<<FS(U(4)), F(U(1)), FS(Str(L("u32")))>>), {0, 5}, 4),
            Case(Struct(<<F(U(1)), FD(U(2))>>), {0, 1, 2}, 5), Case(Struct(<<F(U(1)), FD(Sq(L("u8"), U(1)))>>), {0, 1, 2}, 6), Case(Struct(<<FD(U(1)), FD(Opt(U(1)))>>), {0, 1, 2}, 5),
            Case(Struct(<<F(U(1)), [FD(U(1)) EXCEPT !.pre = <<9>>]>>), {0, 1, 9}, 5), Case(Struct(<<F(Var), FD(Var)>>), {0, 1, 128, 192}, 6),
            Case(Struct(<<F(U(2)), FD(U(2)), FD(U(1))>>), {0, 1}, 7), Case(Tup(<<Struct(<<F(U(1)), FD(U(2))>>), U(1)>>), {0, 1}, 6),
            Case(Struct(<<F(U(1)), FD(Str(L("u8")))>>), {0, 1, 97, 195}, 5), Case(Sq(L("u8"), Struct(<<FD(U(1))>>)), {0, 1, 2}, 5), Case(Enum("u8", <<V(1, <<F(U(1)), FD(U(1))>>), V(2, <<FS(U(2))>>)>>), {0, 1, 2}, 5) >>
Vars == << Case(Var, {0, 128, 255}, 9), Case(Var, {0, 1, 127, 129, 191, 192, 254}, 4), Case(Tup(<<Var, U(1)>>), {0, 129, 193, 225}, 5), Case(Sq(L("varint"), Var), {0, 1, 2, 128, 129}, 5) >>

Cases == CASE Group = "plain" -> Plain [] Group = "colls" -> Colls [] Group = "lengths" -> Lengths [] Group = "tags" -> Tags [] Group = "attrs" -> Attrs [] Group = "vars" -> Vars

VARIABLES c, e, inp, r
vars == <<c, e, inp, r>>
T == Cases[c].t
Of(n, b, o) == Decode(Cases[n].t, b, [e |-> o, zc |-> TRUE, al |-> 0])
Init == /\ c \in 1..Len(Cases) /\ e \in Endian /\ inp = Cases[c].s /\ r = Of(c, inp, e)
Next == /\ Len(inp) < Cases[c].n
        /\ \E b \in Cases[c].a : inp' = Append(inp, b)
        /\ UNCHANGED <<c, e>>
        /\ r' = Of(c, inp', e)
Spec == Init /\ [][Next]_vars

\* normalised values as sequences again, to be written
RECURSIVE Seqs(_, _)
Seqs(t, v) ==
  CASE ~HasColl(t) -> v
    [] t.k = "set" -> LET s == IF t.o = "ins" THEN v ELSE SetToSeq(v) IN [i \in 1..Len(s) |-> Seqs(t.t, s[i])]
    [] t.k = "map" -> LET s == IF t.o = "ins" THEN v ELSE SetToSeq(v) IN [i \in 1..Len(s) |-> <<Seqs(t.a, s[i][1]), Seqs(t.b, s[i][2])>>]
    [] t.k \in {"seq", "arr", "opt"} -> [i \in 1..Len(v) |-> Seqs(t.t, v[i])]
    [] t.k = "tup" -> [i \in 1..Len(t.ts) |-> Seqs(t.ts[i], v[i])]
    [] t.k = "struct" -> [i \in 1..Len(t.fs) |-> Seqs(t.fs[i].t, v[i])]
    [] OTHER -> v

Open == Has(T, "open")
Sized == {"OutOfRangeLength", "OutOfRangeUsize"}
Known == {"InvalidUtf8", "InvalidChar", "ZeroNonZero", "InvalidEnumVariant", "InvalidSystemTime"} \cup {"ExpectedConstant:" \o ToString(n) : n \in 1..20} \cup Sized

\* every input is either a value, or refused for a reason (P10)
Total == /\ r.s \in {"ok", "err", "any"}
         /\ r.s = "any" => Open
         /\ r.s = "ok" => r.p <= Len(inp) /\ r.p <= r.h /\ r.h <= Len(inp)
         /\ r.s = "err" => r.c \subseteq Known /\ r.p <= Len(inp)
         /\ r.s = "err" /\ r.c = {} => MayEof(r, inp)
WellFormedAs(t, v) == Norm(t, Seqs(t, v)) = v
\* what is accepted is a value (P10)
Sound == r.s = "ok" => Valid(T, Seqs(T, r.v)) /\ WellFormedAs(T, r.v)
\* nothing shorter than the minimum is accepted (P09)
Minimal == r.s = "ok" => MinDec(T) <= r.h \/ Open
RECURSIVE HasPeek(_)
HasPeek(t) == CASE t.k = "enum" -> t.peek [] t.k = "seq" -> HasPeek(t.t) [] OTHER -> FALSE
\* an accepted value can be written, and reads back as itself, using all it wrote; twice the same (P02)
Back == r.s = "ok" /\ ~Open =>
  LET w == Encode(T, Seqs(T, r.v), e)
      q == Of(c, w.b, e)
  IN IF HasPeek(T) THEN TRUE
     ELSE /\ w.s = "ok" /\ q.s = "ok" /\ q.v = r.v /\ q.p = Len(w.b)
          \* whatever follows
          /\ \A b \in Cases[c].a : LET z == Of(c, Append(w.b, b), e) IN z.s = "ok" /\ z.v = r.v /\ z.p = Len(w.b)
          \* nothing shorter will do
          /\ \A n \in 0..(Len(w.b) - 1) : PureEof(Of(c, SubSeq(w.b, 1, n), e))
          \* written lengths and numbers are the shortest there are
          /\ Len(w.b) <= r.p
\* the byte orders mirror one another
Mirror == r.s = "ok" /\ ~Open /\ ~HasPeek(T) =>
            LET a == Encode(T, Seqs(T, r.v), "le") b == Encode(T, Seqs(T, r.v), "be")
                q == Of(c, b.b, "be")
            IN a.s = b.s /\ Len(a.b) = Len(b.b) /\ (a.s = "ok" => q.s = "ok" /\ q.v = r.v)
\* more input never changes what a closed type has been found to be (P02, P08)
Steady == [][/\ (r.s = "ok" /\ ~Open) => (r'.s = "ok" /\ r'.v = r.v /\ r'.p = r.p)
             \* and a fault stays, however the input continues
             /\ (r.s = "err" /\ r.c # {} /\ ~MayEof(r, inp) /\ ~Open) => (r'.s = "err" /\ r'.c = r.c)
             \* a fault does not appear where only the end was missing for the same value
             /\ (r.s = "err" /\ r'.s = "ok" /\ ~Open) => PureEof(r) \/ MayEof(r, inp)]_vars
=============================================================================
