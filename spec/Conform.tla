------------------------------ MODULE Conform ------------------------------
(* Are recorded executions of the implementation behaviours of the          *)
(* specification?  Reads the parameters from the JSON file named by PARAMS: *)
(* types (schemas), recs (the records, one JSON object per line), aspects   *)
(* (what is to be judged), lanes (parallelism).                             *)
(* Each record is one step; records that do not conform are printed.        *)
EXTENDS Session, Life, Json, IOUtils

Params == JsonDeserialize(IOEnv.PARAMS)
Types == JsonDeserialize(Params.types)
Recs == ndJsonDeserialize(Params.recs)
Aspects == ToSet(Params.aspects)
Lanes == Params.lanes

Only(cond, name) == IF name \in Aspects /\ ~cond THEN {name} ELSE {}
Fld(f, r) == IF f \in DOMAIN r THEN r[f] ELSE <<>>
Within(ms, S) == \E i \in 1..Len(ms) : ms[i] \in S
Z2 == {"zc", "zp"}
Streams == {"su", "sb"}

\* ------------------------------------------------------------------ reading
\* one outcome against what the specification says
OutFails(t, inp, o, R) ==
  IF o.s = "panic" THEN {"panic"}
  ELSE IF o.s = "ok"
  THEN LET ok == Valid(t, o.v)
       IN Only(ok, "valid")
          \cup (IF ok THEN Only(WellFormed(t, o.v), "wellformed") ELSE {})
          \cup Only(R.s # "ok" \/ (ok /\ Norm(t, o.v) = R.v), "val")
          \cup Only(~(R.s = "err" /\ R.c # {}), "accepts")
          \cup Only(~(R.s = "err" /\ R.c = {}), "accepts-short")
  ELSE Only(R.s # "ok", "rejects")
       \cup Only(R.s # "err" \/ PureEof(R) \/ o.c \in Classes(R, inp), "class")
       \cup Only(R.s # "err" \/ ~PureEof(R) \/ o.c = "eof", "eof")
LenFails(inp, x, R) ==
  IF R.s # "ok" THEN {}
  ELSE LET want == IF x[1] = "su" THEN R.h ELSE R.p
       IN Only(IF R.amb THEN x[2] >= R.p /\ x[2] <= Len(inp) ELSE x[2] = want,
               IF x[1] = "su" THEN "taken" ELSE "length")
Same(t, a, b) == a.s = b.s /\ (a.s = "ok" => a.v = b.v \/ Norm(t, a.v) = Norm(t, b.v))
BorrowFails(rec, b) ==
  IF b.kd = 2 THEN {}
  ELSE Only(b.m \in Z2, "borrow-mode")
       \cup Only(b.m \notin Z2 \/ b.off >= 0 \/ b.len = 0, "borrow-outside")
       \cup Only(b.m \notin Z2 \/ b.len = 0 \/ b.off < 0 \/ (rec.al + b.off) % b.al = 0, "borrow-align")
       \cup Only(b.sz = 1 \/ b.len = 0 \/ rec.e = "le", "borrow-order")
AuxFails(t, inp, x) ==
  \* what is said of a buffer too small: how large it is, and how large any is that could do
  Only((x.act = 0 - 1 /\ x.exp = 0 - 1) \/ (x.c = "eof" /\ x.act = Len(inp) /\ x.act < x.exp /\ x.exp <= MinDec(t)), "small")
  \cup Only(x.told, "told")
  \cup IF ~Within(x.ms, Streams) THEN {}
  ELSE Only(x.eof = (x.c \in {"eof", "UserEof"}), "eof-flag")
       \cup Only(x.c # "eof" \/ x.io = "UnexpectedEof", "eof-io")
DecFails(rec) ==
  LET t == Types[rec.t].t
      inp == rec.in
      cx(zc) == [e |-> rec.e, zc |-> zc, al |-> rec.al]
      ref == Has(t, "ref")
      Rz == Decode(t, inp, cx(TRUE))
      Rc == IF ref THEN Decode(t, inp, cx(FALSE)) ELSE Rz
      N == 1..Len(rec.outs)
      isZ(o) == Within(o.ms, Z2)
      isC(o) == \E i \in 1..Len(o.ms) : o.ms[i] \notin Z2
  IN UNION {(IF isZ(rec.outs[i]) THEN OutFails(t, inp, rec.outs[i], Rz) ELSE {})
            \cup (IF isC(rec.outs[i]) THEN OutFails(t, inp, rec.outs[i], Rc) ELSE {}) : i \in N}
     \cup UNION {LenFails(inp, rec.ns[i], IF rec.ns[i][1] \in Z2 THEN Rz ELSE Rc) : i \in 1..Len(rec.ns)}
     \cup Only(\/ Rz.s = "any" /\ Rz.c # {}
               \/ \A i, j \in N : (\/ ~ref \/ (isZ(rec.outs[i]) /\ isZ(rec.outs[j]))
                                      \/ (isC(rec.outs[i]) /\ isC(rec.outs[j])))
                                   => Same(t, rec.outs[i], rec.outs[j]), "agree")
     \cup Only(\A m \in Streams : \A i, j \in N :
                 Within(rec.outs[i].ms, {m}) /\ Within(rec.outs[j].ms, {m})
                 => Same(t, rec.outs[i], rec.outs[j]) /\ rec.outs[i].c = rec.outs[j].c, "schedule")
     \cup Only(\A i \in N : rec.outs[i].c # "io:Interrupted", "interrupted")
     \cup UNION {BorrowFails(rec, rec.bo[i]) : i \in 1..Len(rec.bo)}
     \cup Only(\A i \in 1..Len(rec.pk) : rec.pk[i][2] <= 1048576 + 2048 * Len(inp), "alloc")
     \cup UNION {AuxFails(t, inp, rec.aux[i]) : i \in 1..Len(rec.aux)}

\* Reading back what was written.  The values of a type that reads to the end
\* of its input come back only if nothing follows and nothing in the value
\* itself follows such a part; whether that is so, the specification decides.
RtFails(rec) ==
  LET t == Types[rec.t].t
      w == Encode(t, rec.v, rec.e)
      tail == SubSeq(rec.in, rec.bl + 1, Len(rec.in))
      cx(zc) == [e |-> rec.e, zc |-> zc, al |-> rec.al]
      ref == Has(t, "ref")
      open == Has(t, "open")
      want == Norm(t, Expect(t, rec.v))
      R == Decode(t, w.b \o tail, cx(TRUE))
      comes == ~open \/ (w.s = "ok" /\ R.s = "ok" /\ R.v = want /\ R.p = Len(w.b))
      \* borrowed data needs the byte order and the alignment of memory
      fits == ~ref \/ (w.s = "ok" /\ R.s = "ok")
  IN IF ~comes \/ ~fits THEN {}
     ELSE UNION {IF ref /\ ~Within(rec.outs[i].ms, Z2) THEN {}
                 ELSE Only(/\ rec.outs[i].s = "ok"
                           /\ Valid(t, rec.outs[i].v)
                           /\ Norm(t, rec.outs[i].v) = want, "roundtrip") : i \in 1..Len(rec.outs)}
          \cup UNION {Only(IF rec.ns[i][1] = "su" THEN rec.ns[i][2] = rec.bl \/ R.h > R.p \/ R.amb
                           ELSE rec.ns[i][2] = rec.bl \/ R.amb,
                           IF rec.ns[i][1] = "su" THEN "rt-taken" ELSE "rt-length") : i \in 1..Len(rec.ns)}

\* a value that could not be written to be read back
RtwFails(rec) == Only(Encode(Types[rec.t].t, rec.v, rec.e).s # "ok", "roundtrip")

\* A collection of n elements (or, w > 0, n bytes of elements w bytes wide):
\* what its count makes of it.
LimFails(rec) ==
  LET t0 == Types[rec.t].t
      t == IF t0.k = "struct" THEN t0.fs[1].t ELSE t0
      doe == t0.k = "struct" /\ t0.fs[1].doe
      n == IF rec.w > 0 THEN rec.n \div rec.w ELSE rec.n
      c == EncCount(t.lt, n, rec.e, <<>>)
      Out(o) == IF o.s = "panic" THEN {"panic"}
                ELSE IF o.c = "InvalidSystemTime" THEN {}
                ELSE Only(c.s # "ok" \/ (/\ o.s = "ok" /\ o.same /\ IsPrefixOf(c.b, o.head)
                                         /\ rec.w > 0 => o.len = Len(c.b) + rec.n), "bytes")
                     \cup Only(c.s # "err" \/ (o.s = "err" /\ o.c \in c.c), "write-refused")
                     \cup Only(o.s # "ok" \/ rec.need = o.len, "need")
      size == rec.outs[1].len
      LimBack(b) == IF b.s = "panic" THEN {"panic"}
                 ELSE IF b.cut THEN Only(doe \/ (b.s = "err" /\ b.c = "eof"), "trunc-accepted")
                 ELSE Only(b.s = "ok", "roundtrip") \cup Only(b.n = -1 \/ b.n = size, "rt-length")
  IN UNION {Out(rec.outs[i]) : i \in 1..Len(rec.outs)}
     \* elements, wherever they are
     \cup Only(\A i \in 1..Len(rec.samples) : rec.samples[i][2] = InOrder(rec.samples[i][1], rec.w, rec.e), "bytes")
     \cup IF t.lt.l = "eof" \/ Has(t0, "ref") THEN {} ELSE UNION {LimBack(rec.backs[i]) : i \in 1..Len(rec.backs)}

TruncFails(rec) ==
  LET t == Types[rec.t].t
      ref == Has(t, "ref")
      open == Has(t, "open")
      Rej(n) == ~open \/ PureEof(Decode(t, SubSeq(rec.b, 1, n), [e |-> rec.e, zc |-> TRUE, al |-> 0]))
  IN Only(rec.min >= 0 /\ rec.min <= Len(rec.b) /\ rec.min <= MinDec(t), "min")
     \cup UNION {LET run == rec.runs[i]
                 IN IF ~Rej(run.n) THEN {}
                    ELSE UNION {Only(run.outs[j].s = "err", "trunc-accepted")
                                \cup Only(run.outs[j].s = "ok" \/ run.outs[j].c = "eof"
                                          \/ (ref /\ run.outs[j].s = "err" /\ run.outs[j].c # "panic"), "trunc-class")
                                : j \in 1..Len(run.outs)} : i \in 1..Len(rec.runs)}

\* a source that fails after `at` bytes with the error kd, payload 500 + at
FltFails(rec) ==
  LET t == Types[rec.t].t
      R == Decode(t, rec.in, [e |-> rec.e, zc |-> FALSE, al |-> 0])
      Bad(x) == x.s = "err" /\ x.c = x.kd /\ x.pl = x.want /\ x.ipl = x.want /\ "io:" \o x.io = x.kd
      Good(x) == x.s = "ok" /\ Norm(t, x.v) = R.v
      open == Has(t, "open")
      Exp(x) == IF open THEN Bad(x) \/ Good(x)
                ELSE IF x.at < R.p THEN Bad(x)
                ELSE IF x.m = "su" /\ x.at >= R.h THEN Good(x)
                ELSE Good(x) \/ Bad(x)
  IN IF R.s # "ok" THEN {}
     ELSE UNION {Only(Exp(rec.runs[i]), "source-error") : i \in 1..Len(rec.runs)}

\* values back to back
SeqFails(rec) ==
  LET N == Len(rec.parts)
      T(i) == Types[rec.parts[i].t].t
      refs == \E i \in 1..N : Has(T(i), "ref")
      open == \E i \in 1..N : Has(T(i), "open")
      One(o, p, t, m) ==
        Only(o.s = "ok" /\ Norm(t, o.v) = Norm(t, Expect(t, p.v)), "seq-val")
        \cup Only(o.s # "ok" \/ o.n = p.n, IF m = "su" THEN "seq-taken" ELSE "seq-length")
  IN IF refs \/ open THEN {}
     ELSE UNION {LET run == rec.runs[i]
                 IN UNION {IF j <= Len(run.outs) THEN One(run.outs[j], rec.parts[j], T(j), run.m)
                           ELSE Only(FALSE, "seq-val") : j \in 1..N} : i \in 1..Len(rec.runs)}

\* ------------------------------------------------------------------ writing
EncFails(rec) ==
  LET t == Types[rec.t].t
      E == Encode(t, rec.v, rec.e)
      vec == CHOOSE i \in 1..Len(rec.w) : Within(rec.w[i].ms, {"vec"})
      v == rec.w[vec]
      known == E.s = "ok" \/ v.s = "ok"
      bytes == IF E.s = "ok" THEN E.b ELSE v.b
      Buf(b) ==
        IF ~known THEN Only(b.s = "err", "buf-err")
        ELSE IF b.z >= rec.need.n
        THEN Only(b.s = "ok" /\ b.b = bytes, "buf-fits") \cup Only(b.un, "buf-outside")
        ELSE Only(b.s = "err" /\ b.c = "OutputBufferIsTooSmall" /\ b.act = b.z /\ b.exp = rec.need.n, "buf-small")
             \cup Only(b.un, "buf-outside")
  IN UNION {IF rec.w[i].s = "panic" THEN {"panic"} ELSE {} : i \in 1..Len(rec.w)}
     \cup Only(E.s # "ok" \/ (v.s = "ok" /\ v.b = E.b), "bytes")
     \cup Only(E.s # "err" \/ (v.s = "err" /\ v.c \in E.c), "write-refused")
     \cup Only(Len(rec.w) = 1, "write-agree")
     \cup Only(~known \/ (rec.need.s = "ok" /\ rec.need.n = Len(bytes)), "need")
     \cup Only(WellFormed(t, rec.v), "wellformed")
     \cup UNION {Buf(rec.bufs[i]) : i \in 1..Len(rec.bufs)}

\* a sink that fails after `at` bytes
SinkFails(rec) ==
  LET n == Len(rec.full)
      Bad(x) == /\ x.s = "err"
                /\ IF x.zero THEN x.c = "io:WriteZero" ELSE x.c = x.kd
                /\ x.zero \/ (x.pl = x.want /\ x.ipl = x.want)
      One(x) == Only(IsPrefixOf(x.b, rec.full) /\ (x.s = "ok" => x.b = rec.full \/ (x.at = 0 /\ n = 0)), "sink-prefix")
                \cup Only(IF x.at < n THEN Bad(x) ELSE x.s = "ok", "sink-error")
  IN UNION {One(rec.runs[i]) : i \in 1..Len(rec.runs)}

\* the parts of a value being read
LifeFails(rec) ==
  LET t == Types[rec.t].t
      inp == rec.in
      cx(zc) == [e |-> rec.e, zc |-> zc, al |-> rec.al]
      ref == Has(t, "ref")
      Rz == Decode(t, inp, cx(TRUE))
      Rc == IF ref THEN Decode(t, inp, cx(FALSE)) ELSE Rz
      loose == HasColl(t) \/ Has(t, "open")
      One(o, R) ==
        Wrong(o.ev, o.s, o.own, loose)
        \cup (IF o.s = "panic" THEN IF R.s = "any" \/ "panic" \in R.c THEN {} ELSE {"panic"}
              ELSE OutFails(t, inp, o, R))
  IN UNION {LET o == rec.outs[i] IN
            (IF Within(o.ms, Z2) THEN One(o, Rz) ELSE {})
            \cup (IF \E j \in 1..Len(o.ms) : o.ms[j] \notin Z2 THEN One(o, Rc) ELSE {}) : i \in 1..Len(rec.outs)}
LifeAspects == {"double-drop", "drop-of-nothing", "rebirth", "leak", "ownership", "early-drop", "log"}

\* ----------------------------------------------------------------- contexts
\* what the parts saw of the context: each finds what its predecessors left
\* behind, and the caller finds the same afterwards
Sum(log) == FoldLeft(LAMBDA n, x : n + x[1], 0, log)
Threaded(o, start) ==
  Only(\A i \in 1..Len(o.log) : o.log[i][2] = start + Sum(SubSeq(o.log, 1, i - 1)), "ctx-thread")
  \cup Only(o.fin = -1 \/ o.fin = start + Sum(o.log), "ctx-back")
  \* user errors arrive as they were made: the byte and the counter
  \cup Only(o.c \notin {"User", "UserEof"} \/ (o.pl \div 256 = start + Sum(o.log)), "user-error")
Logged(o) == [i \in 1..Len(o.log) |-> o.log[i][1]]
CtxFails(rec) ==
  LET t == Types[rec.t].t
      inp == rec.in
      cx(zc) == [e |-> rec.e, zc |-> zc, al |-> rec.al]
      ref == Has(t, "ref")
      Rz == Decode(t, inp, cx(TRUE))
      Rc == IF ref THEN Decode(t, inp, cx(FALSE)) ELSE Rz
      One(o, R) ==
        OutFails(t, inp, o, R)
        \cup (IF o.s = "panic" THEN {} ELSE Threaded(o, rec.start))
        \* the byte that was refused
        \cup Only(~(R.s = "err" /\ R.c \in {{"User"}, {"UserEof"}} /\ o.c \in R.c) \/ (o.pl % 256 = inp[R.p]), "user-error")
        \cup Only(o.s # "ok" \/ HasColl(t) \/ Has(t, "open") \/ Logged(o) = Marks(t, o.v), "ctx-order")
  IN UNION {LET o == rec.outs[i] IN
            (IF Within(o.ms, Z2) THEN One(o, Rz) ELSE {})
            \cup (IF \E j \in 1..Len(o.ms) : o.ms[j] \notin Z2 THEN One(o, Rc) ELSE {}) : i \in 1..Len(rec.outs)}
CtxwFails(rec) ==
  LET t == Types[rec.t].t
      E == Encode(t, rec.v, rec.e)
      ms == Marks(t, rec.v)
      refused == {i \in 1..Len(ms) : ms[i] >= 208}
      first == CHOOSE i \in refused : \A j \in refused : i <= j
      One(o) ==
        (IF o.s = "panic" THEN {"panic"} ELSE Threaded(o, rec.start))
        \cup Only(E.s # "ok" \/ (o.s = "ok" /\ o.b = E.b), "bytes")
        \cup Only(E.s # "err" \/ (o.s = "err" /\ o.c \in E.c), "write-refused")
        \cup Only(E.s # "ok" \/ o.s # "ok" \/ Logged(o) = ms, "ctx-order")
        \cup Only(o.c # "User" \/ (refused # {} /\ o.pl % 256 = ms[first] /\ Logged(o) = SubSeq(ms, 1, first - 1)), "user-error")
  IN UNION {One(rec.w[i]) : i \in 1..Len(rec.w)}

\* the functions of a byte order
EnFails(rec) ==
  LET turn(b) == IF rec.e = rec.native THEN b ELSE Reverse(b)
      part(x, j) == SubSeq(x.in, (j - 1) * x.w + 1, j * x.w)
      conv(x) == CASE x.op = "read" -> IF rec.e = "le" THEN x.in ELSE Reverse(x.in)
                   [] x.op = "swap" -> turn(x.in)
                   [] x.op = "slice" -> FlattenSeq([j \in 1..(Len(x.in) \div x.w) |-> turn(part(x, j))])
      One(x) == IF x.op = "read" /\ Len(x.in) # x.w THEN Only(x.s = "panic", "helper") ELSE Only(x.s = "ok" /\ x.out = conv(x), "helper")
  IN Only(rec.necessary = (rec.e # rec.native), "helper") \cup UNION {One(rec.runs[i]) : i \in 1..Len(rec.runs)}

\* sessions report all that is wrong; "panic" always counts
Picked(f) == f \cap (Aspects \cup {"panic"})
Fails(rec) ==
  CASE rec.k = "dec" -> DecFails(rec)
    [] rec.k = "rt" -> RtFails(rec)
    [] rec.k = "rtw" -> RtwFails(rec)
    [] rec.k = "lim" -> LimFails(rec)
    [] rec.k = "trunc" -> TruncFails(rec)
    [] rec.k = "flt" -> FltFails(rec)
    [] rec.k = "seq" -> SeqFails(rec)
    [] rec.k = "enc" -> EncFails(rec)
    [] rec.k = "sflt" -> SinkFails(rec)
    [] rec.k = "rs" -> Picked(RsFails(rec))
    [] rec.k = "bs" -> Picked(LongFails(rec))
    [] rec.k = "ws" -> Picked(WsFails(rec))
    [] rec.k = "life" -> LifeFails(rec) \cap (Aspects \cup {"panic"} \cup LifeAspects)
    [] rec.k = "ctx" -> CtxFails(rec)
    [] rec.k = "ctxw" -> CtxwFails(rec)
    [] rec.k = "en" -> EnFails(rec)
    [] rec.k = "crash" -> {"crash"}

VARIABLE i
Init == i \in 1..Lanes
Report(n) == LET f == Fails(Recs[n])
             IN IF f = {} THEN TRUE ELSE PrintT(<<"BAD", n, f>>)
Next == i <= Len(Recs) /\ Report(i) /\ i' = i + Lanes
Spec == Init /\ [][Next]_i
=============================================================================
