------------------------------ MODULE Declare ------------------------------
(* Which declarations of derived types can be honoured?                     *)
(* A declaration is one of                                                  *)
(*  field : one field of some type with some attributes, alone in a struct, *)
(*          tuple struct or enum variant                                    *)
(*  last  : a field without a stated end (until-end) and others around it   *)
(*  enum  : variants with a tag, a discriminant, both or neither            *)
(*  cont  : attributes on a container, variant or field                     *)
(*  view  : a field that borrows a run of elements as they lie in memory    *)
(* Verdict: "accept", "refuse", or "free" where nothing is promised.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* ------------------------------------------------------------------- fields
Runs == {"String", "Vec<u8>", "Vec<u32>", "BTreeMap<u8, u8>", "HashSet<u16>", "HashMap<u8, u16>", "BTreeSet<u32>", "Cow<'a, str>", "Cow<'a, [u8]>",
         "Cow<'a, [u16]>", "Cow<'a, BTreeMap<u8, u8>>", "Cow<'a, BTreeSet<u8>>", "Cow<'a, HashMap<u8, u8>>", "Cow<'a, HashSet<u8>>", "&'a str", "&'a [u8]"}
OptRuns == {"Option<String>", "Option<Vec<u8>>", "Option<BTreeSet<u8>>", "Option<BTreeMap<u8, u8>>", "Option<HashMap<u8, u8>>", "Option<HashSet<u8>>", "Option<&'a str>",
            "Option<Cow<'a, str>>", "Option<Cow<'a, [u8]>>", "Option<&'a [u8]>"}
Others == {"u8", "u32", "u64", "i64", "f64", "bool", "char", "[u8; 3]", "Option<u64>", "Option<[u8; 3]>", "(u8, u16)", "Inner", "Option<Inner>"}
FieldTypes == Runs \cup OptRuns \cup Others
Lengths == {"length = 2u8", "length = .."}
LengthTypes == {"length_type = u7", "length_type = u8", "length_type = u16", "length_type = u32", "length_type = u64", "length_type = u64_varint"}
GoodPrefixes == {"constant_prefix = \"ab\"", "constant_prefix = b\"a\\x00\"", "constant_prefix = 'c'", "constant_prefix = b'x'", "constant_prefix = true",
                 "constant_prefix = 5u8", "constant_prefix = 255u8", "constant_prefix = 0x1Fu8", "constant_prefix = -5i8", "constant_prefix = -128i8", "constant_prefix = \"\""}
BadPrefixes == {"constant_prefix = 5", "constant_prefix = 5u16", "constant_prefix = 5i32", "constant_prefix = 1.5", "constant_prefix = -5", "constant_prefix = -5i16", "constant_prefix = -5u8",
                "constant_prefix = -1.5", "constant_prefix = 256u8", "constant_prefix = -129i8", "constant_prefix = 1 + 1", "constant_prefix = NAME", "constant_prefix = !1u8", "constant_prefix", "constant_prefix = [1u8, 2]"}
Malformed == {"length", "length_type", "length_type = u128", "length_type = i8", "length_type = 8", "default_on_eof = true", "varint = 1", "skip = 1", "default_on_eof length = 1", "", "tag = 1",
              "tag_type = u8", "peek_tag", "unsafe_is_primitive = always", "frobnicate"}
Core == {"default_on_eof", "length = 2u8", "length = ..", "length_type = u8", "length_type = u64_varint", "constant_prefix = 5u8", "varint", "skip"}
Key(a) ==
  CASE a \in Lengths -> "length" [] a \in LengthTypes -> "length_type" [] a \in GoodPrefixes \cup BadPrefixes -> "constant_prefix" [] OTHER -> a

Refused(ty, as) ==
  LET A == {as[i] : i \in 1..Len(as)}
      twice(k) == Cardinality({i \in 1..Len(as) : Key(as[i]) = k}) > 1
  IN \/ A \cap (BadPrefixes \cup (Malformed \ {""})) # {}
     \/ \E k \in {"length", "length_type", "constant_prefix", "default_on_eof"} : twice(k)
     \/ A \cap Lengths # {} /\ A \cap LengthTypes # {}
     \/ A \cap Lengths # {} /\ ty \notin Runs
     \/ A \cap LengthTypes # {} /\ ty \notin Runs \cup OptRuns
     \/ "varint" \in A /\ ty # "u64"
\* repeating what has no argument and no effect the second time
Vague(as) == \E i, j \in 1..Len(as) : i # j /\ as[i] = as[j] /\ as[i] \in {"skip", "varint"}

Shapes == {"named", "tuple", "variant", "tvariant"}
\* the writing side of a variant does not know skipped fields
ShapeFree(shape, as) == shape \in {"variant", "tvariant"} /\ "skip" \in {as[i] : i \in 1..Len(as)}
Two == {<<a, b>> : a \in Core, b \in Core}
OneOf == {<<a>> : a \in Core \cup Lengths \cup LengthTypes \cup GoodPrefixes \cup BadPrefixes \cup Malformed}
Few == {"u64", "String", "Option<Vec<u8>>", "[u8; 3]", "Cow<'a, [u8]>"}
FieldDecls ==
  {[k |-> "field", shape |-> "named", ty |-> ty, as |-> as, apart |-> FALSE] : ty \in FieldTypes, as \in Two \cup {<<>>}}
  \cup {[k |-> "field", shape |-> s, ty |-> ty, as |-> <<a>>, apart |-> FALSE] : s \in Shapes, ty \in FieldTypes, a \in Core}
  \cup {[k |-> "field", shape |-> s, ty |-> ty, as |-> as, apart |-> FALSE] : s \in Shapes, ty \in {"u64", "Vec<u8>", "Option<String>"}, as \in OneOf}
  \cup {[k |-> "field", shape |-> s, ty |-> ty, as |-> as, apart |-> ap] : s \in {"tuple", "variant", "tvariant"}, ty \in Few, as \in Two, ap \in {TRUE}}

\* ------------------------------------------------------- a field to the end
LastDecls == {[k |-> "last", shape |-> s, ty |-> ty, at |-> at, n |-> n, other |-> o] : s \in Shapes, ty \in {"Vec<u8>", "String", "BTreeSet<u8>", "Cow<'a, str>"}, at \in 1..3, n \in 1..3, o \in {"u8", "Vec<u8>", "()"}}

\* -------------------------------------------------------------------- enums
(* Numbers are <<"z", d>> for d, or <<"m", d>> for the greatest tag minus d. *)
TagTypes == {"none", "u7", "u8", "u16", "u32", "u64", "u64_varint"}
No == <<>>
Z(d) == <<"z", d>>
M(d) == <<"m", d>>
Low == {Z(0), Z(1), Z(2)}
High == {M(1), M(0), M(0 - 1)}
Spec1 == {[tag |-> No, disc |-> No]} \cup {[tag |-> t, disc |-> No] : t \in Low \cup High} \cup {[tag |-> No, disc |-> d] : d \in Low} \cup {[tag |-> Z(1), disc |-> Z(2)], [tag |-> M(0), disc |-> Z(0)]}
Spec3 == {[tag |-> No, disc |-> No], [tag |-> Z(0), disc |-> No], [tag |-> Z(1), disc |-> No], [tag |-> No, disc |-> Z(1)], [tag |-> M(1), disc |-> No], [tag |-> M(0), disc |-> No]}
\* types of which the greatest tag is a fine discriminant
DiscTypes == {"u7", "u8", "u16"}
SpecD == {[tag |-> No, disc |-> No], [tag |-> No, disc |-> M(1)], [tag |-> No, disc |-> M(0)], [tag |-> No, disc |-> M(0 - 1)], [tag |-> Z(1), disc |-> M(0)]}
Small == {"none", "u7", "u8", "u16", "u64_varint"}
EnumDecls ==
  {[k |-> "enum", tt |-> tt, vs |-> <<a, b>>] : tt \in TagTypes, a \in Spec1, b \in Spec1}
  \cup {[k |-> "enum", tt |-> tt, vs |-> <<a>>] : tt \in TagTypes, a \in Spec1}
  \cup {[k |-> "enum", tt |-> tt, vs |-> <<a, b, c>>] : tt \in {"u7", "u16", "u64"}, a \in Spec3, b \in Spec3, c \in Spec3}
  \cup {[k |-> "enum", tt |-> tt, vs |-> <<a, b>>] : tt \in DiscTypes, a \in SpecD, b \in SpecD}
  \cup {[k |-> "enum", tt |-> tt, vs |-> <<>>] : tt \in TagTypes}
Next1(v) == IF v[1] = "z" THEN Z(v[2] + 1) ELSE M(v[2] - 1)
\* numbers counted the way tags are, and the way the language counts discriminants
RECURSIVE Tags(_, _)
Tags(vs, i) ==
  IF i = 0 THEN <<>>
  ELSE LET p == Tags(vs, i - 1)
           v == vs[i]
       IN Append(p, IF v.tag # No THEN v.tag ELSE IF v.disc # No THEN v.disc ELSE IF i = 1 THEN Z(0) ELSE Next1(p[i - 1]))
RECURSIVE Discs(_, _)
Discs(vs, i) ==
  IF i = 0 THEN <<>>
  ELSE LET p == Discs(vs, i - 1)
       IN Append(p, IF vs[i].disc # No THEN vs[i].disc ELSE IF i = 1 THEN Z(0) ELSE Next1(p[i - 1]))
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]
TooBig(v) == v[1] = "m" /\ v[2] < 0
EnumVerdict(vs) ==
  LET n == Len(vs)
      tags == Tags(vs, n)
  IN IF n = 0 THEN "free"
     ELSE IF (\E i \in 1..n : TooBig(tags[i])) \/ ~Distinct(tags) \/ ~Distinct(Discs(vs, n)) THEN "refuse"
     ELSE "accept"

\* --------------------------------------------------------------- containers
On == {"struct", "tuple", "unit", "enum", "variant", "field", "union"}
ContAttrs == {"tag_type = u8", "tag_type = u64_varint", "tag_type = u128", "tag_type = i8", "tag_type", "peek_tag", "unsafe_is_primitive = always", "unsafe_is_primitive", "unsafe_is_primitive = never",
              "tag = 1", "tag = -1", "tag = \"a\"", "tag = 4294967295", "tag = 4294967296", "tag = 18446744073709551616", "tag = 1 + 1", "tag", "default_on_eof", "skip", "varint", "length = 2u8", "constant_prefix = 5u8", "frobnicate"}
Fits(on, a) ==
  CASE on \in {"struct", "tuple", "unit"} -> a = "unsafe_is_primitive = always"
    [] on = "enum" -> a \in {"tag_type = u8", "tag_type = u16", "tag_type = u64_varint", "peek_tag"}
    [] on = "variant" -> a \in {"tag = 1", "tag = 4294967295"}
    [] on = "field" -> a \in {"default_on_eof", "skip", "varint", "length = 2u8", "constant_prefix = 5u8"}     \* each where it may stand
    [] OTHER -> FALSE
ContDecls ==
  {[k |-> "cont", on |-> on, as |-> <<a>>] : on \in On, a \in ContAttrs}
  \cup {[k |-> "cont", on |-> on, as |-> <<>>] : on \in On}
  \cup {[k |-> "cont", on |-> "enum", as |-> <<a, b>>] : a, b \in {"tag_type = u8", "tag_type = u16", "peek_tag"}}
  \cup {[k |-> "cont", on |-> "variant", as |-> <<a, b>>] : a, b \in {"tag = 1", "tag = 2"}}
  \cup {[k |-> "cont", on |-> "struct", as |-> <<"unsafe_is_primitive = always", "unsafe_is_primitive = always">>]}
ContVerdict(on, as) ==
  IF on = "union" THEN "refuse"
  ELSE IF \E i \in 1..Len(as) : ~Fits(on, as[i]) THEN "refuse"
  ELSE IF Len(as) < 2 THEN "accept"
  ELSE IF \E i, j \in 1..Len(as) : i # j /\ (as[i] = as[j] \/ on = "variant" \/ {as[i], as[j]} \subseteq {"tag_type = u8", "tag_type = u16"}) THEN "refuse"
  ELSE "accept"

\* ------------------------------------------------- runs borrowed from memory
(* Bytes may be looked at as elements only when every pattern of bits is one. *)
AnyBits == {"i8", "u16", "u64", "i128", "f32", "Packed", "Clear", "Forced"}
SomeBits == {"bool", "char", "String", "Option<u8>", "Vec<u8>", "std::num::NonZeroU8", "PackedBool", "ClearBool", "ClearChar", "Choice", "std::net::IpAddr",
             "Padded"}                                                  \* lies in memory unlike it is written
UnsaidBits == {"Inner", "Ordered", "(u8, u8)", "()", "[u16; 2]"}      \* whether these lie as declared is not said
ViewForms == {"plain", "option", "variant", "generic", "tuple"}
ViewAttrs == {"", "length = 2u8", "length = ..", "length_type = u16", "default_on_eof", "constant_prefix = 5u8", "skip"}
ViewDecls == {[k |-> "view", form |-> f, el |-> e, a |-> a] : f \in ViewForms, e \in AnyBits \cup SomeBits \cup UnsaidBits, a \in ViewAttrs}
ViewVerdict(d) ==
  IF d.form = "option" /\ d.a \in Lengths THEN "refuse"
  ELSE IF d.form = "variant" /\ d.a = "skip" THEN "free"
  ELSE IF d.a = "skip" THEN "accept"            \* never read
  ELSE IF d.el \in AnyBits THEN "accept"
  ELSE IF d.el \in SomeBits THEN "refuse"
  ELSE "free"

\* ------------------------------------------------------------------ verdict
Verdict(d) ==
  CASE d.k = "field" -> IF Refused(d.ty, d.as) THEN "refuse" ELSE IF Vague(d.as) \/ ShapeFree(d.shape, d.as) THEN "free" ELSE "accept"
    [] d.k = "last" -> IF d.at < d.n THEN "refuse" ELSE IF d.at = d.n THEN "accept" ELSE "free"
    [] d.k = "enum" -> EnumVerdict(d.vs)
    [] d.k = "cont" -> ContVerdict(d.on, d.as)
    [] d.k = "view" -> ViewVerdict(d)
Decls == ViewDecls \cup FieldDecls \cup LastDecls \cup EnumDecls \cup ContDecls
=============================================================================
