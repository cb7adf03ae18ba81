-------------------------------- MODULE Enums --------------------------------
(* A registry enumeration is a bijection between its code points and its       *)
(* variants: named ones as the registry lists them, every other value carried  *)
(* as Unknown(value).  Decoding then encoding is the identity on all values.   *)
EXTENDS EnumTables
(* named: <<value, variant>> for every value in the whole domain that decodes  *)
(* to a named variant, ascending; strs: what as_str says about them (16-bit);   *)
(* unknown: how many values decode to Unknown(itself); back: how many values     *)
(* survive decode/encode on the wire and through the accessor.                  *)
Size(n) == IF n \in Wide THEN 65536 ELSE 256
EnumRes(e) == LET t == EnumTable[e.enum] IN
  [named |-> t, strs |-> IF e.enum \in Wide THEN [k \in 1..Len(t) |-> t[k][2]] ELSE <<>>,
   unknown |-> Size(e.enum) - Len(t), back |-> Size(e.enum), short |-> TRUE]
==============================================================================
