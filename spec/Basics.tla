------------------------------- MODULE Basics -------------------------------
(***************************************************************************)
(* The arithmetic of U64 and the hash functions of Keccak against results  *)
(* computed elsewhere (Python's integers and hashlib): run once with the   *)
(* definitions of the specification alone and once with the Java classes   *)
(* that replace some of them.                                              *)
(***************************************************************************)
EXTENDS Keccak, Json, IOUtils, TLC

Cases == JsonDeserialize(IOEnv.BASICS)

Value(c) ==
  CASE c.op = "add" -> Add64(c.a, c.b)
    [] c.op = "sub" -> Sub64(c.a, c.b)
    [] c.op = "lt" -> Lt64(c.a, c.b)
    [] c.op = "mul" -> MulSmall(c.a, c.k)
    [] c.op = "div" -> Div64(c.a, c.b)
    [] c.op = "gcd" -> Gcd64(c.a, c.b)
    [] c.op = "abs" -> AbsDiff64(c.a, c.b)
    [] c.op = "sha3" -> Sha3256(c.m)
    [] c.op = "shake" -> Shake256(Absorb(Sponge0, c.m), c.k)
    [] c.op = "split" -> Shake256(Absorb(Absorb(Sponge0, SubSeq(c.m, 1, c.at)),
                                         SubSeq(c.m, c.at + 1, Len(c.m))), c.k)

VARIABLE i
Init == i = 1
Next == i < Len(Cases) /\ i' = i + 1
Right == Value(Cases[i]) = Cases[i].r
=============================================================================
