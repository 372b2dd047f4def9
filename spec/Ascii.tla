------------------------------- MODULE Ascii -------------------------------
(* String constants of the specification as sequences of code points. *)
EXTENDS Integers, Sequences

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CodeOf == [k \in {SubSeq(Printable, i, i) : i \in 1..95} |->
             31 + (CHOOSE i \in 1..95 : SubSeq(Printable, i, i) = k)]
S(str) == [i \in 1..Len(str) |-> CodeOf[SubSeq(str, i, i)]]
=============================================================================
