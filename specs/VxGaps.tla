------------------------------- MODULE VxGaps --------------------------------
(* Operations the library declines with a NotImplemented error.  Declining is  *)
(* not a wrong answer, but which encodings may decline what is part of the     *)
(* specification: an operation that stops being supported is reported.         *)
EXTENDS Sequences

(* an encoding's own kernel: the tree of a nested array begins with its id     *)
NoCast == {"alp", "alprd", "chunked", "constant", "dict", "fastlanes.bitpacked", "fastlanes.delta",
           "fastlanes.for", "roaring_int", "runend", "sparse", "zigzag", "bool", "bytebool", "runendbool",
           "roaring_bool"}
NoFill == {"alp", "alprd", "bytebool", "chunked", "constant", "dict", "fastlanes.bitpacked", "fastlanes.delta",
           "fastlanes.for", "roaring_bool", "roaring_int", "runend", "runendbool", "sparse", "zigzag"}
Gap(e) ==
  CASE e.o = "cast" -> e.e \in NoCast
    [] e.o = "ff" -> e.e \in NoFill
    [] OTHER -> FALSE
=============================================================================
