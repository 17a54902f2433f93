----------------------------- MODULE Recording -----------------------------
(***************************************************************************)
(* A recorded execution: a file with one JSON value per line, read as a    *)
(* sequence of records.  java/Recording.java replaces the definition; it   *)
(* gives the same value faster.                                            *)
(***************************************************************************)
EXTENDS Json

Recorded(file) == ndJsonDeserialize(file)
=============================================================================
