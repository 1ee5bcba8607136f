------------------------------- MODULE FieldSys -------------------------------
(* The field-file system: data objects in memory (heap), files on disk (fs) and the calls that
   move data between them. Used exhaustively with small constants (MC_Field) and, with the same
   operators, as the judge of recorded executions (Trace_Field).                               *)
EXTENDS Field

Nil == [nil |-> TRUE]

(* results: [heap, fs] after each call *)
AfterWrite(heap, fs, r, fn) ==
  IF Writable(heap[r])
  THEN LET F == WriteFile(heap[r]) IN (fn :> [F |-> F, avail |-> FileSize(F)]) @@ fs
  ELSE fs                                   \* refused: no file is touched
AfterRead(heap, fs, fn, r, dt, skip) == (r :> ReadFile(fs[fn].F, dt, skip)) @@ heap

SetMeta(f, k, v) == [f EXCEPT ![k] = v]
===============================================================================
