-------------------------------- MODULE Gzip --------------------------------
(* A gzip member: the header (GzipHeader), then the DEFLATE data (Deflate).  *)
(* Phases: "header", then those of Deflate; a bad header is a fault too.     *)
EXTENDS GzipHeader, Deflate

gvars == << hphase, hat, phase, bp, final, lit, dst, nodst, kind >>

GInit == HInit /\ phase = "header" /\ bp = 0 /\ final = 0 /\ kind = 0
         /\ lit = NoCode /\ dst = NoCode /\ nodst = TRUE

\* to the start of another file
GReset == /\ hphase' = "fixed" /\ hat' = 0 /\ phase' = "header" /\ bp' = 0 /\ final' = 0 /\ kind' = 0
          /\ lit' = NoCode /\ dst' = NoCode /\ nodst' = TRUE

Header(in, availbytes) ==
  /\ phase = "header"
  /\ HNext(in, availbytes)
  /\ phase' = CASE hphase' = "body" -> "block" [] hphase' = "bad" -> "fault" [] OTHER -> "header"
  /\ bp' = 8 * hat'
  /\ UNCHANGED << final, lit, dst, nodst, kind >>

(* Content. The sequence `want` is compared with what the codes say; m has   *)
(* op (bytes so far) and bad (first disagreement). Bytes the sequence does   *)
(* not have are passed over: the caller decides whether it may be short.     *)
Compare(m, want, n, Bytes(_)) ==
  LET k == MaxOf(0, MinOf(n, Len(want) - m.op)) IN
  [m EXCEPT !.op = @ + n,
            !.bad = IF @ = "" /\ k > 0 /\ SubSeq(want, m.op + 1, m.op + k) # Bytes(k) THEN "wrong bytes" ELSE @]

HistoryCap == 32768

\* one code: its bytes, or what = "badref" if it reaches before the start
Content(m, want, code) ==
  IF ~ IsRef(code) THEN Compare(m, want, 1, LAMBDA k : << code >>)
  ELSE LET d == DistanceOf(code) IN
       IF d > MinOf(m.op, HistoryCap) THEN [m EXCEPT !.what = "badref"]
       ELSE Compare(m, want, RunOf(code), LAMBDA k : SubSeq(want, m.op + 1 - d, m.op + k - d))
=============================================================================
