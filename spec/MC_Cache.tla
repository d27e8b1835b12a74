------------------------------- MODULE MC_Cache -------------------------------
EXTENDS MKCache, TLC, Json
CONSTANTS MaxHist
VARIABLES files, cache, rd, top, served, hist
vars == <<files, cache, rd, top, served, hist>>
CNames == {"", "n"}
Vers == {"now", "old"}
Note(x) == hist' = IF MaxHist = 0 THEN hist ELSE Append(hist, x)
Init == /\ files \in [Names -> {0, 1}] /\ cache = NoCache /\ rd = Idle /\ top = 1 /\ served = Idle
        /\ hist = IF MaxHist = 0 THEN <<>> ELSE <<[op |-> "start", f |-> {n \in Names : files[n] = 1}]>>
\* every content has its own time; a time may come back with its content
\* (a restored copy), but not while a reading is under way
Write(n) == \E s \in 1..MaxStamp :
              /\ s # files[n] /\ s <= top + 1 /\ (rd.pc # "idle" => s = top + 1)
              /\ files' = [files EXCEPT ![n] = s] /\ top' = IF s > top THEN s ELSE top
              /\ Note([op |-> "write", n |-> n, s |-> s]) /\ UNCHANGED <<cache, rd, served>>
Remove(n) == /\ files[n] # 0 /\ rd.pc = "idle" /\ files' = [files EXCEPT ![n] = 0]
             /\ Note([op |-> "remove", n |-> n]) /\ UNCHANGED <<cache, rd, top, served>>
Rename(n, m) == /\ files[n] # 0 /\ n # m /\ rd.pc = "idle" /\ files' = [files EXCEPT ![m] = files[n], ![n] = 0]
                /\ Note([op |-> "rename", n |-> n, m |-> m]) /\ UNCHANGED <<cache, rd, top, served>>
Corrupt == /\ cache.k = "ok" /\ rd.pc = "idle" /\ cache' = Junk /\ Note([op |-> "corrupt"]) /\ UNCHANGED <<files, rd, top, served>>
Start(cn, v) == /\ rd.pc = "idle"
                /\ IF Usable(cache, files, cn, v)
                   THEN served' = [pc |-> "cache", files |-> files, got |-> cache.snap] /\ UNCHANGED <<rd, cache>>
                   ELSE /\ rd' = [pc |-> "reading", cn |-> cn, v |-> v, left |-> {n \in Names : files[n] # 0},
                                  times |-> files, got |-> [n \in Names |-> 0]]
                        /\ cache' = NoCache /\ UNCHANGED served
                /\ Note([op |-> "start read", cn |-> cn, v |-> v]) /\ UNCHANGED <<files, top>>
ReadFile(n) == /\ rd.pc = "reading" /\ n \in rd.left
               /\ rd' = [rd EXCEPT !.left = @ \ {n}, !.got[n] = files[n]]
               /\ Note([op |-> "file"]) /\ UNCHANGED <<files, cache, top, served>>
Unchanged == \A n \in Names : rd.times[n] # 0 => files[n] = rd.times[n]
GiveUp == /\ rd.pc = "reading" /\ rd.left = {} /\ Times = "both" /\ ~Unchanged
          /\ rd' = Idle /\ served' = [pc |-> "fresh"] /\ Note([op |-> "end"]) /\ UNCHANGED <<files, cache, top>>
BeginWrite == /\ rd.pc = "reading" /\ rd.left = {} /\ cache' = Junk
              /\ (Times = "both" => Unchanged)
              /\ rd' = [rd EXCEPT !.pc = "writing", !.times = IF Times # "after" THEN @ ELSE [n \in Names |-> IF rd.times[n] = 0 THEN 0 ELSE files[n]]]
              /\ Note([op |-> "begin"]) /\ UNCHANGED <<files, top, served>>
EndWrite == /\ rd.pc = "writing" /\ cache' = Stored(rd.times, rd.got, rd.cn, rd.v) /\ rd' = Idle
            /\ served' = [pc |-> "fresh"] /\ Note([op |-> "end"]) /\ UNCHANGED <<files, top>>
Crash == /\ rd.pc # "idle" /\ rd' = Idle /\ Note([op |-> "crash"]) /\ UNCHANGED <<files, cache, top, served>>
\* a single last step, so that a simulated behaviour is printed exactly once
Fin == MaxHist > 0 /\ Len(hist) = MaxHist /\ served.pc # "fin" /\ served' = [pc |-> "fin"] /\ UNCHANGED <<files, cache, rd, top, hist>>
Step == /\ (MaxHist = 0 \/ Len(hist) < MaxHist)
        /\ \/ \E n \in Names : Write(n) \/ Remove(n) \/ ReadFile(n)
           \/ \E n, m \in Names : Rename(n, m)
           \/ \E cn \in CNames, v \in Vers : Start(cn, v)
           \/ Corrupt \/ GiveUp \/ BeginWrite \/ EndWrite \/ Crash
Next == Step \/ Fin
Spec == Init /\ [][Next]_vars

\* a usable cache holds what the files hold now
Exact == \A cn \in CNames, v \in Vers : Usable(cache, files, cn, v) => cache.snap = files
\* and only such a cache is ever served
ServedExactly == served.pc = "cache" => served.got = served.files
\* without interference a reading leaves a cache that the next one may use
Restored == rd.pc = "writing" /\ rd.times = files => rd.got = files

EmitHist == served.pc = "fin" => PrintT("H " \o ToJson(hist))
=============================================================================
