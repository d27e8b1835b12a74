------------------------------- MODULE MKCache -------------------------------
(***************************************************************************)
(* The cache of a directory.  files: name -> stamp (0: no such file); the   *)
(* stamp stands for the modification time and for the content that was       *)
(* written at that time.  The cache file is nothing, junk (damaged, of       *)
(* another kind, or half written when its writer died) or the result of an   *)
(* earlier reading, `snap` (the contents read), together with the times       *)
(* `times`, the name, the extension and the program version it was made for.  *)
(* A reading proceeds file by file, the directory may change meanwhile.       *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, Sequences
CONSTANTS Names, MaxStamp, Times

NoCache == [k |-> "none"]
Junk == [k |-> "junk"]
Stored(times, snap, cname, ver) == [k |-> "ok", times |-> times, snap |-> snap, cname |-> cname, ver |-> ver]
Usable(c, files, cname, ver) == c.k = "ok" /\ c.cname = cname /\ c.ver = ver /\ c.times = files
Idle == [pc |-> "idle"]

\* outcomes of one complete undisturbed reading with the cache on
Served(c, files, cname, ver) == IF Usable(c, files, cname, ver) THEN c.snap ELSE files
After(c, files, cname, ver) == IF Usable(c, files, cname, ver) THEN c ELSE Stored(files, files, cname, ver)
=============================================================================
