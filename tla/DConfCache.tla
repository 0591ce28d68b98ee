----------------------------- MODULE DConfCache -----------------------------
(* Design model of the configuration cache: the table under test reads        *)
(* through a cache that is dropped when it is Age seconds old (or the clock   *)
(* was set back), writes through, and other processes write the database      *)
(* behind its back.  hist records what the database held in every second.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Vals, MaxT, Age, DropOnSet, Back, BackTest
VARIABLES now, db, cache, purged, real, hist, got
vars == <<now, db, cache, purged, real, hist, got>>
None == 0
Init == now = 10 /\ db = None /\ cache = -1 /\ purged = 0 /\ real = 0 /\ hist = <<{None}>> /\ got = -2
Note(v) == hist' = [hist EXCEPT ![Len(hist)] = @ \cup {v}]
Young == (now >= purged \/ ~BackTest) /\ now - purged < Age
Fresh == IF Young THEN cache ELSE -1
Read == /\ LET c == Fresh IN got' = (IF c /= -1 THEN c ELSE db) /\ cache' = (IF c /= -1 THEN c ELSE db)
        /\ purged' = (IF Young THEN purged ELSE now) /\ UNCHANGED <<now, db, real, hist>>
Set(v) == db' = v /\ cache' = (IF DropOnSet THEN v ELSE cache) /\ Note(v) /\ got' = -2 /\ UNCHANGED <<now, purged, real>>
Other(v) == db' = v /\ Note(v) /\ got' = -2 /\ UNCHANGED <<now, cache, purged, real>>
Tick == real < MaxT /\ real' = real + 1 /\ now' = now + 1 /\ hist' = Append(hist, {db}) /\ got' = -2 /\ UNCHANGED <<db, cache, purged>>
SetBack == Back /\ real < MaxT /\ now' = now - 5 /\ now > 6 /\ got' = -2 /\ UNCHANGED <<db, cache, purged, real, hist>>
Next == Read \/ (\E v \in Vals \cup {None} : Set(v) \/ Other(v)) \/ Tick \/ SetBack
Spec == Init /\ [][Next]_vars
\* what a read returns was in the database at some moment of the last Age seconds
Recent == got /= -2 => got \in UNION {hist[i] : i \in {i \in 1..Len(hist) : i > Len(hist) - Age - 1}}
\* a clock set back is noticed: the next read goes to the database
SetBackSeen == [][(Read /\ now < purged) => got' = db]_vars
\* with nobody else writing, a read returns exactly what is stored
OwnWritesSeen == [][\A v \in Vals : Set(v) => (cache' = v \/ cache' = -1)]_vars
=============================================================================
