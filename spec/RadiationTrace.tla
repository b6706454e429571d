---------------------------- MODULE RadiationTrace ----------------------------
(***************************************************************************)
(* Validation of recorded calls: for each the flux on the ground (got) and    *)
(* the diffuse share (share).                                                *)
(***************************************************************************)
EXTENDS Radiation, Json, IOUtils, TLC
Data  == JsonDeserialize(IOEnv.TRACE)
Cases == Data.cases
VARIABLES k, n
Fail(name, p) == IF p THEN {} ELSE {"C31:" \o name}
Near(a, b) == RClose(a, b, R("1e-6"), R("1e-7"))
Verdict(c) ==
    IF c.err # "done" THEN Fail("error " \o c.err, FALSE) ELSE
    LET s == Sun(c.lat, c.lon, c.mer, c.day, c.hour)
        flat == c.slope = Zero
        up == c.upseen       \* the zenith cosine the code works with
    IN Fail("zenith", ~c.seen \/ RClose(up, s.up, R("1e-7"), R("1e-7")))
       \cup Fail("level-ground", ~flat \/ RClose(c.got, c.rm, R("1e-9"), R("1e-9")))
       \cup Fail("low-sun", ~Low(s.up, c.thld) \/ RClose(c.got, c.rm, R("1e-9"), R("1e-9")))
       \cup (IF Low(s.up, R("89.9")) \/ ~c.shared THEN {}
             ELSE Fail("share-limits", Least (-) R("1e-9") \preceq c.share /\ c.share \preceq One (+) R("1e-9"))
                  \cup Fail("share", RClose(c.share, Share(c.day, s.up, c.rm), R("1e-5"), R("1e-6"))))
       \cup (IF ~High(s.up, c.thld) THEN {}
             ELSE Fail("diffuse-arrives", (c.rm (.) Share(c.day, s.up, c.rm)) (.) R("0.99999") \preceq c.got (+) R("1e-7"))
                  \cup Fail("beam", RClose(c.got, OnGround(c.rm, Share(c.day, s.up, c.rm), s, Normal(c.slope, c.aspect)), R("2e-5"), R("1e-4"))))
Say(b) == IF b = {} THEN TRUE ELSE PrintT("BAD|" \o ToString(k) \o "|" \o ToString(n) \o "|sun|" \o ToString(b))
Init == k \in 1..Len(Cases) /\ n = 1
Next == n <= Len(Cases[k].calls) /\ Say(Verdict(Cases[k].calls[n])) /\ n' = n + 1 /\ k' = k
Spec == Init /\ [][Next]_<<k, n>>
=============================================================================
