-------------------------------- MODULE Cal --------------------------------
(* calibration only: prints the measured errors of recorded rules *)
EXTENDS Rules, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES j, done
Init == j \in 1..Len(Trace) /\ done = FALSE
Z == <<0,0>>
MaxI(S) == IF S = {} THEN 0 ELSE Max(S)
Next == /\ ~done /\ done' = TRUE /\ j' = j
        /\ LET s == Trace[j].steps[1]
               al == IF "al" \in DOMAIN s THEN s.al ELSE Z
               be == IF "be" \in DOMAIN s THEN s.be ELSE Z
               ps == s.r.pairs
               ips == [i \in 1..Len(ps) |-> <<i>> \o ps[i]]
               ms == Measure(s.fam, s.n, al, be, ips)
               ok == {i \in 1..Len(ms) : ~(IsMid(s.fam, s.n, al, be, i) /\ IsZero(X(ps[i])))}
           IN PrintT("@@CAL " \o ToJson(<< Trace[j].id, s.fam, s.n, MaxI({ms[i][2] : i \in ok}), MaxI({ms[i][3] : i \in ok}) >>))
=============================================================================
