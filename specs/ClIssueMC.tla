----------------------------- MODULE ClIssueMC -----------------------------
EXTENDS ClIssue
CONSTANTS Far, Tries
VARIABLE n
vars == <<sig, n>>
Def(c, d) == Cardinality({x \in DOMAIN d : c[x] # d[x]})
SignDef(i) == [op |-> "sign", b |-> i, p |-> i, n |-> i, v |-> i, k |-> Run[i].k, ur |-> i, n2 |-> i, idx |-> 0, edit |-> "none"]
SEdits == {"none", "ur", "b/u", "b/hidden+", "b/hidden-", "p/c", "p/v_dash_cap", "p/m_caps/inc", "p/m_caps/del", "p/r_caps/inc", "p/r_caps/del", "b/committed/inc", "b/committed/del"}
SignCalls == UNION { LET d == SignDef(i) IN
   {d} \cup {[d EXCEPT !.p = x] : x \in Runs} \cup {[d EXCEPT !.n = x] : x \in Runs} \cup {[d EXCEPT !.v = x] : x \in Runs} \cup {[d EXCEPT !.k = x] : x \in Keys}
     \cup {[d EXCEPT !.idx = x, !.ur = u] : x \in 0..2, u \in Runs} \cup {[d EXCEPT !.n2 = x] : x \in Runs} \cup {[d EXCEPT !.edit = x, !.idx = j] : x \in SEdits, j \in 0..1}
     \cup {[d EXCEPT !.v = x, !.idx = 2] : x \in Runs}
     \cup (IF Far > 1 THEN {[d EXCEPT !.p = x, !.n = y] : x, y \in Runs} \cup {[d EXCEPT !.v = x, !.k = y] : x \in Runs, y \in Keys}
            \cup {[d EXCEPT !.p = x, !.v = y] : x, y \in Runs} \cup {[d EXCEPT !.n2 = x, !.v = y] : x, y \in Runs} ELSE {}) : i \in Runs }
\* does an edit find something to change?
Apt(c) == CASE c.edit = "ur" -> HasRev(Run[c.b].k) /\ c.idx # 0
            [] c.edit \in {"p/r_caps/inc", "p/r_caps/del", "b/committed/inc", "b/committed/del"} -> Run[c.b].com # <<>>
            [] c.edit = "b/hidden+" -> ~(DOMAIN Run[c.b].hid = Attrs(Run[c.b].k))
            [] OTHER -> c.ur = c.b \/ (HasRev(Run[c.b].k) /\ HasRev(Run[c.ur].k))
ProcDef == [op |-> "process", v |-> sig.v, f |-> sig.b, k |-> sig.k, n |-> sig.n2, scp |-> "own", rev |-> IF sig.idx = 0 THEN "none" ELSE "own", mix |-> "no", edit |-> "none"]
PEdits == {"s/a", "s/e", "s/v", "s/m_2", "scp/se", "scp/c", "f/v_prime"} \cup RevPart
Revs == {"none", "own", "otherreg", "stale", "otheridx", "partial"}
ProcCalls == LET d == ProcDef IN
   {d} \cup {[d EXCEPT !.v = x] : x \in Runs} \cup {[d EXCEPT !.f = x] : x \in Runs} \cup {[d EXCEPT !.k = x] : x \in Keys} \cup {[d EXCEPT !.n = x] : x \in Runs}
    \cup {[d EXCEPT !.scp = "other"]} \cup {[d EXCEPT !.rev = x] : x \in Revs} \cup {[d EXCEPT !.mix = "r"]} \cup {[d EXCEPT !.mix = "r", !.rev = "none"]} \cup {[d EXCEPT !.edit = x] : x \in PEdits}
    \cup (IF Far > 1 THEN {[d EXCEPT !.v = x, !.f = y] : x, y \in Runs} \cup {[d EXCEPT !.f = x, !.n = y] : x, y \in Runs} \cup {[d EXCEPT !.edit = x, !.rev = "none"] : x \in PEdits}
                               \cup {[d EXCEPT !.v = x, !.k = y] : x \in Runs, y \in Keys} ELSE {})
PApt(c) == /\ (c.edit \in RevPart => sig.idx # 0)
           /\ (c.mix = "r" => sig.idx = 1)
           /\ (c.rev \notin {"none", "partial"} => sig.idx # 0 /\ c.k # 3)
BEdits == {"none", "c", "xz_cap", "xr_cap/inc", "xr_cap/del", "xr_cap/name", "xr_cap/twice", "pk/n", "pk/s", "pk/z", "pk/r"}
BlindCalls == {[op |-> "blind", run |-> i, k |-> k, kcp |-> j, edit |-> "none"] : i \in Runs, k, j \in Keys}
         \cup {[op |-> "blind", run |-> i, k |-> k, kcp |-> k, edit |-> e] : i \in {1, 6}, k \in Keys, e \in BEdits}
Do(c) == Step(c, Want(c)) /\ n' = IF c.op = "process" THEN n + 1 ELSE n
Next == \/ n = 0 /\ sig = None /\ \E c \in BlindCalls : Do(c)
        \/ sig = None /\ \E c \in SignCalls : Apt(c) /\ Do(c)
        \/ sig # None /\ n < Tries /\ \E c \in ProcCalls : PApt(c) /\ Do(c)
        \/ sig # None /\ sig.done /\ Do([op |-> "use"])
Init2 == Init /\ n = 0
Emit == EmitEdge(vars, ev', vars')
------------------------------------------------------------------------------
\* the issuer signs for no one but the holder who made both secrets and proof for its nonce
SignSound == ev.c.op = "sign" /\ ev.r = "ok" => ev.c.b = ev.c.p /\ ev.c.b = ev.c.n /\ Run[ev.c.b].k = ev.c.k
\* what the holder has at the end is what the issuer signed and what it asked for
DoneSound == sig # None /\ sig.done => DOMAIN sig.known \cap DOMAIN Run[sig.b].hid = {} /\ Run[sig.b].k = sig.k
=============================================================================
