------------------------------- MODULE ChainMC -------------------------------
EXTENDS Chain
CONSTANTS L, K, Rich   \* chain length, keys of each sort, whether all alterations come at every level
Do(c) == Step(c, Want(c))
Ks == 0..(K - 1)
Ats == {<<>>, <<1>>, <<1, 2>>, <<1, 1>>}
Edits == {"rand", "json", "attr", "drop", "add", "swap", "key", "R", "S", "Rid", "Sid", "tless", "tmore", "tnone", "t0", "tl", "noattrs", "other"}
Able(e, at) == /\ (e \in {"attr", "drop"} => at # <<>>) /\ (e = "swap" => Len(at) = 2)
\* honest links first, then at most one bad one
AllGood == (\A i \in DOMAIN od : od[i].good) /\ (\A i \in DOMAIN en : en[i].good)
Labelled == (\A i \in DOMAIN od : od[i].lvl = 2 * i - 1) /\ (\A i \in DOMAIN en : en[i].lvl = 2 * i)
LastTo(l) == LET p == l - 1 IN IF p = 0 THEN 0 ELSE IF Odd(p) THEN (IF (p + 1) \div 2 <= Len(od) THEN od[(p + 1) \div 2].to ELSE 0) ELSE IF p \div 2 <= Len(en) THEN en[p \div 2].to ELSE 0
Extend == /\ Size < L /\ AllGood /\ Labelled
          /\ \E lvl \in 1..(L + 2), by \in Ks, to \in Ks :
               \* (deeper chains: only one way to go wrong at a time)
               \/ \E at \in (IF Size = 0 \/ Rich THEN Ats ELSE {<<1, 2>>, <<>>}) : Do([op |-> "extend", lvl |-> lvl, by |-> by, to |-> to, at |-> at, e |-> "none"])
               \/ \E e \in Edits, at \in (IF Rich THEN Ats ELSE {<<1, 2>>, <<1, 1>>}) :
                    (lvl = Size + 1 /\ by = LastTo(lvl) /\ (to = 1 \/ Rich) /\ Able(e, at) /\ Do([op |-> "extend", lvl |-> lvl, by |-> by, to |-> to, at |-> at, e |-> e]))
               \/ (by = 0 /\ to = 0 /\ Do([op |-> "extend", lvl |-> lvl, by |-> 0, to |-> 0, at |-> [i \in 1..(Y + 1) |-> 1], e |-> "none"]))
               \/ (by = 0 /\ to = 0 /\ Do([op |-> "extend", lvl |-> lvl, by |-> 0, to |-> 0, at |-> [i \in 1..Y |-> 1], e |-> "none"]))
Issuer == \E lvl \in 0..7, odd \in {"yes", "no"} : Do([op |-> "issuer", lvl |-> lvl, odd |-> odd])
Misfit == \E lvl \in {0, 1, 2, 3, 4, 5, 8, 9} : \E odd \in BOOLEAN : Odd(lvl) # odd /\ Do([op |-> "misfit", lvl |-> lvl, odd |-> odd])
TrueKs == [i \in 1..(Size + 1) |-> LastTo(i)]
Wrong(ks) == {ks} \cup {[ks EXCEPT ![i] = k] : i \in DOMAIN ks, k \in Ks}
Verify == \E way \in {"one", "batch"} :
            \/ \E ks \in (IF Shaped THEN Wrong(TrueKs) ELSE {TrueKs}) : Do([op |-> "verify", ks |-> ks, more |-> "no", way |-> way])
            \/ \E more \in ({"no", "odd", "even", "lesseven"} \cup (IF Size > 0 THEN {"lessodd"} ELSE {})) : Do([op |-> "verify", ks |-> TrueKs, more |-> more, way |-> way])
            \/ \E n \in 0..(L + 2) : Do([op |-> "verify", ks |-> [i \in 1..n |-> 0], more |-> "no", way |-> way])
Last == \E lvl \in {1, 2}, by \in Ks, to \in Ks : Do([op |-> "last", lvl |-> lvl, by |-> by, to |-> to])
Relabel == AllGood /\ Labelled /\ Shaped /\ \E i \in 1..Size, lvl \in 0..(L + 1) : lvl # i /\ Do([op |-> "relabel", i |-> i, lvl |-> lvl])
CutTail == \E n \in 0..(L + 1) : Do([op |-> "cuttail", n |-> n])
Get == \E odd \in BOOLEAN, i \in 0..L : Do([op |-> "get", odd |-> odd, i |-> i])
Groth == \E g \in {1, 2}, y \in 0..3 : \E m \in SeqsOf({1, 2}, 0, 3) :
           \E e \in {"none", "rand", "R", "S", "Rid", "Sid", "allid", "tless", "tmore", "t0", "tl", "tid", "swapt", "neg"}, key \in {"own", "other"}, par \in {"own", "other", "shift", "short"}, way \in {"one", "batch"} :
             LET ns == {m} \cup (IF m = <<>> THEN {<<1>>} ELSE {Tail(m), SubSeq(m, 1, Len(m) - 1), [m EXCEPT ![1] = 3], [m EXCEPT ![Len(m)] = 3], Append(m, 1)}) IN
             \E n \in ns : /\ (e # "none" => n = m /\ key = "own" /\ par = "own") /\ (key # "own" => par = "own")
                           /\ (e \in {"tless", "t0", "tl", "tid"} => m # <<>>) /\ (e = "swapt" => Len(m) > 1) /\ (par = "shift" => y > 1) /\ (par = "short" => y > 0) /\ (par = "short" /\ Len(m) < y => FALSE)
                           /\ (Rich \/ Len(m) < 3 \/ m = <<1, 2, 1>>)
                           /\ Do([op |-> "groth", g |-> g, y |-> y, m |-> m, n |-> n, e |-> e, key |-> key, par |-> par, way |-> way])
Pok == \E g \in {1, 2}, key \in {"own", "other", "id"}, chal \in {"same", "other"}, e \in {"none", "com", "resp", "more", "less", "swap"} : Do([op |-> "pok", g |-> g, key |-> key, chal |-> chal, e |-> e])
Cut == \E lvl \in {1, 2}, way \in {"one", "batch", "last"} : Do([op |-> "cut", lvl |-> lvl, way |-> way])
Next == \/ Extend \/ Relabel \/ CutTail
        \/ Verify \/ Last \/ Get
        \/ Do([op |-> "json"])
        \/ Size = 0 /\ (Issuer \/ Misfit \/ Groth \/ Pok \/ Cut)
Emit == EmitEdge(vars, ev', vars')
View == vars
\* an accepted chain leads from the root key to the last, link by link
Chained == ev.c.op = "verify" /\ Outs(ev.c) = {"yes"} => \A i \in 1..Size : Link(i).by = ev.c.ks[i] /\ (i < Size => Link(i).to = Link(i + 1).by)
=============================================================================
