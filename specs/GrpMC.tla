-------------------------------- MODULE GrpMC --------------------------------
EXTENDS Grp
CONSTANTS ON, OD
Rats == {Norm(n, d) : n \in -N..N, d \in 1..D}
Ops == {x \in Rats : Abs(x[1]) <= ON /\ x[2] <= OD}
Do(c) == In(New(c).v) /\ Step(c, Want(c))
Ways == {"plain", "over"}
Loads == v = <<0, 1>> /\ g = "s" /\ \E b \in Rats, w \in Ways : Do([op |-> "load", b |-> b, w |-> w])
Alg == \/ \E b \in Ops, w \in Ways, o \in {"add", "sub"} : (w = "plain" \/ g = "s") /\ g # "gt" /\ Do([op |-> o, b |-> b, w |-> w])
       \/ \E b \in Ops : g = "gt" /\ Do([op |-> "add", b |-> b, w |-> "plain"])
       \/ \E b \in Ops, w \in Ways : Do([op |-> "mul", b |-> b, w |-> w])
       \/ (g # "gt" /\ Do([op |-> "neg"]))
       \/ (g = "gt" /\ Do([op |-> "neg"]))
       \/ (g = "s" /\ Do([op |-> "inv"]))
       \/ (g = "s" /\ \E n \in 0..3 : (n > 0 \/ v[1] # 0) /\ Do([op |-> "pow", n |-> n]))
       \/ (g = "s" /\ Do([op |-> "fermat"]))
Maps == \/ g = "s" /\ \E k \in {"to1", "to2"} : Do([op |-> k])
        \/ g \in {"g1", "g2"} /\ \E b \in Ops : Do([op |-> "pair", b |-> b])
        \/ g \in {"g1", "g2"} /\ \E b \in {x \in Ops : x[2] = 1 /\ Abs(x[1]) <= 2}, y \in {x \in Ops : x[2] = 1 /\ Abs(x[1]) <= 1} : \E x \in {z \in Ops : z[2] <= 2 /\ Abs(z[1]) <= 2} : Do([op |-> "pair2", b |-> b, x |-> x, y |-> y])
        \/ v = <<0, 1>> /\ g = "s" /\ \E k \in {"g1", "g2"} : Do([op |-> "inf", k |-> k])
Looks == \/ (g # "s" /\ Do([op |-> "zero"]))
         \/ \E b \in Ops : Do([op |-> "same", b |-> b])
         \/ \E h \in {"string", "json", "bytes"} : (h # "bytes" \/ g \in {"s", "g1", "g2"}) /\ (h # "bytes" \/ g = "s" \/ v[1] # 0) /\ Do([op |-> "text", how |-> h])
Bads == {"empty", "short", "long", "nohex", "nul", "notcurve", "words", "excess", "number"}
Reads == v = <<0, 1>> /\ g = "s" /\ \E k \in {"s", "g1", "g2", "gt"}, e \in Bads, h \in {"string", "json"} :
           (k \in {"g1", "g2"} \/ e # "notcurve") /\ (k # "s" \/ e \notin {"words", "excess"}) /\ (e # "number" \/ h = "json")
           /\ (~(k = "s" /\ e = "short")) /\ Do([op |-> "read", k |-> k, e |-> e, how |-> h])
Next == Loads \/ Alg \/ Maps \/ Looks \/ Reads
Emit == EmitEdge(vars, ev', vars')
View == vars
\* the design: a field
Field == g = "s" => \A b \in Ops : /\ Add(Add(v, b), Ng(b)) = v
                                   /\ b[1] # 0 => Mul(Mul(v, b), Norm(b[2], b[1])) = v
=============================================================================
