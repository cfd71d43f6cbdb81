------------------------------- MODULE Idents -------------------------------
(* Whose connection it is: identd, when users have addresses of their own,   *)
(* so that several connections may share their ports.                        *)
EXTENDS Common

CONSTANTS Most

VARIABLES
    live,   \* the connections: [s, rp, l, lp] -> user
    told    \* the last question and its answer (for the properties)
vars == <<live, told, hist>>

Servers == {"127.0.0.11", "127.0.0.12"}
Locals == {"127.66.0.2", "127.66.0.3", "127.66.0.4"}
RPorts == {6667, 6697}
LPorts == IF Record THEN {40000, 40001} ELSE {40000}
Users == {"ia", "ib", "ic"}
Conns == [s : Servers, rp : RPorts, l : Locals, lp : LPorts]
Live == DOMAIN live
Owner(l) == CASE l = "127.66.0.2" -> "ia" [] l = "127.66.0.3" -> "ib" [] OTHER -> "ic"

\* Most connections go to the same server, from the same port.
Near == IF Record THEN {c \in Conns : c.s = "127.0.0.11" /\ c.lp = 40000} ELSE Conns
Open == \E c \in Pick(Near) \cup Pick(Conns) :
    /\ c \notin Live /\ Cardinality(Live) < Most
    /\ live' = [d \in Live \cup {c} |-> IF d = c THEN Owner(c.l) ELSE live[d]] /\ told' = <<>>
    /\ Rec([op |-> "open", c |-> c, u |-> Owner(c.l), exp |-> "ok"])
Close == \E c \in Pick(Live) :
    /\ live' = [d \in Live \ {c} |-> live[d]] /\ told' = <<>>
    /\ Rec([op |-> "close", c |-> c, exp |-> "ok"])

\* A server asks about its own connections, by their two ports. Asking at
\* another address of ours than the connection's is answered only if that
\* can mean one connection only, if at all.
Same(c) == {d \in Live : d.s = c.s /\ d.rp = c.rp /\ d.lp = c.lp}
Answers(c) == IF c \in Live THEN {live[c]} ELSE {"NO-USER"} \cup (IF Cardinality(Same(c)) = 1 THEN {live[d] : d \in Same(c)} ELSE {})
Ask == \E c \in Pick(Near) \cup Pick(Conns) :
    \E a \in Pick(Answers(c)) :
        /\ told' = <<c, a>> /\ UNCHANGED live
        /\ Rec([op |-> "ask", c |-> c, exp |-> [oneof |-> SetToSeq(Answers(c))]])

Init == /\ live = <<>> /\ told = <<>> /\ RecInit([op |-> "init"])
Next == Open \/ Open \/ Ask \/ Ask \/ Ask \/ (IF Live # {} THEN Close ELSE FALSE)
Spec == Init /\ [][Next]_vars

\* Nobody is named for the connection of another, nor for one that is over.
True == told # <<>> =>
    LET c == told[1] IN
    /\ c \in Live => told[2] = Owner(c.l)
    /\ told[2] # "NO-USER" => \E d \in Same(c) : told[2] = Owner(d.l)
    /\ c \notin Live /\ Cardinality(Same(c)) # 1 => told[2] = "NO-USER"
=============================================================================
