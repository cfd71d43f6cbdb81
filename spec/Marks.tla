-------------------------------- MODULE Marks --------------------------------
(* Read markers: how far the messages of a conversation have been read, shared *)
(* by the clients of a network.                                               *)
EXTENDS Common

CONSTANTS MaxTick, MaxNow

Nets    == IF Record THEN {"n1", "n2", "n3"} ELSE {"n1", "n2"}   \* n3 is another user's
Clients == IF Record THEN {"c1", "c2", "c3", "c4", "c5", "c6"} ELSE {"c1", "c2", "c4"}
NetOf   == [c1 |-> "n1", c2 |-> "n1", c3 |-> "n1", c4 |-> "n2", c5 |-> "none", c6 |-> "n3"]
\* What clients asked for: the standard command, the vendored one, or nothing.
Kind    == [c1 |-> "MARKREAD", c2 |-> "READ", c3 |-> "", c4 |-> "MARKREAD", c5 |-> "MARKREAD", c6 |-> "MARKREAD"]
Chans   == IF Record THEN {"#a", "#b["} ELSE {"#a"}
\* Names as clients write them; n2 tells [ and { apart, the other networks do not.
Names   == IF Record THEN {"#a", "#A", "#b[", "#B{", "bob[", "Bob[", "bob{", "eve"} ELSE {"#a", "bob[", "bob{"}
Lower(x) == CASE x = "#A" -> "#a" [] x = "#B{" -> "#b{" [] x = "Bob[" -> "bob[" [] OTHER -> x
Brace(x) == CASE x = "#b[" -> "#b{" [] x = "bob[" -> "bob{" [] OTHER -> x
Fold(net, x) == IF net = "n2" THEN Lower(x) ELSE Brace(Lower(x))
Keys(net) == {Fold(net, x) : x \in Names}
AllKeys == {Lower(x) : x \in Names} \cup {Brace(Lower(x)) : x \in Names}

VARIABLES
    mark,   \* [Nets -> [folded name -> tick, 0: none]]
    joined, \* [Nets -> channels]
    det,    \* [Nets -> detached channels]
    on,
    nf      \* number of markers set to the present

vars == <<mark, joined, det, on, nf, hist>>

Future(n) == MaxTick + n      \* the n-th "now": later than all ticks and earlier nows
Label(t) == IF t = 0 THEN "*" ELSE IF t > MaxTick THEN "f" \o ToString(t - MaxTick) ELSE "t" \o ToString(t)

Obs(F(_)) == [c \in Clients |-> AsSet(IF c \in on' THEN {e \in F(c) : e[1] # ""} ELSE {})]
Nothing(c) == {}
Ev(c, key, t) == <<Kind[c], key, Label(t)>>
\* A client is told about the channels it is shown.
Shown(net) == joined[net] \ det[net]
ChanEvs(c, net, chs) == IF NetOf[c] = net THEN {Ev(c, Fold(net, ch), mark[net][Fold(net, ch)]) : ch \in chs} ELSE {}

Init ==
    /\ mark = [net \in Nets |-> [x \in AllKeys |-> 0]]
    /\ joined = [net \in Nets |-> IF net = "n1" THEN {"#a"} ELSE {}]
    /\ det = [net \in Nets |-> {}]
    /\ on = {} /\ nf = 0
    /\ RecInit([op |-> "init"])

Connect ==
    \E c \in Pick(Clients \ on) :
        /\ on' = on \cup {c}
        /\ UNCHANGED <<mark, joined, det, nf>>
        /\ LET F(x) == IF x = c /\ NetOf[c] # "none" THEN ChanEvs(c, NetOf[c], Shown(NetOf[c])) ELSE {} IN
           Rec([op |-> "connect", c |-> c, net |-> NetOf[c], kind |-> Kind[c], exp |-> Obs(F)])

Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c}
        /\ UNCHANGED <<mark, joined, det, nf>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(Nothing)])

\* t: a tick, or 0 for a time in the future, which counts as the present.
Set ==
    \E c \in Pick(on), x \in Pick(Names), t \in Pick(0..MaxTick), cmd \in Pick(IF Record THEN {"MARKREAD", "READ"} ELSE {"MARKREAD"}) :
        LET net == NetOf[c]
            key == Fold(net, x)
            new == IF t = 0 THEN Future(nf + 1) ELSE t
            step == [op |-> "set", c |-> c, cmd |-> cmd, x |-> x, t |-> t, label |-> Label(new)]
        IN
        /\ (t = 0 => nf < MaxNow)
        /\ on' = on
        /\ IF net = "none"
           THEN /\ UNCHANGED <<mark, joined, det, nf>>
                /\ LET F(y) == IF y = c THEN {<<"FAIL">>} ELSE {} IN Rec(step @@ [exp |-> Obs(F)])
           ELSE IF new > mark[net][key]
           THEN /\ mark' = [mark EXCEPT ![net][key] = new] /\ nf' = IF t = 0 THEN nf + 1 ELSE nf
                /\ UNCHANGED <<joined, det>>
                /\ LET F(y) == IF NetOf[y] = net THEN {Ev(y, key, new)} ELSE {} IN Rec(step @@ [exp |-> Obs(F)])
           ELSE /\ UNCHANGED <<mark, joined, det, nf>>
                /\ LET F(y) == IF y = c THEN {Ev(y, key, mark[net][key])} ELSE {} IN Rec(step @@ [exp |-> Obs(F)])

Get ==
    \E c \in Pick(on), x \in Pick(Names \cup {"BouncerServ"}) :
        LET net == NetOf[c]
            F(y) == IF y # c THEN {}
                    ELSE IF x = "BouncerServ" THEN {<<Kind[y], "bouncerserv", "*">>}
                    ELSE IF net = "none" THEN {<<"FAIL">>} ELSE {Ev(y, Fold(net, x), mark[net][Fold(net, x)])}
        IN
        /\ UNCHANGED <<mark, joined, det, on, nf>>
        /\ Rec([op |-> "get", c |-> c, x |-> x, cmd |-> Kind[c], exp |-> Obs(F)])

Bad ==
    \E c \in Pick(on), x \in Pick(Names), what \in Pick({"criteria", "time", "noparam", "msgid", "empty"}) :
        LET F(y) == IF y = c THEN {<<"FAIL">>} ELSE {} IN
        /\ Record
        /\ UNCHANGED <<mark, joined, det, on, nf>>
        /\ Rec([op |-> "bad", c |-> c, x |-> x, what |-> what, exp |-> Obs(F)])

\* Joining: all clients of the network are told about the channel.
Join ==
    \E c \in Pick({x \in on : NetOf[x] # "none"}) : \E ch \in Pick(Chans \ Shown(NetOf[c])) :
        LET net == NetOf[c] F(y) == ChanEvs(y, net, {ch}) IN
        /\ joined' = [joined EXCEPT ![net] = @ \cup {ch}]
        /\ det' = [det EXCEPT ![net] = @ \ {ch}]
        /\ UNCHANGED <<mark, on, nf>>
        /\ Rec([op |-> "join", c |-> c, ch |-> ch, exp |-> Obs(F)])

Leave ==
    \E c \in Pick({x \in on : NetOf[x] # "none"}) : \E ch \in Pick(Shown(NetOf[c])), d \in Pick(BOOLEAN) :
        LET net == NetOf[c] IN
        /\ joined' = IF d THEN joined ELSE [joined EXCEPT ![net] = @ \ {ch}]
        /\ det' = IF d THEN [det EXCEPT ![net] = @ \cup {ch}] ELSE det
        /\ UNCHANGED <<mark, on, nf>>
        /\ Rec([op |-> "leave", c |-> c, ch |-> ch, detach |-> d, exp |-> Obs(Nothing)])

\* The connection to the network is lost, or its settings are changed (how),
\* and it joins its channels again.
Rejoin ==
    \E net \in Pick(Nets), how \in Pick(IF Record THEN {"lost", "update", "rename"} ELSE {"lost"}) :
        LET F(y) == ChanEvs(y, net, Shown(net)) IN
        /\ (how # "lost" => \E c \in on : NetOf[c] = net)
        /\ UNCHANGED <<mark, joined, det, on, nf>>
        /\ Rec([op |-> "rejoin", net |-> net, how |-> how, exp |-> Obs(F)])

Restart ==
    \E kill \in Pick(BOOLEAN) :
        /\ on' = {}
        /\ UNCHANGED <<mark, joined, det, nf>>
        /\ Rec([op |-> "restart", kill |-> kill, exp |-> Obs(Nothing)])

\* n2 is deleted, and created again.
Renew ==
    /\ Record => RandomElement(1..2) = 1
    /\ \E c \in Pick(on \cap {"c1", "c2", "c3", "c5"}) :
        /\ mark' = [mark EXCEPT !["n2"] = [x \in AllKeys |-> 0]]
        /\ joined' = [joined EXCEPT !["n2"] = {}] /\ det' = [det EXCEPT !["n2"] = {}]
        /\ on' = on \ {"c4"}
        /\ UNCHANGED nf
        /\ Rec([op |-> "renew", c |-> c, exp |-> Obs(Nothing)])

Next == Connect \/ Connect \/ Connect \/ Disconnect \/ Set \/ Set \/ Set \/ Set \/ Set \/ Get \/ Get \/ Bad \/ Join \/ Leave \/ Rejoin \/ Restart \/ Renew

Spec == Init /\ [][Next]_vars

\* Markers only move forward, unless the network is deleted.
Forward == [][\A net \in Nets : (\A x \in AllKeys : mark'[net][x] >= mark[net][x]) \/ (net = "n2" /\ \A x \in AllKeys : mark'[net][x] = 0)]_vars
\* At most one marker at a time, and on one network.
One == [][mark' = mark \/ (\E net \in Nets, x \in AllKeys : \A m \in Nets, y \in AllKeys : (m # net \/ y # x) => (mark'[m][y] = mark[m][y] \/ (m = "n2" /\ mark'[m][y] = 0)))]_vars
InKeys == \A net \in Nets : \A x \in AllKeys \ Keys(net) : mark[net][x] = 0
Present == \A net \in Nets, x \in AllKeys : mark[net][x] <= Future(nf)
=============================================================================
