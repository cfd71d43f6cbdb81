------------------------------ MODULE Presence ------------------------------
(* Presence: being away when nobody is attending, following who is online     *)
(* (MONITOR) on behalf of several clients, and getting one's nickname back.   *)
EXTENDS Common

Nets    == IF Record THEN {"n1", "n2"} ELSE {"n1"}
Clients == IF Record THEN {"c1", "c2", "c3", "c4"} ELSE {"c1", "c2"}
NetOf   == [c1 |-> "n1", c2 |-> "n1", c3 |-> "n2", c4 |-> "none"]
On(net, cs) == {c \in Clients : cs[c].on /\ NetOf[c] = net}
\* People one may follow, case-folded; BULK stands for many of them, always offline.
People  == IF Record THEN {"bob", "dan{", "eve", "alice", "kim"} ELSE {"bob", "alice"}
Nicks   == IF Record THEN {"alice", "kim"} ELSE {"alice"}       \* those we may want
Names   == IF Record THEN People \cup {"BULK"} ELSE People
Serv    == "bouncerserv"

VARIABLES
    cfg,     \* [Nets -> [mon, pre, auto]]: MONITOR is supported, pre-away too, auto-away is wanted
    up,
    online,  \* [Nets -> people online, other than us]
    want,    \* [Nets -> nickname wanted]
    nick,    \* [Nets -> nickname we go by]
    has,     \* [Nets -> we had the nickname we want on this connection]
    sa,      \* [Nets -> the network has us as away]
    sm,      \* [Nets -> whom we follow there, on the network]
    cl       \* [Clients -> [on, away, mon]]

vars == <<cfg, up, online, want, nick, has, sa, sm, cl, hist>>

Off == [on |-> FALSE, away |-> FALSE, mon |-> {}]

\* What should be followed, and whether we should be away, when connected.
SM(net, cs, nk, h) ==
    IF ~cfg[net].mon THEN {}
    ELSE (UNION {cs[c].mon : c \in On(net, cs)} \ {Serv}) \cup (IF nk # want[net] /\ ~h THEN {want[net]} ELSE {})
SA(net, cs) == cfg[net].auto /\ \A c \in On(net, cs) : cs[c].away
IsOn(net, n, nk) == n \in online[net] \/ n = nk \/ n = Serv

-----------------------------------------------------------------------------
(* What is observed: per client a collection of events, per network the AWAY
   and NICK commands it is sent, the list of people followed, our nickname. *)

None == [c \in Clients |-> {}]
St(net, n, nk) == <<IF IsOn(net, n, nk) THEN "online" ELSE "offline", n>>
AwayCmd(net, a) == IF a THEN <<"AWAY", IF cfg[net].pre THEN "*" ELSE "Auto away">> ELSE <<"AWAY", "">>
NoCmds == [net \in Nets |-> {}]
CNick(c, cs, nk) == cs[c].on /\ NetOf[c] # "none" /\ up'[NetOf[c]]
Obs(ev, cmds) ==
    [cl |-> [c \in Clients |-> AsSet(IF cl'[c].on THEN ev[c] ELSE {})],
     net |-> [net \in Nets |-> [cmds |-> AsSet(cmds[net]), sm |-> AsSet(IF up'[net] THEN sm'[net] ELSE {}), nick |-> IF up'[net] THEN nick'[net] ELSE ""]],
     nicks |-> [c \in {x \in Clients : CNick(x, cl', nick')} |-> nick'[NetOf[c]]]]

\* The events of a change of who is online: p is now online or not, for those
\* clients which follow it.
Tell(net, c, p, what) == IF c \in On(net, cl) /\ p \in cl[c].mon /\ p \in sm[net] THEN {<<what, p>>} ELSE {}

Init ==
    /\ cfg \in (IF Record THEN [Nets -> {[mon |-> TRUE, pre |-> FALSE, auto |-> TRUE], [mon |-> TRUE, pre |-> TRUE, auto |-> TRUE],
                                         [mon |-> TRUE, pre |-> FALSE, auto |-> FALSE], [mon |-> FALSE, pre |-> FALSE, auto |-> TRUE]}]
                ELSE {[net \in Nets |-> [mon |-> TRUE, pre |-> FALSE, auto |-> TRUE]]})
    /\ up = [net \in Nets |-> TRUE]
    /\ \E t \in SUBSET {"alice"} : online = [net \in Nets |-> IF net = "n1" THEN t ELSE {}]
    /\ want = [net \in Nets |-> "alice"]
    /\ nick = [net \in Nets |-> IF "alice" \in online[net] THEN "alice_" ELSE "alice"]
    /\ has = [net \in Nets |-> "alice" \notin online[net]]
    /\ cl = [c \in Clients |-> Off]
    /\ sa = [net \in Nets |-> cfg[net].auto]
    /\ sm = [net \in Nets |-> SM(net, cl, nick[net], has[net])]
    /\ RecInit([op |-> "init", cfg |-> cfg, online |-> [net \in Nets |-> AsSet(online[net])]])

\* Changes of clients only: away status and lists follow.
Clients1(step, cs, ev, cmds0) ==
    /\ cl' = cs
    /\ UNCHANGED <<cfg, up, online, want, nick, has>>
    /\ sa' = [net \in Nets |-> IF up[net] THEN SA(net, cs) ELSE sa[net]]
    /\ sm' = [net \in Nets |-> IF up[net] THEN SM(net, cs, nick[net], has[net]) ELSE sm[net]]
    /\ Rec(step @@ [exp |-> Obs(ev, [net \in Nets |-> cmds0[net] \cup (IF sa'[net] # sa[net] THEN {AwayCmd(net, sa'[net])} ELSE {})])])

\* pre: marks itself as away before its registration ends.
Connect ==
    \E c \in Pick({x \in Clients : ~cl[x].on}), pre \in Pick(BOOLEAN) :
        Clients1([op |-> "connect", c |-> c, net |-> NetOf[c], pre |-> pre],
                 [cl EXCEPT ![c] = [on |-> TRUE, away |-> pre, mon |-> {}]], [None EXCEPT ![c] = IF pre THEN {<<"away">>} ELSE {}], NoCmds)

Disconnect ==
    \E c \in Pick({x \in Clients : cl[x].on}) :
        Clients1([op |-> "disconnect", c |-> c], [cl EXCEPT ![c] = Off], None, NoCmds)

Away ==
    \E c \in Pick({x \in Clients : cl[x].on}), a \in Pick(BOOLEAN) :
        Clients1([op |-> "away", c |-> c, a |-> a], [cl EXCEPT ![c].away = a], [None EXCEPT ![c] = {<<IF a THEN "away" ELSE "back">>}], NoCmds)

-----------------------------------------------------------------------------
Can(c) == cl[c].on /\ NetOf[c] # "none" /\ up[NetOf[c]] /\ cfg[NetOf[c]].mon
Asks(c, step) == Clients1(step, cl, [None EXCEPT ![c] = {<<"421">>}], NoCmds)

\* One to three of them, at random.
Some(k) == {RandomElement(IF Len(hist) >= 0 /\ k > 0 THEN Names \cup {Serv} ELSE {})}
SomeNames == IF Record THEN LET k == RandomElement(1..3) IN {Some(1) \cup (IF k > 1 THEN Some(2) ELSE {}) \cup (IF k > 2 THEN Some(3) ELSE {})}
             ELSE {{n} : n \in Names}
\* Writing variants of names.
MonAdd ==
    \E c \in Pick({x \in Clients : cl[x].on}) : \E S \in SomeNames, var \in Pick(IF Record THEN 0..2 ELSE {0}) :
        LET step == [op |-> "monadd", c |-> c, names |-> AsSet(S), var |-> var] net == NetOf[c] IN
        IF ~Can(c) THEN Asks(c, step)
        ELSE Clients1(step, [cl EXCEPT ![c].mon = @ \cup S], [None EXCEPT ![c] = {St(net, n, nick[net]) : n \in S}], NoCmds)

MonDel ==
    \E c \in Pick({x \in Clients : cl[x].on}) : \E S \in SomeNames, var \in Pick(IF Record THEN 0..2 ELSE {0}) :
        LET step == [op |-> "mondel", c |-> c, names |-> AsSet(S), var |-> var] IN
        IF ~Can(c) THEN Asks(c, step) ELSE Clients1(step, [cl EXCEPT ![c].mon = @ \ S], None, NoCmds)

\* Added and removed again at once: whether a status is told is left open.
MonFlip ==
    \E c \in Pick({x \in Clients : cl[x].on}) : \E S \in SomeNames :
        LET step == [op |-> "monflip", c |-> c, names |-> AsSet(S), var |-> 0] IN
        /\ Record
        /\ Can(c)
        /\ Clients1(step, [cl EXCEPT ![c].mon = @ \ S], None, NoCmds)

MonClear ==
    \E c \in Pick({x \in Clients : cl[x].on}) :
        LET step == [op |-> "monclear", c |-> c] IN
        IF ~Can(c) THEN Asks(c, step) ELSE Clients1(step, [cl EXCEPT ![c].mon = {}], None, NoCmds)

MonAsk ==
    \E c \in Pick({x \in Clients : cl[x].on}), what \in Pick({"L", "S", "s"}) :
        LET step == [op |-> "monask", c |-> c, what |-> what] net == NetOf[c] IN
        /\ Record
        /\ IF ~Can(c) THEN Asks(c, step)
           ELSE Clients1(step, cl, [None EXCEPT ![c] = IF what = "L" THEN {<<"list", n>> : n \in cl[c].mon} \cup {<<"endlist">>}
                                                       ELSE {St(net, n, nick[net]) : n \in cl[c].mon}], NoCmds)

-----------------------------------------------------------------------------
(* The network *)

\* We go by nk from now on, and our former nickname is free; ev0: events so far.
Rename(net, nk, h, step, ev0, cmds0) ==
    /\ nick' = [nick EXCEPT ![net] = nk]
    /\ has' = [has EXCEPT ![net] = h]
    /\ UNCHANGED <<cfg, up, sa, cl>>
    /\ sm' = [sm EXCEPT ![net] = (IF cfg[net].mon THEN (UNION {cl[c].mon : c \in On(net, cl)} \ {Serv}) ELSE {}) \cup (IF nk # want'[net] /\ ~h /\ cfg[net].mon THEN {want'[net]} ELSE {})]
    /\ Rec(step @@ [exp |-> Obs([c \in Clients |-> ev0[c] \cup Tell(net, c, nick[net], "offline") \cup Tell(net, c, nk, "online")], cmds0)])

Comes ==
    \E net \in Pick({x \in Nets : up[x]}) : \E p \in Pick(People \ (online[net] \cup {nick[net]})) :
        /\ online' = [online EXCEPT ![net] = @ \cup {p}]
        /\ UNCHANGED <<cfg, up, want, nick, has, sa, sm, cl>>
        /\ Rec([op |-> "comes", net |-> net, p |-> p, exp |-> Obs([c \in Clients |-> Tell(net, c, p, "online")], NoCmds)])

\* When the nickname we want is free, we take it.
Goes ==
    \E net \in Pick({x \in Nets : up[x]}) : \E p \in Pick(online[net]) :
        LET ev == [c \in Clients |-> Tell(net, c, p, "offline")] step == [op |-> "goes", net |-> net, p |-> p] IN
        /\ online' = [online EXCEPT ![net] = @ \ {p}]
        /\ UNCHANGED want
        /\ IF p = want[net] /\ nick[net] # p /\ ~has[net] /\ p \in sm[net]
           THEN Rename(net, p, TRUE, step, ev, [NoCmds EXCEPT ![net] = {<<"NICK", p>>}])
           ELSE /\ UNCHANGED <<cfg, up, nick, has, sa, sm, cl>>
                /\ Rec(step @@ [exp |-> Obs(ev, NoCmds)])

\* Renamed by the network itself: we do not fight.
Forced ==
    \E net \in Pick({x \in Nets : up[x] /\ nick[x] # "guest"}) :
        /\ UNCHANGED <<online, want>>
        /\ Rename(net, "guest", has[net], [op |-> "forced", net |-> net], None, NoCmds)

ClientNick ==
    \E c \in Pick({x \in Clients : cl[x].on /\ NetOf[x] # "none" /\ up[NetOf[x]]}) : \E v \in Pick(Nicks \ {nick[NetOf[c]]}) :
        LET net == NetOf[c] step == [op |-> "nick", c |-> c, v |-> v] cm == [NoCmds EXCEPT ![net] = {<<"NICK", v>>}] IN
        /\ (v \notin online[net] \/ has[net])
        /\ want' = [want EXCEPT ![net] = v]
        /\ UNCHANGED online
        /\ IF v \notin online[net] THEN Rename(net, v, TRUE, step, None, cm)
           ELSE /\ UNCHANGED <<cfg, up, nick, has, sa, sm, cl>>
                /\ Rec(step @@ [exp |-> Obs([None EXCEPT ![c] = {<<"433">>}], cm)])

\* The nickname of a new connection is decided when it is attempted.
Fresh(net) == IF want[net] \in online[net] THEN want[net] \o "_" ELSE want[net]

Down ==
    \E net \in Pick({x \in Nets : up[x]}) :
        /\ up' = [up EXCEPT ![net] = FALSE]
        /\ nick' = [nick EXCEPT ![net] = Fresh(net)]
        /\ has' = [has EXCEPT ![net] = want[net] \notin online[net]]
        /\ sa' = [sa EXCEPT ![net] = FALSE] /\ sm' = [sm EXCEPT ![net] = {}]
        /\ UNCHANGED <<cfg, online, want, cl>>
        /\ Rec([op |-> "down", net |-> net, exp |-> Obs(None, NoCmds)])

\* Clients are told the status of those they follow.
Status(net, nk) == [c \in Clients |-> IF c \in On(net, cl) /\ cfg'[net].mon THEN {St(net, n, nk) : n \in cl[c].mon \ {Serv}} ELSE {}]
Begin(S, step, ev) ==
    /\ sa' = [net \in Nets |-> IF net \in S THEN cfg'[net].auto /\ \A c \in On(net, cl') : cl'[c].away ELSE sa[net]]
    /\ sm' = [net \in Nets |-> IF net \notin S THEN sm[net] ELSE IF ~cfg[net].mon THEN {}
                               ELSE (UNION {cl'[c].mon : c \in On(net, cl')} \ {Serv}) \cup (IF has'[net] THEN {} ELSE {want[net]})]
    /\ Rec(step @@ [exp |-> Obs(ev, [net \in Nets |-> (IF net \in S /\ sa'[net] THEN {AwayCmd(net, TRUE)} ELSE {})
                                                    \* Without MONITOR, we try and see.
                                                    \cup (IF net \in S /\ ~cfg[net].mon /\ ~has'[net] THEN {<<"NICK", want[net]>>} ELSE {})])])

Up ==
    \E net \in Pick({x \in Nets : ~up[x]}) :
        /\ up' = [up EXCEPT ![net] = TRUE]
        /\ UNCHANGED <<cfg, online, want, nick, has, cl>>
        /\ Begin({net}, [op |-> "up", net |-> net], Status(net, nick[net]))

\* The setting is changed, which reconnects.
Auto ==
    \E c \in Pick({x \in Clients : cl[x].on /\ NetOf[x] # "none" /\ up[NetOf[x]]}), a \in Pick(BOOLEAN) :
        LET net == NetOf[c] IN
        /\ Record
        /\ cfg' = [cfg EXCEPT ![net].auto = a]
        /\ nick' = [nick EXCEPT ![net] = Fresh(net)]
        /\ has' = [has EXCEPT ![net] = want[net] \notin online[net]]
        /\ UNCHANGED <<up, online, want, cl>>
        /\ Begin({net}, [op |-> "auto", c |-> c, net |-> net, a |-> a], Status(net, Fresh(net)))

Restart ==
    /\ Record => RandomElement(1..2) = 1
    /\ cl' = [c \in Clients |-> Off]
    /\ up' = [net \in Nets |-> TRUE]
    /\ nick' = [net \in Nets |-> Fresh(net)]
    /\ has' = [net \in Nets |-> want[net] \notin online[net]]
    /\ UNCHANGED <<cfg, online, want>>
    /\ Begin(Nets, [op |-> "restart"], None)

Next == Connect \/ Connect \/ Disconnect \/ Away \/ Away \/ MonAdd \/ MonAdd \/ MonAdd \/ MonDel \/ MonFlip \/ MonClear \/ MonAsk
        \/ Comes \/ Comes \/ Goes \/ Goes \/ Forced \/ ClientNick \/ Down \/ Up \/ Auto \/ Restart
Spec == Init /\ [][Next]_vars

\* Without MONITOR, we try to get our nickname back from time to time.
Wait ==
    LET S == {x \in Nets : up[x] /\ ~cfg[x].mon /\ ~has[x]} IN
    \E net \in Pick(S) :
        LET v == want[net] step == [op |-> "wait"] cm == [NoCmds EXCEPT ![net] = {<<"NICK", v>>}] IN
        /\ S = {net}
        /\ UNCHANGED <<online, want>>
        /\ IF v \notin online[net] THEN Rename(net, v, TRUE, step, None, cm)
           ELSE /\ UNCHANGED <<cfg, up, nick, has, sa, sm, cl>>
                /\ Rec(step @@ [exp |-> Obs(None, cm)])
NextSlow == IF Len(hist) = 9 /\ ENABLED Wait THEN Wait ELSE Next
InitSlow == Init /\ ~cfg["n1"].mon /\ "alice" \in online["n1"]
SpecSlow == InitSlow /\ [][NextSlow]_vars

-----------------------------------------------------------------------------
\* Whoever a client follows is followed, and nobody else, except the holder of our nickname.
Followed == \A net \in Nets : (up[net] /\ cfg[net].mon) =>
    /\ \A c \in On(net, cl) : cl[c].mon \ {Serv} \subseteq sm[net]
    /\ \A n \in sm[net] : (\E c \in On(net, cl) : n \in cl[c].mon) \/ (n = want[net] /\ nick[net] # n)
AwayOK == \A net \in Nets : (up[net] /\ cfg[net].auto) => (sa[net] <=> \A c \in On(net, cl) : cl[c].away)
NeverAway == \A net \in Nets : (up[net] /\ ~cfg[net].auto) => ~sa[net]
\* We are without the nickname we want only while somebody has it, or were renamed.
NickOK == \A net \in Nets : (up[net] /\ cfg[net].mon /\ ~has[net]) => (want[net] \in online[net] /\ want[net] \in sm[net])
=============================================================================
