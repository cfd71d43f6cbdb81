------------------------------ MODULE Channels ------------------------------
(* Saved channels: what the bouncer joins again, and when it stops.           *)
EXTENDS Common

CONSTANTS NExtra     \* further saved channels, with long names, in some configurations

Chans   == IF Record THEN {"#a", "#b", "#c"} ELSE {"#a", "#b"}
Keys    == IF Record THEN {"", "k1", "k2"} ELSE {"", "k1"}
Clients == {"c1", "c2"}
Extra(n) == {"#e" \o ToString(i) : i \in 1..n}

VARIABLES
    saved,    \* [channel -> key], the channels the user is in
    joined,   \* channels joined on the current connection
    det,      \* saved channels that are detached: joined, but not shown
    refuse,   \* channels the network refuses to let us in
    up,       \* connected to the network
    on,       \* clients connected
    last      \* what happened last (ghost)

vars == <<saved, joined, det, refuse, up, on, last, hist>>

NoneC == [c \in Clients |-> AsSet({})]
SavedSet(s, D) == {<<ch, s[ch], IF ch \in D THEN "detached" ELSE "">> : ch \in DOMAIN s}
ToCl(S) == [c \in Clients |-> AsSet(IF c \in on THEN S ELSE {})]
\* What is observed: commands to the network, self JOIN/PART/KICK shown to each
\* client, the channels in the database.
Obs(upS, clF, s) == [up |-> AsSet(upS), cl |-> clF, db |-> AsSet(SavedSet(s, det'))]
\* Whether or not clients are told about leaving a channel they do not see.
ToClMay(S, ch) == [c \in Clients |-> IF c \in on /\ ch \in det THEN [oneof |-> <<AsSet(S), AsSet({})>>] ELSE AsSet(IF c \in on THEN S ELSE {})]

Put(s, ch, key) == [x \in DOMAIN s \cup {ch} |-> IF x = ch THEN key ELSE s[x]]
Drop(s, ch) == [x \in DOMAIN s \ {ch} |-> s[x]]

InitSaved == {[x \in {} |-> ""], ("#a" :> "" @@ "#b" :> "k1"),
              [x \in Extra(NExtra) \cup {"#a"} |-> IF x \in {"#e2", "#e5", "#e6", "#e9"} THEN "k2" ELSE ""]}

Init ==
    /\ saved \in InitSaved
    /\ joined = DOMAIN saved
    /\ refuse = {} /\ det = {} /\ up = TRUE /\ on = {} /\ last = "init"
    /\ RecInit([op |-> "init", saved |-> SetToSeq(SavedSet(saved, {}))])

Connect ==
    \E c \in Pick(Clients \ on) :
        /\ on' = on \cup {c} /\ last' = "connect"
        /\ UNCHANGED <<det, saved, joined, refuse, up>>
        /\ Rec([op |-> "connect", c |-> c,
                exp |-> Obs({}, [NoneC EXCEPT ![c] = AsSet({<<"JOIN", ch>> : ch \in IF up THEN joined \ det ELSE {}})], saved)])

Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c} /\ last' = "disconnect"
        /\ UNCHANGED <<det, saved, joined, refuse, up>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs({}, NoneC, saved)])

\* The network changes its mind about who may join.
Policy ==
    \E S \in Pick(SUBSET Chans) :
        /\ refuse' = S /\ last' = "policy"
        /\ UNCHANGED <<det, saved, joined, up, on>>
        /\ Rec([op |-> "policy", refuse |-> SetToSeq(S), exp |-> Obs({}, NoneC, saved)])

\* A client joins a channel.  The wish is saved whether or not the network
\* lets us in at once; a key is kept unless a new one is given.
Join ==
    \E c \in Pick(on), ch \in Pick(Chans), key \in Pick(Keys), upper \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET old == IF ch \in DOMAIN saved THEN saved[ch] ELSE ""
            s   == Put(saved, ch, IF key = "" THEN old ELSE key)
            ask == ch \notin joined
            in  == ask /\ ch \notin refuse
            att == ch \in det
        IN /\ up
           /\ att => ~ask
           /\ saved' = s /\ last' = "user" /\ det' = det \ {ch}
           /\ joined' = IF in THEN joined \cup {ch} ELSE joined
           /\ UNCHANGED <<refuse, up, on>>
           /\ Rec([op |-> "join", c |-> c, ch |-> ch, key |-> key, upper |-> upper,
                   exp |-> Obs(IF ask THEN {<<"JOIN", ch, key>>} ELSE {}, ToCl(IF in \/ att THEN {<<"JOIN", ch>>} ELSE {}), s)])

\* A client leaves a saved channel without parting it.
Detach ==
    \E c \in Pick(on), ch \in Pick(DOMAIN saved \cap Chans), upper \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        /\ up /\ last' = "detach"
        /\ det' = det \cup {ch}
        /\ UNCHANGED <<saved, joined, refuse, up, on>>
        /\ Rec([op |-> "part", c |-> c, ch |-> ch, reason |-> "detach", upper |-> upper,
                exp |-> Obs({}, ToCl(IF ch \in det THEN {} ELSE {<<"PART", ch>>}), saved)])

\* Several channels at once.
Join2 ==
    \E c \in Pick(on), p \in Pick({q \in Chans \X Chans : q[1] # q[2]}), k1 \in Pick(Keys), k2 \in Pick(Keys) :
        LET s1 == Put(saved, p[1], IF k1 = "" /\ p[1] \in DOMAIN saved THEN saved[p[1]] ELSE k1)
            s2 == Put(s1, p[2], IF k2 = "" /\ p[2] \in DOMAIN s1 THEN s1[p[2]] ELSE k2)
            ask == {<<p[1], k1>>, <<p[2], k2>>}
            ask2 == {a \in ask : a[1] \notin joined}
            in  == {a[1] : a \in ask2} \ refuse
        IN /\ up /\ Record
           /\ p[1] \notin det /\ p[2] \notin det
           /\ k2 # "" => k1 # ""
           /\ saved' = s2 /\ last' = "user"
           /\ joined' = joined \cup in
           /\ UNCHANGED <<det, refuse, up, on>>
           /\ Rec([op |-> "join2", c |-> c, chs |-> <<p[1], p[2]>>, keys |-> <<k1, k2>>,
                   exp |-> Obs({<<"JOIN", a[1], a[2]>> : a \in ask2}, ToCl({<<"JOIN", ch>> : ch \in in}), s2)])

\* Not a channel: refused, nothing saved, nothing sent.
JoinBad ==
    \E c \in Pick(on), name \in Pick({"bob", "a:b"}) :
        /\ up /\ last' = "badjoin"
        /\ UNCHANGED <<det, saved, joined, refuse, up, on>>
        /\ Rec([op |-> "join", c |-> c, ch |-> name, key |-> "", upper |-> FALSE,
                exp |-> Obs({}, [NoneC EXCEPT ![c] = AsSet({<<"refused">>})], saved)])

\* While the network is away nothing can be joined or left.
JoinDown ==
    \E c \in Pick(on), ch \in Pick(Chans), cmd \in Pick({"join", "part"}) :
        /\ ~up /\ last' = "down"
        /\ UNCHANGED <<det, saved, joined, refuse, up, on>>
        /\ Rec([op |-> cmd, c |-> c, ch |-> ch, key |-> "", upper |-> FALSE, reason |-> "",
                exp |-> Obs({}, [NoneC EXCEPT ![c] = AsSet({<<"refused">>})], saved)])

Part ==
    \E c \in Pick(on), ch \in Pick(Chans), reason \in Pick(IF Record THEN {"", "bye now"} ELSE {""}), upper \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET s == IF ch \in DOMAIN saved THEN Drop(saved, ch) ELSE saved
        IN /\ up
           /\ saved' = s /\ last' = "user"
           /\ det' = det \ {ch}
           /\ joined' = joined \ {ch}
           /\ UNCHANGED <<refuse, up, on>>
           /\ Rec([op |-> "part", c |-> c, ch |-> ch, reason |-> reason, upper |-> upper,
                   exp |-> Obs({<<"PART", ch, reason>>}, ToClMay(IF ch \in joined THEN {<<"PART", ch>>} ELSE {}, ch), s)])

\* Through the service.
Create ==
    \E c \in Pick(on), ch \in Pick(Chans), d \in Pick(IF Record THEN {"", "", " -detached false", " -detached true"} ELSE {"", " -detached true"}) :
        LET new == ch \notin DOMAIN saved
            s   == IF new THEN Put(saved, ch, "") ELSE saved
            in  == new /\ up /\ ch \notin refuse /\ ch \notin joined
            hid == new /\ d = " -detached true"
            \* It disappears, if it was shown.
            cls == IF hid THEN [x \in Clients |-> LET P == AsSet(IF x \in on THEN {<<"PART", ch>>} ELSE {}) IN IF up /\ ch \in joined THEN P ELSE [oneof |-> <<P, AsSet({})>>]]
                   ELSE ToCl(IF in THEN {<<"JOIN", ch>>} ELSE {})
        IN /\ saved' = s /\ last' = "user"
           /\ joined' = IF in THEN joined \cup {ch} ELSE joined
           /\ det' = IF hid THEN det \cup {ch} ELSE det
           /\ UNCHANGED <<refuse, up, on>>
           /\ Rec([op |-> "service", c |-> c, cmd |-> "channel create " \o ch \o d,
                   exp |-> Obs(IF new /\ up THEN {<<"JOIN", ch, "">>} ELSE {}, cls, s)])

Delete ==
    \E c \in Pick(on), ch \in Pick(Chans) :
        LET had == ch \in DOMAIN saved
            s   == IF had THEN Drop(saved, ch) ELSE saved
            out == had /\ up /\ ch \in joined
        IN /\ saved' = s /\ last' = "user"
           /\ det' = det \ {ch}
           /\ joined' = IF out THEN joined \ {ch} ELSE joined
           /\ UNCHANGED <<refuse, up, on>>
           /\ Rec([op |-> "service", c |-> c, cmd |-> "channel delete " \o ch,
                   exp |-> Obs(IF out THEN {<<"PART", ch, "">>} ELSE {}, ToClMay(IF out THEN {<<"PART", ch>>} ELSE {}, ch), s)])

\* Kicked, or parted by the network: the channel stays saved.
Kick ==
    \E ch \in Pick(joined \cap Chans), how \in Pick(IF Record THEN {"KICK", "PART"} ELSE {"KICK"}) :
        /\ up
        /\ joined' = joined \ {ch} /\ last' = "network"
        /\ UNCHANGED <<det, saved, refuse, up, on>>
        /\ Rec([op |-> "kick", ch |-> ch, how |-> how, exp |-> Obs({}, ToCl(IF ch \in det THEN {} ELSE {<<how, ch>>}), saved)])

\* The network makes us join a channel by itself: not saved.
Force ==
    \E ch \in Pick(Chans \ joined) :
        /\ up
        /\ joined' = joined \cup {ch} /\ last' = "network"
        /\ UNCHANGED <<det, saved, refuse, up, on>>
        /\ Rec([op |-> "force", ch |-> ch, exp |-> Obs({}, ToCl(IF ch \in det THEN {} ELSE {<<"JOIN", ch>>}), saved)])

\* An invitation to a saved channel is taken up at once, with its key;
\* otherwise it is shown.
Invite ==
    \E ch \in Pick(Chans) :
        LET auto == ch \in DOMAIN saved /\ ch \notin joined
            in   == auto /\ ch \notin refuse
        IN /\ up
           /\ joined' = IF in THEN joined \cup {ch} ELSE joined
           /\ last' = "network"
           /\ UNCHANGED <<det, saved, refuse, up, on>>
           /\ Rec([op |-> "invite", ch |-> ch,
                   exp |-> Obs(IF auto THEN {<<"JOIN", ch, saved[ch]>>} ELSE {},
                               ToCl(IF in THEN (IF ch \in det THEN {} ELSE {<<"JOIN", ch>>}) ELSE IF auto THEN {} ELSE {<<"INVITE", ch>>}), saved)])

Down ==
    /\ up
    /\ up' = FALSE /\ joined' = {} /\ last' = "network"
    /\ UNCHANGED <<det, saved, refuse, on>>
    /\ Rec([op |-> "down", exp |-> Obs({}, NoneC, saved)])

\* (Re)connected: exactly the saved channels are joined, with their keys.
Rejoins == {<<"JOIN", ch, saved[ch]>> : ch \in DOMAIN saved}
Up ==
    /\ ~up
    /\ up' = TRUE /\ joined' = DOMAIN saved \ refuse /\ last' = "network"
    /\ UNCHANGED <<det, saved, refuse, on>>
    /\ Rec([op |-> "up", exp |-> Obs(Rejoins, ToCl({<<"JOIN", ch>> : ch \in (DOMAIN saved \ refuse) \ det}), saved)])

\* Settings of the network change: it reconnects.
Update ==
    /\ Record /\ up
    /\ \E c \in Pick(on) :
        /\ joined' = DOMAIN saved \ refuse /\ last' = "network"
        /\ UNCHANGED <<det, saved, refuse, up, on>>
        /\ Rec([op |-> "update", c |-> c, exp |-> Obs(Rejoins, ToCl({<<"JOIN", ch>> : ch \in (DOMAIN saved \ refuse) \ det}), saved)])

\* The bouncer stops, or is killed, and starts again.
Restart ==
    \E how \in Pick({"restart", "crash"}) :
        /\ up' = TRUE /\ joined' = DOMAIN saved \ refuse /\ on' = {} /\ last' = how
        /\ UNCHANGED <<det, saved, refuse>>
        /\ Rec([op |-> how, exp |-> Obs(Rejoins, NoneC, saved)])

Next == Connect \/ Connect \/ Disconnect \/ Policy \/ Join \/ Join \/ Join2 \/ JoinBad \/ JoinDown \/ Part \/ Part \/ Detach \/ Detach \/ Create \/ Delete
        \/ Kick \/ Force \/ Invite \/ Down \/ Up \/ Up \/ Update \/ Restart

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A ch \in DOMAIN saved : saved[ch] \in {"", "k1", "k2"}
          /\ ~up => joined = {}
          /\ det \subseteq DOMAIN saved
\* Only the user changes what is saved.
OnlyUser == [][saved' # saved => last' = "user"]_vars
\* After every (re)connection we are in every saved channel that lets us in and in no other.
Rejoined == [][(~up /\ up') \/ last' \in {"restart", "crash"} => joined' = DOMAIN saved' \ refuse']_vars
=============================================================================
