-------------------------------- MODULE Relay --------------------------------
(* Live message relaying between the networks and the clients of a bouncer.   *)
(*                                                                            *)
(* Two users, three networks (two of user a, one of user b), five clients.    *)
(* A client is bound to one network of its user, or to none.  The             *)
(* specification says, for every step, exactly which messages each client and *)
(* each network receives.                                                     *)
EXTENDS Common

CONSTANTS
    MaxMsg      \* number of messages in a behaviour

\* What the networks offer, chosen in the initial state.
CapsMixed == [A1 |-> {"message-tags", "server-time", "account-tag"},
              A2 |-> {},
              B1 |-> {"message-tags", "server-time", "echo-message", "labeled-response", "batch"},
              none |-> {"message-tags", "account-tag"}]
CapsEcho  == [A1 |-> {"message-tags", "server-time", "echo-message", "labeled-response", "batch"},
              A2 |-> {"message-tags", "account-tag"},
              B1 |-> {},
              none |-> {"message-tags", "account-tag"}]
CapsNone  == [A1 |-> {},
              A2 |-> {"message-tags", "echo-message"},
              B1 |-> {"account-tag"},
              none |-> {"message-tags", "account-tag"}]

Clients == {"c1", "c2", "c3", "c4", "c5"}
Nets    == {"A1", "A2", "B1"}
NetOf   == [c1 |-> "A1", c2 |-> "A1", c3 |-> "A2", c4 |-> "B1", c5 |-> "none"]
Req     == [c1 |-> {"echo-message", "server-time", "message-tags"},
            c2 |-> {},
            c3 |-> {"server-time", "account-tag"},
            c4 |-> {"message-tags", "echo-message"},
            c5 |-> {"message-tags"}]

Cmds    == {"PRIVMSG", "NOTICE", "TAGMSG"}
InTags  == {"time", "account", "+x"}

\* Argument sets: everything in generation, a few in exhaustive checking.
ArgCmds == IF Record THEN Cmds ELSE {"PRIVMSG", "TAGMSG"}
ArgSrcs == IF Record THEN {"bob", "me", "server"} ELSE {"bob"}
ArgTgts == IF Record THEN {"#a", "#A", "@#a", "me", "*"} ELSE {"#a"}
ArgTags == IF Record THEN SUBSET InTags ELSE {{}}
ArgLen  == IF Record THEN 1..3 ELSE 1..2

VARIABLES
    UpCaps,   \* [net -> set of capabilities the network offers]
    on,       \* clients connected
    up,       \* networks connected
    caps,     \* [client -> enabled capabilities]
    k,        \* messages so far
    log,      \* [net -> sequence of what the network carried]
    got       \* [client -> sequence of ids shown to the client]

vars == <<UpCaps, on, up, caps, k, log, got, hist>>

Echoes(n)  == {"echo-message", "labeled-response"} \subseteq UpCaps[n]
HasTags(n) == "message-tags" \in UpCaps[n]

\* Capabilities a client keeps when its network is connected.
NeedUp == {"message-tags", "account-tag"}
KeepCaps(C, n) == {x \in C : x \in NeedUp => x \in UpCaps[n]}

TagOrd == <<"time", "account", "+x">>
\* The tags client c is shown when a message carries tags T (the bouncer
\* always knows the time).
ShownTags(c, T) ==
    LET all == T \cup {"time"}
        vis == IF "message-tags" \in caps[c] THEN all
               ELSE {t \in all : \/ t = "time" /\ "server-time" \in caps[c]
                                 \/ t = "account" /\ "account-tag" \in caps[c]}
    IN SeqOfSet(vis, TagOrd)

Wire(c, m) == <<m.cmd, m.src, m.tgt, m.id, ShownTags(c, m.tags)>>

\* Who is shown message m on network n: every connected client bound to n,
\* except an author which didn't ask for echoes, except TAGMSG for clients
\* without message tags.
Receives(c, n, m) ==
    /\ c \in on
    /\ NetOf[c] = n
    /\ m.origin = c => "echo-message" \in caps[c]
    /\ m.cmd = "TAGMSG" => "message-tags" \in caps[c]

Deliver(c, n, ms) == FlatSeq([i \in 1..Len(ms) |-> IF Receives(c, n, ms[i]) THEN <<Wire(c, ms[i])>> ELSE <<>>])

NoneC == [c \in Clients |-> <<>>]
NoneN == [n \in Nets |-> <<>>]

Carry(n, ms) ==
    /\ log' = [log EXCEPT ![n] = @ \o [i \in 1..Len(ms) |-> [id |-> ms[i].id, origin |-> ms[i].origin,
                  seen |-> {c \in Clients : Receives(c, n, ms[i])}]]]
    /\ got' = [c \in Clients |-> got[c] \o FlatSeq([i \in 1..Len(ms) |->
                  IF Receives(c, n, ms[i]) THEN <<ms[i].id>> ELSE <<>>])]

Init ==
    /\ on = {} /\ up = Nets /\ k = 0
    /\ caps = [c \in Clients |-> {}]
    /\ log = [n \in Nets |-> <<>>]
    /\ got = [c \in Clients |-> <<>>]
    /\ UpCaps \in {CapsMixed, CapsEcho, CapsNone}
    /\ RecInit([op |-> "init", upcaps |-> UpCaps, req |-> Req, netof |-> NetOf])

Connect ==
    \E c \in Pick(Clients \ on) :
        /\ on' = on \cup {c}
        /\ caps' = [caps EXCEPT ![c] = IF NetOf[c] \in up THEN KeepCaps(Req[c], NetOf[c]) ELSE Req[c]]
        /\ UNCHANGED <<up, k, log, got>>
        /\ Rec([op |-> "connect", c |-> c, exp |-> [cl |-> NoneC, up |-> NoneN]])

Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c}
        /\ caps' = [caps EXCEPT ![c] = {}]
        /\ UNCHANGED <<up, k, log, got>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> [cl |-> NoneC, up |-> NoneN]])

Down ==
    \E n \in Pick(up) :
        /\ up' = up \ {n}
        /\ UNCHANGED <<on, caps, k, log, got>>
        /\ Rec([op |-> "down", n |-> n, exp |-> [cl |-> NoneC, up |-> NoneN]])

Up ==
    \E n \in Pick(Nets \ up) :
        /\ up' = up \cup {n}
        /\ caps' = [c \in Clients |-> IF NetOf[c] = n /\ c \in on THEN KeepCaps(caps[c], n) ELSE caps[c]]
        /\ UNCHANGED <<on, k, log, got>>
        /\ Rec([op |-> "up", n |-> n, exp |-> [cl |-> NoneC, up |-> NoneN]])

\* The network sends messages to the bouncer, possibly several at once.
UpMsgs ==
    \E n \in Pick(up), len \in Pick(ArgLen) :
    \E cmd \in Pick([1..len -> ArgCmds]), src \in Pick([1..len -> ArgSrcs]),
       tgt \in Pick([1..len -> ArgTgts]), T \in Pick([1..len -> ArgTags]) :
        LET ms == [i \in 1..len |-> [cmd |-> cmd[i], src |-> src[i], tgt |-> tgt[i], id |-> k + i,
                                     tags |-> T[i], origin |-> "none"]]
        IN /\ k + len <= MaxMsg
           /\ k' = k + len
           /\ Carry(n, ms)
           /\ UNCHANGED <<on, up, caps>>
           /\ Rec([op |-> "upmsgs", n |-> n,
                   msgs |-> [i \in 1..len |-> <<cmd[i], src[i], tgt[i], k + i, SeqOfSet(T[i], TagOrd)>>],
                   exp |-> [cl |-> [c \in Clients |-> Deliver(c, n, ms)], up |-> NoneN]])

\* A client sends one message to one or several targets.
Targets == IF ~Record THEN {<<"#a">>} ELSE {<<"#a">>, <<"bob">>, <<"#A">>, <<"#a", "bob">>, <<"@#a">>}
Send ==
    \E c \in Pick(on) : \E cmd \in Pick(ArgCmds), ts \in Pick(Targets), T \in Pick(IF Record THEN {{}, {"+x"}} ELSE {{}}) :
        LET n  == NetOf[c]
            id == k + 1
            ms == [i \in 1..Len(ts) |-> [cmd |-> cmd, src |-> "me", tgt |-> ts[i], id |-> id,
                       tags |-> IF HasTags(n) \/ ~Echoes(n) THEN T ELSE {}, origin |-> c]]
        IN /\ id <= MaxMsg
           /\ n \in up
           /\ cmd = "TAGMSG" => HasTags(n)
           /\ k' = id
           /\ Carry(n, ms)
           /\ UNCHANGED <<on, up, caps>>
           /\ Rec([op |-> "send", c |-> c, cmd |-> cmd, tgts |-> ts, id |-> id, tags |-> SeqOfSet(T, TagOrd),
                   exp |-> [cl |-> [d \in Clients |-> Deliver(d, n, ms)],
                            up |-> [m \in Nets |-> IF m # n THEN <<>> ELSE
                                [i \in 1..Len(ts) |-> <<cmd, ts[i], id, IF HasTags(n) THEN SeqOfSet(T, TagOrd) ELSE <<>> >>]]]])

\* A message nobody can carry is refused, to its author only.
SendRefused ==
    \E c \in Pick(on) : \E cmd \in Pick({"PRIVMSG", "NOTICE"}), t \in Pick({"#a", "bob"}) :
        /\ NetOf[c] \notin up
        /\ k < MaxMsg
        /\ k' = k + 1
        /\ UNCHANGED <<on, up, caps, log, got>>
        /\ Rec([op |-> "send", c |-> c, cmd |-> cmd, tgts |-> <<t>>, id |-> k + 1, tags |-> <<>>,
                exp |-> [cl |-> [d \in Clients |-> IF d = c THEN <<<<"refused">>>> ELSE <<>>], up |-> NoneN]])

Next0 == Connect \/ Connect \/ Disconnect \/ Down \/ Up \/ Up \/ UpMsgs \/ UpMsgs \/ UpMsgs \/ Send \/ Send \/ Send \/ SendRefused

Next == Next0 /\ UNCHANGED UpCaps

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == on \subseteq Clients /\ up \subseteq Nets /\ k \in 0..MaxMsg

Ids(s) == {s[i] : i \in 1..Len(s)}
\* A client is only shown messages of its own network.
Isolation == \A c \in Clients : \A i \in 1..Len(got[c]) :
                NetOf[c] \in Nets /\ \E j \in 1..Len(log[NetOf[c]]) : log[NetOf[c]][j].id = got[c][i]
\* What a client was shown is what its network carried while it was there, in order.
InOrder == \A c \in Clients : NetOf[c] \in Nets =>
                got[c] = LET s == SelectSeq(log[NetOf[c]], LAMBDA r : c \in r.seen)
                         IN [i \in 1..Len(s) |-> s[i].id]
\* Clients of different networks never share a message.
NoLeak == \A c, d \in Clients : NetOf[c] # NetOf[d] => Ids(got[c]) \cap Ids(got[d]) = {}
=============================================================================
