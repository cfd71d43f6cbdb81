-------------------------------- MODULE Detach --------------------------------
(* Detached channels: the bouncer stays in, clients do not see the channel,   *)
(* except what they asked to be told about, and they catch up on return.      *)
EXTENDS Common

CONSTANTS MaxMsg

Chans   == IF Record THEN {"#a", "#b"} ELSE {"#a"}
Clients == {"c1", "c2"}       \* c1 acknowledges everything at once, c2 nothing
Filters == {"default", "none", "highlight", "message"}

VARIABLES
    store,    \* memory, fs or db
    on,
    det,      \* detached channels
    dpos,     \* [channel -> length of the log when it was detached]
    relay, reatt,   \* [channel -> filter]
    log,      \* [channel -> sequence of [id, hl, self]]
    rcpt,     \* [channel -> position acknowledged by c1's name, -1: none]
    part,     \* channels of which the member list has not arrived yet
    k

vars == <<store, on, det, dpos, relay, reatt, log, rcpt, part, k, hist>>

None == -1
Empty == [c \in Clients |-> [ch \in Chans |-> <<>>]]
\* All clients connected see the events ev in channel ch.
See(ch, ev) == [c \in Clients |-> [x \in Chans |-> IF c \in on /\ x = ch THEN ev[c] ELSE <<>>]]
Both(ev) == [c \in Clients |-> ev]
Obs(e, D) == [cl |-> e, db |-> AsSet(D)]

Hits(f, hl) == f = "message" \/ (f = "highlight" /\ hl)
RelayHits(f, hl) == Hits(f, hl) \/ (f = "default" /\ hl)

Stores == IF Record THEN {"memory", "fs", "db"} ELSE {"db"}
Init ==
    /\ store \in Stores
    /\ on = {} /\ det = {} /\ part = {} /\ k = 0
    /\ dpos = [ch \in Chans |-> None]
    /\ relay = [ch \in Chans |-> "default"] /\ reatt = [ch \in Chans |-> "default"]
    /\ log = [ch \in Chans |-> <<>>]
    /\ rcpt = [ch \in Chans |-> None]
    /\ RecInit([op |-> "init", store |-> store])

Names(ch) == IF ch \in part THEN <<>> ELSE <<<<"names">>>>
RelayEv(m) == <<"relay", m.id, IF m.self THEN "message from alice>" ELSE IF m.hl THEN "highlight" ELSE "message">>

\* c1 knows the conversation once it acknowledged something; the first line in
\* a channel starts it once c1 is known.
C1Known == \E ch \in Chans : rcpt[ch] # None
Start(r, ch) == IF r[ch] = None /\ (\E x \in Chans : r[x] # None) THEN [r EXCEPT ![ch] = Len(log[ch])] ELSE r
AckAll(r, ch, n) == IF "c1" \in on THEN [r EXCEPT ![ch] = n] ELSE r

Rows(ch, from) == SubSeq(log[ch], from + 1, Len(log[ch]))
MsgEvs(rows) == [i \in 1..Len(rows) |-> <<"msg", rows[i].id>>]
RelayEvs(rows, ch) == LET s == SelectSeq(rows, LAMBDA m : RelayHits(relay[ch], m.hl)) IN [i \in 1..Len(s) |-> RelayEv(s[i])]

\* What clients see when ch is attached.
AttachEv(ch) == <<<<"JOIN">>>> \o Names(ch) \o (IF dpos[ch] = None THEN <<>> ELSE MsgEvs(Rows(ch, dpos[ch])))

Connect ==
    \E c \in Pick(Clients \ on) :
        LET miss(ch) == IF c = "c1" /\ rcpt[ch] # None THEN Rows(ch, rcpt[ch]) ELSE <<>>
            ev(ch) == IF ch \in det THEN RelayEvs(miss(ch), ch)
                      ELSE <<<<"JOIN">>>> \o Names(ch) \o MsgEvs(miss(ch))
        IN /\ on' = on \cup {c}
           /\ rcpt' = IF c = "c1" THEN [ch \in Chans |-> IF rcpt[ch] = None THEN None ELSE Len(log[ch])] ELSE rcpt
           /\ UNCHANGED <<store, det, dpos, relay, reatt, log, part, k>>
           /\ Rec([op |-> "connect", c |-> c, exp |-> Obs([Empty EXCEPT ![c] = [ch \in Chans |-> ev(ch)]], det)])

Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c}
        /\ UNCHANGED <<store, det, dpos, relay, reatt, log, rcpt, part, k>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(Empty, det)])

DoDetach ==
    \E c \in Pick(on), ch \in Pick(Chans), how \in Pick(IF Record THEN {"part", "service", "Part"} ELSE {"part"}) :
        LET new == ch \notin det
        IN /\ det' = det \cup {ch}
           /\ dpos' = IF new THEN [dpos EXCEPT ![ch] = Len(log[ch])] ELSE dpos
           /\ UNCHANGED <<store, on, relay, reatt, log, rcpt, part, k>>
           /\ Rec([op |-> "detach", c |-> c, ch |-> ch, how |-> how,
                   exp |-> Obs(See(ch, Both(IF new THEN <<<<"PART">>>> ELSE <<>>)), det')])

DoAttach ==
    \E c \in Pick(on), ch \in Pick(Chans), how \in Pick(IF Record THEN {"join", "service"} ELSE {"join"}) :
        LET was == ch \in det
        IN /\ det' = det \ {ch}
           /\ dpos' = [dpos EXCEPT ![ch] = None]
           /\ UNCHANGED <<store, on, relay, reatt, log, rcpt, part, k>>
           /\ Rec([op |-> "attach", c |-> c, ch |-> ch, how |-> how,
                   exp |-> Obs(See(ch, Both(IF was THEN AttachEv(ch) ELSE <<>>)), det')])

Settings ==
    \E c \in Pick(on), ch \in Pick(Chans), f \in Pick(Filters), which \in Pick({"relay", "reatt"}) :
        /\ relay' = IF which = "relay" THEN [relay EXCEPT ![ch] = f] ELSE relay
        /\ reatt' = IF which = "reatt" THEN [reatt EXCEPT ![ch] = f] ELSE reatt
        /\ UNCHANGED <<store, on, det, dpos, log, rcpt, part, k>>
        /\ Rec([op |-> "set", c |-> c, ch |-> ch, which |-> which, f |-> f, exp |-> Obs(Empty, det)])

\* Settings which are not all right change nothing.
Wrong ==
    \E c \in Pick(on), ch \in Pick(Chans), f \in Pick(Filters), w \in Pick(IF Record THEN {"-relay-detached @ -reattach-on nope", "-relay-detached @ -reattach-on @ -detach-after soon", "-reattach-on @ -detach-after -5s", "-detached @@ -relay-detached @ -detach-on nope", "-relay-detached nope -reattach-on @", "-detached @@ -reattach-on @ nope"} ELSE {"-"}) :
        /\ UNCHANGED <<store, on, det, dpos, relay, reatt, log, rcpt, part, k>>
        /\ Rec([op |-> "wrong", c |-> c, ch |-> ch, w |-> w, f |-> f, d |-> ch \notin det, exp |-> Obs(Empty, det)])

\* A channel is detached by itself after a while, each time it has been attached.
Auto ==
    \E c \in Pick(on), ch \in Pick(Chans), twice \in Pick(BOOLEAN), f \in Pick(Filters) :
        LET was == ch \in det IN
        /\ det' = det \cup {ch}
        /\ dpos' = [dpos EXCEPT ![ch] = IF was /\ ~twice THEN @ ELSE Len(log[ch])]
        /\ UNCHANGED <<store, on, relay, reatt, log, rcpt, part, k>>
        /\ Rec([op |-> "auto", c |-> c, ch |-> ch, twice |-> twice, f |-> f, was |-> was,
                exp |-> Obs(See(ch, Both((IF was THEN <<>> ELSE <<<<"PART">>>>)
                                         \o (IF ~twice THEN <<>> ELSE <<<<"JOIN">>>> \o Names(ch) \o (IF was THEN MsgEvs(Rows(ch, dpos[ch])) ELSE <<>>) \o <<<<"PART">>>>))), det')])

\* Somebody writes in a channel.
UpMsg ==
    \E ch \in Pick(Chans), hl \in Pick(BOOLEAN), upper \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET m   == [id |-> k + 1, hl |-> hl, self |-> FALSE]
            d   == ch \in det
            rel == IF d /\ RelayHits(relay[ch], hl) THEN <<RelayEv(m)>> ELSE <<>>
            re  == d /\ Hits(reatt[ch], hl)
            ev  == rel \o (IF re THEN AttachEv(ch) ELSE <<>>) \o (IF d /\ ~re THEN <<>> ELSE <<<<"msg", m.id>>>>)
        IN /\ k < MaxMsg /\ k' = k + 1
           /\ det' = IF re THEN det \ {ch} ELSE det
           /\ dpos' = IF re THEN [dpos EXCEPT ![ch] = None] ELSE dpos
           /\ log' = [log EXCEPT ![ch] = Append(@, m)]
           /\ rcpt' = AckAll(Start(rcpt, ch), ch, Len(log[ch]) + 1)
           /\ UNCHANGED <<store, on, relay, reatt, part>>
           /\ Rec([op |-> "upmsg", ch |-> ch, hl |-> hl, id |-> m.id, upper |-> upper, exp |-> Obs(See(ch, Both(ev)), det')])

\* A client writes in a channel, attached or not.
Send ==
    \E c \in Pick(on), ch \in Pick(Chans) :
        LET m == [id |-> k + 1, hl |-> FALSE, self |-> TRUE]
        IN /\ k < MaxMsg /\ k' = k + 1
           /\ log' = [log EXCEPT ![ch] = Append(@, m)]
           /\ rcpt' = AckAll(Start(rcpt, ch), ch, Len(log[ch]) + 1)
           /\ UNCHANGED <<store, on, det, dpos, relay, reatt, part>>
           /\ Rec([op |-> "send", c |-> c, ch |-> ch, id |-> m.id,
                   exp |-> Obs(See(ch, [d \in Clients |-> IF d = c \/ ch \in det THEN <<>> ELSE <<<<"msg", m.id>>>>]), det)])

\* Other traffic of a channel.
Other ==
    \E ch \in Pick(Chans), what \in Pick({"JOIN", "TOPIC", "MODE"}) :
        /\ Record
        /\ rcpt' = Start(rcpt, ch)
        /\ UNCHANGED <<store, on, det, dpos, relay, reatt, log, part, k>>
        /\ Rec([op |-> "other", ch |-> ch, what |-> what,
                exp |-> Obs(See(ch, Both(IF ch \in det THEN <<>> ELSE <<<<what, "bob">>>>)), det)])

\* The network drops and comes back; member lists of the channels in S are late.
StartAll(r) == [ch \in Chans |-> IF r[ch] = None /\ (\E x \in Chans : r[x] # None) THEN Len(log[ch]) ELSE r[ch]]
Blip ==
    \E S \in Pick(SUBSET Chans) :
        /\ part' = S
        /\ rcpt' = StartAll(rcpt)
        /\ UNCHANGED <<store, on, det, dpos, relay, reatt, log, k>>
        /\ Rec([op |-> "blip", late |-> SetToSeq(S),
                exp |-> Obs([c \in Clients |-> [ch \in Chans |->
                   IF c \notin on \/ ch \in det THEN <<>> ELSE <<<<"JOIN">>>> \o (IF ch \in S THEN <<>> ELSE <<<<"names">>>>)]], det)])

LateNames ==
    \E ch \in Pick(part) :
        /\ part' = part \ {ch}
        /\ UNCHANGED <<store, on, det, dpos, relay, reatt, log, rcpt, k>>
        /\ Rec([op |-> "latenames", ch |-> ch, exp |-> Obs(See(ch, Both(IF ch \in det THEN <<>> ELSE <<<<"names">>>>)), det)])

Restart ==
    /\ store # "memory"
    /\ on' = {} /\ part' = {}
    /\ rcpt' = StartAll(rcpt)
    /\ UNCHANGED <<store, det, dpos, relay, reatt, log, k>>
    /\ Rec([op |-> "restart", exp |-> Obs(Empty, det)])

Next == Connect \/ Connect \/ Connect \/ Disconnect \/ DoDetach \/ DoDetach \/ DoDetach \/ DoAttach \/ Settings \/ Settings \/ Wrong \/ (IF Record THEN RandomElement(IF Len(hist) >= 0 THEN 1..3 ELSE {}) = 1 /\ Auto ELSE Auto)
        \/ UpMsg \/ UpMsg \/ UpMsg \/ UpMsg \/ Send \/ Other \/ Blip \/ LateNames \/ LateNames \/ Restart

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A ch \in Chans : (dpos[ch] # None) <=> (ch \in det)
          /\ \A ch \in Chans : dpos[ch] <= Len(log[ch]) /\ rcpt[ch] <= Len(log[ch])
\* Only a client or a chosen kind of message brings a channel back.
Reattached == [][\A ch \in det \ det' : \/ log' = log
                                        \/ reatt[ch] = "message"
                                        \/ (reatt[ch] = "highlight" /\ log'[ch][Len(log'[ch])].hl)]_vars
=============================================================================
