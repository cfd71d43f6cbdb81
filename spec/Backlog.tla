------------------------------- MODULE Backlog -------------------------------
(* What a returning client is sent: delivery receipts and backlog.            *)
(*                                                                            *)
(* One user, one network with the conversations #a, #b, bob and carol.        *)
(* Clients have a name; progress is kept per name and conversation.  A client *)
(* acknowledges messages one by one, in order, possibly late or never.        *)
EXTENDS Common

CONSTANTS MaxMsg

Bufs    == {"#a", "#b", "bob", "carol"}
Clients == {"c1", "c2", "c3", "c4", "c5"}
\* c1 and c2 share a name; c4 has no name; c5 pulls history by itself.
NameOf  == [c1 |-> "x", c2 |-> "x", c3 |-> "y", c4 |-> "", c5 |-> "z"]
Names   == {"x", "y", "", "z"}
Req     == [c1 |-> <<"batch", "server-time">>, c2 |-> <<>>, c3 |-> <<"echo-message">>, c4 |-> <<"message-tags">>,
            c5 |-> <<"draft/chathistory", "batch", "server-time", "message-tags">>]
Pulls(c) == c = "c5"

ArgCl   == IF Record THEN Clients ELSE {"c1", "c3", "c5"}
ArgBufs == IF Record THEN Bufs ELSE {"#a", "bob"}

VARIABLES
    store,    \* memory, fs or db
    on,       \* clients connected
    log,      \* [conversation -> sequence of message ids]
    rcpt,     \* [name -> [conversation -> position acknowledged, -1: none]]
    out,      \* channels we were removed from
    pend,     \* [client -> sequence of <<conversation, position>> to acknowledge]
    k,
    shown,    \* ghost: [name -> ids sent to a client of that name]
    since     \* ghost: [name -> [conversation -> where the name started following it]]

vars == <<store, on, log, rcpt, out, pend, k, shown, since, hist>>

None  == -1
NoneC == [c \in Clients |-> <<>>]
Known(b) == \E m \in Names : rcpt[m][b] # None
AnyKnown == \E b \in Bufs : Known(b)
KnownNames == {m \in Names : \E b \in Bufs : rcpt[m][b] # None}

Stores == IF Record THEN {"memory", "fs", "db"} ELSE {"memory", "db"}

Init ==
    /\ store \in Stores
    /\ on = {} /\ out = {} /\ k = 0
    /\ log = [b \in Bufs |-> <<>>]
    /\ rcpt = [m \in Names |-> [b \in Bufs |-> None]]
    /\ pend = [c \in Clients |-> <<>>]
    /\ shown = [m \in Names |-> {}]
    /\ since = rcpt
    /\ RecInit([op |-> "init", store |-> store, req |-> Req, names |-> NameOf])

\* The first message of a conversation starts it for every known name.
StartConv(b) == IF AnyKnown /\ ~Known(b)
                THEN [m \in Names |-> IF m \in KnownNames THEN [rcpt[m] EXCEPT ![b] = Len(log[b])] ELSE rcpt[m]]
                ELSE rcpt

\* Joining the saved channels again, after a reconnection, starts them too.
Rejoined(r) ==
    LET names == {m \in Names : \E b \in Bufs : r[m][b] # None}
        new   == {b \in {"#a", "#b"} : \A m \in Names : r[m][b] = None}
    IN [m \in Names |-> [b \in Bufs |-> IF m \in names /\ b \in new THEN Len(log[b]) ELSE r[m][b]]]

\* A message id enters conversation b; origin is the client who wrote it.
Append1(b, id, origin) ==
    /\ k' = id
    /\ log' = [log EXCEPT ![b] = Append(@, id)]
    /\ rcpt' = StartConv(b)
    /\ pend' = [c \in Clients |-> IF c \in on /\ ~Pulls(c) THEN Append(pend[c], <<b, Len(log[b]) + 1>>) ELSE pend[c]]
    /\ shown' = [m \in Names |-> shown[m] \cup (IF \E c \in on : NameOf[c] = m THEN {id} ELSE {})]

Shows(c, origin) == c \in on /\ (c = origin => c = "c3")
Live(b, id, origin) == [c \in Clients |-> IF Shows(c, origin) THEN <<<<b, id>>>> ELSE <<>>]

UpMsg ==
    \E b \in Pick(ArgBufs \ out), cmd \in Pick(IF Record THEN {"PRIVMSG", "NOTICE"} ELSE {"PRIVMSG"}), up \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        /\ k < MaxMsg
        /\ Append1(b, k + 1, "none")
        /\ UNCHANGED <<out, store, on>>
        /\ Rec([op |-> "upmsg", b |-> b, cmd |-> cmd, id |-> k + 1, upper |-> up, exp |-> Live(b, k + 1, "none")])

Send ==
    \E c \in Pick(on \cap ArgCl), b \in Pick(ArgBufs \ out), up \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        /\ k < MaxMsg
        /\ Append1(b, k + 1, c)
        /\ UNCHANGED <<out, store, on>>
        /\ Rec([op |-> "send", c |-> c, b |-> b, id |-> k + 1, upper |-> up, exp |-> Live(b, k + 1, c)])

\* A client acknowledges the first j messages.
Ack ==
    \E c \in Pick(on \cap ArgCl) : \E j \in Pick(1..Len(pend[c])) :
        /\ rcpt' = [rcpt EXCEPT ![NameOf[c]] = [b \in Bufs |->
                     LET ps == {pend[c][i][2] : i \in {i \in 1..j : pend[c][i][1] = b}}
                     IN IF ps = {} THEN rcpt[NameOf[c]][b] ELSE Max(ps)]]
        /\ pend' = [pend EXCEPT ![c] = SubSeq(@, j + 1, Len(@))]
        /\ UNCHANGED <<out, store, on, log, k, shown>>
        /\ Rec([op |-> "ack", c |-> c, j |-> j, exp |-> NoneC])

Others(c) == {d \in on \ {c} : NameOf[d] = NameOf[c]}
Missed(m, b) == IF rcpt[m][b] = None THEN <<>> ELSE SubSeq(log[b], rcpt[m][b] + 1, Len(log[b]))

Connect ==
    \E c \in Pick(ArgCl \ on) :
        LET m == NameOf[c]
            first == Others(c) = {} /\ ~Pulls(c)
            miss == [b \in Bufs |-> IF first THEN Missed(m, b) ELSE <<>>]
            flat == FlatSeq([i \in 1..4 |-> LET b == <<"#a", "#b", "bob", "carol">>[i]
                                            IN [x \in 1..Len(miss[b]) |-> <<b, miss[b][x]>>]])
        IN /\ on' = on \cup {c}
           /\ pend' = [pend EXCEPT ![c] = <<>>]
           /\ rcpt' = IF first THEN [rcpt EXCEPT ![m] = [b \in Bufs |-> IF rcpt[m][b] = None THEN None ELSE Len(log[b])]] ELSE rcpt
           /\ shown' = [shown EXCEPT ![m] = @ \cup UNION {{miss[b][i] : i \in 1..Len(miss[b])} : b \in Bufs}]
           /\ UNCHANGED <<out, store, log, k>>
           /\ Rec([op |-> "connect", c |-> c, exp |-> [NoneC EXCEPT ![c] = flat]])

Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c}
        /\ pend' = [pend EXCEPT ![c] = <<>>]
        /\ UNCHANGED <<out, store, log, rcpt, k, shown>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> NoneC])

\* The network drops and comes back, or its settings change: nothing is lost.
Blip ==
    \E how \in Pick(IF Record THEN {"drop", "rename", "realname"} ELSE {"drop"}) :
        /\ rcpt' = Rejoined(rcpt) /\ out' = {}
        /\ UNCHANGED <<store, on, log, pend, k, shown>>
        /\ Rec([op |-> "blip", how |-> how, exp |-> NoneC])

\* We are removed from a channel, or return to it: what was missed there is still owed.
Kick ==
    \E b \in Pick({"#a", "#b"} \cap ArgBufs), how \in Pick(IF Record THEN {"KICK", "PART"} ELSE {"KICK"}) :
        /\ out' = IF b \in out THEN out \ {b} ELSE out \cup {b}
        /\ rcpt' = StartConv(b)
        /\ UNCHANGED <<store, on, log, pend, k, shown>>
        /\ Rec([op |-> IF b \in out THEN "return" ELSE "kick", how |-> how, b |-> b, exp |-> NoneC])

\* A graceful restart keeps everything, unless messages are kept in memory.
Restart ==
    /\ on' = {} /\ out' = {}
    /\ pend' = [c \in Clients |-> <<>>]
    /\ log' = IF store = "memory" THEN [b \in Bufs |-> <<>>] ELSE log
    /\ rcpt' = IF store = "memory" THEN [m \in Names |-> [b \in Bufs |-> None]] ELSE Rejoined(rcpt)
    /\ shown' = IF store = "memory" THEN [m \in Names |-> {}] ELSE shown
    /\ UNCHANGED <<store, k>>
    /\ Rec([op |-> "restart", exp |-> NoneC])

Next0 == UpMsg \/ UpMsg \/ UpMsg \/ UpMsg \/ Send \/ Send \/ Ack \/ Ack \/ Ack \/ Connect \/ Connect \/ Connect
        \/ Disconnect \/ Disconnect \/ Kick \/ Blip \/ Restart

Next == /\ Next0
        /\ since' = [m \in Names |-> [b \in Bufs |->
              IF rcpt'[m][b] = None THEN None
              ELSE IF rcpt[m][b] = None THEN rcpt'[m][b] ELSE since[m][b]]]

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
TypeOK == /\ \A m \in Names, b \in Bufs : rcpt[m][b] \in -1..Len(log[b])

Ids(s) == {s[i] : i \in 1..Len(s)}
\* Once a name follows a conversation, its receipt never passes over a message
\* that was not sent to a client of that name.
NoSkip == \A m \in Names, b \in Bufs :
    rcpt[m][b] # None => \A i \in (since[m][b] + 1)..rcpt[m][b] : log[b][i] \in shown[m]
\* Following a conversation is never undone (but a restart with messages in memory forgets everything).
Follows == [][\A m \in Names, b \in Bufs : rcpt[m][b] # None => (rcpt'[m][b] # None \/ log' = [x \in Bufs |-> <<>>])]_vars
\* Nothing acknowledged is sent again: what will be sent lies beyond the receipt.
Conn == \A c \in on : \A i \in 1..Len(pend[c]) : pend[c][i][2] <= Len(log[pend[c][i][1]])
=============================================================================
