-------------------------------- MODULE Hist --------------------------------
(* Message history: what CHATHISTORY and SEARCH answer, from what happened.   *)
EXTENDS Common

CONSTANTS MaxMsg

Nets    == IF Record THEN {"n1", "n2"} ELSE {"n1"}
Chans   == IF Record THEN {"#chan", "#two"} ELSE {"#chan"}
\* Two people, each with two nicknames, as the network writes them.
Actors  == IF Record THEN {1, 2} ELSE {1}
NickA(a, alt) == IF a = 1 THEN (IF alt THEN "Bob[x]" ELSE "Bob") ELSE (IF alt THEN "eve" ELSE "Eve_")
\* Names of conversations (case-folded).
Fold(n) == CASE n = "Bob[x]" -> "bob[x]" [] n = "Bob" -> "bob" [] n = "eve" -> "eve" [] n = "Eve_" -> "eve_" [] OTHER -> n
People  == {"bob", "bob[x]", "eve", "eve_"}
Targets == IF Record THEN Chans \cup People ELSE Chans \cup {"bob"}

Endings == IF Record
            THEN {[s |-> "apple", w |-> {"apple"}], [s |-> "pear tree", w |-> {"pear"}], [s |-> "apple pear", w |-> {"apple", "pear", "apple pear"}],
                  [s |-> "an APPLE> y", w |-> {"apple"}], [s |-> "(x) - it's 'q' ", w |-> {}], [s |-> "*** Joins: x (a@b)", w |-> {}], [s |-> "", w |-> {}]}
            ELSE {[s |-> "apple", w |-> {"apple"}]}
TextKinds == {"PRIVMSG", "NOTICE", "ACTION"}

VARIABLES
    store,   \* fs or db
    tz,      \* offset of the local time zone, in minutes
    play,    \* the clients asked for events
    batch,   \* the clients asked for batches
    now,     \* time, in ticks
    alt,     \* [actor -> uses their second nickname]
    where,   \* [net -> [actor -> channels they are in]]
    log,     \* [net -> [target -> sequence of [k, f, x, to, t, w]]]
    k

vars == <<store, tz, play, batch, now, alt, where, log, k, hist>>

Nick(a) == NickA(a, alt[a])
Me == "alice"

Ent(kind, f, x, to, t, w) == [k |-> kind, f |-> f, x |-> x, to |-> to, t |-> t, w |-> w]

Init ==
    /\ store \in (IF Record THEN {"fs", "db"} ELSE {"db"})
    /\ tz \in (IF Record THEN {0, 330, -480} ELSE {0})
    /\ play \in BOOLEAN /\ batch \in (IF Record THEN BOOLEAN ELSE {TRUE})
    /\ now = 1 /\ k = 0
    /\ alt = [a \in Actors |-> FALSE]
    /\ where = [n \in Nets |-> [a \in Actors |-> Chans]]
    /\ log = [n \in Nets |-> [t \in Targets |-> IF t \in Chans THEN <<Ent("JOIN", Me, "", t, 1, {})>> ELSE <<>>]]
    /\ RecInit([op |-> "init", store |-> store, tz |-> tz, play |-> play, batch |-> batch])

Stamp == IF Record THEN {now, now + 1, now + 2, now + 3} ELSE {now, now + 1}
Add(n, S, e) == [log EXCEPT ![n] = [t \in Targets |-> IF t \in S THEN Append(@[t], e) ELSE @[t]]]

Said ==
    \E n \in Pick(Nets), a \in Pick(Actors), t \in Pick(Targets), T \in Pick(Stamp), sfx \in Pick(Endings), kind \in Pick(IF Record THEN TextKinds ELSE {"PRIVMSG"}), me \in Pick(BOOLEAN) :
        LET inchan == t \in Chans
            f   == IF me THEN Me ELSE Nick(a)
            x   == "m" \o ToString(k + 1) \o " " \o sfx.s
            tgt == IF inchan THEN t ELSE IF me THEN t ELSE Fold(Nick(a))
            to  == IF inchan \/ me THEN tgt ELSE Me
        IN /\ k < MaxMsg /\ k' = k + 1 /\ now' = T
           /\ (inchan /\ ~me) => t \in where[n][a]
           /\ ~inchan => t \in Targets /\ tgt \in Targets
           /\ log' = Add(n, {tgt}, Ent(kind, f, x, to, T, sfx.w))
           /\ UNCHANGED <<store, tz, play, batch, alt, where>>
           /\ Rec([op |-> "say", net |-> n, self |-> me, f |-> f, tgt |-> tgt, to |-> to, kind |-> kind, x |-> x, t |-> T, exp |-> <<>>])

Ev(n, f, kind, line, T) == [op |-> "event", net |-> n, f |-> f, kind |-> kind, line |-> line, t |-> T, exp |-> <<>>]
Event ==
    \E n \in Pick(Nets), a \in Pick(Actors), ch \in Pick(Chans), T \in Pick(Stamp), r \in Pick(IF Record THEN {"", "bye", "(so long)"} ELSE {""}),
       kind \in Pick(IF Record THEN {"JOIN", "PART", "QUIT", "KICK", "TOPIC", "MODE"} ELSE {"JOIN", "QUIT"}) :
        LET in == ch \in where[n][a]
            f  == Nick(a)
            x  == CASE kind = "KICK" -> "eve2 " \o r [] kind = "MODE" -> "+b *!*@" \o f [] kind = "JOIN" -> "" [] OTHER -> r
        IN /\ kind = "JOIN" => ~in
           /\ kind \in {"PART", "KICK", "TOPIC", "MODE"} => in
           /\ kind = "QUIT" => where[n][a] # {}
           /\ k < MaxMsg /\ k' = k + 1 /\ now' = T
           /\ where' = [where EXCEPT ![n][a] = CASE kind = "JOIN" -> @ \cup {ch} [] kind = "PART" -> @ \ {ch} [] kind = "QUIT" -> {} [] OTHER -> @]
           /\ log' = Add(n, IF kind = "QUIT" THEN where[n][a] ELSE {ch}, Ent(kind, f, x, IF kind = "QUIT" THEN "" ELSE ch, T, {}))
           /\ UNCHANGED <<store, tz, play, batch, alt>>
           /\ Rec([op |-> "event", net |-> n, f |-> f, kind |-> kind, ch |-> ch, x |-> x, r |-> r, t |-> T, exp |-> <<>>])

\* A person changes nickname on every network.
NickChange ==
    \E a \in Pick(Actors), T \in Pick(Stamp) :
        LET new == NickA(a, ~alt[a])
        IN /\ Record
           /\ now' = T
           /\ alt' = [alt EXCEPT ![a] = ~@]
           /\ log' = [n \in Nets |-> [t \in Targets |-> IF t \in where[n][a] THEN Append(log[n][t], Ent("NICK", Nick(a), new, "", T, {})) ELSE log[n][t]]]
           /\ UNCHANGED <<store, tz, play, batch, where, k>>
           /\ Rec([op |-> "nick", f |-> Nick(a), new |-> new, nets |-> SetToSeq({n \in Nets : where[n][a] # {}}), t |-> T, exp |-> <<>>])

-----------------------------------------------------------------------------
Shown(n, t, ev) == SelectSeq(log[n][t], LAMBDA e : ev \/ e.k \in TextKinds)
First(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Last_(s, n) == SubSeq(s, (IF n < Len(s) THEN Len(s) - n ELSE 0) + 1, Len(s))
\* Bounds are in half ticks, so that they may fall between messages.
Before(s, b) == SelectSeq(s, LAMBDA e : 2 * e.t < b)
After(s, b)  == SelectSeq(s, LAMBDA e : 2 * e.t > b)
Answer(s, sub, b0, b1, lim) ==
    CASE sub = "BEFORE"  -> Last_(Before(s, b0), lim)
      [] sub = "AFTER"   -> First(After(s, b0), lim)
      [] sub = "LATEST*" -> Last_(s, lim)
      [] sub = "LATEST"  -> Last_(After(s, b0), lim)
      [] sub = "BETWEEN" -> IF b0 < b1 THEN First(Before(After(s, b0), b1), lim) ELSE Last_(Before(After(s, b1), b0), lim)

Rows(s) == [i \in 1..Len(s) |-> [k |-> s[i].k, f |-> s[i].f, x |-> s[i].x, to |-> s[i].to, t |-> s[i].t]]
Bounds == IF Record THEN 0..(2 * now + 2) ELSE {2, 3, 4}
Limits == IF Record THEN {0, 1, 2, 3, 5, 50, 1000} ELSE {1, 2}

Query ==
    \E n \in Pick(Nets), t \in Pick(Targets), sub \in Pick({"BEFORE", "AFTER", "LATEST*", "LATEST", "BETWEEN"}), b0 \in Pick(Bounds), b1 \in Pick(Bounds),
       lim \in Pick(Limits), upper \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        /\ UNCHANGED <<store, tz, play, batch, now, alt, where, log, k>>
        /\ Rec([op |-> "query", net |-> n, tgt |-> t, upper |-> upper, sub |-> sub, b0 |-> b0, b1 |-> b1, lim |-> lim,
                exp |-> [rows |-> Rows(Answer(Shown(n, t, play), sub, b0, b1, lim)), tgt |-> t]])

\* Conversations active between two dates, by date of their last message.
Latest(n, t) == LET s == Shown(n, t, play) IN IF s = <<>> THEN 0 ELSE s[Len(s)].t
QTargets ==
    \E n \in Pick(Nets), b0 \in Pick(Bounds), b1 \in Pick(Bounds), lim \in Pick(Limits) :
        LET lo == IF b0 < b1 THEN b0 ELSE b1
            hi == IF b0 < b1 THEN b1 ELSE b0
            C  == {t \in Targets : Latest(n, t) # 0 /\ 2 * Latest(n, t) > lo /\ 2 * Latest(n, t) < hi}
            tie == \E t, u \in C : t # u /\ Latest(n, t) = Latest(n, u)
            row(t) == [name |-> t, t |-> Latest(n, t)]
            sorted == SetToSortSeq(C, LAMBDA t, u : IF b0 < b1 THEN Latest(n, t) < Latest(n, u) ELSE Latest(n, t) > Latest(n, u))
            few == First(sorted, lim)
            ans == IF b0 < b1 THEN few ELSE Reverse(few)
        IN /\ store = "db"
           /\ UNCHANGED <<store, tz, play, batch, now, alt, where, log, k>>
           /\ Rec([op |-> "targets", net |-> n, b0 |-> b0, b1 |-> b1, lim |-> lim,
                   exp |-> IF ~tie THEN [targets |-> [i \in 1..Len(ans) |-> row(ans[i])]]
                           ELSE IF Cardinality(C) <= lim THEN [targets |-> AsSet({row(t) : t \in C})] ELSE [any |-> TRUE]])
\* The file-system store dates conversations by file: only their names are known.
QTargetsFS ==
    \E n \in Pick(Nets) :
        LET all == {t \in Targets : log[n][t] # <<>>}
            txt == {t \in Targets : Shown(n, t, play) # <<>>}
        IN /\ store = "fs"
           /\ UNCHANGED <<store, tz, play, batch, now, alt, where, log, k>>
           /\ Rec([op |-> "targetsfs", net |-> n, exp |-> [oneof |-> << [names |-> AsSet(all)], [names |-> AsSet(txt)] >>]])

Search ==
    \E n \in Pick(Nets), t \in Pick(Targets), from \in Pick({"", "", Me} \cup {Nick(a) : a \in Actors}), text \in Pick({"", "apple", "PEAR", "apple pear"}),
       b0 \in Pick({-1} \cup Bounds), b1 \in Pick({-1, -2, -3} \cup Bounds), lim \in Pick({-1, 1, 2, 3, 50}) :
        LET w == IF text = "PEAR" THEN "pear" ELSE text
            s == SelectSeq(Shown(n, t, FALSE), LAMBDA e : (from = "" \/ e.f = from) /\ (w = "" \/ w \in e.w)
                                              /\ (b0 < 0 \/ 2 * e.t > b0) /\ (b1 < 0 \/ 2 * e.t < b1))
            l == IF lim < 0 THEN 100 ELSE lim
        IN /\ Record
           /\ UNCHANGED <<store, tz, play, batch, now, alt, where, log, k>>
           /\ Rec([op |-> "search", net |-> n, tgt |-> t, from |-> from, text |-> text, b0 |-> b0, b1 |-> b1, lim |-> lim,
                   exp |-> [rows |-> Rows(IF store = "fs" /\ b0 >= 0 THEN First(s, l) ELSE Last_(s, l))]])

\* Requests that make no sense are refused.
BadQuery ==
    \E n \in Pick(Nets), what \in Pick({"limit1001", "limit-1", "limitx", "bound", "bound2", "sub", "searchlimit", "searchin", "searchbound"}) :
        /\ Record
        /\ UNCHANGED <<store, tz, play, batch, now, alt, where, log, k>>
        /\ Rec([op |-> "bad", net |-> n, what |-> what, exp |-> [fail |-> TRUE]])

\* The bouncer is restarted or killed; a network is renamed.
Disturb ==
    \E how \in Pick({"restart", "crash", "rename"}), n \in Pick(Nets) :
        /\ Record
        \* channels are joined again
        /\ log' = [m \in Nets |-> [t \in Targets |-> IF t \in Chans /\ (how # "rename" \/ m = n) THEN Append(log[m][t], Ent("JOIN", Me, "", t, now, {})) ELSE log[m][t]]]
        /\ UNCHANGED <<store, tz, play, batch, now, alt, where, k>>
        /\ Rec([op |-> how, net |-> n, inch |-> [m \in Nets |-> [ch \in Chans |-> SetToSeq({Nick(a) : a \in {b \in Actors : ch \in where[m][b]}})]], exp |-> <<>>])

Next == Said \/ Said \/ Said \/ Said \/ Said \/ Said \/ Event \/ Event \/ NickChange \/ Query \/ Query \/ Query \/ Query \/ Query
        \/ QTargets \/ QTargetsFS \/ Search \/ Search \/ Search \/ BadQuery \/ Disturb

Spec == Init /\ [][Next]_vars
Bounded == now <= 4
-----------------------------------------------------------------------------
\* Logs are in order of time, and only grow.
InOrder == \A n \in Nets, t \in Targets : \A i \in 1..(Len(log[n][t]) - 1) : log[n][t][i].t <= log[n][t][i + 1].t
Grows == [][\A n \in Nets, t \in Targets : IsPrefix(log[n][t], log'[n][t])]_vars
\* Reading backwards page by page, or forwards, shows everything once,
\* provided no two messages of the log bear the same date.
RECURSIVE Back(_, _, _), Forth(_, _, _)
Back(s, b, lim)  == LET p == Answer(s, "BEFORE", b, 0, lim) IN IF p = <<>> THEN <<>> ELSE Back(s, 2 * p[1].t, lim) \o p
Forth(s, b, lim) == LET p == Answer(s, "AFTER", b, 0, lim) IN IF p = <<>> THEN <<>> ELSE p \o Forth(s, 2 * p[Len(p)].t, lim)
Pages == \A n \in Nets, t \in Targets : LET s == log[n][t] IN
            (\A i \in 1..(Len(s) - 1) : s[i].t < s[i + 1].t) =>
               \A lim \in {1, 2} : Back(s, 2 * now + 1, lim) = s /\ Forth(s, 0, lim) = s
=============================================================================
