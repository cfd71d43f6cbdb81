-------------------------------- MODULE Push --------------------------------
(* Web Push: endpoints registered by clients, and what is sent to them.       *)
EXTENDS Common

CONSTANTS Chan,       \* whether exhaustive checking includes #c
          MaxNow      \* bounds the number of messages in exhaustive checking

Nets    == IF Record THEN {"n1", "n2", "n3"} ELSE {"n1"}     \* n3 is another user's
Slots   == Nets \cup {"0"}                                         \* "0": not bound to a network
Eps     == IF Record THEN {"e1", "e2", "e3"} ELSE {"e1", "e2"}
Keys    == 1..2
Targets == IF Record THEN {"#c", "bob", "eve"} ELSE {"bob"} \cup (IF Chan THEN {"#c"} ELSE {})
Some(s) == IF Record THEN {s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]} ELSE Range(s)

VARIABLES
    subs,   \* [Slots -> [Eps -> 0 or the key]]
    old,    \* subscriptions that have not been renewed for long
    ep,     \* [Eps -> what the endpoint answers: "ok", "gone", "fail"]
    here,   \* whether the clients are connected
    up,     \* the networks that are connected
    nick,   \* [Nets -> our nickname, 1 or 2]
    det,    \* whether #c (on n1) is detached
    relay,  \* its relay-detached setting
    in,     \* whether we are in #c
    pend,   \* [Nets -> [Targets -> 0 or the time of the last message pushed and not yet read]]
    mark,   \* [Nets -> [Targets -> read marker]]
    now,    \* time of the last message
    pushed  \* what the last step sent (for the properties)

vars == <<subs, old, ep, here, up, nick, det, relay, in, pend, mark, now, pushed, hist>>

Init ==
    /\ subs = [s \in Slots |-> [e \in Eps |-> 0]] /\ old = {} /\ ep = [e \in Eps |-> "ok"]
    /\ here = TRUE /\ up = Nets /\ nick = [n \in Nets |-> 1]
    /\ det = FALSE /\ relay = "default" /\ in = TRUE
    /\ pend = [n \in Nets |-> [t \in Targets |-> 0]] /\ mark = [n \in Nets |-> [t \in Targets |-> 0]]
    /\ now = 0 /\ pushed = {}
    /\ RecInit([op |-> "init"])

Table(sb) == [s \in Slots |-> [e \in Eps |-> sb[s][e]]]
\* What is sent to the endpoints of slot s (t: to test them).
To(s) == {[s |-> s, e |-> e, k |-> subs[s][e], t |-> FALSE] : e \in {x \in Eps : subs[s][x] # 0}}
\* The subscriptions left after something was sent to slot s.
After(s) == [subs EXCEPT ![s] = [e \in Eps |-> IF @[e] # 0 /\ (ep[e] = "gone" \/ (ep[e] = "fail" /\ <<s, e>> \in old)) THEN 0 ELSE @[e]]]

Step(st, sb, ps, what, reply) ==
    /\ subs' = sb
    /\ pushed' = ps
    /\ Rec([exp |-> [push |-> AsSet({[e |-> p.e, k |-> p.k, what |-> what] : p \in ps}), subs |-> Table(sb), reply |-> reply]] @@ st)

Still == /\ old' = {x \in old : subs'[x[1]][x[2]] # 0}

-----------------------------------------------------------------------------
\* Registration.  A client is bound to slot s.
Register ==
    \E s \in Pick(Slots), e \in Pick(Eps), k \in Pick(Keys) :
        /\ here
        /\ UNCHANGED <<ep, here, up, nick, det, relay, in, pend, mark, now>>
        /\ IF subs[s][e] = k /\ <<s, e>> \notin old
           THEN Step([op |-> "register", s |-> s, e |-> e, k |-> k, v |-> "ok"], subs, {}, "", <<"REGISTER">>) /\ UNCHANGED old
           ELSE IF ep[e] = "ok"
           THEN Step([op |-> "register", s |-> s, e |-> e, k |-> k, v |-> "ok"], [subs EXCEPT ![s][e] = k], {[s |-> s, e |-> e, k |-> k, t |-> TRUE]}, "test", <<"REGISTER">>) /\ old' = old \ {<<s, e>>}
           ELSE Step([op |-> "register", s |-> s, e |-> e, k |-> k, v |-> "ok"], subs, {[s |-> s, e |-> e, k |-> k, t |-> TRUE]}, "test", <<"FAIL", "INVALID_PARAMS">>) /\ UNCHANGED old

\* Registrations that are refused, nothing sent.
Bad == <<"http", "loop", "loop6", "mapped", "priv", "priv2", "multi", "link", "zero", "name", "nokeys", "noauth", "nop256", "junk", "rel">>
RegisterBad ==
    \E s \in Pick(Slots), e \in Pick(Eps), k \in Pick(Keys), v \in Some(IF Record THEN Bad ELSE <<"http">>) :
        /\ here
        /\ UNCHANGED <<old, ep, here, up, nick, det, relay, in, pend, mark, now>>
        /\ Step([op |-> "register", s |-> s, e |-> e, k |-> k, v |-> v], subs, {}, "", <<"FAIL", "INVALID_PARAMS">>)

Unregister ==
    \E s \in Pick(Slots), e \in Pick(Eps) :
        /\ here
        /\ UNCHANGED <<ep, here, up, nick, det, relay, in, pend, mark, now>>
        /\ Step([op |-> "unregister", s |-> s, e |-> e], [subs EXCEPT ![s][e] = 0], {}, "", <<"UNREGISTER">>)
        /\ Still

\* A client without the capability.
NoCap ==
    \E e \in Pick(Eps), w \in Pick({"REGISTER", "UNREGISTER"}) :
        /\ here /\ UNCHANGED <<old, ep, here, up, nick, det, relay, in, pend, mark, now>>
        /\ Step([op |-> "nocap", e |-> e, w |-> w], subs, {}, "", <<"421">>)

-----------------------------------------------------------------------------
\* Texts; %n is our nickname, %e a letter, %z no letter (not ASCII).
T(t, h) == [t |-> t, h |-> h]
Texts == <<T("hello", FALSE), T("%n", TRUE), T("%n: hello", TRUE), T("hey %n!", TRUE), T("x%n", FALSE), T("%nx", FALSE), T("%n_", FALSE),
           T("%n|afk", FALSE), T("no-%n", FALSE), T("%n%n", FALSE), T("x%n %n", TRUE), T("%n2 %n", TRUE), T("https://%n.example", FALSE), T("https://x.example/%n and %n", TRUE),
           T("https://%n.example/%n", FALSE), T("https://%nx.example/%n", FALSE), T("(%n)", TRUE), T("(https://%n.example", FALSE), T("see ircs://net.example/%n ok", FALSE), T("://%n", TRUE),
           T("%e%n", FALSE), T("%z%n", TRUE), T("%n%z", TRUE), T("%n%e", FALSE), T("ACTION waves at %n", TRUE), T("a %n%n b", FALSE), T("%n%n %n", TRUE), T("x%nx https://a/%n", FALSE)>>

Silenced == det /\ relay = "none"
\* The network shows a message: from somebody, ourselves (another session) or the server.
Message ==
    \E n \in Some(IF Record THEN <<"n1", "n1", "n1", "n2", "n3">> ELSE <<"n1">>),
       from \in Some(IF Record THEN <<"bob", "bob", "bob", "eve", "eve", "self", "server">> ELSE <<"bob", "self">>),
       to \in Some(IF Record THEN <<"me", "#c", "#c", "ctx">> ELSE IF Chan THEN <<"me", "#c">> ELSE <<"me">>), cmd \in Some(<<"PRIVMSG", "PRIVMSG", "NOTICE">>),
       x \in Some(IF Record THEN Texts ELSE SubSeq(Texts, 1, 2)), tag \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET chan == n = "n1" /\ in /\ to \in {"#c", "ctx"} /\ (to = "ctx" => from # "server")
            dst  == IF chan THEN to ELSE IF to = "ctx" THEN "ctxbad" ELSE "me"
            buf  == IF chan THEN "#c" ELSE from
            yes  == from \notin {"self", "server"} /\ (IF chan THEN x.h /\ ~Silenced ELSE TRUE)
        IN
        /\ n \in up /\ (IF Record THEN TRUE ELSE now < MaxNow)
        /\ now' = now + 1
        /\ pend' = IF yes THEN [pend EXCEPT ![n][buf] = now + 1] ELSE pend
        /\ UNCHANGED <<ep, here, up, nick, det, relay, in, mark>>
        /\ Step([op |-> "msg", n |-> n, from |-> from, to |-> dst, cmd |-> cmd, text |-> x.t, tag |-> tag, time |-> now + 1],
                IF yes THEN After(n) ELSE subs, IF yes THEN To(n) ELSE {}, "msg", <<>>)
        /\ Still

\* We are, or somebody else is, invited.
Invite ==
    \E n \in Pick(Nets), who \in Pick(IF Record THEN {"me", "me", "carol"} ELSE {"me"}), c \in Pick(IF Record THEN {"#c", "#new"} ELSE {"#new"}) :
        LET auto == n = "n1" /\ c = "#c" /\ ~in /\ who = "me"
            yes == who = "me" /\ ~auto IN
        /\ n \in up
        /\ in' = (in \/ auto)
        /\ UNCHANGED <<ep, here, up, nick, det, relay, pend, mark, now>>
        /\ Step([op |-> "invite", n |-> n, who |-> who, chan |-> c], IF yes THEN After(n) ELSE subs, IF yes THEN To(n) ELSE {}, "invite", <<>>)
        /\ Still

\* We are kicked; the channel stays among ours.
Kick ==
    /\ IF Record THEN TRUE ELSE Chan
    /\ in /\ "n1" \in up /\ in' = FALSE
    /\ UNCHANGED <<ep, here, up, nick, det, relay, pend, mark, now>>
    /\ Step([op |-> "kick"], subs, {}, "", <<>>) /\ Still

\* A client of ours says something.
Say ==
    \E n \in Pick(Nets), t \in Pick(IF Record THEN {"bob", "#c"} ELSE {"bob"}) :
        /\ here /\ n \in up /\ (t = "#c" => n = "n1" /\ in)
        /\ UNCHANGED <<ep, here, up, nick, det, relay, in, pend, mark, now>>
        /\ Step([op |-> "say", n |-> n, t |-> t], subs, {}, "", <<>>) /\ Still

\* Reading.  when: a time, or -1 for one in the future.
Read ==
    \E n \in Pick({x \in Nets : x # "n3"}), t \in Pick(Targets), when \in Pick({-1} \cup (IF now < 4 THEN 1..now ELSE {now - 2, now - 1, now})), as \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET tm == IF when = -1 THEN (IF Record THEN 100000 + Len(hist) ELSE MaxNow + 1) ELSE when
            fresh == mark[n][t] < tm
            yes == fresh /\ pend[n][t] # 0
        IN
        /\ here
        /\ t = "#c" => n = "n1"
        /\ mark' = IF fresh THEN [mark EXCEPT ![n][t] = tm] ELSE mark
        /\ pend' = IF yes /\ tm >= pend[n][t] THEN [pend EXCEPT ![n][t] = 0] ELSE pend
        /\ UNCHANGED <<ep, here, up, nick, det, relay, in, now>>
        /\ Step([op |-> "read", n |-> n, t |-> t, when |-> when, as |-> as], IF yes THEN After(n) ELSE subs, IF yes THEN To(n) ELSE {}, "read", <<>>)
        /\ Still

-----------------------------------------------------------------------------
Quiet(st) == Step(st, subs, {}, "", <<>>) /\ Still
Endpoint == \E e \in Pick(Eps), m \in Some(<<"ok", "ok", "ok", "gone", "fail">>) :
    /\ ep[e] # m /\ ep' = [ep EXCEPT ![e] = m]
    /\ UNCHANGED <<here, up, nick, det, relay, in, pend, mark, now>> /\ Quiet([op |-> "endpoint", e |-> e, m |-> m])
Detach == /\ IF Record THEN TRUE ELSE Chan
    /\ here /\ in /\ "n1" \in up /\ det' = ~det
    /\ UNCHANGED <<ep, here, up, nick, relay, in, pend, mark, now>> /\ Quiet([op |-> "detach", on |-> ~det])
Relay == \E r \in Pick(IF Record THEN {"none", "highlight", "message", "default"} ELSE IF Chan THEN {"none", "default"} ELSE {}) :
    /\ here /\ r # relay /\ relay' = r
    /\ UNCHANGED <<ep, here, up, nick, det, in, pend, mark, now>> /\ Quiet([op |-> "relay", r |-> r])
\* Leaving a channel (and joining it again).
Rejoin == /\ here /\ in /\ "n1" \in up /\ ~det /\ relay' = "default" /\ pend' = [pend EXCEPT !["n1"]["#c"] = 0]
    /\ UNCHANGED <<ep, here, up, nick, det, in, mark, now>> /\ Quiet([op |-> "rejoin"])
Nick == \E n \in (IF Record THEN Pick(up) ELSE {}) : /\ nick' = [nick EXCEPT ![n] = 3 - @]
    /\ UNCHANGED <<ep, here, up, det, relay, in, pend, mark, now>> /\ Quiet([op |-> "nick", n |-> n])
Clients == /\ here' = ~here
    /\ UNCHANGED <<ep, up, nick, det, relay, in, pend, mark, now>> /\ Quiet([op |-> "clients", on |-> ~here])
\* Once connected, we have our first nickname and are in all channels of ours.
Fresh(n) == nick' = [nick EXCEPT ![n] = 1] /\ in' = (n = "n1" \/ in)
Down == \E n \in Pick(up \ {"n3"}) : /\ up' = up \ {n}
    /\ UNCHANGED <<ep, here, nick, det, relay, in, pend, mark, now>> /\ Quiet([op |-> "down", n |-> n])
Up == \E n \in Pick(Nets \ up) : /\ up' = up \cup {n} /\ Fresh(n)
    /\ UNCHANGED <<ep, here, det, relay, pend, mark, now>> /\ Quiet([op |-> "up", n |-> n])
\* Settings of a network are changed, for which it is connected to anew.
Upd == \E n \in Pick(up \ {"n3"}) : /\ here /\ Fresh(n)
    /\ UNCHANGED <<ep, here, up, det, relay, pend, mark, now>> /\ Quiet([op |-> "upd", n |-> n])
\* A network is deleted, and another one of that name created.
Recreate == IF "n2" \notin Nets THEN FALSE ELSE
    /\ here /\ Fresh("n2")
    /\ up' = up \cup {"n2"}
    /\ subs' = [subs EXCEPT !["n2"] = [e \in Eps |-> 0]] /\ pushed' = {} /\ Still
    /\ pend' = [pend EXCEPT !["n2"] = [t \in Targets |-> 0]] /\ mark' = [mark EXCEPT !["n2"] = [t \in Targets |-> 0]]
    /\ UNCHANGED <<ep, here, det, relay, now>>
    /\ Rec([op |-> "recreate", exp |-> [push |-> {}, subs |-> Table(subs'), reply |-> <<>>]])
Restart == \E kill \in Pick(BOOLEAN), age \in Pick(BOOLEAN) :
    /\ up = Nets /\ here' = TRUE /\ nick' = [n \in Nets |-> 1] /\ in' = TRUE
    /\ pend' = [n \in Nets |-> [t \in Targets |-> 0]]
    /\ old' = IF age THEN {x \in Slots \X Eps : subs[x[1]][x[2]] # 0} ELSE old
    /\ UNCHANGED <<ep, up, det, relay, mark, now>> /\ Step([op |-> "restart", kill |-> kill, age |-> age], subs, {}, "", <<>>)

Next == \/ Register \/ Register \/ Register \/ Register \/ RegisterBad \/ Unregister \/ NoCap
        \/ Message \/ Message \/ Message \/ Message \/ Message \/ Message \/ Message \/ Message
        \/ Invite \/ Invite \/ Kick \/ Say \/ Read \/ Read \/ Read \/ Endpoint \/ Endpoint
        \/ Detach \/ Relay \/ Rejoin \/ Nick \/ Clients \/ Down \/ Up \/ Up \/ Upd \/ Recreate \/ Restart
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Whatever is sent goes to endpoints registered for the network, with the key
\* given last, or tests what is being registered.
OnlyRegistered == [][\A p \in pushed' : IF p.t THEN subs'[p.s][p.e] = p.k \/ ep[p.e] # "ok" ELSE p.s # "0" /\ subs[p.s][p.e] = p.k]_vars
\* Nothing more is sent to an endpoint that is gone and said so.
Forgotten == [][\A p \in pushed' : (~p.t /\ (ep[p.e] = "gone" \/ (ep[p.e] = "fail" /\ <<p.s, p.e>> \in old))) => subs'[p.s][p.e] = 0]_vars
\* Nobody but its client removes a subscription that works.
Kept == [][\A s \in Slots, e \in Eps : (subs[s][e] # 0 /\ subs'[s][e] = 0) =>
             pushed' = {} \/ (ep[e] # "ok" /\ \E p \in pushed' : p.s = s /\ p.e = e)]_vars
\* Nothing is registered before it answered.
Answered == [][\A s \in Slots, e \in Eps : subs'[s][e] \notin {0, subs[s][e]} => ep[e] = "ok" /\ \E p \in pushed' : p.s = s /\ p.e = e /\ p.k = subs'[s][e]]_vars
\* What is read is not pending.
ReadOK == \A n \in Nets, t \in Targets : pend[n][t] = 0 \/ pend[n][t] <= now
Small == now <= MaxNow
View == <<subs, old, ep, here, up, det, relay, in, pend, mark, now>>
=============================================================================
