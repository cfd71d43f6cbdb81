-------------------------------- MODULE Creds -------------------------------
(* Credentials for a network: how they are learned, kept, shown and used, and *)
(* whom they are sent to.                                                     *)
EXTENDS Common

Clients == IF Record THEN {"c1", "c2", "c3"} ELSE {"c1", "c2"}
Bound(c) == c # "c3"                 \* c3 is not bound to the network

Users  == IF Record THEN {"alice", "acc1", "acc2"} ELSE {"a"}
Passes == IF Record THEN {"pw1", "pw2", "p\\=:x", "L299", "L300", "L301", "L700"} ELSE {"p"}   \* Lk: the response has k bytes
Sasls  == IF Record THEN <<"~", "", "", "PLAIN", "PLAIN", "PLAIN", "EXTERNAL", "external,plain", "PLAIN,EXTERNAL", "PLAIN,EXTERNAL", "SCRAM-SHA-256">> ELSE <<"~", "PLAIN", "EXTERNAL">>
\* One of a sequence, or all.
Some(s) == IF Record THEN {s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]} ELSE Range(s)

VARIABLES
    tls,     \* whether the network is reached over TLS, with a pinned certificate
    st,      \* what is stored: [mech, user, pass, cert]; cert: the number of the generated certificate, 0 if none
    up,      \* "up", "down", or "auth": it waits for the outcome of our authentication
    offer,   \* [sasl, ok, reg]: the value of sasl ("~": not offered), whether it is granted, whether accounts can be registered
    nick,
    acct,    \* the account we are logged into
    pend,    \* our authentication under way: [c, user, pass, live], c "" for our own; "none"
    q,       \* commands under way: [REGISTER, VERIFY -> Seq([c, account, pass])]
    gen,     \* certificates generated so far
    ccert,   \* the certificate shown on the current connection
    cl       \* [Clients -> [on, s]]; s: "", "half" (a mechanism was chosen), "wait" (for the network)
vars == <<tls, st, up, offer, nick, acct, pend, q, gen, ccert, cl, hist>>

NoSt == [mech |-> "", user |-> "", pass |-> "", cert |-> 0]
NoPend == [c |-> "none", user |-> "", pass |-> "", live |-> FALSE]
NoQ == [REGISTER |-> <<>>, VERIFY |-> <<>>]
Off == [on |-> FALSE, s |-> ""]

Supports(o, mech) == CASE o.sasl = "~" -> FALSE [] o.sasl = "" -> TRUE
                       [] o.sasl \in {"external,plain", "PLAIN,EXTERNAL"} -> mech \in {"PLAIN", "EXTERNAL"}
                       [] OTHER -> mech = o.sasl
Enabled(o) == o.sasl # "~" /\ o.ok
CanAuth == up = "up" /\ Enabled(offer) /\ Supports(offer, "PLAIN")

\* Stored automatically: never in place of a certificate.
Saved(u, p) == IF st.mech \in {"", "PLAIN"} THEN [st EXCEPT !.mech = "PLAIN", !.user = u, !.pass = p] ELSE st
Cleared == NoSt
CertOf(s) == IF tls /\ s.mech = "EXTERNAL" THEN s.cert ELSE 0

-----------------------------------------------------------------------------
(* What is observed: what each client is answered; what the network is sent;
   what the service says is stored. *)
None == [c \in Clients |-> {}]
Obs(ev, net) ==
    [cl |-> [c \in Clients |-> AsSet(IF cl'[c].on THEN ev[c] ELSE {})],
     net |-> AsSet(net),
     status |-> <<st'.mech, IF st'.mech = "PLAIN" THEN st'.user ELSE "", IF up' = "up" THEN <<"up", acct'>> ELSE <<"down", "">> >>]
One(c, e) == [None EXCEPT ![c] = {e}]

Init ==
    /\ tls \in BOOLEAN
    /\ st = NoSt /\ up = "down" /\ offer = [sasl |-> "~", ok |-> TRUE, reg |-> FALSE]
    /\ nick = "alice" /\ acct = "" /\ pend = NoPend /\ q = NoQ /\ gen = 0 /\ ccert = 0
    /\ cl = [c \in Clients |-> Off]
    /\ RecInit([op |-> "init", tls |-> tls])

-----------------------------------------------------------------------------
(* The network *)

\* The response of our own authentication with what is stored.
Own(s) == IF s.mech = "PLAIN" THEN {<<"PLAIN", s.user, s.pass>>} ELSE {<<"EXTERNAL", ccert>>}

\* It is reached: we authenticate before the registration ends.
Up ==
    \E s \in Some(Sasls), ok \in Some(<<TRUE, TRUE, TRUE, TRUE, FALSE>>), reg \in Some(IF Record THEN <<TRUE, TRUE, FALSE>> ELSE <<TRUE>>) :
        LET o == [sasl |-> s, ok |-> ok, reg |-> reg]
            auth == Enabled(o) /\ st.mech # "" /\ Supports(o, st.mech) IN
        /\ up = "down"
        /\ up' = IF auth THEN "auth" ELSE "up"
        /\ offer' = o
        /\ UNCHANGED <<tls, st, nick, acct, pend, q, gen, ccert, cl>>
        /\ Rec([op |-> "up", sasl |-> s, ok |-> ok, reg |-> reg, auth |-> auth,
                exp |-> Obs(None, IF auth THEN Own(st) ELSE {<<"end">>})])

\* What is lost with the connection.
Lost(s, keep) ==
    /\ up' = "down" /\ st' = s /\ nick' = "alice" /\ acct' = "" /\ pend' = NoPend /\ q' = NoQ
    /\ ccert' = CertOf(s)
    /\ cl' = IF keep THEN [c \in Clients |-> IF pend.c = c THEN [cl[c] EXCEPT !.s = ""] ELSE cl[c]]
             ELSE [c \in Clients |-> Off]
AbortedOf(c) == {<<"FAIL", "REGISTER", "TEMPORARILY_UNAVAILABLE", x.account>> : x \in {y \in Range(q.REGISTER) : y.c = c}}
                \cup {<<"FAIL", "VERIFY", "TEMPORARILY_UNAVAILABLE", x.account>> : x \in {y \in Range(q.VERIFY) : y.c = c}}
                \cup (IF pend.c = c /\ cl[c].s # "" THEN {<<"906">>} ELSE {})

Down ==
    /\ up = "up"
    /\ Lost(st, TRUE)
    /\ UNCHANGED <<tls, offer, gen>>
    /\ Rec([op |-> "down", exp |-> Obs([c \in Clients |-> AbortedOf(c)], {})])

\* Somebody else answers in its place: it is told nothing.
Impostor ==
    \E kind \in Pick({"other", "chain"}) :
        /\ tls /\ up = "up"
        /\ Lost(st, TRUE)
        /\ UNCHANGED <<tls, offer, gen>>
        /\ Rec([op |-> "impostor", kind |-> kind, exp |-> Obs([c \in Clients |-> AbortedOf(c)], {})])

\* The outcome of an authentication.
Outcome ==
    \E r \in Some(IF Record THEN <<"ok", "ok", "ok", "ok", "902", "904", "905", "906">> ELSE <<"ok", "904">>), a \in Pick(Users) :
        LET c == pend.c
            mine == c \in Clients /\ pend.live IN
        /\ up = "auth" \/ pend.c # "none"
        /\ up' = "up"
        /\ acct' = IF r = "ok" THEN a ELSE acct
        /\ st' = IF r = "ok" /\ mine THEN Saved(pend.user, pend.pass) ELSE st
        /\ pend' = NoPend
        /\ cl' = IF mine THEN [cl EXCEPT ![c].s = ""] ELSE cl
        /\ UNCHANGED <<tls, offer, nick, q, gen, ccert>>
        /\ Rec([op |-> "outcome", r |-> r, a |-> a, reg |-> up = "auth",
                exp |-> Obs(IF mine THEN One(c, <<IF r = "ok" THEN "903" ELSE r>>) ELSE None, IF up = "auth" THEN {<<"end">>} ELSE {})])

\* Its services go and come back: we authenticate again.
CapDel ==
    /\ up = "up" /\ Enabled(offer) /\ pend.c = "none"
    /\ offer' = [offer EXCEPT !.sasl = "~"]
    /\ UNCHANGED <<tls, st, up, nick, acct, pend, q, gen, ccert, cl>>
    /\ Rec([op |-> "capdel", exp |-> Obs(None, {})])
CapNew ==
    \E s \in Some(Tail(Sasls)) :
        LET o == [offer EXCEPT !.sasl = s]
            auth == st.mech # "" /\ Supports(o, st.mech) IN
        /\ up = "up" /\ offer.sasl = "~" /\ offer.ok /\ pend.c = "none"
        /\ offer' = o
        /\ pend' = IF auth THEN [c |-> "", user |-> "", pass |-> "", live |-> FALSE] ELSE pend
        /\ UNCHANGED <<tls, st, up, nick, acct, q, gen, ccert, cl>>
        /\ Rec([op |-> "capnew", sasl |-> s, auth |-> auth, exp |-> Obs(None, IF auth THEN Own(st) ELSE {})])

Renamed ==
    \E x \in Pick({"alice", "al2"} \ {nick}) :
        /\ up = "up" /\ Record
        /\ nick' = x
        /\ UNCHANGED <<tls, st, up, offer, acct, pend, q, gen, ccert, cl>>
        /\ Rec([op |-> "renamed", nick |-> x, exp |-> Obs(None, {})])

-----------------------------------------------------------------------------
(* Clients *)

Connect ==
    \E c \in Pick({x \in Clients : ~cl[x].on}) :
        /\ cl' = [cl EXCEPT ![c] = [on |-> TRUE, s |-> ""]]
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, pend, q, gen, ccert>>
        /\ Rec([op |-> "connect", c |-> c, exp |-> Obs(None, {})])

Disconnect ==
    \E c \in Pick({x \in Clients : cl[x].on}) :
        LET gone(s) == IF s = <<>> THEN s   \* what the network was not asked yet is dropped
                       ELSE <<IF s[1].c = c THEN [s[1] EXCEPT !.c = "gone"] ELSE s[1]>> \o SelectSeq(Tail(s), LAMBDA x : x.c # c) IN
        /\ cl' = [cl EXCEPT ![c] = Off]
        /\ pend' = IF pend.c = c THEN [pend EXCEPT !.c = "gone", !.live = FALSE] ELSE pend
        /\ q' = [REGISTER |-> gone(q.REGISTER), VERIFY |-> gone(q.VERIFY)]
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, gen, ccert>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(None, {})])

On == {c \in Clients : cl[c].on}

\* In generation: rather one who has to do with what is under way.
Rather(S) == IF Record /\ pend.c \in S /\ RandomElement(IF Len(hist) >= 0 THEN 1..3 ELSE {}) > 1 THEN {pend.c} ELSE S

\* It authenticates: first chooses a mechanism ...
Begin ==
    \E c \in Pick(Rather({x \in On : cl[x].s = ""})), mech \in Some(IF Record THEN <<"PLAIN", "PLAIN", "PLAIN", "plain", "EXTERNAL", "SCRAM-SHA-256">> ELSE <<"PLAIN", "EXTERNAL">>) :
        LET ok == Bound(c) /\ CanAuth /\ mech \in {"PLAIN", "plain"} IN
        /\ cl' = [cl EXCEPT ![c].s = IF ok THEN "half" ELSE ""]
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, pend, q, gen, ccert>>
        /\ Rec([op |-> "begin", c |-> c, mech |-> mech, exp |-> Obs(One(c, IF ok THEN <<"AUTHENTICATE">> ELSE <<"904">>), {})])

\* ... then sends its credentials, ...
Send ==
    \E c \in Pick({x \in On : cl[x].s = "half"}), u \in Pick(Users), p \in Pick(Passes),
       kind \in Some(IF Record THEN <<"ok", "ok", "ok", "ok", "same", "other", "junk">> ELSE <<"ok", "other">>) :
        LET go == CanAuth /\ kind \in {"ok", "same"} /\ pend.c = "none" IN
        /\ pend' = IF go THEN [c |-> c, user |-> u, pass |-> p, live |-> TRUE] ELSE pend
        /\ cl' = [cl EXCEPT ![c].s = IF go THEN "wait" ELSE ""]
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, q, gen, ccert>>
        /\ Rec([op |-> "send", c |-> c, u |-> u, p |-> p, kind |-> kind, go |-> go,
                exp |-> Obs(IF go THEN None ELSE One(c, <<"904">>), IF go THEN {<<"PLAIN", u, p>>} ELSE {})])

\* ... or gives up.
Abort ==
    \E c \in Pick(Rather({x \in On : Bound(x)})) :
        /\ CanAuth
        /\ cl' = [cl EXCEPT ![c].s = ""]
        /\ pend' = IF pend.c = c THEN [pend EXCEPT !.live = FALSE] ELSE pend
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, q, gen, ccert>>
        /\ Rec([op |-> "abort", c |-> c, exp |-> Obs(One(c, <<"906">>), {})])

\* It wants to be nobody: what is stored is forgotten, and we connect again.
Anonymous ==
    \E c \in Pick({x \in On : cl[x].s = "" /\ Bound(x)}) :
        LET ok == CanAuth /\ pend.c = "none" IN
        /\ IF ok /\ st.mech # "" THEN Lost(Cleared, TRUE)
           ELSE UNCHANGED <<st, up, nick, acct, pend, q, ccert, cl>>
        /\ UNCHANGED <<tls, offer, gen>>
        /\ Rec([op |-> "anonymous", c |-> c, lost |-> ok /\ st.mech # "",
                exp |-> Obs([x \in Clients |-> (IF x = c THEN (IF ok THEN {<<"903">>} ELSE {<<"904">>}) ELSE {})
                                               \cup (IF ok /\ st.mech # "" THEN AbortedOf(x) ELSE {})], {})])

\* It talks to NickServ.
Texts == {[f |-> "identify1", u |-> ""], [f |-> "identify2", u |-> "acc1"], [f |-> "identify2", u |-> "acc2"], [f |-> "register", u |-> ""], [f |-> "setpassword", u |-> ""],
          [f |-> "setemail", u |-> ""], [f |-> "setpasswordempty", u |-> ""], [f |-> "help", u |-> ""], [f |-> "ghost", u |-> ""], [f |-> "identifyempty", u |-> ""]}
NickServ ==
    \E c \in Pick({x \in On : Bound(x)}), t \in Pick(IF Record THEN Texts ELSE {[f |-> "identify1", u |-> ""], [f |-> "help", u |-> ""]}), p \in Pick(IF Record THEN {"pw1", "pw2", "p\\=:x"} ELSE Passes),
       case \in Pick(BOOLEAN), kind \in Some(<<"PRIVMSG", "PRIVMSG", "PRIVMSG", "PRIVMSG", "NOTICE">>) :
        LET u == IF t.f = "identify2" THEN t.u ELSE nick
            sv == kind = "PRIVMSG" /\ t.f \in {"identify1", "identify2", "register", "setpassword"} IN
        /\ up = "up"
        /\ st' = IF sv THEN Saved(u, p) ELSE st
        /\ UNCHANGED <<tls, up, offer, nick, acct, pend, q, gen, ccert, cl>>
        /\ Rec([op |-> "nickserv", c |-> c, f |-> t.f, u |-> u, p |-> p, case |-> case, kind |-> kind, exp |-> Obs(None, {<<kind>>})])

\* It registers an account.
Register ==
    \E c \in Pick({x \in On : Bound(x)}), k \in Some(<<"REGISTER", "REGISTER", "VERIFY">>), a \in Pick(IF Record THEN Users \cup {"*"} ELSE Users), p \in Pick(IF Record THEN {"pw1", "pw2"} ELSE Passes) :
        LET ok == up = "up" /\ offer.reg /\ offer.ok IN
        /\ Record \/ Len(q.REGISTER) + Len(q.VERIFY) < 2
        /\ ~\E i \in DOMAIN q[k] : q[k][i].c = c
        /\ q' = IF ok THEN [q EXCEPT ![k] = Append(@, [c |-> c, account |-> a, pass |-> p])] ELSE q
        /\ UNCHANGED <<tls, st, up, offer, nick, acct, pend, gen, ccert, cl>>
        /\ Rec([op |-> "register", c |-> c, k |-> k, a |-> a, p |-> p,
                exp |-> Obs(IF ok THEN None ELSE One(c, <<"FAIL", k, "TEMPORARILY_UNAVAILABLE", "*">>), IF ok /\ q[k] = <<>> THEN {<<k, a, p>>} ELSE {})])
Registered ==
    \E k \in Pick({x \in {"REGISTER", "VERIFY"} : q[x] # <<>>}), r \in Some(<<"SUCCESS", "SUCCESS", "VERIFICATION_REQUIRED", "FAIL">>) :
        LET h == q[k][1]
            a == IF h.account = "*" THEN nick ELSE h.account
            ok == r # "FAIL" IN
        /\ q[k] # <<>>
        /\ (r = "VERIFICATION_REQUIRED" => k = "REGISTER")
        /\ q' = [q EXCEPT ![k] = Tail(@)]
        /\ st' = IF ok /\ k = "REGISTER" /\ h.c \in Clients THEN Saved(a, h.pass) ELSE st
        /\ UNCHANGED <<tls, up, offer, nick, acct, pend, gen, ccert, cl>>
        /\ Rec([op |-> "registered", k |-> k, r |-> r, a |-> a,
                exp |-> Obs(IF h.c \in Clients THEN One(h.c, IF ok THEN <<k, r, a>> ELSE <<"FAIL", k, "SOME_CODE", a>>) ELSE None,
                            IF Len(q[k]) > 1 THEN {<<k, q[k][2].account, q[k][2].pass>>} ELSE {})])

-----------------------------------------------------------------------------
(* The service *)

\* A client bound to the network need not name it; flag: whether it is named, "bad": wrongly.
Flags == IF Record THEN <<"", "", "n1", "n1", "n1", "bad">> ELSE <<"", "n1">>
Valid(c, flag) == flag = "n1" \/ (flag = "" /\ Bound(c))
Service ==
    \E c \in Pick(On), k \in Some(IF Record THEN <<"set-plain", "set-plain", "reset", "status", "generate", "fingerprint">> ELSE <<"set-plain", "reset", "generate">>), flag \in Some(Flags),
       u \in Pick(Users), p \in Pick(Passes) :
        LET ok == Valid(c, flag) IN
        /\ (k = "generate" => Record \/ gen < 2)
        /\ st' = IF ~ok THEN st
                 ELSE CASE k = "set-plain" -> [st EXCEPT !.mech = "PLAIN", !.user = u, !.pass = p]
                        [] k = "reset" -> Cleared
                        [] k = "generate" -> [st EXCEPT !.mech = "EXTERNAL", !.cert = gen + 1]
                        [] OTHER -> st
        /\ gen' = IF ok /\ k = "generate" THEN gen + 1 ELSE gen
        /\ UNCHANGED <<tls, up, offer, nick, acct, pend, q, ccert, cl>>
        /\ Rec([op |-> "service", c |-> c, k |-> k, flag |-> flag, u |-> u, p |-> p,
                exp |-> Obs(One(c, IF ~ok THEN <<"svc", "refused">>
                                   ELSE CASE k = "fingerprint" -> IF st.mech = "EXTERNAL" THEN <<"svc", "cert", st.cert>> ELSE <<"svc", "refused">>
                                          [] k = "generate" -> <<"svc", "cert", gen + 1>>
                                          [] k = "status" -> <<"svc", "status">>
                                          [] OTHER -> <<"svc", "ok">>), {})])

\* Another setting of the network is changed; we connect again.
Update ==
    /\ up = "up" /\ Record
    /\ Lost(st, TRUE)
    /\ UNCHANGED <<tls, offer, gen>>
    /\ Rec([op |-> "update", exp |-> Obs([c \in Clients |-> AbortedOf(c)], {})])

Restart ==
    \E kind \in Pick({"restart", "kill"}) :
        /\ up # "auth"
        /\ Lost(st, FALSE)
        /\ UNCHANGED <<tls, offer, gen>>
        /\ Rec([op |-> kind, exp |-> Obs(None, {})])

\* In generation these are rarer.
Now(k) == Record => RandomElement(IF Len(hist) >= 0 THEN 1..k ELSE {}) = 1
Loss == IF Record THEN LET r == RandomElement(IF Len(hist) >= 0 THEN 1..12 ELSE {}) IN
                       CASE r \in 1..4 -> Down [] r = 5 -> Impostor [] r = 6 -> Update [] r = 7 -> Restart [] OTHER -> FALSE
        ELSE Down \/ Impostor \/ Restart
Next == Up \/ Up \/ Up \/ Up \/ Up \/ Loss \/ Outcome \/ Outcome \/ Outcome \/ (Now(3) /\ CapDel) \/ CapNew \/ (Now(3) /\ Renamed) \/ Connect \/ Connect \/ (Now(3) /\ Disconnect)
        \/ Begin \/ Begin \/ Send \/ Send \/ Send \/ Abort \/ (Now(6) /\ Anonymous) \/ NickServ \/ NickServ \/ Register \/ Registered \/ Registered \/ Service
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* One authentication at a time; who waits for it has one under way.
Single == \A c \in Clients : cl[c].s = "wait" => pend.c = c /\ pend.live /\ up = "up"
\* What is stored makes sense.
StoredOK == /\ st.mech = "EXTERNAL" => st.cert > 0
            /\ st.mech = "PLAIN" => st.user # "" /\ st.pass # ""
\* A certificate is replaced only by who asks the service for it, or wants to be nobody.
KeepsCert == [][st.mech = "EXTERNAL" /\ st' # st => up' = up \/ st' = NoSt]_vars
Bounded == gen < 2 /\ Len(q.REGISTER) + Len(q.VERIFY) < 2
=============================================================================
