-------------------------------- MODULE Caps --------------------------------
(* Capabilities and ISUPPORT: what a network offers, what the bouncer asks    *)
(* for, what each client is offered, asks for and is then shown.              *)
EXTENDS Common

Clients == IF Record THEN {"c1", "c2", "c3"} ELSE {"c1"}
Bound(c) == c # "c3"                 \* c3 is not bound to the network

Need == IF Record THEN {"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor",
                        "message-tags", "multi-prefix", "draft/extended-monitor"}
        ELSE {"message-tags", "away-notify"}
Perm == {"batch", "cap-notify", "echo-message", "invite-notify", "server-time", "setname", "draft/pre-away",
         "draft/read-marker", "draft/no-implicit-names", "soju.im/account-required", "soju.im/bouncer-networks",
         "soju.im/bouncer-networks-notify", "soju.im/no-implicit-names", "soju.im/read", "soju.im/webpush",
         "draft/chathistory", "soju.im/search"}
\* What the bouncer asks a network for, besides echo-message, sasl and account registration.
Wanted == {"account-notify", "account-tag", "away-notify", "batch", "chghost", "extended-join", "extended-monitor",
           "invite-notify", "labeled-response", "message-tags", "multi-prefix", "server-time", "setname", "draft/extended-monitor"}
Offerable == IF Record THEN Wanted \cup {"echo-message", "vendor/other"} ELSE {"message-tags", "away-notify", "sasl"}
Params == IF Record THEN {"NETWORK", "TOPICLEN", "WHOX", "AWAYLEN", "SAFELIST", "XOTHER"} ELSE {"WHOX"}
Passed == Params \ {"XOTHER"}
ValuesOf(p) == CASE p = "NETWORK" -> {"Some\\x20Net", "Net", "a\\x5Cb"} [] p \in {"TOPICLEN", "AWAYLEN"} -> {"100", "200", ""}
                 [] OTHER -> {"-"}      \* without a value

VARIABLES
    up,
    offer,   \* [caps, sasl, reg]: names, and the values of sasl and account registration ("~": not offered)
    isup,    \* [Params -> value, "~" when not set]
    acct,    \* account we are logged into on the network, or ""
    host,    \* <<username, host>>; host "" while it is not known
    n,       \* messages so far
    cl       \* [Clients -> [on, ver, en, acct, host]]
vars == <<up, offer, isup, acct, host, n, cl, hist>>

Off == [on |-> FALSE, ver |-> 0, en |-> {}, acct |-> "", host |-> <<"", "">>]

-----------------------------------------------------------------------------
\* What is in effect with the network.
OnOf(o) == (o.caps \cap Wanted)
           \cup (IF {"labeled-response", "echo-message"} \subseteq o.caps THEN {"echo-message"} ELSE {})
           \cup (IF o.sasl # "~" THEN {"sasl"} ELSE {}) \cup (IF o.reg # "~" THEN {"draft/account-registration"} ELSE {})
UpOn == OnOf(offer)
HasPlain(o) == o.sasl \in {"", "PLAIN", "EXTERNAL,PLAIN"}
RegValue(v) == CASE v = "before-connect" -> "" [] v = "before-connect,custom-account-name" -> "custom-account-name"
                 [] v = "custom-account-name,before-connect,email-required" -> "custom-account-name,email-required" [] OTHER -> v

\* What a client is offered: a function from names to values.
Plain(S) == [x \in S |-> ""]
Av(c, u, o) ==
    IF ~Bound(c) THEN Plain(Perm \cup Need) @@ [sasl |-> "PLAIN"]
    ELSE Plain(Perm \cup {"draft/event-playback"} \cup (IF u THEN Need \cap OnOf(o) ELSE Need))
         @@ (IF u /\ HasPlain(o) THEN [sasl |-> "PLAIN,ANONYMOUS"] ELSE <<>>)
         @@ (IF u /\ o.reg # "~" THEN [x \in {"draft/account-registration"} |-> RegValue(o.reg)] ELSE <<>>)
\* Before it is registered.
Av0(ver) == Plain(Perm \cup (IF ver >= 302 THEN Need ELSE {})) @@ [sasl |-> "PLAIN"]

Token(ver, x, v) == IF ver >= 302 /\ v # "" THEN x \o "=" \o v ELSE x
Changes(ver, en, a, b) ==
    IF "cap-notify" \notin en THEN {}
    ELSE {<<"NEW", Token(ver, x, b[x])>> : x \in {y \in DOMAIN b : y \notin DOMAIN a \/ a[y] # b[y]}}
         \cup {<<"DEL", x>> : x \in DOMAIN a \ DOMAIN b}
Listed(ver, a) == {<<"LS", Token(ver, x, a[x])>> : x \in DOMAIN a}

Name(t) == IF SubSeq(t, 1, 1) = "-" THEN SubSeq(t, 2, Len(t)) ELSE t
Sets(t) == SubSeq(t, 1, 1) # "-"
\* A request is granted as a whole or not at all.
Granted(ver, en, a, S) ==
    \A t \in S : \/ Sets(t) <=> Name(t) \in en
                 \/ Name(t) \in DOMAIN a /\ ~(Name(t) = "cap-notify" /\ ver >= 302 /\ ~Sets(t)) /\ Name(t) # "soju.im/account-required"
Apply(en, S) == (en \ {Name(t) : t \in {x \in S : ~Sets(x)}}) \cup {Name(t) : t \in {x \in S : Sets(x)}}
Answer(ok, S) == {<<IF ok THEN "ACK" ELSE "NAK", AsSet(S)>>}

\* The tokens a client may ask for.
Pool == IF Record THEN <<"account-notify", "account-tag", "away-notify", "chghost", "extended-join", "extended-monitor", "message-tags", "multi-prefix",
                         "draft/extended-monitor", "batch", "cap-notify", "echo-message", "invite-notify", "server-time", "setname", "sasl",
                         "draft/event-playback", "draft/account-registration", "soju.im/account-required", "labeled-response", "vendor/x",
                         "away-notify", "message-tags", "echo-message", "extended-join", "chghost", "sasl", "account-tag", "setname", "invite-notify", "account-notify">>
        ELSE <<"away-notify", "message-tags", "sasl", "cap-notify">>
OneToken(k) == LET i == RandomElement(IF Len(hist) >= 0 /\ k > 0 THEN DOMAIN Pool ELSE {}) IN Pool[i]
Distinct(S) == {t \in S : \A s \in S : Name(s) = Name(t) => s = t}
Req(k) ==
    IF ~Record THEN {{t} : t \in {Pool[i] : i \in DOMAIN Pool}} \cup {{"-away-notify"}, {"message-tags", "-sasl"}}
    ELSE {LET s == RandomElement(1..4) IN
          {OneToken(k + 1)} \cup (IF s > 1 THEN {OneToken(k + 2)} ELSE {}) \cup (IF s > 2 THEN {OneToken(k + 3)} ELSE {})}
\* Some of them to be given up.
Signed(k) == IF ~Record THEN Req(k)
             ELSE {LET S == CHOOSE x \in Req(k) : TRUE r == RandomElement(IF Len(hist) >= 0 THEN 1..5 ELSE {}) IN
                   IF r > 2 THEN S ELSE IF r = 1 THEN {"-" \o t : t \in S} ELSE {IF t \in {"away-notify", "sasl", "echo-message", "cap-notify", "message-tags"} THEN "-" \o t ELSE t : t \in S}}

-----------------------------------------------------------------------------
(* What is observed: per client a collection of events; what is in effect at
   the network. *)
None == [c \in Clients |-> {}]
Obs(ev) ==
    [cl |-> [c \in Clients |-> AsSet(IF cl'[c].on THEN ev[c] ELSE {})],
     net |-> AsSet(IF up' THEN OnOf(offer') ELSE {})]

Init ==
    /\ up = TRUE
    /\ offer \in (IF Record THEN {[caps |-> Offerable, sasl |-> "PLAIN", reg |-> "before-connect"], [caps |-> {}, sasl |-> "~", reg |-> "~"],
                                  [caps |-> Offerable \ {"echo-message"}, sasl |-> "", reg |-> "~"],
                                  [caps |-> {"message-tags", "server-time", "away-notify", "batch", "extended-join"}, sasl |-> "EXTERNAL", reg |-> "~"]}
                  ELSE {[caps |-> {"away-notify"}, sasl |-> "PLAIN", reg |-> "~"]})
    /\ isup = [p \in Params |-> "~"]
    /\ acct = "" /\ host = <<"alice", "">> /\ n = 0
    /\ cl = [c \in Clients |-> Off]
    /\ RecInit([op |-> "init", offer |-> [caps |-> AsSet(offer.caps), sasl |-> offer.sasl, reg |-> offer.reg]])

-----------------------------------------------------------------------------
(* Clients *)

\* What is shown of our own host and account when these may have changed; en: what the client has.
HostEv(k, en, h) == IF h[2] = "" \/ h = k.host THEN {}
                    ELSE IF "chghost" \in en THEN {<<"CHGHOST", h[1], h[2]>>}
                    ELSE IF h[2] # k.host[2] THEN {<<"396", h[2]>>} ELSE {}
AcctEv(k, en, a) == IF a = k.acct \/ "sasl" \notin en THEN {} ELSE IF a = "" THEN {<<"901">>} ELSE {<<"900", a>>}
HostKnown(k, h) == IF h[2] = "" THEN k.host ELSE h
AcctKnown(k, en, a) == IF "sasl" \notin en THEN k.acct ELSE a

Isup == {<<p, isup[p]>> : p \in {x \in Passed : isup[x] # "~"}}

\* Connects: a version or none, then up to two requests.
Connect ==
    \E c \in Pick({x \in Clients : ~cl[x].on}), ver \in Pick(IF Record THEN {0, 301, 302, 302, 302} ELSE {0, 302}) :
    \E A \in Req(10), B \in Req(20), k \in Pick(IF Record THEN 0..2 ELSE 0..1) :
        LET a0 == Av0(ver)
            S1 == Distinct(A)  S2 == Distinct(B)
            e0 == IF ver >= 302 THEN {"cap-notify"} ELSE {}
            ok1 == Granted(ver, e0, a0, S1)
            e1 == IF k > 0 /\ ok1 THEN Apply(e0, S1) ELSE e0
            ok2 == Granted(ver, e1, a0, S2)
            e2 == IF k > 1 /\ ok2 THEN Apply(e1, S2) ELSE e1
            a1 == Av(c, up, offer)
            e3 == e2 \cap DOMAIN a1
            bare == [Off EXCEPT !.host = <<"~u", "127.0.0.1">>]
            ha == IF Bound(c) /\ up THEN host ELSE <<"", "">>
            ac == IF ~Bound(c) THEN "alice" ELSE IF up THEN acct ELSE ""
            deny == Bound(c) /\ up /\ "message-tags" \notin UpOn
            new == [on |-> TRUE, ver |-> ver, en |-> e3, acct |-> AcctKnown(bare, e3, ac), host |-> HostKnown(bare, ha)]
            ev == (IF ver > 0 THEN Listed(ver, a0) ELSE {})
                  \cup (IF k > 0 THEN Answer(ok1, S1) ELSE {}) \cup (IF k > 1 THEN Answer(ok2, S2) ELSE {})
                  \cup Changes(ver, e2, a0, a1)
                  \cup HostEv(bare, e3, ha) \cup AcctEv(bare, e3, ac)
                  \cup {<<"005", t[1], t[2]>> : t \in IF Bound(c) THEN (IF up THEN Isup ELSE {})
                                                     ELSE (IF Record THEN {<<"NETWORK", "The\\x20Bouncer">>, <<"WHOX", "-">>} ELSE {<<"WHOX", "-">>})}
                  \cup {<<"005", t>> : t \in IF Bound(c) THEN {"CHATHISTORY=1000", "MSGREFTYPES=timestamp", "BOUNCER_NETID=1"} ELSE {"CASEMAPPING=ascii", "CHANTYPES=", "BOT=B", "LINELEN=4096"}}
                  \cup (IF deny THEN {<<"005", "CLIENTTAGDENY=*">>} ELSE {})
        IN
        /\ k > 1 => S1 # S2
        /\ cl' = [cl EXCEPT ![c] = new]
        /\ UNCHANGED <<up, offer, isup, acct, host, n>>
        /\ Rec([op |-> "connect", c |-> c, ver |-> ver, reqs |-> (IF k > 0 THEN <<AsSet(S1)>> ELSE <<>>) \o (IF k > 1 THEN <<AsSet(S2)>> ELSE <<>>),
                exp |-> Obs([None EXCEPT ![c] = ev])])

Disconnect ==
    \E c \in Pick({x \in Clients : cl[x].on}) :
        /\ cl' = [cl EXCEPT ![c] = Off]
        /\ UNCHANGED <<up, offer, isup, acct, host, n>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(None)])

Request ==
    \E c \in Pick({x \in Clients : cl[x].on}) : \E A \in Signed(30) :
        LET k == cl[c] S == Distinct(A) ok == Granted(k.ver, k.en, Av(c, up, offer), S) IN
        /\ cl' = [cl EXCEPT ![c].en = IF ok THEN Apply(@, S) ELSE @]
        /\ UNCHANGED <<up, offer, isup, acct, host, n>>
        /\ Rec([op |-> "req", c |-> c, S |-> AsSet(S), exp |-> Obs([None EXCEPT ![c] = Answer(ok, S)])])

\* Asks what there is, perhaps with a version, or what it has.
List ==
    \E c \in Pick({x \in Clients : cl[x].on}), what \in Pick({"LS", "LS 302", "LIST"}) :
        LET v == IF what = "LS 302" THEN 302 ELSE cl[c].ver IN
        /\ cl' = [cl EXCEPT ![c].ver = v, ![c].en = IF what # "LIST" /\ v >= 302 THEN @ \cup {"cap-notify"} ELSE @]
        /\ UNCHANGED <<up, offer, isup, acct, host, n>>
        /\ Rec([op |-> "list", c |-> c, what |-> what,
                exp |-> Obs([None EXCEPT ![c] = IF what = "LIST" THEN {<<"LIST", x>> : x \in cl[c].en} ELSE Listed(v, Av(c, up, offer))])])

-----------------------------------------------------------------------------
(* The network *)

\* Its offer or state changes: clients are told, and lose what is gone.
Bounds == {c \in Clients : cl[c].on /\ Bound(c)}
Shift(u, o, h, a, step) ==
    LET en(c) == cl[c].en \cap DOMAIN Av(c, u, o)
        told == step.op \in {"up", "logged"} IN   \* which account we are logged into
    /\ up' = u /\ offer' = o /\ host' = h /\ acct' = a
    /\ cl' = [c \in Clients |-> IF c \notin Bounds THEN cl[c]
                                ELSE [cl[c] EXCEPT !.en = en(c), !.acct = IF told THEN AcctKnown(cl[c], en(c), a) ELSE @,
                                                   !.host = IF u THEN HostKnown(cl[c], h) ELSE @]]
    /\ Rec(step @@ [exp |-> Obs([c \in Clients |-> IF c \notin Bounds THEN {}
            ELSE Changes(cl[c].ver, cl[c].en, Av(c, up, offer), Av(c, u, o))
                 \cup (IF u THEN HostEv(cl[c], en(c), h) ELSE {}) \cup (IF told THEN AcctEv(cl[c], en(c), a) ELSE {})
                 \* A network which comes back says again what it supports.
                 \cup (IF u /\ ~up THEN {<<"005", t[1], t[2]>> : t \in Isup} ELSE {})])])

\* labeled-response needs these.
Deps(S) == IF "labeled-response" \in S THEN S \cup {"message-tags", "batch"} ELSE S
SomeCaps(k) == IF ~Record THEN SUBSET (Offerable \ {"sasl"})
               ELSE {LET s == RandomElement(IF Len(hist) >= 0 THEN 1..4 ELSE {}) IN
                     IF s = 1 THEN Offerable ELSE Deps({x \in Offerable : RandomElement(IF Len(x) > 0 THEN 1..3 ELSE {}) # s - 1})}
Sasls == IF Record THEN {"~", "", "PLAIN", "EXTERNAL", "EXTERNAL,PLAIN"} ELSE {"~", "PLAIN"}
Regs  == IF Record THEN {"~", "", "before-connect", "before-connect,custom-account-name", "custom-account-name,before-connect,email-required"} ELSE {"~"}

Down == up /\ Shift(FALSE, offer, <<"alice", "">>, "", [op |-> "down"]) /\ UNCHANGED <<isup, n>>

Up ==
    \E S \in SomeCaps(1), s \in Pick(Sasls), r \in Pick(Regs), lines \in Pick(IF Record THEN 1..3 ELSE {1}) :
        /\ ~up
        /\ UNCHANGED <<isup, n>>
        /\ Shift(TRUE, [caps |-> S, sasl |-> s, reg |-> r], <<"alice", "">>, "",
                 [op |-> "up", offer |-> [caps |-> AsSet(S), sasl |-> s, reg |-> r], lines |-> lines])

CapNew ==
    \E S \in SomeCaps(2), s \in Pick(Sasls), r \in Pick(Regs) :
        LET new == Deps(S) \ offer.caps
            o == [caps |-> offer.caps \cup new, sasl |-> IF offer.sasl = "~" THEN s ELSE offer.sasl, reg |-> IF offer.reg = "~" THEN r ELSE offer.reg] IN
        /\ up /\ o # offer
        /\ UNCHANGED <<isup, n>>
        /\ Shift(TRUE, o, host, acct, [op |-> "capnew", new |-> [caps |-> AsSet(new), sasl |-> IF offer.sasl = "~" THEN s ELSE "~", reg |-> IF offer.reg = "~" THEN r ELSE "~"],
                                       old |-> [caps |-> AsSet(offer.caps), sasl |-> offer.sasl, reg |-> offer.reg]])

\* What labeled-response needs goes only with it.
CapDel ==
    \E D \in SomeCaps(3), s \in Pick(BOOLEAN), r \in Pick(BOOLEAN) :
        LET del == LET d == D \cap offer.caps IN IF d \cap {"message-tags", "batch"} # {} /\ "labeled-response" \in offer.caps THEN d \cup {"labeled-response"} ELSE d
            o == [caps |-> offer.caps \ del, sasl |-> IF s THEN "~" ELSE offer.sasl, reg |-> IF r THEN "~" ELSE offer.reg] IN
        /\ up /\ o # offer
        /\ UNCHANGED <<isup, n>>
        /\ Shift(TRUE, o, host, acct, [op |-> "capdel", del |-> AsSet(del \cup (IF s /\ offer.sasl # "~" THEN {"sasl"} ELSE {}) \cup (IF r /\ offer.reg # "~" THEN {"draft/account-registration"} ELSE {}))])

\* It says what it supports, or does not any more.
Isupport ==
    \E p \in Pick(Params), q \in Pick(Params), neg \in Pick({"", "p", "q"}) : \E v \in Pick(ValuesOf(p)), w \in Pick(ValuesOf(q)) :
        LET x == (p :> IF neg = "p" THEN "~" ELSE v) @@ (q :> IF neg = "q" THEN "~" ELSE w) IN
        /\ up
        /\ isup' = x @@ isup
        /\ UNCHANGED <<up, offer, acct, host, n, cl>>
        /\ Rec([op |-> "isupport", x |-> x,
                exp |-> Obs([c \in Clients |-> IF c \in Bounds THEN {<<"005", y, x[y]>> : y \in DOMAIN x \cap Passed} ELSE {}])])

\* We are logged in or out, or our host changes.
Logged ==
    \E a \in Pick({"", "acc1", "acc2"}), h \in Pick({<<"alice", "h1">>, <<"~al", "h1">>, <<"alice", "h2">>}) :
        /\ up
        /\ UNCHANGED <<isup, n>>
        /\ Shift(TRUE, offer, h, a, [op |-> "logged", a |-> a, h |-> h])
Host ==
    \E kind \in Pick({"396", "396u", "CHGHOST"}), h \in Pick({<<"alice", "h1">>, <<"~al", "h1">>, <<"alice", "h2">>}) :
        LET h2 == IF kind = "396" THEN <<host[1], h[2]>> ELSE h IN
        /\ up
        /\ (kind = "CHGHOST" => "chghost" \in UpOn)
        /\ UNCHANGED <<isup, n>>
        /\ Shift(TRUE, offer, h2, acct, [op |-> "host", kind |-> kind, h |-> h2])

Has(c, x) == x \in cl[c].en
\* The tags a client is shown of those there are.
Tags(c, T) == IF Has(c, "message-tags") THEN T
              ELSE (IF Has(c, "server-time") THEN T \cap {"time"} ELSE {}) \cup (IF Has(c, "account-tag") THEN T \cap {"account"} ELSE {})
Kinds == {"join", "away", "account", "chghost", "setname", "invite", "inviteme", "tagmsg", "privmsg", "msgbatch"}
Of(k) == CASE k = "away" -> "away-notify" [] k = "account" -> "account-notify" [] k = "chghost" -> "chghost" [] k = "setname" -> "setname"
           [] k = "invite" -> "invite-notify" [] k = "tagmsg" -> "message-tags" [] OTHER -> ""
NetTags == {"time"} \cup (IF "account-tag" \in UpOn THEN {"account"} ELSE {}) \cup (IF "message-tags" \in UpOn THEN {"+x", "msgid"} ELSE {})
Seen(c, k) ==
    LET T == AsSet(Tags(c, NetTags)) IN
    CASE k = "join" -> {<<"JOIN", IF Has(c, "extended-join") THEN "bobacc Bob" ELSE "", T>>, <<"PART", "", T>>}
      [] k \in {"privmsg", "msgbatch"} -> {<<"PRIVMSG", "hello", T>>}
      [] k = "inviteme" -> {<<"INVITE", "me", T>>}
      [] OTHER -> IF Has(c, Of(k)) THEN {<<k, "", T>>} ELSE {}
Event ==
    \E k \in Pick(Kinds) :
        /\ up
        /\ (Of(k) # "" => Of(k) \in UpOn)
        /\ (k = "msgbatch" => {"batch", "message-tags"} \subseteq UpOn)
        /\ n' = n + 1
        /\ UNCHANGED <<up, offer, isup, acct, host, cl>>
        /\ Rec([op |-> "event", k |-> k, ext |-> "extended-join" \in UpOn, tags |-> AsSet(NetTags), n |-> n,
                exp |-> Obs([c \in Clients |-> IF c \in Bounds THEN Seen(c, k) ELSE {}])])

\* A client writes, with a tag of its own and one which is not its to set.
Say ==
    \E c \in Pick(Bounds), k \in Pick({"PRIVMSG", "PRIVMSG", "TAGMSG", "NOTICE"}), two \in Pick(BOOLEAN) :
        LET T == {"time"} \cup (IF "message-tags" \in UpOn THEN {"+x"} ELSE {})
                 \cup (IF acct # "" /\ ("echo-message" \in UpOn => "account-tag" \in UpOn) THEN {"account"} ELSE {})
            targets == IF two THEN {"#c", "bob"} ELSE {"#c"} IN
        /\ up
        /\ (k = "TAGMSG" => "message-tags" \in UpOn)
        /\ n' = n + 1
        /\ UNCHANGED <<up, offer, isup, acct, host, cl>>
        /\ Rec([op |-> "say", c |-> c, k |-> k, n |-> n, targets |-> AsSet(targets), tagged |-> "message-tags" \in UpOn, label |-> "labeled-response" \in UpOn,
                echo |-> IF "echo-message" \in UpOn THEN AsSet(T) ELSE AsSet({}),
                exp |-> Obs([d \in Clients |-> IF d \in Bounds /\ (d # c \/ Has(d, "echo-message")) /\ (k = "TAGMSG" => Has(d, "message-tags"))
                                               THEN {<<"own " \o k, t, AsSet(Tags(d, T))>> : t \in targets} ELSE {}])])

Next == Connect \/ Connect \/ Connect \/ Disconnect \/ Request \/ Request \/ Request \/ List \/ Down \/ Up \/ Up \/ CapNew \/ CapDel \/ Isupport \/ Logged \/ Host
        \/ Event \/ Event \/ Event \/ Event \/ Say \/ Say
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* A client has only what it is offered; what it has is given to it by itself.
Offered == \A c \in Clients : cl[c].on => cl[c].en \subseteq DOMAIN Av(c, up, offer)
Notified == \A c \in Clients : (cl[c].on /\ cl[c].ver >= 302) => "cap-notify" \in cl[c].en
\* It is never given what the network does not do.
Backed == \A c \in Bounds : up => cl[c].en \cap Need \subseteq UpOn
Asked == [][\A c \in Clients : (cl[c].on /\ cl'[c].on /\ ~(cl'[c].en \subseteq cl[c].en)) => (up' = up /\ offer' = offer)]_vars
Bounded == n < 2
=============================================================================
