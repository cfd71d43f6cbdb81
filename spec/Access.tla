------------------------------- MODULE Access -------------------------------
(* Who may log in, as whom, and who may administer which accounts.            *)
EXTENDS Common

Names   == IF Record THEN {"alice", "bob", "root", "al"} ELSE {"alice", "root", "al"}
Conns   == IF Record THEN {"c1", "c2", "c3", "c4"} ELSE {"c1", "c2"}
Pws     == {1, 2}
HasNet  == {"alice", "bob"}     \* accounts which start with a network

VARIABLES
    drv,    \* how passwords are checked: internal, http, oauth2, oauth2plain
    eoa,    \* accounts are created and enabled on successful authentication
    users,  \* [Names -> account or NoUser]
    nets,   \* the accounts that still have their network
    conns,  \* [Conns -> [u, net] or NoConn]
    actor   \* ghost: who acted last: [u, admin]

vars == <<drv, eoa, users, nets, conns, actor, hist>>

NoUser == [pw |-> -1, admin |-> FALSE, enabled |-> FALSE, max |-> -1, nick |-> "", real |-> ""]
Acct(pw, admin, enabled) == [pw |-> pw, admin |-> admin, enabled |-> enabled, max |-> -1, nick |-> "", real |-> ""]
NoConn == [u |-> "", net |-> FALSE]
Exists(us, u) == u \in Names /\ us[u].pw # -1
Live == {c \in Conns : conns[c] # NoConn}
Nobody == [u |-> "", admin |-> FALSE]

\* What can be seen from outside after a step.
UserObs(us) == [u \in {x \in Names : Exists(us, x)} |-> us[u]]
UpObs(us, ns) == SeqOfSet({u \in ns : us[u].enabled}, <<"alice", "bob">>)
Obs(reply, us, ns, cs) == [reply |-> reply, users |-> UserObs(us), up |-> UpObs(us, ns),
                           live |-> SeqOfSet({c \in Conns : cs[c] # NoConn}, <<"c1", "c2", "c3", "c4">>)]

Init ==
    /\ drv \in (IF Record THEN {"internal", "internal", "http", "oauth2", "oauth2plain"} ELSE {"internal"})
    /\ eoa \in (IF Record THEN BOOLEAN ELSE {FALSE})
    /\ users \in (IF Record
                  THEN {[u \in Names |-> IF u = "al" THEN (IF d THEN Acct(2, FALSE, TRUE) ELSE NoUser) ELSE IF u = "root" THEN Acct(1, TRUE, TRUE) ELSE Acct(IF u = "alice" THEN 1 ELSE p, FALSE, e)] : p \in {0, 2}, e \in BOOLEAN, d \in BOOLEAN}
                  ELSE {[u \in Names |-> IF u = "al" THEN NoUser ELSE IF u = "root" THEN Acct(1, TRUE, TRUE) ELSE Acct(1, FALSE, TRUE)]})
    /\ nets = HasNet \cap Names
    /\ conns = [c \in Conns |-> NoConn]
    /\ actor = Nobody
    /\ RecInit([op |-> "init", drv |-> drv, eoa |-> eoa, users |-> UserObs(users)])

-----------------------------------------------------------------------------
(* Logging in *)

\* Credentials: with the internal store, the account's password.  With the
\* others, 9 is the right one; 8 is somebody else's; 7, 6 and 5 are wrong.
Creds == IF drv = "internal" THEN {0, 1, 2} ELSE {9, 9, 9, 8, 7, 6, 5}
\* The right credentials, mostly.
Right(u) == IF drv = "internal" THEN (IF Exists(users, u) THEN users[u].pw ELSE 1) ELSE 9
Cred(u, w) == IF w THEN Right(u) ELSE RandomElement(Creds)
CredsFor(u) == IF Record THEN {Cred(u, RandomElement(1..3) # 1)} ELSE Creds
CredOK(u, p) == IF drv = "internal" THEN Exists(users, u) /\ users[u].pw = p /\ p # 0 ELSE p = 9
PlainOK(u, p) == drv # "oauth2" /\ CredOK(u, p)
BearerOK(u, p) == drv \in {"oauth2", "oauth2plain"} /\ CredOK(u, p)

\* The account that results from logging in as u, or refusal.
\* net is what to bind to: "", "own", "nope".
Land(c, u, net, step, ok) ==
    LET known == Exists(users, u)
        us == IF known
              THEN IF ~users[u].enabled /\ eoa THEN [users EXCEPT ![u].enabled = TRUE] ELSE users
              ELSE IF eoa THEN [users EXCEPT ![u] = Acct(0, FALSE, TRUE)] ELSE users
        auth == ok /\ (known \/ eoa) /\ net # "clash"
        in == auth /\ us[u].enabled /\ (net = "" \/ (net = "own" /\ u \in nets))
        cs == IF in THEN [conns EXCEPT ![c] = [u |-> u, net |-> (net = "own")]] ELSE conns
        us1 == IF auth THEN us ELSE users
    IN /\ users' = us1
       /\ conns' = cs
       /\ actor' = IF auth THEN [u |-> u, admin |-> FALSE] ELSE Nobody
       /\ UNCHANGED <<drv, eoa, nets>>
       /\ Rec([op |-> "login", c |-> c] @@ step @@
              [exp |-> Obs(IF in THEN <<"in", u, IF net = "own" THEN "own" ELSE "">> ELSE <<"refused">>, us1, nets, cs)])

NetsFor(u) == IF ~Record THEN {""} ELSE IF u \in HasNet THEN {"", "", "own", "own", "nope"} ELSE {"", "", "nope"}
NotIn == Conns \ Live
LoginNames == IF Record THEN Names \cup {"mallory", "Alice"} ELSE Names

Login ==
    \E c \in Pick(NotIn), u \in Pick(LoginNames) :
    \E p \in Pick(CredsFor(u)), net \in Pick(NetsFor(u)), how \in Pick(IF Record THEN {"pass", "pass", "sasl", "sasl", "sasluser", "bearer", "bearer", "bearer", "badgood"} ELSE {"pass"}), cl \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET u1 == IF u \in {"mallory", "Alice"} /\ drv # "internal" THEN "bob" ELSE u
            step == [how |-> how, u |-> u1, p |-> p, net |-> net, cl |-> cl]
        IN IF how = "bearer"
           THEN Land(c, u1, "", [step EXCEPT !.net = ""], BearerOK(u1, p))
           ELSE Land(c, u1, net, step, PlainOK(u1, p))

\* No credentials, or an attempt given up.
Anonymous ==
    \E c \in Pick(NotIn), u \in Pick(Names), how \in Pick({"none", "abort", "anonymous", "emptypass", "order"}) :
        /\ Record
        /\ Land(c, u, "", [how |-> how, u |-> u, p |-> 0, net |-> "", cl |-> FALSE], FALSE)

\* Authenticated as u, then a failed attempt as v.
GoodBad ==
    \E c \in Pick(NotIn), u \in Pick(Names), v \in Pick(Names), p \in Pick(Creds \ {6, 5}) :
        LET ok == PlainOK(u, p) IN
        /\ Record
        /\ Land(c, u, "", [how |-> "goodbad", u |-> u, v |-> v, p |-> p, net |-> "", cl |-> FALSE], ok)

\* The user name given twice, with conflicting suffixes.
Mismatch ==
    \E c \in Pick(NotIn), u \in Pick(Names), p \in Pick(Creds), what \in Pick({"net", "client"}) :
        /\ Record
        /\ Land(c, u, "nope", [how |-> "mismatch", u |-> u, p |-> p, what |-> what, net |-> "", cl |-> FALSE], FALSE)

\* Admins can log in as another user.
Impersonate ==
    \E c \in Pick(NotIn), u \in Pick(IF Record THEN Names ELSE {"root", "alice"}), v \in Pick(Names) :
    \E p \in Pick(CredsFor(u)), net \in Pick(NetsFor(v)) :
        Land(c, v, net, [how |-> "imp", u |-> u, v |-> v, p |-> p, net |-> net, cl |-> FALSE],
             PlainOK(u, p) /\ (u = v \/ (Exists(users, u) /\ users[u].admin /\ Exists(users, v))))

\* Binding to a network by its identifier.
Bind ==
    \E c \in Pick(NotIn), u \in Pick(Names) : \E p \in Pick(CredsFor(u)), id \in Pick({"own", "other", "unknown", "garbage", "early"}) :
        LET net == CASE id = "own" -> "own" [] id \in {"garbage", "early"} -> "" [] OTHER -> "nope" IN
        /\ Record
        /\ Land(c, u, net, [how |-> "bind", u |-> u, p |-> p, id |-> id, net |-> "", cl |-> FALSE], PlainOK(u, p))

\* Several attempts on one connection, of which the last that succeeded counts.
\* k: plain; imp, for the identity v; bearer; abort, given up midway; junk.
\* long: how the response is padded (by a client name): over one or more lines.
ImpOK(u, v, p) == PlainOK(u, p) /\ (u = v \/ (Exists(users, u) /\ users[u].admin /\ Exists(users, v)))
AttOK(t) == CASE t.k = "plain" -> PlainOK(t.u, t.p)
              [] t.k = "imp" -> ImpOK(t.u, t.v, t.p)
              [] t.k = "bearer" -> BearerOK(t.u, t.p)
              [] OTHER -> FALSE
AttAs(t) == IF t.k = "imp" THEN t.v ELSE t.u
Kinds == <<"plain", "plain", "plain", "plain", "imp", "imp", "imp", "bearer", "bearer", "abort", "junk">>
Att(i) == LET w == RandomElement(1..4)
              k0 == Kinds[RandomElement(1..Len(Kinds))]
              k == IF drv = "oauth2" /\ k0 = "plain" /\ w # 1 THEN "bearer" ELSE k0
              adm == {x \in Names : Exists(users, x) /\ users[x].admin}
              u == IF k = "imp" /\ adm # {} /\ w < 4 THEN RandomElement(adm) ELSE RandomElement(Names)
              v == RandomElement(Names)
              who == IF k = "imp" THEN v ELSE u
          IN [k |-> k, u |-> u, v |-> v, p |-> Cred(u, RandomElement(1..5) # 1),
              net |-> IF k # "bearer" /\ RandomElement(1..4) = 1 THEN RandomElement(NetsFor(who)) ELSE "",
              long |-> IF RandomElement(1..3) = 1 THEN RandomElement({1, 2, 3}) ELSE 0]
Multi ==
    \E c \in Pick(NotIn), n \in Pick({1, 2, 3}), usr \in Pick(Names), pw \in Pick({"none", "good", "wrong"}),
      bind \in Pick({<<"none", "none", "none", "none", "alice", "bob">>[RandomElement(1..6)]}), bindat \in Pick({0, 1, 9}) :
        LET seed == Len(hist)
            ts == [i \in 1..n |-> Att(i + seed)] IN
        \E t \in {ts} : \E fb \in Pick({IF usr \in HasNet THEN <<"", "", "", "own", "own", "nope">>[RandomElement(1..6)] ELSE <<"", "", "", "nope">>[RandomElement(1..4)]}), pp \in Pick({IF pw = "good" THEN Cred(usr, TRUE) ELSE 0}) :
        LET good == {i \in 1..n : AttOK(t[i])}
            sasl == good # {}
            last == CHOOSE i \in good : \A j \in good : j <= i
            ok == sasl \/ (pw = "good" /\ PlainOK(usr, pp))
            u == IF sasl THEN AttAs(t[last]) ELSE usr
            \* The networks named: by the attempt that counted, and with USER.
            name(x, who) == IF x = "own" THEN who ELSE x
            n1 == IF sasl THEN name(t[last].net, u) ELSE name(fb, usr)
            n2 == name(fb, usr)
            clash == n1 # "" /\ n2 # "" /\ n1 # n2
            named == IF n1 # "" THEN n1 ELSE n2
            \* A network can be bound to once authenticated.
            bound == bind # "none" /\ sasl /\ (bindat = 9 \/ \E i \in good : i <= bindat)
            net == IF clash THEN "clash"
                   ELSE IF bound THEN (IF bind = u THEN "own" ELSE "nope")
                   ELSE IF named = "" THEN "" ELSE IF named = u THEN "own" ELSE "nope"
        IN /\ Record
           /\ Land(c, u, net, [how |-> "multi", ts |-> t, u |-> usr, fb |-> fb, pw |-> pw, p |-> pp, bind |-> bind, bindat |-> bindat], ok)

Logout ==
    \E c \in Pick(Live) :
        /\ conns' = [conns EXCEPT ![c] = NoConn]
        /\ actor' = Nobody
        /\ UNCHANGED <<drv, eoa, users, nets>>
        /\ Rec([op |-> "logout", c |-> c, exp |-> Obs(<<>>, users, nets, conns')])

-----------------------------------------------------------------------------
(* Administration: by the account of a connection, or the admin socket *)

\* Who acts: a connection, or the socket; through "user run" as well.
Actors == IF Record /\ Live # {} /\ RandomElement(1..4) # 1 THEN Live ELSE Live \cup {"sock"}
ActU(a) == IF a = "sock" THEN "" ELSE conns[a].u
ActAdmin(a) == a = "sock" \/ users[ActU(a)].admin

Fail(a, step) ==
    /\ UNCHANGED <<drv, eoa, users, nets, conns>>
    /\ actor' = [u |-> ActU(a), admin |-> ActAdmin(a)]
    /\ Rec(step @@ [a |-> a, exp |-> Obs(<<"err">>, users, nets, conns)])

Ok(a, step, us, ns, cs) ==
    /\ users' = us /\ nets' = ns /\ conns' = cs
    /\ UNCHANGED <<drv, eoa>>
    /\ actor' = [u |-> ActU(a), admin |-> ActAdmin(a)]
    /\ Rec(step @@ [a |-> a, exp |-> Obs(<<"ok">>, us, ns, cs)])

Drop(cs, S) == [c \in Conns |-> IF cs[c].u \in S THEN NoConn ELSE cs[c]]

Create ==
    \E a \in Pick(Actors), u \in Pick(Names \cup (IF Record THEN {""} ELSE {})), p \in Pick(IF Record THEN {0, 1, 2, -1} ELSE {1}), adm \in Pick(BOOLEAN), en \in Pick(IF Record THEN BOOLEAN ELSE {TRUE}) :
        LET step == [op |-> "create", u |-> u, p |-> p, admin |-> adm, enabled |-> en] IN
        IF ~ActAdmin(a) \/ u = "" \/ Exists(users, u) \/ p = -1 THEN Fail(a, step)
        ELSE Ok(a, step, [users EXCEPT ![u] = Acct(p, adm, en)], nets, conns)

\* f: what to change.
Fields == {[pw |-> 2], [pw |-> 1], [pw |-> 0], [pw |-> 3], [admin |-> TRUE], [admin |-> FALSE], [enabled |-> FALSE], [enabled |-> TRUE], [max |-> 3],
           [nick |-> "_x"], [nick |-> ""], [pw |-> 2, max |-> 5], [admin |-> TRUE, nick |-> "_y"], [enabled |-> FALSE, pw |-> 1], [nick |-> "_z", max |-> 0], [real |-> "My Name"], [real |-> "Other Name", pw |-> 1],
           [pw |-> 2, admin |-> TRUE], [pw |-> 1, admin |-> FALSE], [pw |-> 1, enabled |-> TRUE], [pw |-> 2, enabled |-> TRUE, admin |-> TRUE, max |-> 1],
           [admin |-> FALSE, enabled |-> TRUE, max |-> 4], [pw |-> 2, nick |-> "_w", real |-> "Both"], [pw |-> 1, nick |-> ""], [max |-> -1, admin |-> TRUE], [pw |-> 0, admin |-> TRUE]}
Has(f, k) == k \in DOMAIN f
\* pw 3: both a password and no password.
Bad(f) == Has(f, "pw") /\ f.pw = 3

Update ==
    \E a \in Pick(Actors), t \in Pick(Names \cup {""}), f \in Pick(IF Record THEN Fields ELSE {[pw |-> 2], [admin |-> TRUE], [enabled |-> FALSE]}) :
        LET step == [op |-> "update", t |-> t, f |-> f]
            self == a # "sock" /\ (t = "" \/ t = ActU(a))
            u == IF self THEN ActU(a) ELSE t
            us == [users EXCEPT ![u] = f @@ @]
            gone == IF ~us[u].enabled \/ (~self /\ Has(f, "pw")) THEN {u} ELSE {}
        IN IF \/ Bad(f) \/ (a = "sock" /\ t = "")
              \/ (self /\ (Has(f, "admin") \/ Has(f, "enabled") \/ (Has(f, "max") /\ ~ActAdmin(a))))
              \/ (~self /\ (~ActAdmin(a) \/ Has(f, "nick") \/ Has(f, "real") \/ ~Exists(users, t)))
           THEN Fail(a, step)
           ELSE Ok(a, step, us, nets, Drop(conns, gone))

\* An admin runs a command as another user, with admin rights.
Run ==
    \E a \in Pick(Actors), t \in Pick(Names), f \in Pick(IF Record THEN Fields ELSE {[pw |-> 2]}) :
        LET step == [op |-> "run", t |-> t, f |-> f] IN
        /\ Record \/ a # "sock"
        /\ IF ~ActAdmin(a) \/ ~Exists(users, t) \/ Bad(f) \/ Has(f, "admin") \/ Has(f, "enabled") THEN Fail(a, step)
           ELSE Ok(a, step, [users EXCEPT ![t] = f @@ @], nets, conns)

Delete ==
    \E a \in Pick(Actors), t \in Pick(Names), tok \in Pick({"right", "right", "wrong", "none"}) :
        LET step == [op |-> "delete", t |-> t, tok |-> tok]
            self == a # "sock" /\ t = ActU(a) IN
        IF (~ActAdmin(a) /\ ~self) \/ ~Exists(users, t) \/ tok = "wrong" THEN Fail(a, step)
        ELSE IF tok = "none" THEN Ok(a, step, users, nets, conns)
        ELSE Ok(a, step, [users EXCEPT ![t] = NoUser], nets \ {t}, Drop(conns, {t}))

\* Commands for admins only, which change nothing.
Look ==
    \E a \in Pick(Actors), what \in Pick({"status", "status1", "server", "notice", "debug", "help"}), t \in Pick(Names) :
        /\ Record
        /\ UNCHANGED <<drv, eoa, users, nets, conns>>
        /\ actor' = [u |-> ActU(a), admin |-> ActAdmin(a)]
        /\ LET ok == what = "help" \/ (ActAdmin(a) /\ (what # "status1" \/ Exists(users, t)))
               line(u) == <<u, IF users[u].admin THEN "admin" ELSE "", IF users[u].enabled THEN "" ELSE "disabled", IF u \in nets THEN "1" ELSE "0", ToString(users[u].max)>>
               lines == CASE ~ok -> {}
                          [] what = "status" -> {line(u) : u \in {x \in Names : Exists(users, x)}}
                          [] what = "status1" -> {line(t)}
                          [] OTHER -> {}
               heard == IF ok /\ what = "notice" THEN Live ELSE {}
           IN Rec([op |-> "look", a |-> a, what |-> what, t |-> t,
                   exp |-> Obs(<<IF ok THEN "ok" ELSE "err">>, users, nets, conns) @@ [lines |-> AsSet(lines), heard |-> SeqOfSet(heard, <<"c1", "c2", "c3", "c4">>)]])

\* The admin socket is not for clients.
SockLogin ==
    \E cmd \in Pick({"NICK x", "CAP LS", "PASS p", "USER a 0 * :a", "PRIVMSG BouncerServ :user status"}) :
        /\ Record
        /\ UNCHANGED <<drv, eoa, users, nets, conns>>
        /\ actor' = Nobody
        /\ Rec([op |-> "sockclient", cmd |-> cmd, exp |-> Obs(<<"refused">>, users, nets, conns)])

Restart ==
    \E kill \in Pick(BOOLEAN) :
        /\ conns' = [c \in Conns |-> NoConn]
        /\ actor' = Nobody
        /\ UNCHANGED <<drv, eoa, users, nets>>
        /\ Rec([op |-> "restart", kill |-> kill, exp |-> Obs(<<>>, users, nets, conns')])

Logins == Login \/ Login \/ Login \/ Anonymous \/ GoodBad \/ Mismatch \/ Impersonate \/ Impersonate \/ Bind \/ Bind
Admin  == Create \/ Create \/ Update \/ Update \/ Update \/ Run \/ Delete \/ Look \/ SockLogin
Next   == Logins \/ Logout \/ Admin \/ Restart
Spec   == Init /\ [][Next]_vars
NextLogin == Multi \/ Multi \/ Multi \/ Multi \/ Multi \/ Multi \/ Login \/ Login \/ Logins \/ Logins \/ Logout \/ Logout \/ Update \/ Create \/ Delete \/ Restart
SpecLogin == Init /\ [][NextLogin]_vars
\* For administration: the first connections are an admin's and a user's.
LoginAs == \E c \in Pick(NotIn), u \in Pick({x \in Names : Exists(users, x) /\ users[x].enabled}) :
              IF drv = "internal" THEN Land(c, u, "", [how |-> "pass", u |-> u, p |-> users[u].pw, net |-> "", cl |-> FALSE], PlainOK(u, users[u].pw))
              ELSE IF drv = "http" THEN Land(c, u, "", [how |-> "pass", u |-> u, p |-> 9, net |-> "", cl |-> FALSE], PlainOK(u, 9))
              ELSE Land(c, u, "", [how |-> "bearer", u |-> u, p |-> 9, net |-> "", cl |-> FALSE], BearerOK(u, 9))
NextAdmin == (\E c \in Pick(NotIn), u \in Pick(Names) : \E net \in Pick(NetsFor(u)) : drv = "internal" /\ Land(c, u, net, [how |-> "pass", u |-> u, p |-> users[u].pw, net |-> net, cl |-> FALSE], PlainOK(u, users[u].pw)))
             \/ LoginAs \/ LoginAs \/ LoginAs
             \/ (\E c \in Pick(NotIn), u \in Pick(Names) : drv # "internal" /\ Land(c, u, "", [how |-> "bearer", u |-> u, p |-> 9, net |-> "", cl |-> FALSE], BearerOK(u, 9)))
             \/ Logout \/ Admin \/ Admin \/ Admin \/ Restart
SpecAdmin == Init /\ [][NextAdmin]_vars
-----------------------------------------------------------------------------
TypeOK == \A u \in Names : users[u].pw \in -1..2
\* Whoever is connected has an account that is enabled.
ConnOK == \A c \in Live : Exists(users, conns[c].u) /\ users[conns[c].u].enabled
\* Accounts are changed only by admins and by themselves.
Authority == [][\A u \in Names : users'[u] # users[u] => actor'.admin \/ actor'.u = u]_vars
\* Nobody but an admin makes an admin, disables or enables an account.
NoEscalation == [][\A u \in Names : ((users'[u].admin /\ ~users[u].admin) \/ (Exists(users, u) /\ Exists(users', u) /\ users'[u].enabled # users[u].enabled)) => actor'.admin \/ eoa]_vars
\* A password that was changed by an admin is asked for again.
Ousted == [][\A u \in Names, c \in Conns : (Exists(users', u) /\ users'[u].pw # users[u].pw /\ actor'.u # u /\ conns[c].u = u /\ Exists(users, u)) => conns'[c] = NoConn \/ actor'.u = u \/ actor'.admin]_vars
=============================================================================
