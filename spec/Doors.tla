------------------------------- MODULE Doors -------------------------------
(* The program itself: its doors (plain, TLS, WebSocket, Unix, the           *)
(* administrator's, identd's), its configuration, and its tools.             *)
EXTENDS Common

CONSTANTS Slots, Full

Some(s) == IF Record THEN {s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]} ELSE Range(s)

VARIABLES
    cfg,    \* the configuration that applies
    cl,     \* the clients: slot -> [door, net, host]
    up,     \* the upstream connections
    via,    \* network -> what its connection is made from
    pw,     \* bob's password
    carol,  \* whether the user carol was created
    told    \* what was said last, and to whom (for the properties)
vars == <<cfg, cl, up, via, pw, carol, told, hist>>

Nets == IF Full THEN {"a1", "a2", "b1"} ELSE {"a1", "b1"}
Srv(n) == IF n = "a2" THEN "s2" ELSE "s1"
Owner(n) == IF n = "b1" THEN "bob" ELSE "alice"
None == [door |-> "none", user |-> "", net |-> "", host |-> ""]
In == {i \in 1..Slots : cl[i].door # "none"}
Bound(n) == {i \in In : cl[i].net = n}

-----------------------------------------------------------------------------
Ws(d) == d \in {"ws", "http", "wss"}
\* Where a client comes from: w what it claims, h what that means ("" nothing).
Claims(d) == CASE d = "tcp" -> <<[w |-> "", h |-> ""], [w |-> "PROXY TCP4 192.0.2.7 127.0.0.1 5555 6667", h |-> "192.0.2.7"], [w |-> "PROXY TCP6 2001:db8::7 ::1 5555 6667", h |-> "2001:db8::7"],
                                 [w |-> "PROXY TCP6 ::7 ::1 5555 6667", h |-> "0::7"]>>
               [] Ws(d) -> <<[w |-> "", h |-> ""], [w |-> "Forwarded: for=192.0.2.7", h |-> "192.0.2.7"], [w |-> "Forwarded: for=\"[2001:db8::7]:4711\";proto=https", h |-> "2001:db8::7"],
                             [w |-> "X-Forwarded-For: 192.0.2.8", h |-> "192.0.2.8"], [w |-> "X-Forwarded-For: 192.0.2.9, 192.0.2.7", h |-> "192.0.2.7"],
                             [w |-> "Forwarded: for=192.0.2.9, for=192.0.2.7;by=192.0.2.1", h |-> "192.0.2.7"], [w |-> "X-Forwarded-For: ::7", h |-> "0::7"], [w |-> "X-Forwarded-For: a b :c", h |-> ""]>>
               [] OTHER -> <<[w |-> "", h |-> ""]>>
Trusted(a) == cfg.trust = "localhost" \/ (cfg.trust = "one" /\ a = "127.0.0.2")
Seen(d, a, c) == IF d = "unix" THEN "local" ELSE IF d = "tls" THEN a ELSE IF c.h # "" /\ Trusted(a) THEN c.h ELSE a
Origins == <<"", "", "", "same", "https://ok.example", "https://evil.example", "https://ok.example.evil.example", "https://www.ok.example", "sub", "null">>
Let(o) == o \in {"", "same"} \/ (o = "https://ok.example" /\ cfg.origin)

Stats(c, u) == [down |-> Cardinality({i \in DOMAIN c : c[i].door # "none"}), up |-> Cardinality({n \in Nets : u[n]})]
\* Where the networks see their connections come from: an address of the user's own in a range, if there is one.
Vias == [n \in Nets |-> IF up'[n] THEN via'[n] ELSE ""]
Fresh == IF cfg.ips \in {"v4", "both"} THEN cfg.ips ELSE "any"
Say(step, e, c, u) == Rec([exp |-> e @@ [stats |-> Stats(c, u), via |-> Vias]] @@ step)

Doors == IF Full THEN <<"tcp", "tcp", "tls", "unix", "ws", "ws", "http", "http", "wss", "admin">> ELSE <<"tcp", "ws", "admin">>
Connect ==
    \E i \in Pick({j \in 1..Slots : j \notin In}), d \in Some(Doors), a \in Some(IF Full THEN <<"127.0.0.2", "127.0.0.3">> ELSE <<"127.0.0.2">>), o \in Some(IF Record THEN Origins ELSE <<"", "null">>),
       u \in Pick({"alice", "bob"} \cup (IF carol THEN {"carol"} ELSE {})), n \in Pick({""} \cup Nets), p \in Some(<<"pw", "pw", "pw2">>) :
      \E c \in Some(IF Record THEN Claims(d) ELSE SubSeq(Claims(d), 1, IF d \in {"unix", "admin", "tls"} THEN 1 ELSE 2)) :
        LET net == IF n # "" /\ Owner(n) = u THEN n ELSE ""
            org == IF Ws(d) THEN o ELSE ""
            ok == d # "admin" /\ Let(org) /\ p = (IF u = "bob" THEN pw ELSE "pw")
            how == IF d = "admin" THEN "not irc" ELSE IF ~Let(org) THEN "origin" ELSE IF ok THEN "in" ELSE "password"
            h == IF net = "" THEN Seen(d, a, c) ELSE ""
            cl2 == IF ok THEN [cl EXCEPT ![i] = [door |-> d, user |-> u, net |-> net, host |-> h]] ELSE cl
        IN
        /\ cl' = cl2 /\ told' = IF ok THEN <<"in", u, p, d>> ELSE <<>>
        /\ UNCHANGED <<cfg, up, via, pw, carol>>
        /\ Say([op |-> "connect", i |-> i, door |-> d, from |-> a, origin |-> org, claim |-> c.w, user |-> u, net |-> net, pass |-> p],
               [how |-> how, server |-> IF ok THEN cfg.host ELSE "", title |-> IF ok /\ net = "" THEN cfg.title ELSE "", motd |-> IF ok /\ net = "" THEN cfg.motd ELSE "",
                files |-> IF ok /\ cfg.files THEN (IF cfg.ingress = "" THEN "https://" \o cfg.host \o "/uploads" ELSE cfg.ingress \o "/uploads") ELSE "", host |-> IF ok THEN h ELSE "", cert |-> IF d \in {"tls", "wss"} THEN cfg.cert ELSE ""], cl2, up)

Leave == \E i \in Pick(In), how \in Pick({"close", "quit"}) :
    LET cl2 == [cl EXCEPT ![i] = None] IN
    /\ cl' = cl2 /\ told' = <<>> /\ UNCHANGED <<cfg, up, via, pw, carol>>
    /\ Say([op |-> "leave", i |-> i, how |-> how], [done |-> TRUE], cl2, up)

\* What is said, and how it is put on the wire.
Texts == <<"plain", "utf8", "colon", "long", "ctrl", "bad", "spaces">>
Forms == <<"line", "line", "two", "split", "lf", "blank", "bytes", "inject">>
Got(k, d) == IF k = "bad" /\ Ws(d) THEN "fixed" ELSE k
Speak ==
    \E i \in Pick({j \in In : cl[j].net # "" /\ up[cl[j].net]}), k \in Some(IF Record THEN Texts ELSE <<"plain", "bad">>), f \in Some(IF Record THEN Forms ELSE <<"line", "inject">>) :
        LET d == cl[i].door
            kind == IF k = "bad" /\ Ws(d) THEN "utf8" ELSE k
            form == IF f \in {"inject"} /\ ~Ws(d) THEN "line" ELSE IF f = "blank" /\ Ws(d) THEN "two" ELSE f
            bad == form = "inject"
            times == IF bad THEN <<>> ELSE IF form = "two" THEN <<kind, kind>> ELSE <<kind>>
            cl2 == IF bad THEN [cl EXCEPT ![i] = None] ELSE cl
            n == cl[i].net
            gets == [j \in In |-> IF j = i \/ cl[j].net # n THEN <<>> ELSE [x \in 1..Len(times) |-> Got(kind, cl[j].door)]]
        IN
        /\ cl' = cl2 /\ told' = <<"up", n, Owner(n), cl[i].user>> /\ UNCHANGED <<cfg, up, via, pw, carol>>
        /\ Say([op |-> "speak", i |-> i, text |-> kind, form |-> form], [net |-> [m \in Nets |-> IF m = n THEN times ELSE <<>>], cls |-> SetToSeq({[i |-> j, g |-> gets[j]] : j \in In \ {i}})], cl2, up)

Hear ==
    \E n \in Pick({m \in Nets : up[m]}), k \in Some(IF Record THEN Texts ELSE <<"plain", "bad">>) :
        /\ told' = <<"down", n>> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
        /\ Say([op |-> "hear", n |-> n, text |-> k], [cls |-> SetToSeq({[i |-> j, g |-> IF cl[j].net = n THEN <<Got(k, cl[j].door)>> ELSE <<>>] : j \in In})], cl, up)

\* An upstream network is turned off or on.
Flip == \E n \in Pick(Nets) :
    LET up2 == [up EXCEPT ![n] = ~@] IN
    /\ up' = up2 /\ via' = [via EXCEPT ![n] = IF up2[n] THEN Fresh ELSE "any"] /\ told' = <<>> /\ UNCHANGED <<cfg, cl, pw, carol>>
    /\ Say([op |-> "flip", n |-> n, on |-> up2[n]], [done |-> TRUE], cl, up2)

\* A server asks identd whose a connection is.
Junk == <<"junk", "6667", "0, 5", "5, 0", "-1, 5", "70000000000000000000, 1", "1,2,3", "a, 5">>
Ident ==
    \E n \in Pick(Nets), s \in Some(<<"s1", "s1", "s2", "else">>), f \in Some(IF Record THEN <<"right", "right", "right", "spaces", "twice", "swapped", "port", "junk", "junk">> ELSE <<"right", "swapped">>), j \in Some(Junk) :
        LET ans == IF f = "junk" THEN "INVALID-PORT" ELSE IF f \in {"right", "spaces", "twice"} /\ up[n] /\ s = Srv(n) THEN Owner(n) ELSE "NO-USER" IN
        /\ told' = <<"ident", n, s, ans>> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
        /\ Say([op |-> "ident", n |-> n, s |-> s, form |-> f, junk |-> j], [ans |-> IF f = "twice" /\ ans \in {"alice", "bob"} THEN <<ans, ans>> ELSE <<ans>>], cl, up)

\* The administrator says something to everybody: with sojuctl, or by hand.
Words == <<"plain", "two words", "quo\"te", "it's", "back\\slash", "tail\\", "%t", "%b", "%e", " lead", "trail ", "a  b">>
Raws == <<[r |-> "server notice plain", t |-> "plain"], [r |-> "server notice \"two words\"", t |-> "two words"], [r |-> "server notice 'two \"words'", t |-> "two \"words"],
          [r |-> "server notice two\\ words", t |-> "two words"], [r |-> "server notice \"quo\\\"te\"", t |-> "quo\"te"], [r |-> "  server   notice  a\"b c\"d  ", t |-> "ab cd"],
          [r |-> "server notice trail\\ ", t |-> "trail "], [r |-> "server notice \\\\", t |-> "\\"], [r |-> "server notice \"open", t |-> ""], [r |-> "server notice open\\", t |-> ""],
          [r |-> "server notice two words", t |-> ""], [r |-> "server notice", t |-> ""], [r |-> "nosuch", t |-> ""], [r |-> "user status nobody", t |-> ""], [r |-> "SERVER notice plain", t |-> ""]>>
Told(t) == SetToSeq({[i |-> j, g |-> IF t = "" THEN <<>> ELSE <<t>>] : j \in In})
Ctl == \E w \in Some(IF Record THEN Words ELSE <<"plain">>), bad \in Some(IF Record THEN <<FALSE, FALSE, FALSE, TRUE>> ELSE <<FALSE>>) :
    /\ told' = <<"all">> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
    /\ Say([op |-> "ctl", w |-> w, bad |-> bad], [done |-> ~bad, cls |-> Told(IF bad THEN "" ELSE w)], cl, up)
Serv == \E r \in Some(IF Record THEN Raws ELSE SubSeq(Raws, 1, 1)) :
    /\ told' = <<"all">> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
    /\ Say([op |-> "serv", raw |-> r.r], [done |-> r.t # "", cls |-> Told(r.t)], cl, up)
AdminDoor == \E c \in Some(<<"NICK x", "USER x 0 * x", "PASS xxxxxxxxxxxx", "CAP LS", "PING xxxxxxxxxxxx", "JOIN #c", "BOUNCERSERV", "PRIVMSG BouncerServ :server status">>) :
    /\ told' = <<>> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
    /\ Say([op |-> "admindoor", line |-> c], [ans |-> IF c \in {"NICK x", "USER x 0 * x", "PASS xxxxxxxxxxxx", "CAP LS"} THEN "ERROR" ELSE IF c = "BOUNCERSERV" THEN "461" ELSE "421"], cl, up)

-----------------------------------------------------------------------------
Confs == [host : {"h1.example", "h2.example"}, title : {"", "My Net"}, motd : {"", "one", "two"}, trust : {"no", "one", "localhost"}, origin : BOOLEAN, files : BOOLEAN, ingress : {"", "https://in.example"}, cert : {"c1", "c2"}, ips : {"", "v4", "v6", "both"}]
Small == {c \in Confs : c.title = "" /\ c.motd = "" /\ c.trust # "one" /\ ~c.files /\ c.ingress = "" /\ c.cert = "c1" /\ c.ips = (IF c.origin THEN "v4" ELSE "")}
\* A reload shows in the server name, so that it is seen to have happened.
Reload == \E c \in Pick({x \in (IF Record THEN Confs ELSE Small) : x.host # cfg.host}) :
    /\ cfg' = c /\ told' = <<>> /\ UNCHANGED <<cl, up, via, pw, carol>>
    /\ Say([op |-> "reload", cfg |-> c], [done |-> TRUE], cl, up)
BadConfs == <<"accept-proxy-ip 300.0.0.0/8", "message-store nope", "motd /nonexistent/motd", "tls /nonexistent/a /nonexistent/b", "auth nope", "max-user-networks x", "http-origin [", "}", "disable-inactive-user 3", "enable-user-on-auth maybe", "file-upload nope /tmp", "db one", "upstream-user-ip 127.66.0.0/33", "upstream-user-ip 127.66.0.0/16 127.67.0.0/16", "upstream-user-ip fd00::/64 fd01::/64">>
BadReload == \E b \in Some(BadConfs) :
    /\ told' = <<>> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
    /\ Say([op |-> "badreload", line |-> b], [server |-> cfg.host], cl, up)
BadStarts == <<"listen irc://127.0.0.9:7001", "listen ws://127.0.0.9:7001", "listen http://127.0.0.9:7001", "listen http+prometheus://127.0.0.9:7001", "listen http+pprof://127.0.0.9:7001", "listen ircs://127.0.0.9:7001", "listen wss://127.0.0.9:7001",
               "listen 127.0.0.9:7001", "listen gopher://127.0.0.9:7001", "accept-proxy-ip 300.0.0.0/8", "message-store nope", "auth nope", "}">>
BadStart == \E b \in Some(BadStarts) :
    /\ told' = <<>> /\ UNCHANGED <<cfg, cl, up, via, pw, carol>>
    /\ Say([op |-> "badstart", line |-> b], [ended |-> "with an error", listens |-> FALSE], cl, up)

NoClients == [i \in 1..Slots |-> None]
\* The program is stopped and started; the database may be edited in between.
Restart == \E kill \in Pick(BOOLEAN), db \in Some(IF Record THEN <<"", "", "passwd", "create", "nobody", "empty">> ELSE <<"", "passwd">>) :
    LET p2 == IF db = "passwd" THEN (IF pw = "pw" THEN "pw2" ELSE "pw") ELSE pw
        made == db = "create" /\ ~carol
    IN
    /\ pw' = p2 /\ carol' = (carol \/ made) /\ cl' = NoClients /\ via' = [n \in Nets |-> IF up[n] THEN Fresh ELSE "any"] /\ told' = <<>> /\ UNCHANGED <<cfg, up>>
    /\ Say([op |-> "restart", kill |-> kill, db |-> db, pass |-> p2], [done |-> db \in {"", "passwd"} \/ made], NoClients, up)

Init == /\ cfg = [host |-> "h1.example", title |-> "", motd |-> "", trust |-> "no", origin |-> FALSE, files |-> FALSE, ingress |-> "", cert |-> "c1", ips |-> ""]
        /\ cl = NoClients /\ up = [n \in Nets |-> TRUE] /\ via = [n \in Nets |-> "any"] /\ pw = "pw" /\ carol = FALSE /\ told = <<>>
        /\ RecInit([op |-> "init"])
Speakers == {j \in In : cl[j].net # "" /\ up[cl[j].net]}
C == IF In # 1..Slots THEN Connect ELSE FALSE
S == IF Speakers # {} THEN Speak ELSE FALSE
H == IF \E n \in Nets : up[n] THEN Hear ELSE FALSE
Rare == BadStart \/ BadReload \/ AdminDoor \/ Restart
Next == \/ C \/ C \/ C \/ S \/ S \/ S \/ H \/ (IF In # {} THEN Leave ELSE FALSE) \/ Ident \/ Ident \/ Flip \/ (IF In # {} THEN Ctl ELSE FALSE) \/ Serv \/ Reload \/ Rare
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Only who gives the password gets in, and never by the administrator's door.
Passwords == [][told' # <<>> /\ told'[1] = "in" => /\ told'[4] # "admin"
                                                   /\ told'[3] = (IF told'[2] = "bob" THEN pw ELSE "pw")]_vars
\* Nothing crosses from one user's connection to another's network.
Own == told # <<>> /\ told[1] = "up" => told[3] = told[4]
\* Idents name the owner, to the server concerned only.
Attributed == told # <<>> /\ told[1] = "ident" /\ told[4] \in {"alice", "bob"} => /\ up[told[2]] /\ told[3] = Srv(told[2]) /\ told[4] = Owner(told[2])
\* A client is known by its own address, unless a trusted proxy gave it.
Hosts == \A i \in In : cl[i].net = "" => cl[i].host \in {"local", "127.0.0.2", "127.0.0.3", "192.0.2.7", "192.0.2.8", "2001:db8::7", "0::7"}
=============================================================================
