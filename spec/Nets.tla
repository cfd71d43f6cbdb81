-------------------------------- MODULE Nets --------------------------------
(* The networks of an account: creating, changing, deleting and listing them, *)
(* through BOUNCER and the service, what the bouncer presents to each server, *)
(* and what clients following the list of networks know.                      *)
EXTENDS Common

CONSTANT MaxNets

Clients == IF Record THEN {"c1", "c2", "c3", "r1"} ELSE {"c1", "r1"}
COrd    == <<"c1", "c2", "c3", "r1">>
Owner(c) == IF c = "r1" THEN "root" ELSE "alice"
Accts   == {"alice", "root"}
Srvs    == IF Record THEN {"A", "B", "C", "X", "Y", "U"} ELSE {"A", "U"}
SOrd    == <<"A", "B", "C", "U">>
Live    == {"A", "B", "C", "U"} \cap Srvs      \* X and Y refuse connections
SetnameSrvs == {"B", "C"}                      \* these know SETNAME
Holdable == {"A", "B"} \cap Srvs

VARIABLES
    lim,    \* the number of enabled networks the server allows, -1: any
    umax,   \* the same for an account, -1: as the server
    unick,  \* [Accts -> nickname or ""]
    ureal,  \* [Accts -> real name or ""]
    nets,   \* [id -> record]
    nid,    \* last identifier given
    up,     \* [id -> identity presented on the registered connection, or NoConn]
    held,   \* servers which don't complete registrations for now
    cl,     \* [Clients -> [on, net, kind, cn]]; cn: nickname of a client not bound to a network
    actor   \* ghost: [u, ign, gain]: who acted, and whether above the limit

vars == <<lim, umax, unick, ureal, nets, nid, up, held, cl, actor, hist>>

NoConn == [nick |-> "", user |-> "", real |-> "", pass |-> "", cmds |-> <<>>]
Off == [on |-> FALSE, net |-> 0, kind |-> "", cn |-> ""]
Ids == DOMAIN nets
Own(u, ns) == {i \in DOMAIN ns : ns[i].owner = u}

Addr(s) == "@" \o s
GetName(r) == IF r.name = "" THEN Addr(r.srv) ELSE r.name
UNick(u, un) == IF un[u] = "" THEN u ELSE un[u]
ENick(r, un) == IF r.nick # "" THEN r.nick ELSE UNick(r.owner, un)
EUser(r, un) == IF r.user # "" THEN r.user ELSE ENick(r, un)
EReal(r, un, ur) == IF r.real # "" THEN r.real ELSE IF ur[r.owner] # "" THEN ur[r.owner] ELSE ENick(r, un)
Ident(r, un, ur) == [nick |-> ENick(r, un), user |-> EUser(r, un), real |-> EReal(r, un, ur), pass |-> r.pass, cmds |-> r.cmds]
Reach(r, h) == r.en /\ r.srv \in Live /\ r.srv \notin h
Conn(r, un, ur, h) == IF Reach(r, h) THEN Ident(r, un, ur) ELSE NoConn

-----------------------------------------------------------------------------
(* What can be seen *)

Attrs(r, un, ur, u0) ==
    [name |-> GetName(r), state |-> IF u0 # NoConn THEN "connected" ELSE "disconnected",
     nickname |-> ENick(r, un), realname |-> EReal(r, un, ur), username |-> r.user,
     error |-> IF r.en /\ r.srv \in {"X", "Y"} THEN "yes" ELSE "", addr |-> IF r.srv = "U" THEN "" ELSE r.srv]

View(u, ns, un, ur, up0) == [i \in Own(u, ns) |-> Attrs(ns[i], un, ur, up0[i])]
\* As pairs, because JSON objects have no integer keys.
ListView(u, ns, un, ur, up0) == LET o == SetToSortSeq(Own(u, ns), <) IN
    [k \in 1..Len(o) |-> [id |-> o[k], a |-> Attrs(ns[o[k]], un, ur, up0[o[k]])]]
Stored(u, ns) == LET o == SetToSortSeq(Own(u, ns), <) IN
    [k \in 1..Len(o) |-> [id |-> o[k], name |-> ns[o[k]].name, srv |-> ns[o[k]].srv, nick |-> ns[o[k]].nick,
                          user |-> ns[o[k]].user, real |-> ns[o[k]].real, pass |-> ns[o[k]].pass,
                          cmds |-> ns[o[k]].cmds, en |-> ns[o[k]].en]]
Conns(ns, up0) == [s \in Live |-> LET o == SetToSeq({i \in DOMAIN ns : ns[i].srv = s /\ up0[i] # NoConn}) IN [set |-> [k \in 1..Len(o) |-> up0[o[k]]]]]
Pending(ns, h) == [s \in Live |-> Cardinality({i \in DOMAIN ns : ns[i].en /\ ns[i].srv = s /\ s \in h})]
\* The nickname a client goes by, when it is determined by the current state.
CNick(c, ns, un, up0, cs) == IF cs[c].net = 0 THEN cs[c].cn
                             ELSE IF up0[cs[c].net] # NoConn THEN up0[cs[c].net].nick ELSE "?"
Obs(reply, ns, un, ur, up0, h, cs) ==
    [reply |-> reply,
     db |-> [u \in Accts |-> Stored(u, ns)],
     conns |-> Conns(ns, up0), pending |-> Pending(ns, h),
     watch |-> [u \in Accts |-> ListView(u, ns, un, ur, up0)],
     live |-> SeqOfSet({c \in Clients : cs[c].on}, COrd),
     views |-> [c \in {x \in Clients : cs[x].on /\ cs[x].kind = "notify"} |-> ListView(Owner(c), ns, un, ur, up0)],
     nicks |-> [c \in {x \in Clients : cs[x].on /\ CNick(x, ns, un, up0, cs) # "?"} |-> CNick(c, ns, un, up0, cs)],
     noise |-> 0]

NoActor == [u |-> "", ign |-> FALSE]

Rec0(owner, name, srv) == [owner |-> owner, name |-> name, srv |-> srv, nick |-> "", user |-> "", real |-> "", pass |-> "", cmds |-> <<>>, en |-> TRUE]

Init ==
    /\ lim \in (IF Record THEN {-1, -1, 2, 3} ELSE {-1, 2})
    /\ umax = [u \in Accts |-> -1]
    /\ unick \in (IF Record THEN {[u \in Accts |-> ""], [u \in Accts |-> IF u = "alice" THEN "zed" ELSE ""]} ELSE {[u \in Accts |-> ""]})
    /\ ureal \in (IF Record THEN {[u \in Accts |-> ""], [u \in Accts |-> IF u = "alice" THEN "Zed Z" ELSE "R"]} ELSE {[u \in Accts |-> ""]})
    /\ nets = (1 :> Rec0("alice", "n1", "A"))
    /\ nid = 1
    /\ held = {}
    /\ up = (1 :> Conn(nets[1], unick, ureal, {}))
    /\ cl = [c \in Clients |-> Off]
    /\ actor = NoActor
    /\ RecInit([op |-> "init", lim |-> lim, unick |-> unick, ureal |-> ureal])

-----------------------------------------------------------------------------
(* Creating and changing *)

Cap(u) == IF umax[u] < 0 THEN lim ELSE umax[u]
Room(u) == Cap(u) < 0 \/ Cardinality({i \in Own(u, nets) : nets[i].en}) < Cap(u)

\* Two networks of an account can't present the same nickname to a server.
Distinct(u, id, r) == \A i \in Own(u, nets) \ {id} : r.nick = "" \/ nets[i].srv # r.srv \/ nets[i].nick # r.nick

Valid(u, id, r) ==
    /\ r.srv \in Srvs
    /\ (r.srv = "U" => u = "root")
    /\ GetName(r) \notin {"", "*", "-x"}
    /\ \A i \in Own(u, nets) \ {id} : GetName(nets[i]) # GetName(r)
    /\ Distinct(u, id, r)

Refuse(u, step) ==
    /\ actor' = [u |-> u, ign |-> FALSE]
    /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, up, held, cl>>
    /\ Rec(step @@ [exp |-> Obs(<<"fail">>, nets, unick, ureal, up, held, cl)])

\* The networks become ns; those in S are (re)connected.
\* rel: a server which completes registrations again at the same moment.
Become(u, ign, step, reply, ns, n1, S, cs, rel) ==
    LET h == held \ {rel}
        up1 == [i \in DOMAIN ns |-> IF i \in S \/ (rel # "" /\ ns[i].srv = rel /\ up[i] = NoConn) THEN Conn(ns[i], unick, ureal, h) ELSE up[i]]
    IN
    /\ nets' = ns /\ nid' = n1 /\ up' = up1 /\ cl' = cs /\ held' = h
    /\ actor' = [u |-> u, ign |-> ign]
    /\ UNCHANGED <<lim, umax, unick, ureal>>
    /\ Rec(step @@ [exp |-> Obs(reply, ns, unick, ureal, up1, h, cs)])

Set(old, v) == IF v = "~" THEN old ELSE v
Wipe(r) == [r EXCEPT !.nick = IF @ = unick[r.owner] THEN "" ELSE @, !.real = IF @ = ureal[r.owner] THEN "" ELSE @]
WipeB(r) == [r EXCEPT !.nick = IF @ = UNick(r.owner, unick) THEN "" ELSE @, !.real = IF @ = ureal[r.owner] THEN "" ELSE @]

Names  == IF Record THEN {"~", "~", "", "n1", "n2", "n3", "n2", "n3", "n4", "n5", "-x", "*", "@A"} ELSE {"~", "n1", "n2", "*"}
Nicks  == IF Record THEN {"~", "~", "~", "", "kim", "lee", "alice", "zed"} ELSE {"~"}
Idents == IF Record THEN {"~", "~", "", "ident"} ELSE {"~"}
Reals  == IF Record THEN {"~", "~", "", "Real K", "Zed Z", "R"} ELSE {"~"}
Passes == IF Record THEN {"~", "~", "", "pw1", "p:w 2"} ELSE {"~"}
Weird  == IF Record THEN RandomElement(1..12) = 1 ELSE FALSE
On == {c \in Clients : cl[c].on}
AnyOn == IF On = {} THEN {} ELSE On

BAttrs(srvs) == [srv : Pick(srvs), name : Pick(Names), nick : Pick(Nicks), user : Pick(Idents), real : Pick(Reals), pass : Pick(Passes), unk : {Weird}]

\* With BOUNCER ADDNETWORK, the nickname is by default the client's.
BAdd ==
    \E c \in Pick(AnyOn) : \E a \in BAttrs(IF Record THEN {"A", "B", "C", "A", "B", "C", "X", "Y", "bad", "none", "~"} ELSE {"A"}) :
        LET u == Owner(c)
            cn == CNick(c, nets, unick, up, cl)
            nick == IF a.nick = "~" THEN (IF cn = "?" THEN "kim" ELSE IF cn = u THEN "" ELSE cn) ELSE a.nick
            a1 == IF a.nick = "~" /\ cn = "?" THEN [a EXCEPT !.nick = "kim"] ELSE a
            r == WipeB([Rec0(u, Set("", a.name), a.srv) EXCEPT !.nick = nick, !.user = Set("", a.user), !.real = Set("", a.real), !.pass = Set("", a.pass)])
            step == [op |-> "badd", c |-> c, a |-> a1]
        IN
        /\ Cardinality(Ids) < MaxNets
        /\ IF a.unk \/ ~Room(u) \/ ~Valid(u, 0, r) THEN Refuse(u, step)
           ELSE Become(u, FALSE, step, <<"ok", nid + 1>>, nets @@ ((nid + 1) :> r), nid + 1, {nid + 1}, cl, "")

\* A change, with a server completing its registrations at the same moment.
Rel(r) == IF Record /\ r.srv \in held /\ RandomElement(1..2) = 1 THEN {r.srv} ELSE {""}
SafeRel(r, S) == IF S THEN Rel(r) ELSE {""}

BChange ==
    \E c \in Pick(AnyOn) : \E id \in Pick(IF Record /\ Own(Owner(c), nets) # {} /\ RandomElement(1..8) # 1 THEN Own(Owner(c), nets) ELSE Ids \cup {nid + 7}), part0 \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
    \E a \in BAttrs(IF Record THEN {"~", "~", "~", "A", "B", "C", "X", "Y", "bad"} ELSE {"~", "A"}) :
        LET u == Owner(c)
            mine == id \in Own(u, nets)
            old == IF mine THEN nets[id] ELSE Rec0(u, "", "A")
            r == Wipe(WipeB([old EXCEPT !.srv = Set(@, a.srv), !.name = Set(@, a.name), !.nick = Set(@, a.nick), !.user = Set(@, a.user), !.real = Set(@, a.real), !.pass = Set(@, a.pass)]))
            part == part0 /\ ((old.srv = "Y") <=> (a.srv = "Y"))  \* same host
            nohost == part /\ a.srv # "~" /\ old.srv = "U"
        IN
        \E rel \in SafeRel(old, mine) :
            LET step == [op |-> "bchange", c |-> c, id |-> id, a |-> a, part |-> part, rel |-> rel] IN
            IF ~mine \/ a.unk \/ nohost \/ (~old.en /\ r.en /\ ~Room(u)) \/ ~Valid(u, id, r) THEN Refuse(u, [step EXCEPT !.rel = ""])
            ELSE Become(u, FALSE, step, <<"ok", id>>, [nets EXCEPT ![id] = r], nid, {id}, cl, rel)

Without(f, id) == [i \in DOMAIN f \ {id} |-> f[i]]
DropBound(cs, id) == [c \in Clients |-> IF cs[c].net = id THEN Off ELSE cs[c]]
Delete(u, step, id, self) ==
    /\ nets' = Without(nets, id) /\ up' = Without(up, id) /\ cl' = DropBound(cl, id)
    /\ actor' = [u |-> u, ign |-> FALSE]
    /\ UNCHANGED <<lim, umax, unick, ureal, nid, held>>
    /\ Rec(step @@ [exp |-> Obs(IF self THEN <<"gone">> ELSE <<"ok", id>>, Without(nets, id), unick, ureal, Without(up, id), held, DropBound(cl, id))])

BDel ==
    \E c \in Pick(AnyOn) : \E id \in Pick(IF Record /\ Own(Owner(c), nets) # {} /\ RandomElement(1..5) # 1 THEN Own(Owner(c), nets) ELSE Ids \cup {nid + 7}) :
        LET u == Owner(c) step == [op |-> "bdel", c |-> c, id |-> id] IN
        IF id \notin Own(u, nets) THEN Refuse(u, step) ELSE Delete(u, step, id, cl[c].net = id)

-----------------------------------------------------------------------------
(* The same through the service, on one's own account, or by an admin for another *)

Find(u, name) ==
    LET byName == {i \in Own(u, nets) : GetName(nets[i]) = name}
        byAddr == {i \in Own(u, nets) : Addr(nets[i].srv) = name}
    IN IF byName # {} THEN CHOOSE i \in byName : TRUE
       ELSE IF byAddr # {} THEN CHOOSE i \in byAddr : \A j \in byAddr : i <= j
       ELSE 0

Flags(srvs) == [srv : Pick(srvs), name : Pick(Names), nick : Pick(Nicks), user : Pick(Idents), real : Pick(Reals), pass : Pick(Passes),
                cmds : Pick(IF Record THEN {<<"~">>, <<"~">>, <<"">>, <<"VCONN a">>, <<"VCONN a", "VCONN b :c d">>} ELSE {<<"~">>}),
                en : Pick(IF Record THEN {"~", "~", "true", "false"} ELSE {"false", "true"}), ign : {IF Record THEN RandomElement(1..5) = 1 ELSE TRUE, FALSE}]
FlagsOne(srvs) == IF Record THEN {RandomElement(IF Len(hist) >= 0 THEN Flags(srvs) ELSE {})} ELSE Flags(srvs)
\* Which account the command concerns: for an admin, maybe another one.
As(c) == IF c = "r1" THEN (IF Record THEN {"root", "alice", "alice"} ELSE {"root", "alice"}) ELSE {"alice"}
Cmds(old, v) == IF v = <<"~">> THEN old ELSE IF v = <<"">> THEN <<>> ELSE v
En(old, v) == IF v = "~" THEN old ELSE v = "true"
BadSrvs == {"bad0", "bad1", "bad2", "bad3", "bad4", "bad5", "bad6", "bad7"}

SCreate ==
    \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : \E s \in Pick(IF Record THEN {"A", "B", "C", "U", "A", "B", "C", "U", "X", "~", RandomElement(BadSrvs)} ELSE {"A", "U"}) :
    \E a \in FlagsOne({s}) :
        LET r == [Rec0(u, Set("", a.name), a.srv) EXCEPT !.nick = Set("", a.nick), !.user = Set("", a.user), !.real = Set("", a.real), !.pass = Set("", a.pass), !.cmds = Cmds(<<>>, a.cmds), !.en = En(TRUE, a.en)]
            step == [op |-> "screate", c |-> c, as |-> u, a |-> a]
            adm == c = "r1"
        IN
        /\ Cardinality(Ids) < MaxNets
        /\ IF (a.ign /\ ~adm) \/ (r.en /\ ~a.ign /\ ~Room(u)) \/ ~Valid(u, 0, r) THEN Refuse(u, step)
           ELSE Become(u, a.ign, step, <<"ok", nid + 1>>, nets @@ ((nid + 1) :> r), nid + 1, {nid + 1}, cl, "")

\* The network named by an argument; none: the one the client is bound to.
Args(u) == IF Record THEN {RandomElement({GetName(nets[i]) : i \in Own(u, nets)} \cup {"~"}), RandomElement({GetName(nets[i]) : i \in Own(u, nets)} \cup {"~"}), RandomElement({"~", "nope", "@A", "@B"})}
           ELSE {"n1", "~"}
Target(c, u, arg) == IF arg = "~" THEN (IF u = Owner(c) THEN cl[c].net ELSE 0) ELSE Find(u, arg)

SUpdate ==
    \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : \E arg \in Pick(Args(u)), s \in Pick(IF Record THEN {"~", "~", "~", "A", "B", "C", "U", "X", "Y", RandomElement(BadSrvs)} ELSE {"~", "U"}) :
    \E a \in FlagsOne({s}) :
        LET id == Target(c, u, arg)
            found == id # 0
            old == IF found THEN nets[id] ELSE Rec0(u, "", "A")
            r == Wipe([old EXCEPT !.srv = Set(@, a.srv), !.name = Set(@, a.name), !.nick = Set(@, a.nick), !.user = Set(@, a.user), !.real = Set(@, a.real), !.pass = Set(@, a.pass), !.cmds = Cmds(@, a.cmds), !.en = En(@, a.en)])
            adm == c = "r1"
        IN
        \E rel \in SafeRel(old, found) :
            LET step == [op |-> "supdate", c |-> c, as |-> u, arg |-> arg, a |-> a, rel |-> rel] IN
            IF ~found \/ (a.ign /\ ~adm) \/ (~old.en /\ r.en /\ ~a.ign /\ ~Room(u)) \/ ~Valid(u, id, r) THEN Refuse(u, [step EXCEPT !.rel = ""])
            ELSE Become(u, a.ign, step, <<"ok", id>>, [nets EXCEPT ![id] = r], nid, {id}, cl, rel)

\* Enabling and disabling, which is what people do most.
SEnable ==
    \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : \E arg \in Pick(Args(u)), en \in Pick(BOOLEAN) :
        LET id == Target(c, u, arg)
            found == id # 0
            old == IF found THEN nets[id] ELSE Rec0(u, "", "A")
            r == Wipe([old EXCEPT !.en = en])
            a == [srv |-> "~", name |-> "~", nick |-> "~", user |-> "~", real |-> "~", pass |-> "~", cmds |-> <<"~">>, en |-> IF en THEN "true" ELSE "false", ign |-> FALSE]
        IN
        /\ Record
        /\ \E rel \in SafeRel(old, found) :
            LET step == [op |-> "supdate", c |-> c, as |-> u, arg |-> arg, a |-> a, rel |-> rel] IN
            IF ~found \/ (~old.en /\ r.en /\ ~Room(u)) \/ ~Valid(u, id, r) THEN Refuse(u, [step EXCEPT !.rel = ""])
            ELSE Become(u, FALSE, step, <<"ok", id>>, [nets EXCEPT ![id] = r], nid, {id}, cl, rel)

SDelete ==
    \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : \E arg \in Pick(Args(u) \ {"~"}) :
        LET id == Target(c, u, arg) step == [op |-> "sdelete", c |-> c, as |-> u, arg |-> arg] IN
        IF id = 0 THEN Refuse(u, step) ELSE Delete(u, step, id, cl[c].net = id)

-----------------------------------------------------------------------------
(* Names: changing one's nickname and real name *)

Same(step, reply) ==
    /\ actor' = NoActor
    /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, up, held, cl>>
    /\ Rec(step @@ [exp |-> Obs(reply, nets, unick, ureal, up, held, cl)])

Nick ==
    \E c \in Pick(AnyOn), v \in Pick({"kim", "lee", "zed", "alice", "bad", "serv"}) :
        LET u == Owner(c) id == cl[c].net step == [op |-> "nick", c |-> c, v |-> v] IN
        /\ Record
        /\ IF v \in {"bad", "serv"} \/ (id # 0 /\ ~Distinct(u, id, [nets[id] EXCEPT !.nick = v])) THEN Same(step, <<"fail">>)
           ELSE LET un == IF id = 0 THEN [unick EXCEPT ![u] = v] ELSE unick
                    ns == IF id = 0 THEN nets ELSE [nets EXCEPT ![id].nick = v]
                    hit == IF id = 0 THEN {i \in Own(u, nets) : nets[i].nick = ""} ELSE {id}
                    up1 == [i \in Ids |-> IF i \in hit /\ up[i] # NoConn THEN [up[i] EXCEPT !.nick = v] ELSE up[i]]
                    cs == [x \in Clients |-> IF id = 0 /\ cl[x].on /\ cl[x].net = 0 /\ Owner(x) = u THEN [cl[x] EXCEPT !.cn = v] ELSE cl[x]]
                    o == Obs(<<"ok">>, ns, un, ureal, up1, held, cs)
                    \* When the network is away, its clients are renamed at once.
                    more == [x \in {y \in On : id # 0 /\ cl[y].net = id} |-> v]
                IN /\ unick' = un /\ nets' = ns /\ up' = up1 /\ cl' = cs /\ actor' = [u |-> u, ign |-> FALSE]
                   /\ UNCHANGED <<lim, umax, ureal, nid, held>>
                   /\ Rec(step @@ [exp |-> [o EXCEPT !.nicks = more @@ @]])

Setname ==
    \E c \in Pick(AnyOn), v \in Pick({"Real K", "Zed Z", "R"}) :
        LET u == Owner(c) id == cl[c].net step == [op |-> "setname", c |-> c, v |-> v]
            Push(ns, ur, S) == [i \in Ids |-> IF i \notin S THEN up[i]
                                              ELSE IF up[i] # NoConn /\ ns[i].srv \in SetnameSrvs THEN [up[i] EXCEPT !.real = EReal(ns[i], unick, ur)]
                                              ELSE Conn(ns[i], unick, ur, held)]
        IN
        /\ Record
        /\ IF id # 0
           THEN /\ up[id] # NoConn
                /\ LET ns == IF up[id].real = v THEN nets ELSE [nets EXCEPT ![id].real = IF v = ureal[u] THEN "" ELSE v,
                                                                        ![id].nick = IF @ = unick[u] /\ nets[id].srv \notin SetnameSrvs THEN "" ELSE @]
                       up1 == IF up[id].real = v THEN up ELSE
                              IF nets[id].srv \in SetnameSrvs THEN [up EXCEPT ![id].real = v] ELSE Push(ns, ureal, {id}) IN
                   /\ nets' = ns /\ up' = up1 /\ actor' = [u |-> u, ign |-> FALSE]
                   /\ UNCHANGED <<lim, umax, unick, ureal, nid, held, cl>>
                   /\ Rec(step @@ [exp |-> Obs(<<"ok">>, ns, unick, ureal, up1, held, cl)])
           ELSE LET ur == [ureal EXCEPT ![u] = v]
                    hit == IF ureal[u] = v THEN {} ELSE {i \in Own(u, nets) : nets[i].real = ""}
                    \* Reconnecting normalizes the record.
                    re == {i \in hit : up[i] = NoConn \/ nets[i].srv \notin SetnameSrvs}
                    ns == [i \in Ids |-> IF i \in re /\ nets[i].nick = unick[u] THEN [nets[i] EXCEPT !.nick = ""] ELSE nets[i]]
                    up1 == Push(ns, ur, hit) IN
                /\ ureal' = ur /\ nets' = ns /\ up' = up1 /\ actor' = [u |-> u, ign |-> FALSE]
                /\ UNCHANGED <<lim, umax, unick, nid, held, cl>>
                /\ Rec(step @@ [exp |-> Obs(<<"ok">>, ns, unick, ur, up1, held, cl)])

-----------------------------------------------------------------------------
(* The rest *)

Limit ==
    \E m \in Pick(IF Record THEN {-1, 0, 1, 2, 3, 4} ELSE {1, -1}) :
        /\ cl["r1"].on
        /\ umax' = [umax EXCEPT !["alice"] = m]
        /\ actor' = NoActor
        /\ UNCHANGED <<lim, unick, ureal, nets, nid, up, held, cl>>
        /\ Rec([op |-> "limit", m |-> m, exp |-> Obs(<<"ok">>, nets, unick, ureal, up, held, cl)])

Hold ==
    \E s \in Pick(Holdable \ held) :
        LET h == held \cup {s} up1 == [i \in Ids |-> IF nets[i].srv = s THEN NoConn ELSE up[i]] IN
        /\ held' = h /\ up' = up1 /\ actor' = NoActor
        /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, cl>>
        /\ Rec([op |-> "hold", s |-> s, exp |-> Obs(<<>>, nets, unick, ureal, up1, h, cl)])

\* The connections held back were made with the names of that time.
Release ==
    \E s \in Pick(held) :
        LET h == held \ {s} up1 == [i \in Ids |-> IF nets[i].srv = s THEN Conn(nets[i], unick, ureal, h) ELSE up[i]] IN
        /\ held' = h /\ up' = up1 /\ actor' = NoActor
        /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, cl>>
        /\ Rec([op |-> "release", s |-> s, exp |-> Obs(<<>>, nets, unick, ureal, up1, h, cl)])

Connect ==
    \E c \in Pick(Clients \ On) : \E id \in Pick(Own(Owner(c), nets) \cup {0}), kind \in Pick(IF Record THEN {"plain", "bn", "notify", "notify"} ELSE {"notify"}), how \in Pick(IF Record THEN {"id", "name"} ELSE {"id"}) :
        LET cs == [cl EXCEPT ![c] = [on |-> TRUE, net |-> id, kind |-> kind, cn |-> IF id = 0 THEN Owner(c) ELSE ""]] IN
        /\ cl' = cs /\ actor' = NoActor
        /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, up, held>>
        /\ Rec([op |-> "connect", c |-> c, net |-> id, name |-> IF id = 0 THEN "" ELSE GetName(nets[id]), kind |-> kind, how |-> how,
                exp |-> Obs(<<"in", id>>, nets, unick, ureal, up, held, cs)])

Disconnect ==
    \E c \in Pick(AnyOn) :
        LET cs == [cl EXCEPT ![c] = Off] IN
        /\ cl' = cs /\ actor' = NoActor
        /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, up, held>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(<<>>, nets, unick, ureal, up, held, cs)])

List == \E c \in Pick(AnyOn) : Record /\ Same([op |-> "list", c |-> c], [list |-> ListView(Owner(c), nets, unick, ureal, up)])

Status(c, u) == LET o == SetToSortSeq(Own(u, nets), <) IN
    [k \in 1..Len(o) |-> LET r == nets[o[k]] IN
        [name |-> GetName(r), addr |-> r.srv, st |-> IF up[o[k]] # NoConn THEN "connected" ELSE IF r.en THEN "disconnected" ELSE "disabled",
         cur |-> u = Owner(c) /\ cl[c].net = o[k], error |-> r.en /\ r.srv \in {"X", "Y"}]]
SStatus == \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : Record /\ Same([op |-> "status", c |-> c, as |-> u], [status |-> Status(c, u)])

Quote == \E c \in Pick(AnyOn) : \E u \in Pick(As(c)) : \E arg \in Pick(Args(u)) :
    LET id == Target(c, u, arg) IN
    Record /\ Same([op |-> "quote", c |-> c, as |-> u, arg |-> arg], IF id # 0 /\ up[id] # NoConn THEN <<"ok", "quoted", nets[id].srv, up[id].nick>> ELSE <<"fail">>)

Restart ==
    \E kill \in Pick(IF Record THEN BOOLEAN ELSE {TRUE}) :
        LET cs == [c \in Clients |-> Off] up1 == [i \in Ids |-> Conn(nets[i], unick, ureal, held)] IN
        /\ Record => RandomElement(1..3) = 1
        /\ cl' = cs /\ up' = up1 /\ actor' = NoActor
        /\ UNCHANGED <<lim, umax, unick, ureal, nets, nid, held>>
        /\ Rec([op |-> "restart", kill |-> kill, exp |-> Obs(<<>>, nets, unick, ureal, up1, held, cs)])

\* While registrations to a server are held back, names are not touched: what
\* the connections present was decided when they were made.
Settled == held = {} \/ ~Record

Next ==
    \/ BAdd \/ BAdd \/ BChange \/ BChange \/ BChange \/ BDel
    \/ SCreate \/ SCreate \/ SUpdate \/ SUpdate \/ SEnable \/ SEnable \/ SDelete
    \/ (Settled /\ (Nick \/ Setname)) \/ (Settled /\ (Nick \/ Setname))
    \/ Limit \/ Hold \/ Release \/ Connect \/ Connect \/ Connect \/ Disconnect
    \/ List \/ SStatus \/ Quote \/ Restart

Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
UniqueNames == \A i, j \in Ids : i # j /\ nets[i].owner = nets[j].owner => GetName(nets[i]) # GetName(nets[j])
Reserved == \A i \in Ids : GetName(nets[i]) \notin {"", "*", "-x"}
UnixAdmin == \A i \in Ids : nets[i].srv = "U" => nets[i].owner = "root"
Connected == \A i \in Ids : (up[i] # NoConn) = Reach(nets[i], held)
BoundOK == \A c \in On : cl[c].net # 0 => cl[c].net \in Own(Owner(c), nets)
\* Networks are touched only by their owner, or by an admin for that owner.
OnlyOwn == [][\A i \in Ids : ((i \in DOMAIN nets' /\ nets'[i] = nets[i]) \/ actor'.u = nets[i].owner)]_vars
\* One more network is enabled only below the limit, or if the limit is set aside.
InLimit == [][\A u \in Accts : LET n == Cardinality({i \in Own(u, nets) : nets[i].en}) m == Cardinality({i \in Own(u, nets') : nets'[i].en}) IN
              m > n => (actor'.ign \/ Cap(u) < 0 \/ m <= Cap(u))]_vars
Bounded == nid <= MaxNets
=============================================================================
