-------------------------------- MODULE Who ---------------------------------
(* WHO questions, which the bouncer answers from memory when it can.  The     *)
(* specification has the network's users as they really are, what a network   *)
(* tells of their changes, and what the bouncer remembers of that; an answer  *)
(* is right if it is what the network itself would have said at that moment.  *)
EXTENDS Common

CONSTANTS MaxHv,    \* bounds the versions of hosts and real names
          MaxLev    \* and the length of behaviours

People   == IF Record THEN {"me", "p1", "p2", "bt", "oz"} ELSE {"me", "p1"}
Others   == People \ {"me"}
Chans    == IF Record THEN {"#a", "#B"} ELSE {"#a"}
NickPool == IF Record THEN {"dan", "Erin", "eve", "zed"} ELSE {"dan", "eve"}
MyNicks  == IF Record THEN {"alice", "alice2"} ELSE {"alice"}
AllNicks == NickPool \cup MyNicks \cup (IF Record THEN {"oz"} ELSE {})
Clients  == IF Record THEN {"c1", "c2"} ELSE {"c1"}
Accts    == IF Record THEN {"*", "acc1", "acc2"} ELSE {"*", "acc1"}
Some(s)  == IF Record THEN {s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]} ELSE Range(s)

VARIABLES
    net,    \* what the network supports
    pe,     \* [People -> [n nick, hv, a account, away, rv, on]]
    ch,     \* [Chans -> [People -> "-" or the prefixes held]]
    saved,  \* channels we join on connection
    mon,    \* [Clients -> nicks followed]
    mem     \* [AllNicks -> what the bouncer remembers]; "" is nothing

vars == <<net, pe, ch, saved, mon, mem, hist>>

-----------------------------------------------------------------------------
User(p, e)   == "u" \o p \o ToString(e[p].hv)
Host(p, e)   == "h" \o ToString(e[p].hv) \o "." \o p \o ".example"
Server(p)    == IF p = "p2" THEN "hub.example" ELSE "irc.example"
Real(p, e)   == "Real " \o p \o " " \o ToString(e[p].rv)
Flags(p, e)  == (IF e[p].away THEN "G" ELSE "H") \o (IF p = "oz" THEN "*" ELSE "")
Bot(p)       == IF p = "bt" THEN "B" ELSE ""
Pfx(p, e)    == e[p].n \o "!" \o User(p, e) \o "@" \o Host(p, e)
Line(p, e, s) == (IF p = "bt" THEN "@bot " ELSE "") \o ":" \o Pfx(p, e) \o " " \o s

NoMem == [u |-> "", h |-> "", s |-> "", f |-> "", a |-> "", r |-> ""]
In(c, p, k)      == k[c][p] # "-"
Shares(p, k)     == \E c \in Chans : In(c, "me", k) /\ In(c, p, k)
MonN(n, m)       == \E c \in Clients : n \in m[c]
\* The network tells us of changes of p.
Sees(p)          == p = "me" \/ Shares(p, ch) \/ (net.em /\ MonN(pe[p].n, mon))
Holder(n, e)     == {p \in People : e[p].on /\ e[p].n = n}

Truth(p, e) == [u |-> User(p, e), h |-> Host(p, e), s |-> Server(p), f |-> Flags(p, e) \o Bot(p), a |-> e[p].a, r |-> Real(p, e)]

\* What is remembered: only of those whose changes we are told of.
Keep(n, e, k, m) == \E p \in Holder(n, e) : p = "me" \/ Shares(p, k) \/ (net.em /\ MonN(n, m))
Forget(x, e, k, m) == [n \in AllNicks |-> IF Keep(n, e, k, m) THEN x[n] ELSE NoMem]
Learn(x, n, upd) == [x EXCEPT ![n] = upd @@ @]
\* By a JOIN.
Seen(p, e) == [u |-> User(p, e), h |-> Host(p, e)]
              @@ (IF net.aw THEN [f |-> Flags(p, e) \o Bot(p)] ELSE <<>>)
              @@ (IF net.ej THEN [a |-> e[p].a, r |-> Real(p, e)] ELSE <<>>)

Init ==
    /\ net \in (IF Record THEN {[an |-> RandomElement(BOOLEAN), aw |-> RandomElement(1..4) # 1, chg |-> RandomElement(BOOLEAN), ej |-> RandomElement(1..3) # 1,
                                 em |-> RandomElement(BOOLEAN), mp |-> RandomElement(BOOLEAN), sn |-> RandomElement(BOOLEAN), i |-> i] : i \in 1..60}
                ELSE {[an |-> x, aw |-> x, chg |-> y, ej |-> z, em |-> w, mp |-> FALSE, sn |-> FALSE, i |-> 0] : x \in BOOLEAN, y \in BOOLEAN, z \in BOOLEAN, w \in BOOLEAN})
    /\ pe = [p \in People |-> [n |-> CASE p = "me" -> "alice" [] p = "p1" -> "dan" [] p = "p2" -> "Erin" [] p = "bt" -> "eve" [] OTHER -> "oz",
                               hv |-> 0, a |-> IF p = "p1" THEN "acc1" ELSE "*", away |-> FALSE, rv |-> 0, on |-> TRUE]]
    /\ ch = [c \in Chans |-> [p \in People |-> CASE p = "me" -> "-" [] p = "oz" -> "@" [] p = "p1" /\ c = "#a" -> "" [] OTHER -> "-"]]
    /\ saved = {}
    /\ mon = [c \in Clients |-> {}]
    /\ mem = [n \in AllNicks |-> NoMem]
    /\ RecInit([op |-> "init", net |-> net])

\* Who is online, for MONITOR.
Onl(e) == AsSet({<<e[p].n, Pfx(p, e)>> : p \in {x \in People : e[x].on}})
Off(n) == IF MonN(n, mon) THEN <<":irc.example 731 me :" \o n>> ELSE <<>>
Onn(p, e) == IF MonN(e[p].n, mon) THEN <<":irc.example 730 me :" \o Pfx(p, e)>> ELSE <<>>

\* The network sends lines.
Event(what, lines, e, k, x) ==
    /\ pe' = e /\ ch' = k
    /\ mem' = Forget(x, e, k, mon)
    /\ UNCHANGED <<net, saved, mon>>
    /\ Rec([op |-> "event", what |-> what, lines |-> lines, onl |-> Onl(e), exp |-> <<>>])

-----------------------------------------------------------------------------
Prefix1(s) == IF s = "@+" /\ ~net.mp THEN "@" ELSE s
JoinLine(p, c, e) == <<Line(p, e, "JOIN " \o c \o (IF net.ej THEN " " \o e[p].a \o " :" \o Real(p, e) ELSE ""))>>
                     \o (IF net.aw /\ e[p].away /\ p # "me" THEN <<Line(p, e, "AWAY :gone")>> ELSE <<>>)

PJoin == \E p \in Pick(Others \ {"oz"}), c \in Pick(Chans) :
    /\ pe[p].on /\ ~In(c, p, ch)
    /\ Event("join", IF In(c, "me", ch) THEN JoinLine(p, c, pe) ELSE <<>>, pe, [ch EXCEPT ![c][p] = ""],
             IF In(c, "me", ch) THEN Learn(mem, pe[p].n, Seen(p, pe)) ELSE mem)

PPart == \E p \in Pick(Others \ {"oz"}), c \in Pick(Chans), kick \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
    /\ In(c, p, ch)
    /\ Event("part", IF ~In(c, "me", ch) THEN <<>>
                     ELSE IF kick /\ Record THEN <<Line("oz", pe, "KICK " \o c \o " " \o pe[p].n \o " :out")>>
                     ELSE <<Line(p, pe, "PART " \o c)>>, pe, [ch EXCEPT ![c][p] = "-"], mem)

PQuit == \E p \in Pick(Others \ {"oz"}) :
    LET e == [pe EXCEPT ![p].on = FALSE, ![p].away = FALSE] IN
    /\ pe[p].on
    /\ Event("quit", (IF Shares(p, ch) THEN <<Line(p, pe, "QUIT :bye")>> ELSE <<>>) \o Off(pe[p].n), e,
             [c \in Chans |-> [ch[c] EXCEPT ![p] = "-"]], mem)

Used == {pe[p].n : p \in {x \in People : pe[x].on}}
POn == \E p \in Pick(Others), n \in Pick(NickPool \ Used), a \in Pick(Accts) :
    LET e == [pe EXCEPT ![p] = [n |-> n, hv |-> (@.hv + 1) % MaxHv, a |-> a, away |-> FALSE, rv |-> IF Record THEN (@.rv + 1) % MaxHv ELSE @.rv, on |-> TRUE]] IN
    /\ ~pe[p].on
    /\ Event("on", Onn(p, e), e, ch, mem)

PNick == \E p \in Pick(People \ {"oz"}), n \in Pick((IF Record THEN NickPool ELSE NickPool) \ Used) :
    LET e == [pe EXCEPT ![p].n = n] IN
    /\ pe[p].on /\ p # "me"
    /\ Event("nick", (IF Shares(p, ch) THEN <<Line(p, pe, "NICK " \o n)>> ELSE <<>>) \o Off(pe[p].n) \o Onn(p, e), e, ch,
             IF Shares(p, ch) THEN [mem EXCEPT ![n] = mem[pe[p].n], ![pe[p].n] = NoMem] ELSE mem)

PAway == \E p \in Pick(Others) :
    LET e == [pe EXCEPT ![p].away = ~@] IN
    /\ pe[p].on
    /\ Event("away", IF Sees(p) /\ net.aw THEN <<Line(p, pe, IF e[p].away THEN "AWAY :gone" ELSE "AWAY")>> ELSE <<>>, e, ch,
             IF Sees(p) /\ net.aw /\ mem[pe[p].n].f # "" THEN Learn(mem, pe[p].n, [f |-> Flags(p, e) \o Bot(p)]) ELSE mem)

Touched == IF Record THEN People ELSE Others

PAcct == \E p \in Pick(Touched), a \in Pick(Accts) :
    LET e == [pe EXCEPT ![p].a = a] IN
    /\ pe[p].on /\ a # pe[p].a
    /\ Event("account", IF Sees(p) /\ net.an THEN <<Line(p, pe, "ACCOUNT " \o a)>> ELSE <<>>, e, ch,
             IF Sees(p) /\ net.an THEN Learn(mem, pe[p].n, [a |-> a]) ELSE mem)

\* Where the network cannot say so, a change of host looks like a new connection.
PHost == \E p \in Pick(Touched) :
    LET e == [pe EXCEPT ![p].hv = (@ + 1) % MaxHv]
        cs == SetToSeq({c \in Chans : In(c, "me", ch) /\ In(c, p, ch)})
        back == FlatSeq([i \in 1..Len(cs) |-> JoinLine(p, cs[i], e)
                             \o (IF ch[cs[i]][p] = "" THEN <<>>
                                 ELSE <<":irc.example MODE " \o cs[i] \o (CASE ch[cs[i]][p] = "@" -> " +o " \o e[p].n
                                                                           [] ch[cs[i]][p] = "+" -> " +v " \o e[p].n
                                                                           [] OTHER -> " +ov " \o e[p].n \o " " \o e[p].n)>>)])
    IN /\ pe[p].on
       /\ net.chg \/ (p \notin {"me", "oz"} /\ (Shares(p, ch) \/ ~Sees(p)))
       /\ IF net.chg
          THEN Event("host", IF Sees(p) THEN <<Line(p, pe, "CHGHOST " \o User(p, e) \o " " \o Host(p, e))>> ELSE <<>>, e, ch,
                     IF Sees(p) THEN Learn(mem, pe[p].n, [u |-> User(p, e), h |-> Host(p, e)]) ELSE mem)
          ELSE Event("host", IF cs = <<>> THEN <<>> ELSE <<Line(p, pe, "QUIT :Changing host")>> \o back, e, ch,
                     IF cs = <<>> THEN mem ELSE [mem EXCEPT ![pe[p].n] = Seen(p, e) @@ NoMem])

PReal == \E p \in Pick(Touched) :
    LET e == [pe EXCEPT ![p].rv = (@ + 1) % MaxHv] IN
    /\ pe[p].on /\ net.sn
    /\ Event("real", IF Sees(p) THEN <<Line(p, pe, "SETNAME :" \o Real(p, e))>> ELSE <<>>, e, ch,
             IF Sees(p) THEN Learn(mem, pe[p].n, [r |-> Real(p, e)]) ELSE mem)

\* Without multi-prefix, more than one prefix is not shown at first.
PMode == \E c \in Pick(Chans), p \in Pick(People), m \in Pick({"o", "v"}) :
    LET s == ch[c][p]
        x == IF m = "o" THEN "@" ELSE "+"
        has == s = x \/ s = "@+"
        t == IF has THEN (IF s = x THEN "" ELSE IF m = "o" THEN "+" ELSE "@")
             ELSE IF s = "" THEN x ELSE "@+"
    IN /\ Record /\ In(c, p, ch)
       /\ net.mp \/ t # "@+"
       /\ Event("mode", IF In(c, "me", ch) THEN <<Line("oz", pe, "MODE " \o c \o (IF has THEN " -" ELSE " +") \o m \o " " \o pe[p].n)>> ELSE <<>>,
                pe, [ch EXCEPT ![c][p] = t], mem)

-----------------------------------------------------------------------------
(* Us *)

Members(c, k) == SetToSeq({p \in People : In(c, p, k)})
Names(c, k, half) ==
    LET l == Members(c, k)
        from == IF half = 2 THEN (Len(l) \div 2) + 1 ELSE 1
        to == IF half = 1 THEN Len(l) \div 2 ELSE Len(l)
        item(p) == Prefix1(k[c][p]) \o pe[p].n \o " "
    IN IF from > to THEN <<>>
       ELSE <<":irc.example 353 me = " \o c \o " :" \o FoldLeft(LAMBDA a, p : a \o item(p), "", SubSeq(l, from, to))>>
EndNames(c) == <<":irc.example 366 me " \o c \o " :End of /NAMES list">>

\* The answer to a question: f the fields, opt as sent, o: operators only.
Forms == <<[opt |-> "", fs |-> <<>>, o |-> FALSE], [opt |-> "", fs |-> <<>>, o |-> FALSE],
           [opt |-> "%nf", fs |-> <<"n", "f">>, o |-> FALSE],
           [opt |-> "%tna,7", fs |-> <<"t", "n", "a">>, o |-> FALSE],
           [opt |-> "%nuhr", fs |-> <<"u", "h", "n", "r">>, o |-> FALSE],
           [opt |-> "%cnf", fs |-> <<"c", "n", "f">>, o |-> FALSE],
           [opt |-> "%tcuhsnfar,42", fs |-> <<"t", "c", "u", "h", "s", "n", "f", "a", "r">>, o |-> FALSE],
           [opt |-> "%tcuihsnfdlaor,42", fs |-> <<"t", "c", "u", "i", "h", "s", "n", "f", "d", "l", "a", "o", "r">>, o |-> FALSE],
           [opt |-> "o", fs |-> <<>>, o |-> TRUE], [opt |-> "o%nf", fs |-> <<"n", "f">>, o |-> TRUE]>>
Tok(form) == IF form.opt = "%tna,7" THEN "7" ELSE "42"
\* one: shown to a client that knows of one prefix only.
FlagsIn(p, c, k, e, one) == Flags(p, e) \o (IF c = "*" THEN "" ELSE IF one /\ k[c][p] = "@+" THEN "@" ELSE Prefix1(k[c][p])) \o Bot(p)
Val(p, c, f, tok, k, e, one) ==
    CASE f = "t" -> tok [] f = "c" -> c [] f = "u" -> User(p, e) [] f = "i" -> "255.255.255.255" [] f = "h" -> Host(p, e)
      [] f = "s" -> Server(p) [] f = "n" -> e[p].n [] f = "f" -> FlagsIn(p, c, k, e, one) [] f \in {"d", "l", "o"} -> "0"
      [] f = "a" -> (IF e[p].a = "*" THEN "0" ELSE e[p].a) [] OTHER -> Real(p, e)
RowOf(p, c, form, k, e, one) ==
    IF form.fs = <<>> THEN <<"352", c, User(p, e), Host(p, e), Server(p), e[p].n, FlagsIn(p, c, k, e, one), "0 " \o Real(p, e)>>
    ELSE <<"354">> \o [i \in 1..Len(form.fs) |-> Val(p, c, form.fs[i], Tok(form), k, e, one)]
Rows(mask, form, k, e, one) ==
    LET ps == IF mask \in Chans THEN {p \in People : In(mask, p, k)} ELSE Holder(mask, e) IN
    {RowOf(p, IF mask \in Chans THEN mask ELSE "*", form, k, e, one) : p \in {x \in ps : form.o => x = "oz"}}

\* The fields that are needed, and whether memory has them.
Need(form) == IF form.fs = <<>> THEN {"u", "h", "s", "f", "r"} ELSE Range(form.fs) \cap {"u", "h", "s", "f", "a", "r"}
Hit(mask, form, k) ==
    LET ns == IF mask \in Chans THEN (IF In(mask, "me", k) THEN {pe[p].n : p \in {x \in People : In(mask, x, k)}} ELSE {}) ELSE {mask} IN
    /\ ~form.o /\ ns # {}
    /\ ("a" \in Need(form) => net.an) /\ ("f" \in Need(form) => net.aw)
    /\ \A n \in ns : \A x \in Need(form) : mem[n][x] # ""
\* What an answer of the network teaches.
Taught(mask, form, k) ==
    LET ps == {p \in (IF mask \in Chans THEN {x \in People : In(mask, x, k)} ELSE Holder(mask, pe)) : form.o => p = "oz"} IN
    IF form.fs # <<>> /\ "n" \notin Range(form.fs) THEN mem
    ELSE [n \in AllNicks |-> IF \E p \in ps : pe[p].n = n
                             THEN LET t == Truth(CHOOSE p \in ps : pe[p].n = n, pe) IN [x \in Need(form) |-> t[x]] @@ mem[n]
                             ELSE mem[n]]

Upper(n) == CASE n = "dan" -> "DAN" [] n = "Erin" -> "erin" [] n = "eve" -> "Eve" [] n = "#a" -> "#A" [] n = "#B" -> "#b" [] OTHER -> n

Ask ==
    \E c \in Pick(Clients), mask \in Some(IF Record THEN <<"#a", "#B", "#a", "#B">> \o SetToSeq(AllNicks) \o <<"nobody">> ELSE SetToSeq(AllNicks \cup Chans)), form \in Some(IF Record THEN Forms ELSE SubSeq(Forms, 2, 5)), cs \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        /\ IF Record THEN TRUE ELSE ~Hit(mask, form, ch)
        /\ UNCHANGED <<net, pe, ch, saved, mon>>
        /\ mem' = IF mask = "nobody" \/ Hit(mask, form, ch) THEN mem ELSE Forget(Taught(mask, form, ch), pe, ch, mon)
        /\ Rec([op |-> "ask", c |-> c, mask |-> mask, as |-> IF cs /\ mask \notin Chans THEN Upper(mask) ELSE mask, form |-> form, hit |-> (mask # "nobody" /\ Hit(mask, form, ch)),
                rows |-> AsSet(Rows(mask, form, ch, pe, FALSE)), exp |-> AsSet(Rows(mask, form, ch, pe, c = "c2"))])

Me == pe["me"].n
\* We join a channel; a question can come before the network has told who is there.
CJoin ==
    \E c \in Pick({x \in Chans : ~In(x, "me", ch)}), early \in Some(IF Record THEN <<0, 0, 1, 2>> ELSE <<0>>), form \in Some(IF Record THEN Forms ELSE <<Forms[1]>>) :
        LET k == [ch EXCEPT ![c]["me"] = ""]
            own == JoinLine("me", c, pe)
            first == CASE early = 0 -> own \o Names(c, k, 0) \o EndNames(c)
                       [] early = 1 -> own
                       [] early = 2 -> own \o Names(c, k, 1)
            rest == CASE early = 0 -> <<>> [] early = 1 -> Names(c, k, 0) \o EndNames(c) [] early = 2 -> Names(c, k, 2) \o EndNames(c)
            m1 == Learn(mem, Me, Seen("me", pe))
        IN /\ ch' = k
           /\ saved' = saved \cup {c}
           /\ mem' = Forget(m1, pe, k, mon)
           /\ UNCHANGED <<net, pe, mon>>
           /\ Rec([op |-> "join", ch |-> c, early |-> early, lines |-> first, rest |-> rest, form |-> form,
                   rows |-> AsSet(Rows(c, form, k, pe, FALSE)), exp |-> IF early = 0 THEN <<>> ELSE AsSet(Rows(c, form, k, pe, FALSE))])

CPart ==
    \E c \in Pick({x \in Chans : In(x, "me", ch)}) :
        LET k == [ch EXCEPT ![c]["me"] = "-"] IN
        /\ ch' = k /\ saved' = saved \ {c} /\ mem' = Forget(mem, pe, k, mon)
        /\ UNCHANGED <<net, pe, mon>>
        /\ Rec([op |-> "part", ch |-> c, lines |-> <<Line("me", pe, "PART " \o c)>>, exp |-> <<>>])

Kicked ==
    \E c \in Pick({x \in Chans : In(x, "me", ch)}) :
        /\ Record
        /\ Event("kicked", <<Line("oz", pe, "KICK " \o c \o " " \o Me \o " :out")>>, pe, [ch EXCEPT ![c]["me"] = "-"], mem)

\* Every client is away, or none.
SelfAway ==
    LET e == [pe EXCEPT !["me"].away = ~@] IN
    /\ pe' = e
    /\ mem' = IF mem[Me].f # "" THEN Learn(mem, Me, [f |-> Flags("me", e)]) ELSE mem
    /\ UNCHANGED <<net, ch, saved, mon>>
    /\ Rec([op |-> "selfaway", away |-> e["me"].away, exp |-> <<>>])

SelfNick ==
    \E n \in Pick(MyNicks \ {Me}) :
        LET e == [pe EXCEPT !["me"].n = n] IN
        /\ pe' = e
        /\ mem' = [mem EXCEPT ![n] = mem[Me], ![Me] = NoMem]
        /\ UNCHANGED <<net, ch, saved, mon>>
        /\ Rec([op |-> "selfnick", nick |-> n, lines |-> <<Line("me", pe, "NICK " \o n)>>, exp |-> <<>>])

MonAdd ==
    \E c \in Pick(Clients), n \in Pick(NickPool) :
        /\ n \notin mon[c]
        /\ mon' = [mon EXCEPT ![c] = @ \cup {n}]
        /\ UNCHANGED <<net, pe, ch, saved, mem>>
        /\ Rec([op |-> "mon", c |-> c, n |-> "+ " \o n, onl |-> Onl(pe), exp |-> <<>>])

MonDel ==
    \E c \in Pick(Clients) : \E n \in Pick(mon[c]) :
        LET m == [mon EXCEPT ![c] = @ \ {n}] IN
        /\ mon' = m
        /\ mem' = Forget(mem, pe, ch, m)
        /\ UNCHANGED <<net, pe, ch, saved>>
        /\ Rec([op |-> "mon", c |-> c, n |-> "- " \o n, onl |-> Onl(pe), exp |-> <<>>])

\* The connection to the network is lost and made anew.
Bounce ==
    LET e == [pe EXCEPT !["me"].hv = 0, !["me"].a = "*", !["me"].rv = 0]
        k == [c \in Chans |-> [ch[c] EXCEPT !["me"] = IF c \in saved THEN "" ELSE "-"]]
        cs == SetToSeq(saved)
        m0 == [n \in AllNicks |-> NoMem]
    IN /\ pe' = e /\ ch' = k
       /\ mem' = IF saved = {} THEN m0 ELSE Learn(m0, Me, Seen("me", e))
       /\ UNCHANGED <<net, saved, mon>>
       /\ Rec([op |-> "bounce", onl |-> Onl(e), lines |-> FlatSeq([i \in 1..Len(cs) |-> JoinLine("me", cs[i], e) \o Names(cs[i], k, 0) \o EndNames(cs[i])]), exp |-> <<>>])

Seldom == ~Record \/ RandomElement(IF Len(hist) >= 0 THEN 1..4 ELSE {}) = 1
Happens == PJoin \/ PJoin \/ PJoin \/ PJoin \/ PPart \/ (Seldom /\ PQuit) \/ POn \/ POn \/ POn \/ PNick \/ PNick \/ PAway \/ PAway \/ PAcct \/ PAcct \/ PHost \/ PHost \/ PReal \/ PMode \/ PMode \/ (Seldom /\ Kicked)
Ours    == CJoin \/ CJoin \/ CJoin \/ (Seldom /\ CPart) \/ SelfAway \/ (Seldom /\ SelfNick) \/ MonAdd \/ MonAdd \/ MonDel \/ (Seldom /\ Bounce)
Next    == Happens \/ Ours \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask
Spec    == Init /\ [][Next]_vars
\* Without the weights.
NextEx  == PJoin \/ PPart \/ PQuit \/ POn \/ PNick \/ PAway \/ PAcct \/ PHost \/ PReal \/ CJoin \/ CPart \/ SelfAway \/ MonAdd \/ MonDel \/ Bounce \/ Ask
SpecEx  == Init /\ [][NextEx]_vars
Short == TLCGet("level") <= MaxLev
-----------------------------------------------------------------------------
\* Nothing that is used of what is remembered is wrong.
MemTrue == \A n \in AllNicks : \A f \in {"u", "h", "s", "r"} \cup (IF net.aw THEN {"f"} ELSE {}) \cup (IF net.an THEN {"a"} ELSE {}) :
              mem[n][f] # "" => \E p \in Holder(n, pe) : Truth(p, pe)[f] = mem[n][f]
\* Nothing is remembered of those we are not told of.
MemKept == \A n \in AllNicks : mem[n] # NoMem => Keep(n, pe, ch, mon)
\* Answers from memory are complete.
HitRight == \A mask \in AllNicks \cup Chans, i \in 1..Len(Forms) : Hit(mask, Forms[i], ch) => Rows(mask, Forms[i], ch, pe, FALSE) # {}
=============================================================================
