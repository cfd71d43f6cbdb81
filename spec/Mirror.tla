------------------------------- MODULE Mirror -------------------------------
(* The state of channels as clients see it: what they are told live, and what *)
(* a client connecting later, or asking, is told.                             *)
EXTENDS Common

CONSTANTS MaxStep

Chans   == IF Record THEN {"#a", "#b"} ELSE {"#a"}
Others  == IF Record THEN {"Bob", "carol", "Dan[1]", "eve"} ELSE {"Bob", "carol"}
Selves  == {"alice", "Alice2"}
Names   == Others \cup Selves
Pfx     == IF Record THEN <<"q", "o", "h", "v">> ELSE <<"o", "v">>   \* highest first
Sym     == [q |-> "~", o |-> "@", h |-> "%", v |-> "+"]
PS      == Range(Pfx)
Clients == {"c1", "c2"}          \* c1 asked for all prefixes, c2 for nothing
Topics  == IF Record THEN {"", "hello world", ":colon", "x"} ELSE {"", "x"}
Flags   == IF Record THEN {"n", "t", "m"} ELSE {"n"}

VARIABLES
    mp,      \* the network shows all prefixes
    on,
    nick,    \* our nickname
    joined,  \* channels we are in
    mem,     \* [channel -> [members -> prefixes]], as the network knows them
    known,   \* the same, as far as the bouncer can know
    topic,   \* [channel -> [text, who]]
    modes,   \* [channel -> set of flags, with "k=..." and "l=..."]
    umode,   \* our user modes
    k

vars == <<mp, on, nick, joined, mem, known, topic, modes, umode, k, hist>>

Least(S) == CHOOSE i \in S : \A j \in S : i <= j
High(P) == IF P = {} THEN {} ELSE {Pfx[Least({i \in 1..Len(Pfx) : Pfx[i] \in P})]}
PStr(P) == FoldLeft(LAMBDA a, p : IF p \in P THEN a \o Sym[p] ELSE a, "", Pfx)
Shown(c, P) == IF mp /\ c = "c1" THEN PStr(P) ELSE PStr(High(P))
NamesOf(c, ch, K) == AsSet({Shown(c, K[ch][n]) \o n : n \in DOMAIN K[ch]})
\* What the network sends in its own NAMES reply.
UpNames(ch, M) == SetToSeq({(IF mp THEN PStr(M[ch][n]) ELSE PStr(High(M[ch][n]))) \o n : n \in DOMAIN M[ch]})
Learn(P) == IF mp THEN P ELSE High(P)

NoObs == [c \in Clients \cup {"up"} |-> <<>>]
O(ev) == [ev |-> ev, who |-> <<>>, modes |-> <<>>]
All(ev) == [c \in Clients \cup {"up"} |-> IF c \in on THEN O(<<ev>>) ELSE <<>>]
\* The description of a channel.
Describe(c, ch, K, T) == (IF T[ch].text # "" THEN <<<<"topic", ch, T[ch].text>>>> ELSE <<>>) \o <<<<"names", ch, NamesOf(c, ch, K)>>>>
WhoOf(S, T) == [ch \in {x \in S : T[x].text # ""} |-> T[ch].who]

\* State of the network, for it to describe channels on joining.
Snapshot(J, M, T, D) == [joined |-> SetToSeq(J), names |-> [ch \in J |-> UpNames(ch, M)], topic |-> [ch \in J |-> T[ch]], modes |-> [ch \in J |-> SetToSeq(D[ch])]]

\* Named channel members at the start.
Start == [ch \in Chans |-> [n \in (IF ch = "#a" THEN Others \ {"eve"} ELSE {"eve"}) \cup {"alice"} |-> IF n = "Bob" THEN {"o"} ELSE IF n = "carol" THEN PS ELSE {}]]

Init ==
    /\ mp \in BOOLEAN
    /\ on = {} /\ nick = "alice" /\ joined = Chans /\ k = 0
    /\ mem = Start
    /\ known = [ch \in Chans |-> [n \in DOMAIN Start[ch] |-> Learn(Start[ch][n])]]
    /\ topic = [ch \in Chans |-> IF ch = "#a" THEN [text |-> "x", who |-> "Bob!u@h"] ELSE [text |-> "", who |-> ""]]
    /\ modes = [ch \in Chans |-> {"n"}]
    /\ umode = {}
    /\ RecInit([op |-> "init", mp |-> mp, snap |-> Snapshot(Chans, mem, topic, modes)])

Tick == IF Record THEN UNCHANGED k ELSE (k < MaxStep /\ k' = k + 1)
Ups == IF Record THEN BOOLEAN ELSE {FALSE}

Without(f, n) == [x \in DOMAIN f \ {n} |-> f[x]]
With(f, n, v) == [x \in DOMAIN f \cup {n} |-> IF x = n THEN v ELSE f[x]]

Connect ==
    \E c \in Pick(Clients \ on) :
        LET chs == SetToSeq(joined)
            per(ch) == <<<<"JOIN", ch, nick>>>> \o Describe(c, ch, known, topic)
        IN /\ Tick /\ on' = on \cup {c}
           /\ UNCHANGED <<mp, nick, joined, mem, known, topic, modes, umode>>
           /\ Rec([op |-> "connect", c |-> c,
                   exp |-> [NoObs EXCEPT ![c] = [bych |-> [ch \in joined |-> per(ch)], who |-> WhoOf(joined, topic), modes |-> <<>>,
                                                 nick |-> nick, umode |-> AsSet(umode)]]])

Disconnect ==
    \E c \in Pick(on) :
        /\ Tick /\ on' = on \ {c}
        /\ UNCHANGED <<mp, nick, joined, mem, known, topic, modes, umode>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> NoObs])

OtherJoin ==
    \E ch \in Pick(joined) : \E n \in Pick(Others \ DOMAIN mem[ch]), up \in Pick(Ups) :
        /\ Tick
        /\ mem' = [mem EXCEPT ![ch] = With(@, n, {})]
        /\ known' = [known EXCEPT ![ch] = With(@, n, {})]
        /\ UNCHANGED <<mp, on, nick, joined, topic, modes, umode>>
        /\ Rec([op |-> "ojoin", ch |-> ch, n |-> n, up |-> up, exp |-> All(<<"JOIN", ch, n>>)])

OtherPart ==
    \E ch \in Pick(joined) : \E n \in Pick(DOMAIN mem[ch] \ {nick}), r \in Pick({"", "bye"}), up \in Pick(Ups) :
        /\ Tick
        /\ mem' = [mem EXCEPT ![ch] = Without(@, n)]
        /\ known' = [known EXCEPT ![ch] = Without(@, n)]
        /\ UNCHANGED <<mp, on, nick, joined, topic, modes, umode>>
        /\ Rec([op |-> "opart", ch |-> ch, n |-> n, r |-> r, up |-> up, exp |-> All(<<"PART", ch, n, r>>)])

OtherQuit ==
    \E n \in Pick({x \in Others : \E ch \in joined : x \in DOMAIN mem[ch]}) :
        /\ Tick
        /\ mem' = [ch \in Chans |-> Without(mem[ch], n)]
        /\ known' = [ch \in Chans |-> Without(known[ch], n)]
        /\ UNCHANGED <<mp, on, nick, joined, topic, modes, umode>>
        /\ Rec([op |-> "oquit", n |-> n, exp |-> All(<<"QUIT", n, "gone">>)])

Rename(f, a, b) == IF a \in DOMAIN f THEN [x \in (DOMAIN f \ {a}) \cup {b} |-> IF x = b THEN f[a] ELSE f[x]] ELSE f
OtherNick ==
    \E n \in Pick({x \in Others : \E ch \in joined : x \in DOMAIN mem[ch]}), m \in Pick({x \in Others : \A ch \in Chans : x \notin DOMAIN mem[ch]}) :
        /\ Tick
        /\ mem' = [ch \in Chans |-> Rename(mem[ch], n, m)]
        /\ known' = [ch \in Chans |-> Rename(known[ch], n, m)]
        /\ UNCHANGED <<mp, on, nick, joined, topic, modes, umode>>
        /\ Rec([op |-> "onick", n |-> n, m |-> m, exp |-> All(<<"NICK", n, m>>)])

OwnNick ==
    LET new == CHOOSE x \in Selves : x # nick
    IN /\ Tick
       /\ nick' = new
       /\ mem' = [ch \in Chans |-> Rename(mem[ch], nick, new)]
       /\ known' = [ch \in Chans |-> Rename(known[ch], nick, new)]
       /\ UNCHANGED <<mp, on, joined, topic, modes, umode>>
       /\ Rec([op |-> "mynick", n |-> nick, m |-> new, exp |-> All(<<"NICK", nick, new>>)])

Kick ==
    \E ch \in Pick(joined) : \E v \in Pick(DOMAIN mem[ch]), by \in Pick(DOMAIN mem[ch] \ {nick}), up \in Pick(Ups) :
        /\ Tick /\ v # by
        /\ joined' = IF v = nick THEN joined \ {ch} ELSE joined
        /\ mem' = [mem EXCEPT ![ch] = Without(@, v)]
        /\ known' = [known EXCEPT ![ch] = Without(@, v)]
        /\ UNCHANGED <<mp, on, nick, topic, modes, umode>>
        /\ Rec([op |-> "kick", ch |-> ch, v |-> v, by |-> by, up |-> up, exp |-> All(<<"KICK", ch, v, by>>)])

\* The network removes us, or a client leaves the channel.
OwnPart ==
    \E ch \in Pick(joined), forced \in Pick(BOOLEAN), c \in Pick(on) :
        /\ Tick
        /\ joined' = joined \ {ch}
        /\ mem' = [mem EXCEPT ![ch] = Without(@, nick)]
        /\ known' = [known EXCEPT ![ch] = Without(@, nick)]
        /\ UNCHANGED <<mp, on, nick, topic, modes, umode>>
        /\ Rec([op |-> "mypart", ch |-> ch, c |-> c, forced |-> forced, exp |-> All(<<"PART", ch, nick, "">>)])

\* A client joins a channel again.
OwnJoin ==
    \E ch \in Pick(Chans \ joined), c \in Pick(on) :
        LET M == [mem EXCEPT ![ch] = With(@, nick, IF DOMAIN @ = {} THEN {"o"} ELSE {})]
            K == [known EXCEPT ![ch] = [n \in DOMAIN M[ch] |-> Learn(M[ch][n])]]
        IN /\ Tick
           /\ joined' = joined \cup {ch}
           /\ mem' = M /\ known' = K
           /\ UNCHANGED <<mp, on, nick, topic, modes, umode>>
           /\ Rec([op |-> "myjoin", ch |-> ch, c |-> c, snap |-> Snapshot({ch}, M, topic, modes),
                   exp |-> [d \in Clients |-> IF d \notin on THEN <<>>
                            ELSE [ev |-> <<<<"JOIN", ch, nick>>>> \o Describe(d, ch, K, topic), who |-> WhoOf({ch}, topic), modes |-> [x \in {ch} |-> AsSet(modes[ch])]]]])

\* Membership changes: one or two at once.
Change(P, s, p) == IF s = "+" THEN P \cup {p} ELSE P \ {p}
ModeMember ==
    \E ch \in Pick(joined) : \E n \in Pick(DOMAIN mem[ch]), s \in Pick({"+", "-"}), p \in Pick(PS), by \in Pick(DOMAIN mem[ch]),
       n2 \in Pick(DOMAIN mem[ch]), s2 \in Pick({"+", "-"}), p2 \in Pick(PS), two \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}), up \in Pick(Ups) :
        LET ap(f) == LET g == [f EXCEPT ![n] = Change(@, s, p)] IN IF two THEN [g EXCEPT ![n2] = Change(@, s2, p2)] ELSE g
            text == IF two THEN s \o p \o s2 \o p2 \o " " \o n \o " " \o n2 ELSE s \o p \o " " \o n
        IN /\ Tick
           /\ mem' = [mem EXCEPT ![ch] = ap(@)]
           /\ known' = [known EXCEPT ![ch] = ap(@)]
           /\ UNCHANGED <<mp, on, nick, joined, topic, modes, umode>>
           /\ Rec([op |-> "mode", ch |-> ch, by |-> by, text |-> text, up |-> up, exp |-> All(<<"MODE", ch, text>>)])

\* Channel modes: flags, a key, a limit, a ban (which is not part of the state).
KeyOf(S) == {x \in S : x \in {"k=sesame", "k=other"}}
LimOf(S) == {x \in S : x \in {"l=5", "l=12"}}
ModeChan ==
    \E ch \in Pick(joined), what \in Pick(IF Record THEN {"flag", "flag", "key", "lim", "ban", "mix"} ELSE {"flag", "key"}), f \in Pick(Flags), s \in Pick({"+", "-"}),
       v \in Pick(IF Record THEN {1, 2} ELSE {1}), by \in Pick(Others), up \in Pick(Ups) :
        LET key  == IF v = 1 THEN "sesame" ELSE "other"
            lim  == IF v = 1 THEN "5" ELSE "12"
            text == CASE what = "flag" -> s \o f
                      [] what = "key"  -> s \o "k " \o key
                      [] what = "lim"  -> IF s = "+" THEN "+l " \o lim ELSE "-l"
                      [] what = "ban"  -> s \o "b *!*@spam"
                      [] what = "mix"  -> IF s = "+" THEN "+bk" \o f \o "l *!*@spam " \o key \o " " \o lim ELSE "-bl" \o f \o "k *!*@spam " \o key
            fl(S) == IF s = "+" THEN S \cup {f} ELSE S \ {f}
            ky(S) == (S \ KeyOf(S)) \cup (IF s = "+" THEN {"k=" \o key} ELSE {})
            li(S) == (S \ LimOf(S)) \cup (IF s = "+" THEN {"l=" \o lim} ELSE {})
        IN /\ Tick
           /\ modes' = [modes EXCEPT ![ch] = CASE what = "flag" -> fl(@) [] what = "key" -> ky(@) [] what = "lim" -> li(@) [] what = "ban" -> @ [] what = "mix" -> fl(ky(li(@)))]
           /\ UNCHANGED <<mp, on, nick, joined, mem, known, topic, umode>>
           /\ Rec([op |-> "mode", ch |-> ch, by |-> by, text |-> text, up |-> up, exp |-> All(<<"MODE", ch, text>>)])

\* Prefixes and a parameter in one message.
ModeMix ==
    \E ch \in Pick(joined) : \E n \in Pick(DOMAIN mem[ch]), s \in Pick({"+", "-"}), p \in Pick(PS), by \in Pick(DOMAIN mem[ch]), s2 \in Pick({"+", "-"}), w \in Pick({"k", "l", "b"}), first \in Pick(BOOLEAN) :
        LET arg == CASE w = "k" -> " sesame" [] w = "l" -> (IF s2 = "+" THEN " 5" ELSE "") [] w = "b" -> " *!*@spam"
            text == IF first THEN s2 \o w \o s \o p \o arg \o " " \o n ELSE s \o p \o s2 \o w \o " " \o n \o arg
            md(S) == CASE w = "k" -> (S \ KeyOf(S)) \cup (IF s2 = "+" THEN {"k=sesame"} ELSE {})
                       [] w = "l" -> (S \ LimOf(S)) \cup (IF s2 = "+" THEN {"l=5"} ELSE {})
                       [] w = "b" -> S
        IN /\ Tick
           /\ mem' = [mem EXCEPT ![ch] = [@ EXCEPT ![n] = Change(@, s, p)]]
           /\ known' = [known EXCEPT ![ch] = [@ EXCEPT ![n] = Change(@, s, p)]]
           /\ modes' = [modes EXCEPT ![ch] = md(@)]
           /\ UNCHANGED <<mp, on, nick, joined, topic, umode>>
           /\ Rec([op |-> "mode", ch |-> ch, by |-> by, text |-> text, up |-> FALSE, exp |-> All(<<"MODE", ch, text>>)])

UserMode ==
    \E f \in Pick({"i", "w"}), s \in Pick({"+", "-"}) :
        /\ Record /\ Tick
        /\ umode' = IF s = "+" THEN umode \cup {f} ELSE umode \ {f}
        /\ UNCHANGED <<mp, on, nick, joined, mem, known, topic, modes>>
        /\ Rec([op |-> "umode", text |-> s \o f, n |-> nick, exp |-> All(<<"MODE", nick, s \o f>>)])

SetTopic ==
    \E ch \in Pick(joined), t \in Pick(Topics), up \in Pick(Ups) : \E by \in Pick(DOMAIN mem[ch]) :
        /\ Tick
        /\ topic' = [topic EXCEPT ![ch] = [text |-> t, who |-> by \o "!u@h"]]
        /\ UNCHANGED <<mp, on, nick, joined, mem, known, modes, umode>>
        /\ Rec([op |-> "topic", ch |-> ch, by |-> by, t |-> t, up |-> up, exp |-> All(<<"TOPIC", ch, t, by>>)])

\* A client asks.
Ask ==
    \E c \in Pick(on), ch \in Pick(joined), q \in Pick({"NAMES", "TOPIC", "MODE", "UMODE"}), up \in Pick(Ups) :
        /\ Record /\ Tick
        /\ UNCHANGED <<mp, on, nick, joined, mem, known, topic, modes, umode>>
        /\ Rec([op |-> "ask", c |-> c, ch |-> ch, q |-> q, up |-> up, n |-> nick,
                exp |-> [NoObs EXCEPT ![c] =
                    CASE q = "NAMES" -> O(<<<<"names", ch, NamesOf(c, ch, known)>>>>)
                      [] q = "TOPIC" -> IF topic[ch].text = "" THEN O(<<<<"notopic", ch>>>>) ELSE [ev |-> <<<<"topic", ch, topic[ch].text>>>>, who |-> WhoOf({ch}, topic), modes |-> <<>>]
                      [] q = "MODE"  -> [ev |-> <<>>, who |-> <<>>, modes |-> [x \in {ch} |-> AsSet(modes[ch])]]
                      [] q = "UMODE" -> [ev |-> <<>>, who |-> <<>>, modes |-> <<>>, umode |-> AsSet(umode)]]])

\* A client gives an order; it reaches the network, which may or may not comply.
Order ==
    \E c \in Pick(on), ch \in Pick(Chans), q \in Pick({"topic", "untopic", "mode", "op", "bans", "kick", "invite", "umode"}), n \in Pick(Others), r \in Pick({"", "out you go"}) :
        /\ Record /\ Tick
        /\ UNCHANGED <<mp, on, nick, joined, mem, known, topic, modes, umode>>
        /\ LET line == CASE q = "topic" -> <<"TOPIC " \o ch \o " :new topic", "TOPIC " \o ch \o " new topic">>
                         [] q = "untopic" -> <<"TOPIC " \o ch \o " :", "TOPIC " \o ch \o " ">>
                         [] q = "mode" -> <<"MODE " \o ch \o " +k-l sesame", "MODE " \o ch \o " +k-l sesame">>
                         [] q = "op" -> <<"MODE " \o ch \o " +o-v " \o n \o " " \o n, "MODE " \o ch \o " +o-v " \o n \o " " \o n>>
                         [] q = "bans" -> <<"MODE " \o ch \o " b", "MODE " \o ch \o " b">>
                         [] q = "kick" -> IF r = "" THEN <<"KICK " \o ch \o " " \o n, "KICK " \o ch \o " " \o n>> ELSE <<"KICK " \o ch \o " " \o n \o " :" \o r, "KICK " \o ch \o " " \o n \o " " \o r>>
                         [] q = "invite" -> <<"INVITE " \o n \o " " \o ch, "INVITE " \o n \o " " \o ch>>
                         [] q = "umode" -> <<"MODE " \o nick \o " +i", "MODE " \o nick \o " +i">>
           IN Rec([op |-> "cmd", c |-> c, line |-> line[1], exp |-> [NoObs EXCEPT !["up"] = <<line[2]>>]])

\* The connection is lost and comes back: saved channels are joined again.
Blip ==
    \E c \in {0} :
        LET J == Chans
            M == [ch \in Chans |-> With(Without(Without(mem[ch], "alice"), "Alice2"), "alice", IF nick \in DOMAIN mem[ch] THEN mem[ch][nick] ELSE {})]
            K == [ch \in Chans |-> [n \in DOMAIN M[ch] |-> Learn(M[ch][n])]]
        IN /\ Tick /\ joined = Chans
           /\ mem' = M /\ known' = K /\ nick' = "alice" /\ umode' = {}
           /\ UNCHANGED <<mp, on, joined, topic, modes>>
           /\ Rec([op |-> "blip", snap |-> Snapshot(J, M, topic, modes),
                   exp |-> [d \in Clients |-> IF d \notin on THEN <<>>
                       ELSE [bych |-> [ch \in J |-> <<<<"JOIN", ch, "alice">>>> \o Describe(d, ch, K, topic)], who |-> WhoOf(J, topic),
                             modes |-> [ch \in J |-> AsSet(modes[ch])], ev |-> IF nick = "alice" THEN <<>> ELSE <<<<"NICK", nick, "alice">>>>]]])

Next == Connect \/ Connect \/ Connect \/ Disconnect \/ OtherJoin \/ OtherJoin \/ OtherJoin \/ OtherPart \/ OtherQuit \/ OtherNick \/ OtherNick \/ OwnNick \/ Kick \/ OwnPart \/ OwnJoin \/ OwnJoin
        \/ ModeMember \/ ModeMember \/ ModeMember \/ ModeMember \/ ModeChan \/ ModeChan \/ ModeChan \/ ModeMix \/ ModeMix \/ UserMode \/ SetTopic \/ SetTopic \/ Ask \/ Ask \/ Ask \/ Ask \/ Order \/ Blip

Spec == Init /\ [][Next]_vars
-----------------------------------------------------------------------------
\* The bouncer knows exactly who is in, and their prefixes as far as shown.
Exact == \A ch \in joined : /\ DOMAIN known[ch] = DOMAIN mem[ch]
                            /\ nick \in DOMAIN mem[ch]
                            /\ \A n \in DOMAIN mem[ch] : known[ch][n] \subseteq mem[ch][n] /\ (mp => known[ch][n] = mem[ch][n])
Away == \A ch \in Chans \ joined : nick \notin DOMAIN mem[ch]
OneKey == \A ch \in Chans : Cardinality(KeyOf(modes[ch])) <= 1 /\ Cardinality(LimOf(modes[ch])) <= 1
=============================================================================
