-------------------------------- MODULE Query --------------------------------
(* Questions clients ask the network (WHO, WHOIS, LIST, account registration, *)
(* and others), and who is given the answers.                                 *)
(*                                                                            *)
(* Answers to WHO, WHOIS, LIST, REGISTER carry no reference to the asker, so   *)
(* the bouncer keeps a queue per kind and lets one question through at a time. *)
EXTENDS Common

CONSTANTS MaxAsk, MaxRow

Kinds   == IF Record THEN {"WHO", "WHOIS", "LIST", "REGISTER", "VERIFY"} ELSE {"WHO", "WHOIS"}
Clients == IF Record THEN {"c1", "c2", "c3"} ELSE {"c1", "c2"}
Masks   == IF Record THEN {"dan", "Erin", "x*"} ELSE {"dan", "x*"}

OneOf(s) == s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]

VARIABLES
    lab,    \* the network supports labels
    up,     \* connected to the network
    on,
    gen,    \* [client -> number of connections], to tell a client from its successor
    q,      \* [kind -> sequence of [c, g, id, mask]]; the first one is with the network
    rows,   \* rows already sent for the first one
    plain,  \* questions other than these, with the network: sequence of [c, g, id]
    waited, \* the long wait was used
    old,    \* kinds of which the first one was asked long ago
    n,
    got     \* ghost: set of <<id, c, g>> answers given

vars == <<lab, up, on, gen, q, rows, plain, waited, old, n, got, hist>>

None == [c \in Clients |-> <<>>]
Obs(u, e) == [up |-> u, cl |-> e]
Here(r) == r.c \in on /\ gen[r.c] = r.g
To(r, evs) == [c \in Clients |-> IF Here(r) /\ c = r.c THEN evs ELSE <<>>]
AllOn(evs) == [c \in Clients |-> IF c \in on THEN evs ELSE <<>>]
Give(r) == got' = IF Here(r) THEN got \cup {<<r.id, r.c, r.g>>} ELSE got

Init ==
    /\ lab \in (IF Record THEN BOOLEAN ELSE {FALSE})
    /\ up = TRUE /\ on = {} /\ n = 0 /\ got = {} /\ waited = FALSE /\ old = {}
    /\ gen = [c \in Clients |-> 0]
    /\ q = [x \in Kinds |-> <<>>]
    /\ rows = [x \in Kinds |-> 0]
    /\ plain = <<>>
    /\ RecInit([op |-> "init", lab |-> lab])

Connect ==
    \E c \in Pick(Clients \ on) :
        /\ Record \/ gen[c] < 2
        /\ on' = on \cup {c}
        /\ gen' = [gen EXCEPT ![c] = @ + 1]
        /\ UNCHANGED <<lab, up, q, rows, plain, waited, old, n, got>>
        /\ Rec([op |-> "connect", c |-> c, exp |-> Obs(<<>>, None)])

\* Questions of a client that is gone are dropped, except the one already asked.
Disconnect ==
    \E c \in Pick(on) :
        /\ on' = on \ {c}
        /\ q' = [x \in Kinds |-> IF q[x] = <<>> THEN <<>> ELSE <<Head(q[x])>> \o SelectSeq(Tail(q[x]), LAMBDA r : r.c # c)]
        /\ UNCHANGED <<lab, up, gen, rows, plain, waited, old, n, got>>
        /\ Rec([op |-> "disconnect", c |-> c, exp |-> Obs(<<>>, None)])

\* f: the longer form of the question.
Sent(kind, r) == <<kind, IF r.f = 0 THEN r.mask
                         ELSE CASE kind = "WHO" -> r.mask \o " %tcuhnfar,42"
                                [] kind = "WHOIS" -> "srv.example " \o r.mask
                                [] kind = "LIST" -> r.mask \o ",>3"
                                [] OTHER -> r.mask>>
\* How the network spells a name it was asked about.
Spell(x, cs) == IF ~cs THEN x ELSE CASE x = "dan" -> "Dan" [] x = "Erin" -> "eRIN" [] OTHER -> x

Ask ==
    \E c \in Pick(on), kind \in Pick(Kinds), mask \in Pick(Masks), f \in Pick(IF Record THEN {0, 1} ELSE {0}) :
        LET r == [c |-> c, g |-> gen[c], id |-> n + 1, mask |-> mask, f |-> f]
            q1 == IF kind \in old THEN Tail(q[kind]) ELSE q[kind]
            sent == q1 = <<>> \/ kind \in old
        IN /\ up /\ n < MaxAsk /\ n' = n + 1
           /\ q' = [q EXCEPT ![kind] = Append(q1, r)]
           /\ rows' = IF sent THEN [rows EXCEPT ![kind] = 0] ELSE rows
           /\ old' = old \ {kind}
           /\ UNCHANGED <<lab, up, on, gen, plain, waited, got>>
           /\ Rec([op |-> "ask", c |-> c, kind |-> kind, mask |-> mask, f |-> f, id |-> n + 1, givenup |-> kind \in old,
                   exp |-> Obs(IF sent THEN <<Sent(kind, Head(Append(q1, r)))>> ELSE <<>>, None)])

AskDown ==
    \E c \in Pick(on), kind \in Pick(Kinds) :
        /\ ~up
        /\ UNCHANGED <<lab, up, on, gen, q, rows, plain, waited, old, n, got>>
        /\ Rec([op |-> "ask", c |-> c, kind |-> kind, mask |-> "dan", f |-> 0, id |-> 0,
                exp |-> Obs(<<>>, [None EXCEPT ![c] = <<<<"refused">>>>])])

\* One line of an answer.
Row ==
    \E kind \in Pick({x \in Kinds \ {"REGISTER", "VERIFY"} : q[x] # <<>>}) :
        LET r == Head(q[kind])
        IN /\ Record \/ rows[kind] < MaxRow
           /\ rows' = [rows EXCEPT ![kind] = @ + 1]
           /\ UNCHANGED <<lab, up, on, gen, q, plain, waited, old, n>>
           /\ Give(r)
           /\ Rec([op |-> "row", kind |-> kind, id |-> r.id, mask |-> r.mask, f |-> r.f,
                   exp |-> Obs(<<>>, To(r, <<<<kind, "row", ToString(r.id)>>>>))])

\* The end of an answer, or an error instead: the next question is asked.
\* Some networks send both, one right after the other.
Ends(kind, r) ==
    IF ~Record THEN {"end", "err"}
    ELSE {OneOf(CASE kind = "WHO" -> <<"end", "end", "end", "again", "again+end", "unknown">>
                 [] kind = "WHOIS" -> IF r.f = 0 THEN <<"end", "end", "end", "nosuch", "nosuch", "nosuch+end", "nosuch+end", "again", "needmore">>
                                      ELSE <<"end", "end", "nosuch", "nosuchserver">>
                 [] kind = "LIST" -> <<"end", "end", "end", "again", "unknown">>
                 [] OTHER -> <<"end", "end", "end", "fail", "more", "unknown">>)}
\* What the end names.
Subject(kind, how, r, cs) ==
    CASE kind = "LIST" \/ how \in {"again", "again+end", "unknown", "needmore", "err"} -> ""
      [] how = "nosuchserver" -> "srv.example"
      [] OTHER -> Spell(r.mask, cs)
End ==
    \E kind \in Pick({x \in Kinds : q[x] # <<>>}) : \E how \in Pick(Ends(kind, Head(q[kind]))), cs \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}) :
        LET r == Head(q[kind])
            t == Tail(q[kind])
            last == <<kind, how, Subject(kind, how, r, cs)>>
        IN /\ q' = [q EXCEPT ![kind] = t]
           /\ rows' = [rows EXCEPT ![kind] = 0]
           /\ old' = old \ {kind}
           /\ UNCHANGED <<lab, up, on, gen, plain, waited, n>>
           /\ Give(r)
           /\ how \in {"nosuch+end", "again+end"} /\ t # <<>> => t[1].mask # r.mask
           /\ Rec([op |-> "end", kind |-> kind, how |-> how, id |-> r.id, mask |-> Spell(r.mask, cs), f |-> r.f,
                   exp |-> Obs(IF t = <<>> THEN <<>> ELSE <<Sent(kind, t[1])>>, To(r, <<last>>))])

\* Nobody answers for a long time: each question with the network is given
\* up on as soon as another one of its kind is asked.
Wait ==
    /\ ~waited /\ up /\ \E x \in Kinds : q[x] # <<>>
    /\ waited' = TRUE
    /\ old' = {x \in Kinds : q[x] # <<>>}
    /\ UNCHANGED <<lab, up, on, gen, q, rows, plain, n, got>>
    /\ Rec([op |-> "wait", exp |-> Obs(<<>>, None)])

\* Other questions are passed on as they are.  Labels tell who asked;
\* without them everybody is shown the answer.
AskPlain ==
    \E c \in Pick(on), what \in Pick({"NAMES #out", "TOPIC #out", "MODE #out", "VERSION", "LUSERS", "FOO x"}) :
        LET r == [c |-> c, g |-> gen[c], id |-> n + 1, what |-> what]
        IN /\ Record /\ up /\ n < MaxAsk /\ n' = n + 1
           /\ plain' = Append(plain, r)
           /\ UNCHANGED <<lab, up, on, gen, q, rows, waited, old, got>>
           /\ Rec([op |-> "askplain", c |-> c, what |-> what, exp |-> Obs(<<<<what>>>>, None)])

AnswerPlain ==
    /\ plain # <<>>
    /\ LET r == Head(plain)
       IN /\ plain' = Tail(plain)
          /\ UNCHANGED <<lab, up, on, gen, q, rows, waited, old, n, got>>
          /\ Rec([op |-> "answerplain", what |-> r.what, id |-> r.id,
                  exp |-> Obs(<<>>, IF lab THEN To(r, <<<<"plain", ToString(r.id)>>>>) ELSE AllOn(<<<<"plain", ToString(r.id)>>>>))])

\* The connection is lost: askers are told their questions will not be answered.
AbortSeq(c) == FlatSeq([i \in 1..5 |-> LET x == <<"WHO", "WHOIS", "LIST", "REGISTER", "VERIFY">>[i]
                                           l == IF x \notin Kinds THEN <<>> ELSE SelectSeq(q[x], LAMBDA r : r.c = c /\ Here(r))
                                       IN [j \in 1..Len(l) |-> <<x, IF i > 3 THEN "fail" ELSE "end", IF x = "LIST" THEN "" ELSE l[j].mask>>]])
Down ==
    /\ up /\ up' = FALSE
    /\ q' = [x \in Kinds |-> <<>>] /\ rows' = [x \in Kinds |-> 0] /\ plain' = <<>>
    /\ old' = {}
    /\ UNCHANGED <<lab, on, gen, waited, n, got>>
    /\ Rec([op |-> "down", exp |-> Obs(<<>>, [c \in Clients |-> IF c \in on THEN [set |-> AbortSeq(c)] ELSE <<>>])])

Up ==
    /\ ~up /\ up' = TRUE
    /\ UNCHANGED <<lab, on, gen, q, rows, plain, waited, old, n, got>>
    /\ Rec([op |-> "up", exp |-> Obs(<<>>, None)])

Common0 == Connect \/ Connect \/ Disconnect \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ Ask \/ AskDown \/ Row \/ Row \/ Row \/ Row \/ Row \/ Row \/ End \/ End \/ End \/ End \/ End \/ End \/ AskPlain \/ AnswerPlain \/ AnswerPlain \/ Down \/ Up \/ Up
Next == Common0
\* With the long wait, which takes long to replay.
NextWait == Common0 \/ Wait \/ Wait

Spec == Init /\ [][Next]_vars
SpecWait == Init /\ [][NextWait]_vars
-----------------------------------------------------------------------------
\* One answer never reaches two connections.
OneAsker == \A a, b \in got : a[1] = b[1] => a = b
\* Whoever is gone is not in any queue, but possibly at its head.
Gone == \A x \in Kinds : \A i \in 2..Len(q[x]) : Here(q[x][i])
\* Every question is answered, if the network answers and stays.
Fair == Spec /\ \A x \in {"WHO", "WHOIS"} : WF_vars(\E how \in {"end"} : q[x] # <<>> /\ End /\ q'[x] = Tail(q[x]))
Answered == \A i \in 1..MaxAsk : \A x \in {"WHO", "WHOIS"} : (\E j \in 1..Len(q[x]) : q[x][j].id = i) ~> ~(\E j \in 1..Len(q[x]) : q[x][j].id = i)
=============================================================================
