------------------------------- MODULE Upload -------------------------------
(* Uploaded files: who may store them, and what is served of them.            *)
EXTENDS Common

CONSTANTS MaxFiles

Some(s) == IF Record THEN {s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]} ELSE Range(s)
Coin(k) == RandomElement(IF Len(hist) >= 0 THEN 1..k ELSE {}) = 1

VARIABLES
    files,   \* what is stored: a sequence of [u, n, m, b]
    on,      \* whether uploads are configured
    bob,     \* what became of bob: "ok", "disabled" or (his password changed) "other"
    got      \* the last thing served (for the properties)
vars == <<files, on, bob, got, hist>>

-----------------------------------------------------------------------------
\* Names: d is the header field, n the name kept (* for none), e the type its extension
\* has ("" if it has none, "?" if it is not known).
Names == <<[d |-> "", n |-> "*", e |-> ""], [d |-> "", n |-> "*", e |-> ""],
           [d |-> "attachment; filename=photo.png", n |-> "photo.png", e |-> "image/png"],
           [d |-> "attachment; filename=\"../../evil.html\"", n |-> "evil.html", e |-> "text/html"],
           [d |-> "inline; filename=\"/etc/passwd\"", n |-> "passwd", e |-> ""],
           [d |-> "attachment; filename=\"a-b-c.svg\"", n |-> "a-b-c.svg", e |-> "image/svg+xml"],
           [d |-> "attachment; filename*=UTF-8''%C3%A9t%C3%A9%20%3F%23%25.pdf", n |-> "%e ?#%.pdf", e |-> "application/pdf"],
           [d |-> "attachment; filename=\"x y.js\"", n |-> "x y.js", e |-> "text/javascript"],
           [d |-> "attachment; filename=\"quo\\\"te.png\"", n |-> "quo\"te.png", e |-> "image/png"],
           [d |-> "attachment", n |-> "*", e |-> ""],
           [d |-> "form-data; name=\"x\"; filename=\"notes\"", n |-> "notes", e |-> ""],
           [d |-> "attachment; filename=\"back\\\\slash.txt\"", n |-> "back\\slash.txt", e |-> "text/plain"],
           [d |-> "attachment; filename=\"odd.zzunknown\"", n |-> "odd.zzunknown", e |-> "?"],
           [d |-> "attachment; filename=\".hidden\"", n |-> ".hidden", e |-> "?"],
           [d |-> "attachment; filename=\"song.mp3\"", n |-> "song.mp3", e |-> "audio/mpeg"],
           [d |-> "attachment; filename=\"page.xhtml\"", n |-> "page.xhtml", e |-> "application/xhtml+xml"]>>
BadNames == <<";;;", "attachment; filename=", "=">>
\* Types: m is the type as declared, s the extensions it may bring with it.
Types == <<[h |-> "", m |-> ""], [h |-> "application/octet-stream", m |-> ""], [h |-> "text/plain; charset=UTF-8", m |-> "text/plain"], [h |-> "TEXT/PLAIN", m |-> "text/plain"],
           [h |-> "image/png", m |-> "image/png"], [h |-> "image/jpeg", m |-> "image/jpeg"], [h |-> "video/x-zzunknown", m |-> "video/x-zzunknown"], [h |-> "text/plain; charset=us-ascii", m |-> "text/plain"]>>
BadTypes == <<[h |-> "///", c |-> 400], [h |-> "text/plain; charset=iso-8859-1", c |-> 415], [h |-> "text/html; charset=utf-16", c |-> 415]>>
Suffix(m) == CASE m = "text/plain" -> {[x |-> ".txt", e |-> "text/plain"]}
               [] m = "image/jpeg" -> {[x |-> ".jpeg", e |-> "image/jpeg"]}
               [] m = "image/png" -> {[x |-> ".png", e |-> "image/png"], [x |-> "", e |-> ""]}
               [] OTHER -> {[x |-> "", e |-> ""]}
Bodies == <<"text", "png", "html", "bin", "empty", "xml", "text", "png">>
\* The type of a content as such.
Sniff(b) == CASE b \in {"text", "max"} -> "text/plain" [] b = "png" -> "image/png" [] b = "html" -> "text/html" [] b = "empty" -> "text/plain" [] b = "xml" -> "text/xml" [] OTHER -> "application/octet-stream"
Inline == {"application/pdf", "audio/mpeg", "image/jpeg", "image/png", "text/plain"}

\* What is served for a file: a choice, where the system's tables matter.
Served(f) ==
    LET kind(e) == IF e \in {"", "?"} THEN Sniff(f.b) ELSE e
        one(x, e) == [name |-> f.n \o x, type |-> kind(e), disp |-> IF kind(e) \in Inline THEN "inline" ELSE "attachment"]
    IN IF f.e = "" THEN {one(s.x, s.e) : s \in Suffix(f.m)} ELSE {one("", f.e)}

Disk(fs) == AsSet(1..Len(fs))
Say(step, e, fs) == Rec([exp |-> e @@ [disk |-> Disk(fs)]] @@ step)

\* Where a request comes from, and whether it is let in.
Origins == <<"", "", "", "", "same", "https://ok.example", "https://a.sub.example", "https://evil.example", "https://x.ok.example", "https://ok.example.evil.example", "null", "http://sub.example", "https://b.a.sub.example", "https://UP.example", "https://a.up.example", "https://aup.example", "https://up.example.ok", "https://up.example:444", "https://example", "https://ok.example:444">>
Let(o) == o \in {"", "same", "https://ok.example", "https://a.sub.example", "https://b.a.sub.example", "https://UP.example"}

-----------------------------------------------------------------------------
Auths == <<"none", "wrong", "nouser", "empty", "nopw", "bearer", "digest", "basicjunk", "case", "dots", "bobbad">>
AuthCode(a) == CASE a = "none" -> {401} [] a \in {"bearer", "digest", "basicjunk"} -> {400} [] a = "dots" -> {500, 400, 403} [] OTHER -> {403}
Good(u) == u = "alice" \/ bob = "ok"

\* One fault at most.
Upload ==
    \E u \in Pick({"alice", "bob"}), n \in Some(IF Record THEN Names ELSE SubSeq(Names, 2, 3)), t \in Some(IF Record THEN Types ELSE <<Types[1]>>),
       b \in Some(IF Record THEN (IF Coin(40) THEN <<"max">> ELSE Bodies) ELSE <<"text">>), o \in Some(IF Record THEN Origins ELSE <<"", "null">>),
       chunked \in Pick(IF Record THEN BOOLEAN ELSE {FALSE}),
       fault \in Some(IF Record THEN IF Coin(25) THEN <<"over">> ELSE <<"no", "no", "no", "no", "auth", "auth", "type", "name", "long", "cut", "path", "method">> ELSE <<"no", "auth", "cut">>),
       a \in Some(IF Record THEN Auths ELSE <<"wrong">>), bt \in Some(BadTypes), bn \in Some(BadNames), p \in Some(<<"/uploads/", "/uploads/alice", "/uploads/alice/x.png">>), mt \in Some(<<"PUT", "DELETE", "PATCH">>) :
        LET f == IF b = "max" /\ fault # "no" THEN "no" ELSE fault
            ok == f = "no" /\ on /\ Let(o) /\ Good(u)
            codes == CASE ~Let(o) -> {403} [] ~on -> {404} [] f = "method" -> {405} [] f = "path" -> {404}
                       [] f = "auth" -> AuthCode(a)
                       [] ~Good(u) -> {403}
                       [] f = "type" -> {bt.c} [] f = "name" -> {400} [] f = "long" -> {500, 400} [] f = "over" -> {413}
                       [] f = "cut" -> {500, 400} [] OTHER -> {201}
            fs == IF ok THEN Append(files, [u |-> u, n |-> n.n, e |-> n.e, m |-> t.m, b |-> b]) ELSE files
        IN
        /\ Len(files) < MaxFiles
        /\ files' = fs
        /\ got' = IF ok THEN <<"stored", u>> ELSE <<>>
        /\ UNCHANGED <<on, bob>>
        /\ Say([op |-> "upload", u |-> u, auth |-> IF f = "auth" THEN a ELSE "ok", name |-> IF f = "name" THEN bn ELSE IF f = "long" THEN "LONG" ELSE n.d, type |-> IF f = "type" THEN bt.h ELSE t.h,
                body |-> IF f \in {"over", "cut"} THEN f ELSE b, origin |-> o, chunked |-> chunked, path |-> IF f = "path" THEN p ELSE "/uploads", method |-> IF f = "method" THEN mt ELSE "POST"],
               [code |-> [oneof |-> SetToSeq(codes)], user |-> IF ok THEN u ELSE "", name |-> IF ok THEN [oneof |-> SetToSeq({s.name : s \in Served(fs[Len(fs)])})] ELSE "", letin |-> Let(o)], fs)

\* Anybody fetches what was stored (the harness asks whether it is what was sent).
Fetch ==
    \E i \in Pick(1..Len(files)), o \in Some(IF Record THEN Origins ELSE <<"", "null">>), how \in Some(IF Record THEN <<"GET", "GET", "GET", "HEAD", "RANGE">> ELSE <<"GET">>) :
        LET f == files[i]
            yes == on /\ Let(o)
            code == IF ~Let(o) THEN 403 ELSE IF ~on THEN 404 ELSE IF how = "RANGE" THEN (IF f.b = "empty" THEN 200 ELSE 206) ELSE 200
        IN
        /\ got' = IF yes THEN <<"served", i>> ELSE <<>>
        /\ UNCHANGED <<files, on, bob>>
        /\ Say([op |-> "fetch", i |-> i, body |-> f.b, origin |-> o, how |-> how],
               [code |-> code, letin |-> Let(o)] @@ (IF code \in {200, 206} THEN [meta |-> [oneof |-> SetToSeq(Served(f))], body |-> IF how = "HEAD" THEN "none" ELSE "same"] ELSE [meta |-> <<>>, body |-> ""]), files)

\* Paths where nothing is.
Odd == <<"/uploads/../secret", "/uploads/%2e%2e/secret", "/uploads/..%2fverif.db", "/uploads/alice/%2e%2e/%2e%2e/secret", "/uploads/%2fetc%2fpasswd", "/uploads//etc/passwd", "/uploads/alice/..%2f..%2fverif.db",
         "/uploads", "/uploads/", "/uploads/alice", "/uploads/alice/", "/uploads/alice/nope", "/uploads/nobody/nope.png", "/uploads/.", "/uploads/%00", "/uploads/alice/%00", "/uploadsx", "/", "/uploads/bob/%2e", "/uploads/..", "/uploads/....//secret", "/secret", "FILEx", "FILE%00", "OTHERUSER", "NOTOKEN">>
Miss ==
    \E p \in Some(IF Record THEN Odd ELSE <<"/uploads">>), i \in Pick(IF files = <<>> THEN {0} ELSE 1..Len(files)), m \in Pick(IF Record THEN {"GET", "HEAD"} ELSE {"GET"}) :
        /\ got' = <<>> /\ UNCHANGED <<files, on, bob>>
        /\ Say([op |-> "miss", path |-> p, i |-> i, method |-> m], [served |-> FALSE], files)

Preflight ==
    \E o \in Some(IF Record THEN Origins ELSE <<"null">>) :
        /\ got' = <<>> /\ UNCHANGED <<files, on, bob>>
        /\ Say([op |-> "preflight", origin |-> o], [code |-> IF ~Let(o) THEN 403 ELSE IF ~on THEN 404 ELSE 204, letin |-> Let(o)], files)

Bob == \E b \in Pick({"ok", "disabled", "other"}) :
    /\ b # bob /\ bob' = b /\ got' = <<>> /\ UNCHANGED <<files, on>>
    /\ Say([op |-> "bob", b |-> b], [done |-> TRUE], files)
Reload == /\ on' = ~on /\ got' = <<>> /\ UNCHANGED <<files, bob>>
          /\ Say([op |-> "reload", on |-> ~on], [done |-> TRUE], files)
Restart == \E kill \in Pick(BOOLEAN) : /\ got' = <<>> /\ UNCHANGED <<files, on, bob>>
          /\ Say([op |-> "restart", kill |-> kill], [done |-> TRUE], files)

Init == files = <<>> /\ on = TRUE /\ bob = "ok" /\ got = <<>> /\ RecInit([op |-> "init"])
Next == \/ Upload \/ Upload \/ Upload \/ Upload \/ (IF files = <<>> THEN FALSE ELSE Fetch) \/ (IF files = <<>> THEN FALSE ELSE Fetch) \/ (IF files = <<>> THEN FALSE ELSE Fetch)
        \/ Miss \/ Miss \/ Preflight \/ (IF Record /\ ~Coin(2) THEN FALSE ELSE Bob \/ Reload \/ Restart) \/ (IF ~on THEN Reload ELSE FALSE)
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
\* Only those who may store, and nothing stored is ever lost or altered.
Allowed == [][got' # <<>> /\ got'[1] = "stored" => on /\ (got'[2] = "bob" => bob = "ok")]_vars
Kept == [][Len(files') >= Len(files) /\ \A i \in 1..Len(files) : files'[i] = files[i]]_vars
\* Nothing a browser would run is shown in place.
Safe == \A i \in 1..Len(files) : \A s \in Served(files[i]) : s.disp = "inline" => s.type \in Inline
Off == got # <<>> => on
=============================================================================
