------------------------------- MODULE Robust -------------------------------
(* Arbitrary lines: whatever a client or a network sends, only its own        *)
(* connection may suffer.                                                     *)
EXTENDS Common

\* a1, a2 are clients of alice on n1, a3 is bound to none, a4 is on n2; b1 is bob's on nb; x is somebody not registered.
Clients == {"a1", "a2", "a3", "a4", "b1"}
Nets == {"n1", "n2", "nb"}
Peers == Clients \cup Nets \cup {"x"}
Senders == {"a1", "a3", "n1", "x"}

VARIABLES
    conn,   \* [Peers -> BOOLEAN]
    last    \* who sent the last line, or "" when connections are made again
vars == <<conn, last, hist>>

Coin(k) == RandomElement(IF Len(hist) >= 0 THEN 1..k ELSE {}) = 1
Some(s) == s[RandomElement(IF Len(hist) >= 0 THEN DOMAIN s ELSE {})]

-----------------------------------------------------------------------------
(* A grammar of lines: commands with usual parameters, any of which may be
   replaced, left out or added. *)

Words == <<"", "", "*", "alice", "ALICE", "bob", "carol", "#c", "#C", "#d", "#nope", "&x", "#", "@#c", "$srv", "alice,bob", "#c,#d", ",", ",,#c", "#c,", "BouncerServ", "NickServ",
           "+o", "-o", "+ov-v", "+b", "+k", "+beIklnt", "-", "+", "o", "0", "1", "2", "-1", "99999999999999999999", "abc", "=", "a=b", "-TOPICLEN", "@alice", "+%@alice", "~", "!", "@", "a!b@c", "!@", "bob!", "bob!@h", "x y", " ", ":", "::", ":x", "\\s",
           "..", ".", "../x", "../../bob/nb/#c", "a/b", "timestamp=2026-01-02T03:04:05.678Z", "timestamp=", "timestamp=junk", "msgid=1", "%tcuihsnfdlaor,1", "%", "%x", "LONG", "CTRL", "UTF", "BADUTF", "detach", "in=#c", "text=x;limit=5", "limit=-1", "name=z;host=127.0.0.1", ";", "=;="
           >>

Net == <<
    <<"PRIVMSG", "#c", "hello">>, <<"PRIVMSG", "alice", "hello alice">>, <<"NOTICE", "alice", "hello">>, <<"NOTICE", "*", "looking up">>, <<"TAGMSG", "#c">>, <<"PRIVMSG", "@#c", "ops">>, <<"PRIVMSG", "#c", "CTRL">>, <<"PRIVMSG", "#d", "alice">>,
    <<"CAP", "alice", "LS", "sasl">>, <<"CAP", "*", "LS", "*", "sasl=PLAIN">>, <<"CAP", "alice", "ACK", "sasl">>, <<"CAP", "alice", "NAK", "sasl">>, <<"CAP", "alice", "NEW", "away-notify">>, <<"CAP", "alice", "DEL", "away-notify message-tags">>, <<"CAP", "alice", "LIST", "">>,
    <<"AUTHENTICATE", "+">>, <<"AUTHENTICATE", "!!">>, <<"900", "alice", "alice!u@h", "acc", "in">>, <<"901", "alice", "alice!u@h", "out">>, <<"396", "alice", "h2", "host">>, <<"396", "alice", "u@h2", "host">>,
    <<"902", "alice", "x">>, <<"903", "alice", "ok">>, <<"904", "alice", "no">>, <<"905", "alice", "x">>, <<"906", "alice", "x">>, <<"908", "alice", "PLAIN", "x">>, <<"REGISTER", "SUCCESS", "acc", "x">>, <<"VERIFY", "SUCCESS", "acc", "x">>,
    <<"004", "alice", "up.example", "v1", "iow", "imnst">>, <<"005", "alice", "PREFIX=(ov)@+", "are supported">>, <<"005", "alice", "PREFIX=", "CHANMODES=a,b,c,d", "are supported">>, <<"005", "alice", "PREFIX=(ov", "x">>, <<"005", "alice", "PREFIX=ov)@+", "x">>, <<"005", "alice", "PREFIX=(ovh)@+", "x">>,
    <<"005", "alice", "CHANMODES=,,,", "x">>, <<"005", "alice", "CHANMODES=", "x">>, <<"005", "alice", "CHANMODES=beI", "x">>, <<"005", "alice", "CASEMAPPING=ascii", "x">>, <<"005", "alice", "CASEMAPPING=rfc1459", "x">>, <<"005", "alice", "CASEMAPPING=", "x">>, <<"005", "alice", "CHANTYPES=", "x">>, <<"005", "alice", "CHANTYPES=#&", "x">>, <<"005", "alice", "STATUSMSG=", "x">>, <<"005", "alice", "STATUSMSG=@+", "MONITOR=2", "x">>, <<"005", "alice", "-PREFIX", "-CHANMODES", "-CASEMAPPING", "x">>, <<"005", "alice", "NETWORK=", "=", "-", "==", "x">>, <<"005", "alice", "CHANNELLEN=x", "WHOX", "x">>,
    <<"422", "alice", "no motd">>, <<"376", "alice", "end">>, <<"375", "alice", "motd">>, <<"372", "alice", "- line">>,
    <<"BATCH", "+b1", "netjoin">>, <<"BATCH", "-b1">>, <<"BATCH", "+b2", "labeled-response">>, <<"BATCH", "-b2">>, <<"BATCH", "-nope">>, <<"BATCH", "+b1", "chathistory", "#c">>,
    <<"NICK", "carol">>, <<"NICK", "alice">>, <<"SETNAME", "Real">>, <<"CHGHOST", "u2", "h2">>, <<"JOIN", "#c">>, <<"JOIN", "#d", "acc", "Real">>, <<"JOIN", "#e,#f">>, <<"PART", "#c">>, <<"PART", "#d", "bye">>, <<"KICK", "#c", "bob", "out">>, <<"KICK", "#c", "alice">>, <<"QUIT", "gone">>,
    <<"332", "alice", "#c", "topic">>, <<"331", "alice", "#c", "none">>, <<"TOPIC", "#c", "new">>, <<"333", "alice", "#c", "bob!b@h", "1234567">>, <<"333", "alice", "#c", "bob", "x">>, <<"329", "alice", "#c", "1234567">>,
    <<"MODE", "#c", "+o", "bob">>, <<"MODE", "#c", "+ov", "bob">>, <<"MODE", "#c", "-o", "nobody">>, <<"MODE", "#c", "+klb", "k", "5", "a!b@c">>, <<"MODE", "#c", "+">>, <<"MODE", "alice", "+iw">>, <<"MODE", "alice", "x">>, <<"221", "alice", "+i">>, <<"221", "alice", "">>, <<"324", "alice", "#c", "+ntk", "key">>, <<"324", "alice", "#c", "+k">>,
    <<"353", "alice", "=", "#c", "alice @bob +carol">>, <<"353", "alice", "@", "#d", "">>, <<"353", "alice", "x", "#c", "@ + @+ !a@b a!b@c">>, <<"366", "alice", "#c", "end">>, <<"366", "alice", "#d", "end">>,
    <<"321", "alice", "Channel", "Users  Name">>, <<"322", "alice", "#c", "3", "t">>, <<"323", "alice", "end">>, <<"352", "alice", "#c", "u", "h", "s", "bob", "H@", "0 Real">>, <<"352", "alice", "*", "u", "h", "s", "bob", "H", "0">>, <<"352", "alice", "#c", "u", "h", "s", "bob", "", "">>, <<"354", "alice", "1", "a">>, <<"354", "alice", "1", "#c", "u", "127.0.0.1", "h", "s", "bob", "H", "0", "1", "acc", "n/a", "Real">>, <<"315", "alice", "#c", "end">>, <<"315", "alice", "bob", "end">>,
    <<"311", "alice", "bob", "u", "h", "*", "Real">>, <<"318", "alice", "bob", "end">>, <<"401", "alice", "bob", "none">>, <<"402", "alice", "s", "none">>, <<"421", "alice", "WHO", "unknown">>, <<"461", "alice", "LIST", "need">>, <<"263", "alice", "LIST", "busy">>, <<"400", "alice", "WHOIS", "x">>,
    <<"INVITE", "alice", "#z">>, <<"INVITE", "bob", "#c">>, <<"341", "alice", "bob", "#c">>, <<"730", "alice", "bob!b@h,carol">>, <<"731", "alice", "bob">>, <<"734", "alice", "1", "bob,carol", "full">>, <<"301", "alice", "bob", "away">>, <<"AWAY", "gone">>, <<"AWAY">>, <<"ACCOUNT", "acc">>, <<"ACCOUNT", "*">>,
    <<"367", "alice", "#c", "a!b@c", "bob", "1">>, <<"368", "alice", "#c", "end">>, <<"FAIL", "REGISTER", "X", "acc", "no">>, <<"FAIL", "*", "ACCOUNT_REQUIRED", "no">>, <<"WARN", "*", "X", "hm">>, <<"NOTE", "*", "X", "hm">>, <<"ACK">>, <<"305", "alice", "back">>, <<"306", "alice", "away">>, <<"433", "*", "alice", "in use">>, <<"432", "*", "alice", "bad">>, <<"436", "alice", "alice", "x">>, <<"437", "alice", "#c", "x">>, <<"464", "alice", "bad">>, <<"465", "alice", "banned">>,
    <<"PING">>, <<"PING", "x">>, <<"PONG", "x">>, <<"ERROR", "closing">>, <<"KILL", "alice", "x">>, <<"WALLOPS", "x">>, <<"999", "alice", "x">>, <<"1", "x">>, <<"REDACT", "#c", "1">>, <<"MARKREAD", "#c", "*">>, <<"001", "alice", "again">>, <<"001">>, <<"002", "alice", "x">>>>

Cli == <<
    <<"CAP", "LS", "302">>, <<"CAP", "LS", "x">>, <<"CAP", "LIST">>, <<"CAP", "REQ", "message-tags echo-message">>, <<"CAP", "REQ", "-message-tags">>, <<"CAP", "REQ", "batch draft/event-playback server-time">>, <<"CAP", "REQ", "soju.im/bouncer-networks-notify away-notify extended-join">>, <<"CAP", "REQ", "">>, <<"CAP", "REQ", "- -- x">>, <<"CAP", "END">>, <<"CAP">>, <<"CAP", "NOPE">>,
    <<"PING", "x">>, <<"PONG", "x">>, <<"USER", "u", "0", "*", "r">>, <<"NICK", "carol">>, <<"NICK", "alice">>, <<"NICK", "">>, <<"NICK", "a b">>, <<"NICK", "BouncerServ">>, <<"NICK", "#c">>, <<"SETNAME", "Real Name">>, <<"SETNAME", "">>, <<"PASS", "x">>,
    <<"JOIN", "#c">>, <<"JOIN", "#d,#e", "k1">>, <<"JOIN", "#d,#e", "k1,k2,k3">>, <<"JOIN", "0">>, <<"JOIN", "">>, <<"JOIN", "bob">>, <<"PART", "#c">>, <<"PART", "#d", "detach">>, <<"PART", "#c,#d", "bye">>, <<"PART", "">>, <<"KICK", "#c", "bob">>, <<"KICK", "#c", "bob,carol", "out">>, <<"KICK">>,
    <<"MODE", "alice">>, <<"MODE", "alice", "+i">>, <<"MODE", "#c">>, <<"MODE", "#c", "+b">>, <<"MODE", "#c", "+o", "bob">>, <<"MODE", "#nope">>, <<"MODE", "bob">>, <<"MODE">>, <<"TOPIC", "#c">>, <<"TOPIC", "#c", "new">>, <<"TOPIC", "#nope">>, <<"LIST">>, <<"LIST", "#c">>, <<"NAMES", "#c">>, <<"NAMES", "#nope">>, <<"NAMES">>,
    <<"WHO">>, <<"WHO", "#c">>, <<"WHO", "#c", "%tcuihsnfdlaor,999">>, <<"WHO", "alice">>, <<"WHO", "BouncerServ">>, <<"WHO", "bob", "o">>, <<"WHO", "#c", "%">>, <<"WHO", "#c", "x%y,z">>, <<"WHO", "*">>, <<"WHO", "#nope", "%n">>, <<"WHOIS">>, <<"WHOIS", "bob">>, <<"WHOIS", "s", "bob">>, <<"WHOIS", "alice">>, <<"WHOIS", "BouncerServ">>, <<"WHOIS", "a", "b", "c">>,
    <<"PRIVMSG", "#c", "hi">>, <<"PRIVMSG", "bob", "hi">>, <<"PRIVMSG", "alice", "hi">>, <<"PRIVMSG", "#c,bob,BouncerServ", "help">>, <<"PRIVMSG", "BouncerServ", "help">>, <<"PRIVMSG", "BouncerServ", "">>, <<"PRIVMSG", "BouncerServ", "\"">>, <<"PRIVMSG", "BouncerServ", "network status">>, <<"PRIVMSG", "BouncerServ", "network">>, <<"PRIVMSG", "BouncerServ", "channel status -network n1">>, <<"PRIVMSG", "BouncerServ", "channel update #c -detached x">>, <<"PRIVMSG", "BouncerServ", "channel update #c -detach-after 1h -relay-detached none">>, <<"PRIVMSG", "BouncerServ", "channel create #q -detached true">>, <<"PRIVMSG", "BouncerServ", "channel delete #q">>, <<"PRIVMSG", "BouncerServ", "network create -addr ''">>, <<"PRIVMSG", "BouncerServ", "network create">>, <<"PRIVMSG", "BouncerServ", "network quote n1 ''">>, <<"PRIVMSG", "BouncerServ", "network quote n1 'PING x'">>, <<"PRIVMSG", "BouncerServ", "network update nope -nick x">>, <<"PRIVMSG", "BouncerServ", "user status">>, <<"PRIVMSG", "BouncerServ", "user update -nick">>, <<"PRIVMSG", "BouncerServ", "user delete alice x">>, <<"PRIVMSG", "BouncerServ", "sasl status">>, <<"PRIVMSG", "BouncerServ", "certfp fingerprint">>, <<"PRIVMSG", "BouncerServ", "certfp generate -key-type x">>, <<"PRIVMSG", "BouncerServ", "certfp generate -key-type rsa -bits 1">>, <<"PRIVMSG", "BouncerServ", "server status">>, <<"PRIVMSG", "BouncerServ", "server notice">>, <<"PRIVMSG", "BouncerServ", "-">>, <<"NOTICE", "BouncerServ", "help">>, <<"TAGMSG", "#c">>, <<"TAGMSG">>, <<"PRIVMSG", "NickServ", "IDENTIFY">>, <<"PRIVMSG", "NickServ", "IDENTIFY pw">>, <<"PRIVMSG", "NickServ", "REGISTER pw e@x">>, <<"NOTICE", "NickServ", "IDENTIFY a b">>, <<"PRIVMSG", "NickServ", "SET">>, <<"PRIVMSG", "$srv", "x">>, <<"PRIVMSG", "", "x">>,
    <<"INVITE", "bob", "#c">>, <<"INVITE", "bob">>, <<"AUTHENTICATE", "PLAIN">>, <<"AUTHENTICATE", "ANONYMOUS">>, <<"AUTHENTICATE", "OAUTHBEARER">>, <<"AUTHENTICATE", "AGEAYg==">>, <<"AUTHENTICATE", "+">>, <<"AUTHENTICATE", "*">>, <<"AUTHENTICATE", "!">>, <<"REGISTER", "*", "*", "pw">>, <<"REGISTER", "a">>, <<"VERIFY", "a", "c">>, <<"AWAY", "gone">>, <<"AWAY">>, <<"INFO">>, <<"MOTD">>, <<"VERSION">>, <<"LUSERS">>,
    <<"MONITOR", "+", "bob,carol">>, <<"MONITOR", "-", "bob">>, <<"MONITOR", "C">>, <<"MONITOR", "L">>, <<"MONITOR", "S">>, <<"MONITOR", "x">>, <<"MONITOR", "+">>,
    <<"CHATHISTORY", "LATEST", "#c", "*", "10">>, <<"CHATHISTORY", "LATEST", "#c", "timestamp=2026-01-02T03:04:05.678Z", "10">>, <<"CHATHISTORY", "BEFORE", "#c", "timestamp=2026-01-02T03:04:05.678Z", "10">>, <<"CHATHISTORY", "BEFORE", "#c", "timestamp=9999-01-02T03:04:05.678Z", "5">>, <<"CHATHISTORY", "AFTER", "#c", "timestamp=2026-01-02T03:04:05.678Z", "99999">>, <<"CHATHISTORY", "BETWEEN", "#c", "timestamp=2026-01-02T03:04:05.678Z", "timestamp=2027-01-02T03:04:05.678Z", "10">>, <<"CHATHISTORY", "TARGETS", "timestamp=2026-01-02T03:04:05.678Z", "timestamp=2027-01-02T03:04:05.678Z", "10">>, <<"CHATHISTORY", "AROUND", "#c", "*", "1">>, <<"CHATHISTORY", "BEFORE", "#c", "*", "10">>, <<"CHATHISTORY", "BEFORE", "../x", "timestamp=2026-01-02T03:04:05.678Z", "1">>,
    <<"MARKREAD", "#c">>, <<"MARKREAD", "#c", "timestamp=2026-01-02T03:04:05.678Z">>, <<"MARKREAD", "bob", "*">>, <<"READ", "#c", "x">>, <<"SEARCH", "in=#c;text=x">>, <<"SEARCH", "from=bob">>, <<"SEARCH", "before=x">>, <<"SEARCH", ";;=">>, <<"SEARCH">>,
    <<"BOUNCER", "LISTNETWORKS">>, <<"BOUNCER", "BIND", "1">>, <<"BOUNCER", "CHANGENETWORK", "99", "name=x">>, <<"BOUNCER", "CHANGENETWORK", "x", "y">>, <<"BOUNCER", "DELNETWORK", "99">>, <<"BOUNCER", "DELNETWORK", "">>, <<"BOUNCER", "ADDNETWORK", "name=z">>, <<"BOUNCER", "ADDNETWORK", "host=">>, <<"BOUNCER", "ADDNETWORK", "">>, <<"BOUNCER", "NOPE">>, <<"BOUNCER">>,
    <<"WEBPUSH", "REGISTER", "https://push.example/x", "p256dh=x;auth=y">>, <<"WEBPUSH", "REGISTER", "x", "">>, <<"WEBPUSH", "UNREGISTER", "x">>, <<"WEBPUSH", "NOPE">>, <<"WEBPUSH">>, <<"QUIT">>, <<"QUIT", "detach">>, <<"ERROR", "x">>, <<"FOO">>, <<"001", "x">>, <<"BATCH", "+x", "y">>>>

\* Commands to the service (the words are put together).
Svc == <<
    <<"SVC", "help">>, <<"SVC", "help", "network", "create">>, <<"SVC", "network", "create", "-addr", "irc+insecure://127.0.0.1:9", "-name", "nn", "-enabled", "false">>, <<"SVC", "network", "create", "-addr", "x://y", "-connect-command", "'@a '">>, <<"SVC", "network", "create", "-addr", "irc+insecure://127.0.0.1:9", "-enabled", "false", "-connect-command", "''", "-auto-away", "x">>, <<"SVC", "network", "create", "-addr", "unix:///x", "-certfp", "zz">>,
    <<"SVC", "network", "status">>, <<"SVC", "network", "quote", "n1", "'@a '">>, <<"SVC", "network", "quote", "n1", "'@a=b PING x'">>, <<"SVC", "network", "quote", "nn", "x">>, <<"SVC", "certfp", "fingerprint", "-network", "n1">>, <<"SVC", "certfp", "generate", "-key-type", "ed25519", "-network", "n2">>, <<"SVC", "certfp", "generate", "-key-type", "ecdsa", "-network", "nope">>, <<"SVC", "certfp", "generate", "-key-type", "rsa", "-bits", "1", "-network", "n2">>,
    <<"SVC", "sasl", "status", "-network", "n1">>, <<"SVC", "sasl", "set-plain", "-network", "n2", "u", "p">>, <<"SVC", "sasl", "reset", "-network", "n2">>, <<"SVC", "user", "status">>, <<"SVC", "user", "status", "bob">>, <<"SVC", "user", "create", "-username", "w1", "-disable-password">>, <<"SVC", "user", "create", "-username", "..", "-disable-password">>, <<"SVC", "user", "create", "-username", "", "-disable-password">>, <<"SVC", "user", "update", "-nick", "al", "-realname", "x">>, <<"SVC", "user", "update", "zed", "-max-networks", "3">>, <<"SVC", "user", "update", "zed", "-admin", "true">>, <<"SVC", "user", "delete", "w1", "000">>, <<"SVC", "user", "run", "zed", "network", "status">>, <<"SVC", "user", "run", "alice", "channel", "status">>, <<"SVC", "user", "run", "zed", "user", "run", "zed", "help">>,
    <<"SVC", "channel", "status">>, <<"SVC", "channel", "status", "-network", "n1">>, <<"SVC", "channel", "create", "#q/n1", "-detached", "true">>, <<"SVC", "channel", "create", "#r/n1", "-relay-detached", "highlight", "-reattach-on", "message", "-detach-after", "1h", "-detach-on", "none">>, <<"SVC", "channel", "update", "#c/n1", "-detached", "true">>, <<"SVC", "channel", "update", "#c/n1", "-detached", "true", "-relay-detached", "message">>, <<"SVC", "channel", "update", "#d/n1", "-relay-detached", "highlight", "-reattach-on", "highlight", "-detached", "true">>, <<"SVC", "channel", "update", "#c/n1", "-detach-after", "-1s">>, <<"SVC", "channel", "delete", "#q/n1">>, <<"SVC", "channel", "delete", "nope">>, <<"SVC", "server", "status">>, <<"SVC", "server", "notice", "hello">>, <<"SVC", "server", "debug", "true">>, <<"SVC", "server", "debug", "x">>>>

\* A client that is not registered yet; the last two log in.
Reg == <<
    <<"CAP", "LS", "302">>, <<"CAP", "LS">>, <<"CAP", "REQ", "sasl">>, <<"CAP", "REQ", "sasl message-tags batch">>, <<"CAP", "REQ", "draft/account-registration">>, <<"CAP", "REQ", "soju.im/bouncer-networks">>, <<"CAP", "END">>, <<"AUTHENTICATE", "PLAIN">>, <<"AUTHENTICATE", "PLAIN">>, <<"AUTHENTICATE", "AGFsaWNlAHB3">>, <<"AUTHENTICATE", "AGJvYgBub3B3">>, <<"AUTHENTICATE", "AAA=">>, <<"AUTHENTICATE", "+">>, <<"AUTHENTICATE", "*">>, <<"AUTHENTICATE", "LONG">>, <<"AUTHENTICATE", "!!!">>, <<"AUTHENTICATE", "OAUTHBEARER">>, <<"AUTHENTICATE", "EXTERNAL">>, <<"AUTHENTICATE", "bixhPSxhdXRoPUJlYXJlciB4AQE=">>, <<"AUTHENTICATE">>,
    <<"PASS", "pw">>, <<"PASS", "">>, <<"PASS", "alice:pw">>, <<"NICK", "alice">>, <<"NICK", "">>, <<"NICK", "a b">>, <<"USER", "alice/n1", "0", "*", "r">>, <<"USER", "alice/n1@z", "0", "*", "">>, <<"USER", "alice/nope/x@y@z", "0", "*", "r">>, <<"USER", "zed/z0@x", "0", "*", "r">>, <<"USER", "@", "0", "*", "r">>, <<"USER", "/", "0", "*", "r">>, <<"USER", "x", "0">>, <<"BOUNCER", "BIND", "1">>, <<"BOUNCER", "BIND", "x">>, <<"BOUNCER", "LISTNETWORKS">>, <<"REGISTER", "*", "*", "x">>, <<"PING", "x">>, <<"QUIT">>, <<"JOIN", "#c">>, <<"PRIVMSG", "BouncerServ", "help">>>>

\* Lines worth sending many times (nothing is passed on to a network, which would be done slowly on purpose).
Bursts == <<<<"PRIVMSG", "$bouncer.example", "hello all">>, <<"NOTICE", "$bouncer.example", "hello all">>, <<"SVC", "server", "notice", "hello">>, <<"SVC", "user", "update", "zed", "-max-networks", "3">>, <<"SVC", "user", "run", "zed", "network", "status">>, <<"SVC", "user", "run", "bob", "server", "notice", "hi">>,
            <<"SVC", "user", "run", "alice", "server", "notice", "hi">>, <<"SVC", "user", "update", "-realname", "R">>, <<"SVC", "server", "status">>, <<"SVC", "channel", "update", "#c/n1", "-relay-detached", "message">>, <<"PING", "x">>, <<"CAP", "LS", "302">>, <<"PRIVMSG", "BouncerServ", "help">>, <<"MARKREAD", "#c">>,
            <<"CHATHISTORY", "LATEST", "#c", "*", "50">>, <<"MONITOR", "S">>, <<"BOUNCER", "LISTNETWORKS">>, <<"FOO">>, <<"WHO", "BouncerServ">>, <<"PRIVMSG", "$nope", "x">>>>
NetBursts == <<<<"PRIVMSG", "#c", "hello">>, <<"PRIVMSG", "alice", "hello">>, <<"NOTICE", "alice", "hello">>, <<"JOIN", "#c">>, <<"PART", "#c">>, <<"QUIT", "x">>, <<"AWAY", "x">>, <<"TOPIC", "#c", "t">>, <<"MODE", "#c", "+o", "bob">>, <<"INVITE", "alice", "#z">>, <<"005", "alice", "WHOX", "x">>, <<"FOO", "x">>>>

\* Not lines at all.
Junk == <<"", " ", ":", ": ", ":x", ":x ", "@", "@ ", "@a", "@a=b", "@a=b ", "@a :x", "@a :x ", "NUL", "HUGE", "HUGETAGS", "MANYPARAMS", ":LONGPREFIX PING", "PING :", ":!@ PING x", "@=;= PING x", "@time=x PRIVMSG #c :a", "  PING x", "ping x", "PiNg x", "\\x16 x">>

Numeric == {t[1] : t \in {u \in Range(Net) : u[1] \in {"001", "002", "004", "005", "221", "263", "301", "305", "306", "311", "315", "318", "321", "322", "323", "324", "329", "331", "332", "333", "341", "352", "353", "354", "366", "367", "368", "372", "375", "376", "396", "400", "401", "402", "421", "422", "432", "433", "436", "437", "461", "464", "465", "730", "731", "734", "900", "901", "902", "903", "904", "905", "906", "908", "999", "1"}}}
Sources == <<"bob!b@h", "bob!b@h", "bob!b@h", "bob!b@h", "carol!c@h", "carol!c@h", "alice!u@me.example", "alice!u@me.example", "", "srv", "up.example", "bob!b@h", "bob!b@h", "bob!b@h", "alice!u@me.example", "alice!u@me.example", "ALICE!u@h", "carol", "!", "!@", "@h", "!u", "bob!", "bob@h", "bob!@", "alice", "#c", "NickServ!n@s">>
Tags == <<"", "", "", "", "", "", "label=1", "label=99", "label=", "label", "batch=b1", "batch=b2", "batch=nope", "batch", "time=junk", "time=2026-01-02T03:04:05.678Z", "time=0001-01-01T00:00:00.000Z", "time=9999-12-31T23:59:59.999Z", "time", "account=x", "msgid=1;+x=y", "=", ";", "a=b=c;;">>

\* Words glued together.
Upto(k) == RandomElement(IF Len(hist) >= 0 THEN 0..k ELSE {})
RECURSIVE Glue(_, _)
Glue(k, atoms) == IF k = 0 THEN "" ELSE Some(atoms) \o Glue(k - 1, atoms)
Atoms == <<"+", "-", "o", "v", "b", "k", "l", "@", "%", "!", "#", ",", ":", "(", ")", "=", ";", "*", "~", "&", "1", "0", " ", "\\", "/", ".", "a", "c", "'", "\"", "alice", "bob">>
Isup == LET name == Some(<<"PREFIX", "PREFIX", "PREFIX", "CHANMODES", "CHANMODES", "CASEMAPPING", "CHANTYPES", "STATUSMSG", "MONITOR", "WHOX", "NETWORK", "TOPICLEN", "BOT", "LINELEN", "soju.im/FILEHOST">>)
        IN (IF Coin(8) THEN "-" ELSE "") \o name \o
           (IF Coin(8) THEN "" ELSE "=" \o
              (IF name = "PREFIX" /\ ~Coin(4) THEN "(" \o Glue(Upto(3), <<"o", "v", "h", "q">>) \o ")" \o Glue(Upto(3), <<"@", "+", "%", "~">>)
               ELSE Glue(Upto(5), <<"(", ")", "o", "v", "@", "+", ",", ",", "=", "5", "0", "-", "a", "#", ":", "\\x20">>)))
Word == IF Coin(6) THEN Glue(Upto(6), Atoms) ELSE Some(Words)
\* One line made of a usual one.
Bent(t) ==
    LET k == RandomElement(IF Len(hist) >= 0 THEN 1..9 ELSE {})
        n == Len(t)
        alt == [i \in 1..n |-> IF i > 1 /\ Coin(4) THEN Word ELSE t[i]]
    IN CASE k \in 1..3 -> t
         [] k \in 4..5 -> alt
         [] k = 6 -> IF n > 1 THEN SubSeq(alt, 1, RandomElement(IF Len(hist) >= 0 THEN 1..n ELSE {})) ELSE t
         [] k = 7 -> t \o <<Word>>
         [] k = 8 -> IF n > 1 THEN <<t[1]>> \o SubSeq(t, 3, n) ELSE t
         [] k = 9 -> alt \o <<Word, Word>>
Line(pool) == LET t == IF pool = Net /\ Coin(12) THEN <<"005", "alice">> \o [i \in 1..(1 + Upto(2)) |-> Isup] \o <<"are supported">> ELSE Bent(Some(pool)) IN
              IF Coin(25) THEN [raw |-> Some(Junk), p |-> "", t |-> "", m |-> <<"">>]
              ELSE [raw |-> "~", p |-> IF (IF pool = Net /\ t[1] \notin Numeric THEN ~Coin(5) ELSE Coin(3)) THEN Some(Sources) ELSE "-", t |-> Some(Tags), m |-> t]
Lines(pool) == LET k == RandomElement(IF Len(hist) >= 0 THEN {1, 2, 3} ELSE {}) IN [i \in 1..k |-> Line(pool)]

Plain(m) == [raw |-> "~", p |-> "-", t |-> "", m |-> m]
Login == <<Plain(<<"PASS", "pw">>), Plain(<<"NICK", "al">>), Plain(<<"USER", Some(<<"alice/n1@s", "alice@s", "alice/n2", "zed/z0">>), "0", "*", "r">>), Plain(<<"CAP", "END">>)>>

-----------------------------------------------------------------------------
\* What is observed: the ones which are no longer served as they should be.
Obs == <<>>

Init == /\ conn = [p \in Peers |-> p # "x"] /\ last = ""
        /\ \E st \in {"fs", "db", "memory"} : RecInit([op |-> "init", store |-> st])

\* A sender may be refused, but nobody else.
Send(s, step) ==
    /\ conn[s]
    /\ \E b \in (IF Record THEN {TRUE} ELSE BOOLEAN) : conn' = [conn EXCEPT ![s] = b]
    /\ last' = s
    /\ Rec(step)

NetSends == conn["n1"] /\ Send("n1", [op |-> "net", lines |-> IF Record THEN Lines(Net) ELSE <<>>, exp |-> Obs])
\* While it is being registered with: k lines are sent before it says what it offers.
NetRegisters == conn["n1"] /\ Send("n1", [op |-> "register", k |-> IF Record THEN Some(<<0, 1, 2>>) ELSE 0, lines |-> IF Record THEN Lines(Net) ELSE <<>>, exp |-> Obs])
ClientSends == \E c \in Pick({"a1", "a3"}) : conn[c] /\ Send(c, [op |-> "client", c |-> c, lines |-> IF ~Record THEN <<>> ELSE IF Coin(4) THEN Lines(Svc) ELSE Lines(Cli), exp |-> Obs])
\* Somebody who is not registered.
Stranger == /\ conn' = conn /\ last' = "x"
            /\ Rec([op |-> "stranger", lines |-> IF ~Record THEN <<>>
                                                 ELSE IF Coin(3) THEN Lines(Reg) \o Lines(Cli)
                                                 ELSE IF Coin(2) THEN Lines(Reg) \o Lines(Reg) \o Lines(Reg)
                                                 ELSE Lines(Reg) \o Login \o Lines(Cli), exp |-> Obs])
\* The same line, many times over, faster than it is dealt with.
Burst == \E c \in Pick({"a1", "a3"}) :
    conn[c] /\ Send(c, [op |-> "burst", c |-> c, k |-> IF Record THEN Some(<<70, 150, 300>>) ELSE 0, lines |-> IF Record THEN <<Plain(Some(Bursts))>> ELSE <<>>, exp |-> Obs])
NetBurst == conn["n1"] /\ Send("n1", [op |-> "netburst", k |-> IF Record THEN Some(<<70, 300, 600>>) ELSE 0, lines |-> IF Record THEN <<[raw |-> "~", p |-> "bob!b@h", t |-> "", m |-> Some(NetBursts)]>> ELSE <<>>, exp |-> Obs])
\* Two administrators change each other's account at the same moment.
Duel == conn' = conn /\ last' = "" /\ Rec([op |-> "duel", exp |-> Obs])
\* A connection that suffered is made again (the harness does so by itself).
Again == /\ \E p \in Peers \ {"x"} : ~conn[p]
         /\ conn' = [p \in Peers |-> p # "x"] /\ last' = ""
         /\ UNCHANGED hist

Next == NetSends \/ NetSends \/ NetSends \/ NetSends \/ ClientSends \/ ClientSends \/ ClientSends \/ ClientSends \/ Stranger \/ (IF Record THEN Coin(4) /\ NetRegisters ELSE NetRegisters) \/ (IF Record THEN Coin(4) /\ (Burst \/ NetBurst) ELSE Burst \/ NetBurst) \/ (IF Record THEN Coin(1000) /\ Duel ELSE Duel) \/ (~Record /\ Again)
Spec == Init /\ [][Next]_vars

\* Only who sends may suffer.
Contained == [][\A p \in Peers : (conn[p] /\ ~conn'[p]) => p = last']_vars
Served == \A p \in Peers : (~conn[p] /\ p # "x") => p \in Senders
=============================================================================
