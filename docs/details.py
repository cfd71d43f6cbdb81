"""How each property is decided (included in DESIGN.md by bin/mk.py)."""
D = {}
D["P01"] = """Specified: two users, three networks, five clients (bound to networks with
different capabilities, or to none), networks with and without tags, echoes,
labels; messages of each kind, source, target and tag set in both directions,
one to three at a time, network losses and recoveries.  The oracle is the list
of messages every client and network is shown at each step.  Invariants:
`Isolation` (no message at a client of another network), `InOrder`, `NoLeak`
(tags only to those who negotiated them)."""
D["P02"] = """Specified: five clients under four client names (two sharing one), four
conversations, three message stores; per name and conversation the position
acknowledged; clients acknowledge message by message (PING tokens answered
late, or never), one client pulls its history itself.  Losses of the network,
changes of its settings, restarts.  Invariants `NoSkip` (everything between
the position and the end is shown), `Conn`, and the action property `Follows`
(positions move only by acknowledgement of that name).  Oracle: the backlog
each client is sent, in order."""
D["P03"] = """Specified: the log of two networks (messages, actions, notices, joins, parts,
kicks, nick changes, topics, modes) with timestamps in ticks around midnight,
in three time zones, and every form of CHATHISTORY and SEARCH request with
bounds on, before and after messages and all limits.  Invariants: `InOrder`,
`Pages` (paging forwards and backwards by any page size yields the whole log),
`Grows` (the log is only appended to).  Oracle: the complete batch.
The file-system store keeps the day's second only, so ticks are seconds."""
D["P04"] = """Specified: a queue per kind of question, with the first one at the network;
rows, ends, errors, error-then-end, unanswered questions (a real 30 s wait,
once per behaviour in a dedicated configuration), clients leaving and coming
back under the same name, network losses; with and without labels.
Invariants: `OneAsker` (an answer is given to the asker's very connection),
`Gone`.  Oracle: what each client and the network receive."""
D["P05"] = """Specified: saved channels with keys, joined, refused, kicked, parted, detached,
across reconnections and restarts, with enough long names to split JOINs.
Oracle: JOINs the network receives (as a set, with keys), what clients see,
the channels stored."""
D["P06"] = """Specified: attached and detached channels, filters, highlights, member lists
that have not arrived, detaching and attaching by PART/JOIN and by the service,
three stores.  Oracle: what each client sees per channel and the stored flag."""
D["P07"] = """Specified: the members, prefixes, topic, modes of two channels as the network
knows them, changed by every kind of event (several changes in one MODE),
nick changes including ours, netsplits, a network with and without
multi-prefix.  Oracle: what is relayed, and what connecting clients and
clients asking NAMES, MODE, TOPIC, WHO are told.  `Exact`: what the bouncer
can know equals the network's state where it is complete."""
D["P08"] = """Specified: four accounts, connections with a sequence of attempts (PASS, SASL
PLAIN, OAUTHBEARER, impersonation, aborted and repeated attempts,
network suffixes, bindings), four authentication drivers (with local HTTP
endpoints), accounts changing between attempts, restarts and kills.  `Authority`:
an account changes only through someone who may; `ConnOK`: a connection exists
only for an enabled account that it was admitted to; `NoEscalation`.  Oracle:
the outcome of every attempt, and that refused connections are served nothing."""
D["P09"] = """Same specification (`Access.tla`), with behaviours weighted towards service
commands (`SpecAdmin`): every user command with every flag, by admins, others
and the admin socket.  Oracle: the reply, every account in the database, who is
still connected, what is connected upstream."""
D["P10"] = """Specified: the networks of two accounts (names, servers including one refusing
connections, an IPv6 one, a Unix socket), identities, limits, clients bound or
not and following changes or not, slow registrations (held, and released at
the same moment as an update), NICK and SETNAME, restarts and kills.  Oracle:
the reply, the networks stored, every connection at every server with the
identity it presents (nickname, username, real name, password, connect
commands), the list each client was told (notifications are accumulated by
the harness into a view), and the nickname each client goes by."""

D["P11"] = """Specified: markers of channels and people on two networks and an unbound
client, spelled in several ways, set at times before, at and beyond the
present, by clients that asked for markers or not, channels joined and shown
again, networks lost, changed, deleted, restarts and kills.  `Forward`: a
marker never moves back; `One`: a step moves at most one; `Present`: none
lies beyond the present.  Oracle: every MARKREAD every client receives, and the
replies to malformed requests."""
D["P12"] = """Specified: per network whether MONITOR and pre-away are supported and auto-away
is wanted, who is online, the nickname wanted and the one held, the away
state and the list the network has for us; four clients, one unbound.  `Followed`, `AwayOK`,
`NeverAway`, `NickOK` as in the statement.  The harness network keeps the
list and the away state from what it is sent and answers as a server does
(its statuses can cross commands); `BULK` stands for a list of nicks that
needs several lines.  A second part waits for a real retry
(26 s) on networks without MONITOR.  Oracle: the list and commands at the
network, statuses and nickname at each client, line lengths.  Left out: a
client asking for a nickname in use while another is wanted."""

D["P13"] = """Specified: the capabilities and values a network offers, its ISUPPORT tokens,
our account and host there; three clients (one not bound to the network) with
their CAP version and what each has enabled.  `Offered`, `Notified`, `Backed`
and the action property `Asked` as in the statement.  A step is a client
connecting (with requests before registration), asking, listing or leaving, the
network offering more or less, changing tokens, host or account, sending any of
the events whose form depends on capabilities, or being lost and coming back.
Oracle: every CAP line, ISUPPORT token and event at each client, the set in effect
at the network (which answers requests as a server does: as a whole).  Left out:
a capability offered again with another value while enabled."""

D["P14"] = """Specified: what is stored (mechanism, name, password, number of the certificate),
whether the network is up, down or waits for our authentication, what it offers,
the authentication and account registrations under way, three clients with the
stage of their SASL dialogue.  `Single`, `StoredOK`, `KeepsCert` exhaustively.  The
network of the harness is reached over TLS with a pinned fingerprint or without TLS;
it decodes every response, looks up the certificate shown to it, grants or refuses
the capability, and answers when the behaviour says so; an impostor has another
certificate, with or without the pinned one behind it in its chain.  Passwords make
responses of 299 to 700 bytes, around the 400-character lines of SASL.  Oracle:
responses at the network, numerics and replies at each client, `sasl status` after
every step, CHATHISTORY of NickServ.  Left out: a client that keeps sending
responses after its last one."""

D["P15"] = """Specified: who is connected (four clients of two users, three networks,
strangers); a line may cut its sender and nobody else (`Contained`, `Served`).  The
lines themselves come from a grammar in the specification: the client, service and
network messages soju knows, with usual parameters, any of which a behaviour
replaces, drops or adds to (oversized, empty, control characters, broken UTF-8,
paths, numbers, lists, masks), with usual and odd sources and tags, and lines that are
none.  They are sent by clients, networks (half registered too) and
strangers, or hundreds of times in one go; and two administrators update each other's
account at the same moment.  Oracle: a list of harm, empty in every correct step: a panic in the
log, somebody cut or not answered, a network connected to anew, a probe
message not getting through, the sender not let in again, a log file in a wrong place or
a change to another user's.  A crash of the whole process is reported as well."""

D["P16"] = """Specified: the users of a network as they are (nickname, host, account, real name,
away, presence), channels with the prefixes held, who is followed by whom, what the
network announces (extended-join, away-notify, account-notify, chghost, setname,
extended-monitor, WHOX, multi-prefix or not), and what the bouncer remembers.
Exhaustively on a small system: `MemTrue` (what is remembered is true), `MemKept`
(only of users whose changes we are told of), `HitRight` (an answer from memory is
the network's).  The network of the harness answers WHO and NAMES from the users
of the specification, sometimes with the member list held back.  Oracle: every reply
at each client, field by field, and the questions the network got.  Left out: IRC
operator status, of which networks announce no change."""

D["P17"] = """Specified: the subscriptions of three networks of two users and of clients bound to
none, with their keys and age, what each endpoint answers, the channel and its
detachment, our nicknames, what was pushed and not yet read, and the read markers.
Exhaustively on a small system: `OnlyRegistered`, `Forgotten`, `Kept`, `Answered`,
`ReadOK`.  The harness runs itself again in a network namespace where the loopback
interface has a public address (and private, link-local ones), serves the endpoints
there with a certificate the process trusts, decrypts every notification and verifies
its signature.  Oracle: after each step, the notifications at every endpoint (with the
key they are for and what they say) and the subscriptions stored.  Left out: TAGMSG,
endpoints with a port, concurrent registrations."""

D["P18"] = """Specified: what is stored (user, name, type, content), whether uploads are
configured, what became of a user, and which origins are let in.  Exhaustively on two
files: `Allowed`, `Kept`, `Safe`, `Off`.  The harness builds and runs the soju program
itself in a scratch directory (HTTP and administration on Unix sockets; nothing else
listens), sends raw requests (faulty in one way at most: authorization, type, name,
length, size, cut body, path, method), reloads with SIGHUP, stops with SIGTERM or
SIGKILL.  Oracle: after each step the status, location, name, type, disposition, content
security policy and cross-origin headers, and the directory itself: exactly the files
accepted, each with its content, and no other file anywhere around.  Left out: the
`http` driver, bearer tokens, kills during an upload."""

D["P19"] = """Specified: the configuration that applies, the clients (by which door, with
which address), three upstream connections of two users to two servers, a password.
Exhaustively with two clients: `Passwords`, `Own`, `Attributed`, `Hosts`.  The harness
builds and runs soju, sojuctl and sojudb in a network namespace of its own (fixed ports,
addresses 127.0.0.x for clients, proxies and servers).  Oracle: after each step, what each
client and server got, byte for byte; names, MOTD, host, certificate seen; ident answers;
the exit of tools and of programs started with bad configurations; the numbers of
connections the server reports; the address each network's connection comes from.
Idents.tla has users on different local addresses share ports, which the program can't
be made to do at will: it replays into the identd package itself (`True`).  Left out: PROXY protocol inside TLS, version 2 headers,
Prometheus and pprof beyond their refusal to listen outside."""
