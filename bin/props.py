"""The properties, and what each check runs: specification, exhaustive
configurations, generated behaviours."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WHY = "The test suite registers one client and relays one message; it never varies "

PROPS = {
    "P01": dict(
        text=dict(
            title="Live messages reach exactly the right clients, in order, unaltered",
            statement="Every message a connected network sends, and every message one of its clients sends through it, is shown once to each client bound to that network, in the order the network carried them and with its content unchanged, and to no client of another network or user. Its author is shown it only if it asked for echoes, and tags are shown only to clients that negotiated them. A message that cannot be carried because the network is away is refused to its author and shown to nobody.",
            over=["histories", "schedules", "configurations"],
            qtext="all interleavings of client connections, network losses and recoveries, and messages of every kind in either direction, for every combination of capabilities offered by networks and requested by clients",
            why=WHY + "the number of clients, networks and users, capability sets, or the order of events.",
            files=["upstream.go", "downstream.go", "user.go", "conn.go"],
            mech=[("fan-out to the clients of a network", "upstream.go produce, user.go forEachDownstream"),
                  ("echo suppression and tag filtering", "upstream.go produce, downstream.go SendMessage"),
                  ("sending through a network", "downstream.go PRIVMSG/NOTICE/TAGMSG, upstream.go SendMessageLabeled")],
        ),
        parts=[dict(
            spec="Relay", module="relay",
            exh=[dict(consts=dict(MaxMsg=2), invs=["TypeOK", "Isolation", "InOrder", "NoLeak"])],
            gen=dict(consts=dict(MaxMsg=90), quick=(1600, 30), thorough=(12000, 40)),
        )],
    ),
    "P02": dict(
        text=dict(
            title="A returning client is sent exactly what it missed",
            statement="When a client returns under the same client name, it is sent, once and in order, every stored message of each conversation it follows on that network that came after the last one a client of that name acknowledged or was caught up to, and none before it, whatever other client names did meanwhile. A client name follows a conversation once it has acknowledged a message in it, or when the conversation starts after the name became known. This survives losing the network connection, changing the network's settings and, unless messages are kept in memory, a clean restart of the bouncer.",
            over=["histories", "fault_sequences", "configurations"],
            qtext="all sequences of client connections under shared and distinct client names, messages in channels and private conversations, partial acknowledgements, network losses, network updates and restarts, with the memory, file-system and database message stores",
            why=WHY + "acknowledgements, client names or message stores, and never disconnects a client.",
            files=["downstream.go", "upstream.go", "user.go", "msgstore/memory.go", "msgstore/fs.go", "msgstore/db.go", "database/sqlite.go"],
            mech=[("delivery receipts", "user.go deliveredStore, storeClientDeliveryReceipts; downstream.go ackMsgID"),
                  ("backlog on connection", "downstream.go welcome, sendTargetBacklog"),
                  ("message stores", "msgstore/*.go LastMsgID, LoadLatestID, Append")],
        ),
        parts=[dict(
            spec="Backlog", module="backlog",
            exh=[dict(consts=dict(MaxMsg=2), invs=["TypeOK", "NoSkip", "Conn"], props=["Follows"])],
            exh_thorough=[dict(consts=dict(MaxMsg=3), invs=["TypeOK", "NoSkip", "Conn"], props=["Follows"])],
            gen=dict(consts=dict(MaxMsg=90), quick=(1200, 40), thorough=(8000, 50)),
        )],
    ),
    "P03": dict(
        text=dict(
            title="History and search requests are answered from what really happened",
            statement="A CHATHISTORY request (BEFORE, AFTER, LATEST, BETWEEN) for a conversation is answered, in one batch and in order, with exactly the recorded messages strictly within the requested bounds, at most as many as asked and the ones nearest to the side the request starts from, each with its author, content, target and date; joins, parts and other events are included only for clients that asked for them, and names are matched by the network's case rules. TARGETS names the conversations whose last message lies within bounds. SEARCH returns exactly the messages matching its criteria, up to its limit. Each network and user has its own history; history survives restarts, kills and renaming the network; and malformed requests are refused.",
            over=["inputs", "histories", "crash_points", "configurations"],
            qtext="all sequences of messages and channel events on two networks, all bounds on and between messages (across midnight, in several time zones), all limits, with the file-system and database stores",
            why=WHY + "history: CHATHISTORY and SEARCH are never exercised end to end, and the answer depends on the whole history and on both bounds.",
            files=["downstream.go", "upstream.go", "irc.go", "msgstore/fs.go", "msgstore/db.go", "msgstore/znclog/reader.go", "msgstore/znclog/writer.go", "database/sqlite.go"],
            mech=[("requests", "downstream.go CHATHISTORY, SEARCH; irc.go parseChatHistoryBound"),
                  ("recording", "upstream.go appendLog, produce"),
                  ("stores", "msgstore LoadBeforeTime, LoadAfterTime, ListTargets, Search; database ListMessages, ListMessageLastPerTarget")],
        ),
        parts=[dict(
            spec="Hist", module="hist",
            exh=[dict(consts=dict(MaxMsg=4, _constraint="Bounded"), invs=["InOrder", "Pages"], props=["Grows"])],
            exh_thorough=[dict(consts=dict(MaxMsg=5, _constraint="Bounded"), invs=["InOrder", "Pages"], props=["Grows"])],
            gen=dict(consts=dict(MaxMsg=90), quick=(1000, 40), thorough=(6000, 50)),
        )],
    ),
    "P04": dict(
        text=dict(
            title="The answer to a client's question reaches that client, and only it",
            statement="When clients ask a network WHO, WHOIS, LIST or to register an account, each is given every line of the answer to its own question and its end or error, in order, and nobody is given the answer to another one's: the network is asked one question of each kind at a time, in order, and the next one as soon as the previous one ended, failed, or has gone unanswered for half a minute. Questions of a client that left are not asked, the answer to one already asked is dropped, and when the network is lost each asker is told that its question is over. With labeled-response, the reply to any other command also reaches only the client that sent it, without the label.",
            over=["histories", "schedules", "fault_sequences"],
            qtext="all interleavings of questions of all kinds by several clients, rows, ends and errors in reply (including an error followed by an end), clients leaving and returning, and network losses, with and without labeled-response",
            why=WHY + "questions: no test sends a query, and who gets an answer depends on all the questions pending before it.",
            files=["upstream.go", "downstream.go", "user.go"],
            mech=[("queues of questions", "upstream.go enqueueCommand, dequeueCommand, currentPendingCommand, cancelPendingCommandsByDownstreamID, abortPendingCommands"),
                  ("replies", "upstream.go RPL_LIST, RPL_WHOREPLY, RPL_WHOIS*, ERR_*, FAIL, REGISTER handlers, forwardMsgByID"),
                  ("labels", "upstream.go SendMessageLabeled")],
        ),
        parts=[dict(
            spec="Query", module="query",
            exh=[dict(consts=dict(MaxAsk=3, MaxRow=1), invs=["OneAsker", "Gone"]),
                 dict(consts=dict(MaxAsk=2, MaxRow=1, _spec="Fair"), props=["Answered"])],
            gen=dict(consts=dict(MaxAsk=30, MaxRow=3), quick=(1000, 40), thorough=(6000, 60)),
        ), dict(
            spec="Query", module="query", name="wait", shards=24,
            exh=[dict(consts=dict(MaxAsk=3, MaxRow=1, _spec="SpecWait"), invs=["OneAsker", "Gone"])],
            gen=dict(consts=dict(MaxAsk=12, MaxRow=3, _spec="SpecWait"), quick=(24, 30), thorough=(480, 40)),
        )],
    ),
    "P05": dict(
        text=dict(
            title="Saved channels are rejoined after every reconnection, until the user parts",
            statement="Each time the bouncer connects to a network, after a network loss, a settings change, a clean restart or a kill, it joins exactly the channels the user joined through it and has not left, each with the key last given for it. Only the user's own join, part or service commands change that set; being kicked, refused or moved by the network does not, and an invitation to a saved channel is taken up at once. Joins and parts sent by a client reach the network unless they are already in effect or the network is away, in which case the client is told.",
            over=["histories", "crash_points", "fault_sequences"],
            qtext="all sequences of joins (with and without keys, several at once, refused), parts, kicks, invitations, service commands, disconnections, restarts and kills between any two of them",
            why=WHY + "channels at all: no test joins a channel, restarts the server or drops the network.",
            files=["downstream.go", "upstream.go", "user.go", "service.go", "xirc/genmsg.go", "database/sqlite.go"],
            mech=[("saving and deleting channels", "downstream.go JOIN/PART, user.go deleteChannel, service.go channel create/delete"),
                  ("rejoining", "upstream.go RPL_WELCOME and INVITE, xirc/genmsg.go GenerateJoin")],
        ),
        parts=[dict(
            spec="Channels", module="channels",
            exh=[dict(consts=dict(NExtra=1), invs=["TypeOK"], props=["OnlyUser", "Rejoined"])],
            gen=dict(consts=dict(NExtra=40), quick=(1000, 30), thorough=(6000, 40)),
        )],
    ),
    "P06": dict(
        text=dict(
            title="Detached channels stay silent, notify as asked, and catch up on return",
            statement="While a channel is detached, the bouncer stays in it and records it, but clients see neither it nor its messages, except for the notification the channel's relay filter asks for. It is reattached by a client joining it or by a message its reattach filter selects, and clients are then shown the channel and, once each, the messages recorded while it was detached that their client name had not acknowledged. A client leaving with a detach request leaves the channel joined on the network. The detached state and the filters survive network losses and restarts.",
            over=["histories", "fault_sequences", "configurations"],
            qtext="all sequences of detaching, reattaching (by clients, filters and service commands), messages with and without highlights, acknowledgements, client connections, network losses and restarts, for all filters and message stores",
            why=WHY + "channels at all: nothing in it detaches a channel, and what must be shown depends on the whole history of the channel and of each client name.",
            files=["user.go", "upstream.go", "downstream.go", "service.go", "database/sqlite.go"],
            mech=[("detaching and attaching", "user.go network.detach, network.attach"),
                  ("filters", "upstream.go handleDetachedMessage, shouldReattach, shouldRelay"),
                  ("entry points", "downstream.go JOIN/PART, service.go channel update")],
        ),
        parts=[dict(
            spec="Detach", module="detach",
            exh=[dict(consts=dict(MaxMsg=3), invs=["TypeOK"], props=["Reattached"])],
            gen=dict(consts=dict(MaxMsg=90), quick=(1200, 30), thorough=(8000, 40)),
        )],
    ),
    "P07": dict(
        text=dict(
            title="Clients are shown the channels as they really are",
            statement="After any sequence of joins, parts, quits, kicks, nickname changes, mode changes, topic changes and reconnections, a client that connects or asks (NAMES, TOPIC, MODE) is told exactly what the network's messages imply: the channels the user is in, their members with the prefixes they hold (all of them for clients that negotiated multi-prefix, the highest one otherwise), topic and its author, channel modes with their parameters, and the user's own nickname and modes. Connected clients are shown each such event once. Names are matched by the network's case rules. Orders clients give (TOPIC, MODE, KICK, INVITE) reach the network unchanged.",
            over=["histories", "inputs", "configurations"],
            qtext="all sequences of membership, mode, topic and nickname events for members with every combination of prefixes, with and without multi-prefix on either side, interleaved with client connections, requests and network losses",
            why=WHY + "channel state: no test joins a channel, and the state told to a client depends on every event since the channel was joined.",
            files=["upstream.go", "downstream.go", "irc.go", "xirc/genmsg.go", "user.go"],
            mech=[("tracking", "upstream.go JOIN, PART, QUIT, NICK, KICK, MODE, TOPIC, RPL_NAMREPLY handlers; irc.go applyChannelModes, memberships"),
                  ("telling clients", "downstream.go forwardChannel, sendTopic, sendNames, MODE/TOPIC/NAMES handlers")],
        ),
        parts=[dict(
            spec="Mirror", module="mirror",
            exh=[dict(consts=dict(MaxStep=3), invs=["Exact", "Away", "OneKey"])],
            exh_thorough=[dict(consts=dict(MaxStep=4), invs=["Exact", "Away", "OneKey"])],
            gen=dict(consts=dict(MaxStep=5), quick=(1200, 40), thorough=(8000, 50)),
        )],
    ),
    "P08": dict(
        text=dict(
            title="Nobody is let in without the account's credentials, nor as somebody else",
            statement="A connection is welcomed only after it proved, with PASS or SASL and by the configured method (internal passwords, HTTP, OAuth 2.0), that it knows the credentials of an existing enabled account, and then acts for exactly that account, whatever it tried before. Only an admin can log in as another existing user. It is bound to the network it named or whose identifier it gave, which must be one of that account's own. A refused connection is served nothing and disturbs nobody. Passwords set, removed or replaced and accounts enabled, disabled, created or deleted take effect for the next login, across restarts and kills, and accounts are created or enabled on login only if so configured.",
            over=["inputs", "histories", "configurations", "crash_points"],
            qtext="all sequences of login attempts (every method, right and wrong credentials, several attempts on one connection, aborted ones, impersonation, network suffixes and bindings) interleaved with account changes, restarts and kills, for every authentication driver",
            why=WHY + "credentials: it logs in once, with the right password and one method.",
            files=["downstream.go", "server.go", "user.go", "auth/internal.go", "auth/http.go", "auth/oauth2.go", "auth/auth.go", "database/database.go"],
            mech=[("registration", "downstream.go handleMessageUnregistered, handleAuthenticate, register, loadNetwork; server.go Handle, getOrCreateUser"),
                  ("credentials", "auth/*.go, database/database.go CheckPassword, SetPassword"),
                  ("accounts disabled", "user.go eventDownstreamConnected")],
        ),
        parts=[dict(
            spec="Access", module="access",
            exh=[dict(consts=dict(), invs=["TypeOK", "ConnOK"], props=["Authority", "NoEscalation"])],
            gen=dict(consts=dict(_spec="SpecLogin"), quick=(1000, 25), thorough=(8000, 35)),
        )],
    ),
    "P09": dict(
        text=dict(
            title="Accounts are administered only by admins, and oneself within limits",
            statement="Creating, listing, updating and deleting other accounts, running commands as them, broadcasting notices and server commands are available only to admins (accounts with the admin flag at that moment, and the admin socket, which serves no ordinary client); others can change only their own password, nickname and real name, or delete their own account after confirming it. Each command does what it says or fails without effect. Disabling or deleting an account, or replacing its password by an admin, closes its connections at once; disabling it also takes it off its networks and enabling it brings it back. Deleting it removes its data. Broadcasts reach every connected client. All of this survives restarts and kills.",
            over=["inputs", "histories", "crash_points"],
            qtext="all sequences of service commands with every combination of flags, by admins, other users and the admin socket, on existing and missing accounts, interleaved with logins, restarts and kills",
            why=WHY + "accounts: no test sends a service command or has a second user.",
            files=["service.go", "user.go", "server.go", "database/sqlite.go"],
            mech=[("authorization", "service.go handleServiceCommand, handleUserUpdate, handleUserDelete, handleUserRun"),
                  ("effects", "user.go updateUser, eventUserUpdate, eventStop; server.go createUser, HandleAdmin"),
                  ("storage", "database/sqlite.go StoreUser, DeleteUser")],
        ),
        parts=[dict(
            spec="Access", module="access",
            exh=[dict(consts=dict(), invs=["TypeOK", "ConnOK"], props=["Authority", "NoEscalation"])],
            gen=dict(consts=dict(_spec="SpecAdmin"), quick=(720, 30), thorough=(8000, 40)),
        )],
    ),
    "P10": dict(
        text=dict(
            title="Networks are changed only by their owner, and clients see them as they are",
            statement="Networks are created, updated and deleted, through BOUNCER or the service, only by their account or by an admin for it. A change takes effect completely or is refused without effect: it is refused for another account's network, a name that is taken, reserved or starts with a dash, an unsupported or malformed address, a Unix socket for a non-admin, the nickname of another network of the account at that server, or one more enabled network than the account's or the server's limit. Each enabled network, and no other, is connected, once, and presents the configured nickname, username, real name, password and connect commands. Every list of networks, and clients notified of changes, show each network's actual attributes and state; deleting one disconnects its clients; NICK and SETNAME update what is configured. All of this survives restarts and kills.",
            over=["inputs", "histories", "schedules", "crash_points"],
            qtext="all sequences of network commands by several clients, bound to a network or not, and an admin, with every combination of attributes, interleaved with slow registrations, losses, restarts and kills",
            why=WHY + "networks: no test creates, updates or deletes one, or has a client following the list.",
            files=["service.go", "downstream.go", "user.go", "database/sqlite.go", "database/database.go"],
            mech=[("commands", "downstream.go BOUNCER, NICK, SETNAME; service.go handleServiceNetworkCreate, handleServiceNetworkUpdate, handleServiceNetworkDelete"),
                  ("effects", "user.go createNetwork, updateNetwork, deleteNetwork, network.run, checkNetwork"),
                  ("notifications", "user.go notifyBouncerNetworkState, downstream.go getNetworkAttrs"),
                  ("storage", "database/sqlite.go StoreNetwork, DeleteNetwork")],
        ),
        parts=[dict(
            spec="Nets", module="nets",
            exh=[dict(consts=dict(MaxNets=2, _constraint="Bounded"), invs=["UniqueNames", "Reserved", "UnixAdmin", "Connected", "BoundOK"], props=["OnlyOwn", "InLimit"])],
            gen=dict(consts=dict(MaxNets=6), quick=(1800, 25), thorough=(12000, 35)),
        )],
    ),
    "P11": dict(
        text=dict(
            title="Read markers are shared by all clients, per conversation, and only advance",
            statement="The read marker a client sets for a conversation (name compared by the network's case rules) is told at once to every client of that network which supports read markers, and to no other. It only advances: setting an earlier one has no effect, and the sender is told the marker in force. A marker later than the present counts as the present. Asking for a conversation's marker, or being shown a channel, gives the one in force, or says there is none. Each network and account has its own markers. Requests that are malformed, or made without a network, are refused without effect. Markers survive reconnections, restarts and kills, losing the network and changes of its settings, and disappear with the network.",
            over=["inputs", "histories", "schedules", "crash_points"],
            qtext="all sequences of markers set and asked for by several clients on several networks, in any order of time and spelling of names, interleaved with channels joined, network changes, losses, restarts and kills",
            why=WHY + "markers: no test sets one.",
            files=["downstream.go", "user.go", "database/sqlite.go"],
            mech=[("MARKREAD", "downstream.go MARKREAD"),
                  ("on join", "downstream.go forwardChannel, sendReadMarker"),
                  ("storage", "database/sqlite.go GetReadReceipt, StoreReadReceipt")],
        ),
        parts=[dict(
            spec="Marks", module="marks",
            exh=[dict(consts=dict(MaxTick=2, MaxNow=1), invs=["InKeys", "Present"], props=["Forward", "One"])],
            gen=dict(consts=dict(MaxTick=6, MaxNow=4), quick=(1000, 30), thorough=(12000, 40)),
        )],
    ),
    "P12": dict(
        text=dict(
            title="Away status, followed nicks and the wanted nick are kept in step with clients",
            statement="On a network with auto-away, we are marked away exactly while every client bound to it (if any) is away or gone, and on one without it never. The nicks followed there with MONITOR are at all times those some client bound to it follows, by the network's case rules, plus the wanted nickname while another user holds it: each client is told the status of the nicks it follows and of no other, when it adds them, when it changes, on request, and after the network is connected again; the service is always online. MONITOR is refused while the network is not connected or lacks it. When the wanted nickname is free it is taken back as soon as this is known, or by retrying where MONITOR is missing, but not after the network itself renamed us from it; each client always knows the current nickname. Long lists of nicks are split so that every line fits.",
            over=["inputs", "histories", "schedules"],
            qtext="all sequences of clients coming, going, being away, following and unfollowing (many) nicks in any spelling, people coming and going, nickname changes by anyone, losses of the network, settings changes and restarts",
            why=WHY + "presence: no test has two clients that differ in what they follow, or a nickname held by somebody else.",
            files=["upstream.go", "downstream.go", "user.go", "xirc/genmsg.go"],
            mech=[("auto-away", "upstream.go updateAway, user.go run"),
                  ("MONITOR", "downstream.go MONITOR; upstream.go updateMonitor, handling of RPL_MONONLINE"),
                  ("nickname", "upstream.go handling of NICK, ERR_NICKNAMEINUSE, tryRegainNick")],
        ),
        parts=[dict(
            spec="Presence", module="presence",
            exh=[dict(consts=dict(), invs=["Followed", "AwayOK", "NeverAway", "NickOK"], props=[])],
            gen=dict(consts=dict(), quick=(3000, 30), thorough=(20000, 40)),
        ), dict(
            spec="Presence", module="presence", name="retrying", shards=16, exh=[],
            gen=dict(consts=dict(_spec="SpecSlow"), quick=(16, 14), thorough=(128, 14), procs=1),
        )],
    ),
    "P13": dict(
        text=dict(
            title="Capabilities and ISUPPORT are negotiated truthfully on both sides",
            statement="The bouncer asks a network for exactly the capabilities that it offers and soju supports (echo-message only along with labeled-response), ends negotiation only afterwards, and follows later CAP NEW and DEL. A client is offered what the bouncer itself provides and, of what needs the network, what is in effect there (all of it while the network is away or the client is not bound to one); a CAP REQ is granted or refused as a whole; LS and LIST are truthful, with values for version 302; a client with cap-notify (implied by 302) is told of every change, and what is gone is no longer enabled. JOIN, AWAY, ACCOUNT, CHGHOST, SETNAME, INVITE, TAGMSG and message tags are shown only in the form negotiated. The network's ISUPPORT tokens are passed on unchanged, removals included, on connection and at once; changes of our host and account are shown. Client tags reach the network only where it supports them, and labels reach no client.",
            over=["inputs", "histories", "configurations"],
            qtext="all sets of capabilities offered by a network and changed over time, all requests of clients of any version before and after registration, all network events, losses and restarts",
            why=WHY + "capabilities: the outcome depends on what both sides offered, asked for and gave up in the past.",
            files=["upstream.go", "downstream.go", "xirc/cap.go", "xirc/genmsg.go"],
            mech=[("network side", "upstream.go handleSupportedCaps, updateCaps, handleCapAck, RPL_ISUPPORT"),
                  ("client side", "downstream.go handleCap, updateSupportedCaps, setSupportedCap; xirc/cap.go CapRegistry"),
                  ("what is shown", "downstream.go SendMessage, updateHost, updateAccount")],
        ),
        parts=[dict(
            spec="Caps", module="caps",
            exh=[dict(consts=dict(_constraint="Bounded"), invs=["Offered", "Notified", "Backed"], props=["Asked"])],
            gen=dict(consts=dict(), quick=(2400, 30), thorough=(20000, 40)),
        )],
    ),
    "P14": dict(
        text=dict(
            title="Network credentials are stored, used and forgotten exactly as asked",
            statement="The credentials of a network are stored when the service is asked to (sasl set-plain, certfp generate) or, unless a certificate is in use, when a client identifies to NickServ or sets a password there, registers an account, or authenticates successfully; they are forgotten on sasl reset or SASL ANONYMOUS. Nothing else changes them: they survive losses of the network, changes of other settings, restarts and kills. Whenever the network offers their mechanism, before registration ends or later, the bouncer authenticates with exactly these credentials (EXTERNAL with the certificate whose fingerprint is shown); in all other cases, and when refused, registration still completes. Only one authentication runs at a time, and a client waiting for one, or for an account registration, is told its outcome exactly once, also when the network is lost. A server not showing the pinned TLS certificate is sent nothing, and what is said to and by NickServ is not recorded.",
            over=["inputs", "histories", "crash_points"],
            qtext="all sequences of service commands, NickServ and SASL dialogues (of any length, given up, refused, overlapping), account registrations, capabilities offered and withdrawn, losses, impostors, restarts and kills, over TLS and not",
            why=WHY + "credentials: no test authenticates to a network.",
            files=["upstream.go", "downstream.go", "user.go", "service.go", "certfp.go", "database/sqlite.go"],
            mech=[("storing", "user.go autoSaveSASLPlain; downstream.go handleNickServPRIVMSG; service.go sasl, certfp"),
                  ("using", "upstream.go connectToUpstream, handleCapAck, AUTHENTICATE and its numerics"),
                  ("client side", "downstream.go AUTHENTICATE, REGISTER, VERIFY; upstream.go enqueueCommand")],
        ),
        parts=[dict(
            spec="Creds", module="creds",
            exh=[dict(consts=dict(_constraint="Bounded"), invs=["Single", "StoredOK"], props=["KeepsCert"])],
            gen=dict(consts=dict(), quick=(3200, 40), thorough=(24000, 50)),
        )],
    ),
    "P15": dict(
        text=dict(
            title="Whatever line is sent, only the connection of its sender may suffer",
            statement="Whatever lines a client, a stranger who has not logged in, or a network (while it is registered with or afterwards) sends - well-formed or not, with any command, source, tags and parameters, missing, empty, repeated, oversized, out of place, or many of them at once - the bouncer neither crashes nor stops serving: the sender's own connection may be closed, but no other client, network or user loses its connection, all of them are still answered, messages still get through in both directions, the sender can connect again, and no log file is written outside the folder of the user and network concerned.",
            over=["inputs", "histories"],
            qtext="all lines of a grammar of some 400 client, service and network messages with any word replaced, left out or added, and all sequences of them, at every stage of a connection, on every message store, bursts of the same line, and administrators acting on each other at once",
            why=WHY + "malformed lines: the tests only ever send well-formed ones.",
            files=["upstream.go", "downstream.go", "service.go", "conn.go", "irc.go", "user.go", "server.go", "msgstore/fs.go", "xirc/"],
            mech=[("lines from networks", "upstream.go handleMessage, runUntilRegistered"),
                  ("lines from clients", "downstream.go handleMessageUnregistered, handleMessageRegistered; service.go"),
                  ("parsing", "conn.go ReadMessage; irc.go; xirc/"),
                  ("containment", "server.go Handle, addUserLocked; user.go run, broadcast; service.go handleUserUpdate; msgstore/fs.go logPath")],
        ),
        parts=[dict(
            spec="Robust", module="robust",
            exh=[dict(consts=dict(), invs=["Served"], props=["Contained"])],
            gen=dict(consts=dict(), quick=(4000, 50), thorough=(60000, 60)),
        )],
    ),
    "P16": dict(
        text=dict(
            title="WHO is answered truthfully, from memory or by the network",
            statement="A WHO about a nickname or a channel is answered, to the client that asked and to nobody else, with exactly what the network itself would say at that moment: one reply for each user meant and no other, each with the user's current username, host, server, nickname, away and bot flags, prefixes on the channel asked about, account and real name, in the plain form or in the WHOX form with the fields and token asked for, closed by one end of list naming what was asked. This holds whether the bouncer answers from what it remembers or asks the network (which it does whenever it does not know, when it has not seen the whole member list, or when the question has flags), and after any joins, parts, kicks, quits, changes of nickname, host, account, real name, away status or modes (our own included), and MONITOR, and after the network was lost: nothing that the network would not keep us informed of is remembered, and nothing of a user is ever shown for another who has taken the nickname.",
            over=["inputs", "histories"],
            qtext="all sequences of users coming, going, swapping nicknames and changing in every respect, questions in every form, MONITOR requests and losses of the network, with any of the capabilities concerned",
            why=WHY + "WHO: an answer from memory is right or wrong depending on everything the network announced before.",
            files=["upstream.go", "downstream.go", "xirc/whox.go"],
            mech=[("questions", "downstream.go WHO; xirc/whox.go"),
                  ("memory", "upstream.go getCachedWHO, cacheUserInfo, shouldCacheUserInfo, forgetting on PART, KICK, QUIT, NICK"),
                  ("asking the network", "upstream.go enqueueCommand, RPL_WHOREPLY, RPL_WHOSPCRPL, RPL_ENDOFWHO")],
        ),
        parts=[dict(
            spec="Who", module="who",
            exh=[dict(consts=dict(MaxHv=2, MaxLev=5, _spec="SpecEx", _constraint="Short"), invs=["MemTrue", "MemKept", "HitRight"], props=[])],
            exh_thorough=[dict(consts=dict(MaxHv=2, MaxLev=7, _spec="SpecEx", _constraint="Short"), invs=["MemTrue", "MemKept", "HitRight"], props=[])],
            gen=dict(consts=dict(MaxHv=9, MaxLev=0), quick=(6000, 50), thorough=(60000, 60)),
        )],
    ),
    "P17": dict(
        text=dict(
            title="Push notifications reach every registered endpoint, once, and no other",
            statement="A client with soju.im/webpush may register an HTTPS endpoint with its keys for the network it is bound to: it is accepted if it is at a public address and a test notification to it succeeds, and otherwise it is refused and nothing changes (nor is anything sent to addresses that aren't public). From then on, everything that calls for the user's attention on that network (private messages to them, channel messages mentioning their current nickname as a word of its own and not as part of an address, and invitations; not their own messages, the server's, or those in a detached channel whose relay-detached is none) is sent exactly once to each endpoint registered for that network, as the message itself, encrypted for the keys registered last and signed with the VAPID key announced; when what was pushed is read, so is the new read marker. Nothing goes to endpoints of other networks or users. An endpoint that unregistered, one that answers that it is gone, or one that fails and has not been renewed for 30 days, gets nothing further; no other is ever dropped. Whether clients are connected makes no difference, and all of it survives reconnections, changes to the network, restarts and kills.",
            over=["inputs", "histories", "crashes"],
            qtext="all sequences of registrations (good, bad, renewed, shared between networks), messages, invitations, read markers, endpoints failing or gone, detaching, nickname changes, losses of the network, restarts and kills",
            why=WHY + "Web Push: what is sent depends on everything that was registered, said and read before, and is lost silently.",
            files=["downstream.go", "upstream.go", "user.go", "server.go", "irc.go", "database/sqlite.go"],
            mech=[("registration", "downstream.go WEBPUSH, sanityCheckWebPushEndpoint"),
                  ("what is pushed", "upstream.go PRIVMSG, NOTICE, INVITE; downstream.go MARKREAD; irc.go isHighlight"),
                  ("sending", "user.go broadcastWebPush; server.go sendWebPush, loadWebPushConfig"),
                  ("storage", "database/sqlite.go WebPushSubscription, WebPushConfig")],
        ),
        parts=[dict(
            spec="Push", module="push",
            exh=[dict(consts=dict(Chan=False, MaxNow=1, _constraint="Small", _view="View"), invs=["ReadOK"], props=["OnlyRegistered", "Forgotten", "Kept", "Answered"])],
            exh_thorough=[dict(consts=dict(Chan=False, MaxNow=3, _constraint="Small", _view="View"), invs=["ReadOK"], props=["OnlyRegistered", "Forgotten", "Kept", "Answered"]),
                          dict(consts=dict(Chan=True, MaxNow=1, _constraint="Small", _view="View", ), invs=["ReadOK"], props=["OnlyRegistered", "Forgotten", "Kept", "Answered"], timeout=1500)],
            gen=dict(consts=dict(Chan=True, MaxNow=99), quick=(1000, 40), thorough=(20000, 60)),
        )],
    ),
    "P18": dict(
        text=dict(
            title="Uploaded files: stored only for users, served exactly, safely and for good",
            statement="Where uploads are configured, a file is stored only for a user who exists, isn't disabled and gives their password (every other request is refused), under that user and their upload alone. What an upload that was accepted sent (at most 50 MiB, with or without a declared length) is served from then on to anyone who asks for the location it was given, byte for byte, with the name and type it came with; it is never lost, altered or overwritten, not by further uploads, configuration changes, restarts or kills, and its location is new and carries an unguessable token. An upload that is refused, too large, badly described or cut short leaves nothing. Nothing outside of the upload directory is ever written or served, nor are lists of what is there. Everything is served such that browsers won't run it: only types known to be harmless are shown in place, the others are attachments, always within a sandbox. Pages of other origins get in only if the configuration lists them. Taking uploads out of the configuration and reloading it turns all of this off, putting them back turns it on.",
            over=["inputs", "histories", "crashes"],
            qtext="all sequences of uploads (good, or faulty in any one way), downloads, odd paths, origins, account changes, reloads, restarts and kills",
            why="Tests of handlers use single requests; none exists for uploads. Names, types and paths come from anybody, and what breaks shows in a combination of them, or for a request that failed halfway.",
            files=["fileupload/fileupload.go", "fileupload/fs.go", "cmd/soju/main.go", "auth/internal.go", "config/config.go"],
            mech=[("authentication, origins, description of the file", "fileupload/fileupload.go ServeHTTP, store"),
                  ("storage, names, paths", "fileupload/fs.go"),
                  ("serving", "fileupload/fileupload.go fetch"),
                  ("configuration and reload", "cmd/soju/main.go loadConfig")],
        ),
        binary=True,
        parts=[dict(
            spec="Upload", module="upload",
            exh=[dict(consts=dict(MaxFiles=2), invs=["Safe", "Off"], props=["Allowed", "Kept"])],
            exh_thorough=[dict(consts=dict(MaxFiles=3), invs=["Safe", "Off"], props=["Allowed", "Kept"])],
            gen=dict(consts=dict(MaxFiles=8), quick=(400, 32), thorough=(6000, 60)),
        )],
    ),
    "P19": dict(
        text=dict(
            title="Every door leads to the same bouncer, and only its own kind of visitor gets in",
            statement="Through each kind of listener (plain, TLS, Unix, WebSocket in clear and over TLS) users log in with their password and only so, and text passes unaltered both ways, however it is cut into packets: one line or WebSocket message is one IRC message, never more, never less, invalid UTF-8 being replaced towards WebSockets only. Pages of other origins get in only if listed. A client's address is the one it connects from, unless the configuration trusts that address as a proxy; then it's what that proxy (PROXY protocol, Forwarded, X-Forwarded-For) says, not what is claimed behind it. The administrator's socket serves commands, not IRC clients, who are told so; there, and with sojuctl, arguments arrive as typed and failures are reported. Where the configuration gives each user an address of its own, that's where all its connections to networks come from, and nobody else's. Identd tells a server which asks about one of its own live connections the stable, meaningless ident of the user it belongs to (even if users share ports on different addresses), and nothing to anyone else, about anything else, or once that's over. A reload applies the whole configuration (names, MOTD, trust, origins, certificate, uploads, addresses) to whoever connects next and disconnects nobody; a faulty one changes nothing, and the program doesn't start with one, nor in clear on outside addresses unless told to be insecure. sojudb's changes hold after a restart. Connections are counted exactly, and end with the program.",
            over=["inputs", "histories", "schedules"],
            qtext="all sequences of connections by every door with every claim, conversations in every form, ident queries, administrator's commands, networks going and coming, reloads (good and bad), bad starts, restarts, kills and edits of the database",
            why="No test runs the program. What a door does wrong shows only with the right claim, configuration, cut or history, and then lets somebody in, or names somebody else.",
            files=["cmd/soju/main.go", "cmd/sojuctl/main.go", "cmd/sojudb/main.go", "conn.go", "server.go", "identd/identd.go", "config/config.go", "service.go"],
            mech=[("listeners, reload, signals", "cmd/soju/main.go"),
                  ("lines and frames", "conn.go netIRCConn, websocketIRCConn"),
                  ("addresses", "cmd/soju/main.go proxyProtoListener; server.go ServeHTTP, parseForwarded"),
                  ("administration", "server.go HandleAdmin; service.go splitWords; cmd/sojuctl, cmd/sojudb"),
                  ("idents", "identd/identd.go; user.go userIdent, runConn"),
                     ("addresses towards networks", "user.go localTCPAddr; upstream.go dialTCP"),
                  ("configuration", "config/config.go Load")],
        ),
        binary=True,
        parts=[dict(
            spec="Doors", module="doors",
            exh=[dict(consts=dict(Slots=2, Full=False), invs=["Own", "Attributed", "Hosts"], props=["Passwords"])],
            exh_thorough=[dict(consts=dict(Slots=3, Full=False), invs=["Own", "Attributed", "Hosts"], props=["Passwords"], timeout=1500)],
            gen=dict(consts=dict(Slots=3, Full=True), quick=(400, 40), thorough=(8000, 60)),
        ), dict(
            spec="Idents", module="idents",
            exh=[dict(consts=dict(Most=4), invs=["True"], props=[])],
            exh_thorough=[dict(consts=dict(Most=6), invs=["True"], props=[], timeout=1500)],
            gen=dict(consts=dict(Most=5), quick=(400, 60), thorough=(10000, 100)),
        )],
    ),
}

NOT_APPLICABLE = []


def known(pid):
    try:
        l = json.load(open(os.path.join(HERE, "known-findings.json")))
    except OSError:
        return []
    return [k for k in l if k["property"] == pid and k["status"] == "known"]
