#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Only clients proving the password of their authorization get a session",
  "The server answers protocol requests only on connections whose TLS handshake succeeded with the password of the authorization block that applies to the claimed identity: the block with exactly that title, or the block titled \"*\" if no such block exists; a global password serves blocks without their own. Any other client (unknown identity without a \"*\" block, wrong or empty password, no PSK cipher, plaintext) never gets a protocol response and nothing it sends reaches the command file.",
  ["configurations", "inputs"], "every set of authorize blocks, every claimed identity and key, TLS 1.2 and 1.3",
  "The suite tries one wrong password with one block; it never tries the \"*\" fallback, look-alike identities, several blocks, the global default or non-PSK handshakes.",
  ["src/server/auth.c", "src/server/hash.c", "src/server/conf.c", "src/common/tls.c"],
  [("check_psk", "src/server/auth.c"), ("fallback_to_defaults", "src/server/conf.c"), ("hash_lookup", "src/server/hash.c")],
  [("auth sections", "identity -> password, patterns", "src/server/conf.c")], ["TLS handshake outcome", "first response line", "command file"])

p("P02", "A command is accepted iff the client's authorization matches it",
  "A well-formed command is accepted exactly if it matches one of the patterns that apply to the client's identity (its own block, else \"*\"; settings missing in the block are taken from the global ones): a commands pattern must match the whole command after the timestamp, a hosts pattern the whole host name field of a host check result, and a services pattern the whole service field of a service check result and, if it contains an at sign, the part after the last one the whole host field. All patterns are POSIX extended regular expressions anchored at both ends; everything else is refused with FAIL and never forwarded.",
  ["configurations", "inputs"], "every combination of commands/hosts/services patterns in blocks and globals, every command",
  "Five fixed commands against one fixed configuration are tried; anchoring, alternation, field boundaries, lists, fallbacks and multiple identities are not.",
  ["src/server/auth.c", "src/server/conf.c"],
  [("is_authorized", "src/server/auth.c"), ("parse_*_pattern_cb", "src/server/conf.c"), ("fallback_to_defaults", "src/server/conf.c")],
  (), ["response to the pushed data", "command file"])

p("P03", "Only single, complete, timestamped command lines are ever forwarded",
  "Whatever bytes a client pushes and however permissive its authorization, the server accepts the data only if it begins with a bracketed timestamp, ends with a newline, and contains no other newline and no NUL byte. Therefore one accepted submission is exactly one line at the monitoring process, and all of it was subject to the authorization check.",
  ["inputs"], "every byte string pushed",
  "The suite pushes no data with embedded newlines, NULs or missing brackets to a permissive server; the set of byte strings is infinite.",
  ["src/server/auth.c", "src/server/server.c"],
  [("is_authorized", "src/server/auth.c"), ("handle_push", "src/server/server.c")], (), ["response to the pushed data", "command file"])

p("P04", "Server answers every request as the NSCA-ng protocol prescribes",
  "For every sequence of request lines the server's replies follow the protocol: before a successful MOIN only MOIN, PING, QUIT and BAIL have their effect, afterwards PUSH, NOOP, QUIT and BAIL; malformed or misplaced requests are answered with FAIL and leave the session usable in the same state; keywords are case-insensitive, lines may end in LF or CRLF, and replies are single CRLF-terminated lines. PING and QUIT end the session cleanly after their reply, BAIL ends it without one, and every request gets exactly one reply.",
  ["inputs", "histories"], "every sequence of request lines in every session state",
  "The suite only drives the server with its own client, which always sends the same well-formed sequence; NOOP, PING, retries and malformed requests never occur.",
  ["src/server/server.c", "src/common/util.c", "src/common/tls.c", "PROTOCOL"],
  [("handle_handshake", "src/server/server.c"), ("handle_connection", "src/server/server.c"), ("client_exited", "src/server/server.c")],
  [("session phase", "handshake / established / receiving data / closed", "read handler")], ["reply lines", "TLS close"])

p("P05", "Request handling does not depend on how the byte stream is cut",
  "The server's replies and what it forwards depend only on the sequence of bytes a client sends, not on how these are divided into TLS records and TCP segments or on delays between them; several request lines in one record are all answered in order. The same holds for the client reading the server's reply lines.",
  ["inputs", "schedules"], "every partition of the request stream into records and segments",
  "The suite's client writes each line in one piece over loopback, so only one partition is ever seen.",
  ["src/common/tls.c", "src/common/buffer.c"],
  [("read_line/read_bytes", "src/common/tls.c"), ("buffer_read_line", "src/common/buffer.c")],
  [("input_buffer", "bytes received but not yet consumed", "src/common/tls.c")], ["reply lines", "command file"])

p("P06", "Announced size and line length limits are enforced exactly",
  "A PUSH announcing n bytes is refused with FAIL, with the session staying usable, if n is not a positive number or exceeds max_command_size (unless that is 0); every n up to and including the limit is accepted, and then exactly the announced number of bytes is taken as the command. Request lines of up to 1024 bytes are always accepted, and a client sending an endless line gets BAIL and is disconnected without the server buffering more than a few kilobytes.",
  ["inputs", "configurations"], "every announced size, limit setting and line length",
  "One oversize submission is tested; boundaries, zero, negative, overflowing and non-numeric sizes and over-long lines are not.",
  ["src/server/server.c", "src/common/tls.c"],
  [("handle_connection (PUSH)", "src/server/server.c"), ("read_line", "src/common/tls.c"), ("handle_line_too_long", "src/server/server.c")],
  (), ["reply lines", "command file"])

p("P07", "Acknowledged commands reach the command file exactly once, refused ones never",
  "Every submission the server acknowledged is delivered to the monitoring process exactly once and byte for byte, either directly through the command file or inside a temporary file announced there by a PROCESS_FILE command; nothing else is ever delivered. This holds for every interleaving of submissions with the reader of the command file stalling, vanishing and returning, and with temporary files being written; only a queue overflow or a failed temporary file, both logged, may lose commands.",
  ["schedules", "histories", "fault_sequences"], "every interleaving of submissions, pipe fill levels, reader restarts and write completions",
  "The suite has a reader that is always there and looks at a handful of commands; stalls, restarts and pending temporary files are never combined.",
  ["src/server/fifo.c", "src/server/server.c", "src/common/buffer.c"],
  [("fifo_write/dispatch_data", "src/server/fifo.c"), ("write_cb", "src/server/fifo.c"), ("async_cb / sync_dump_data", "src/server/fifo.c")],
  [("output, output_buffer", "commands accepted but not yet written", "src/server/fifo.c")], ["command file contents", "temporary files", "reply lines"])

p("P08", "Writes to the command file are atomic and consist of whole commands",
  "Every write to the command file is of at most PIPE_BUF bytes and consists of one or more complete commands, so that commands can never be torn or mixed with those of other writers, even if the pipe is nearly full; data that does not fit that limit goes through a temporary file. A write the pipe cannot take is retried later, unchanged or merged, without duplicating or skipping bytes.",
  ["schedules", "histories"], "every history of submissions of any size and pipe fill levels",
  "The boundaries of individual writes cannot be seen in the file contents the suite compares.",
  ["src/server/fifo.c"], [("buffers_exceed_pipe_size", "src/server/fifo.c"), ("write_cb", "src/server/fifo.c")],
  (), ["write(2) calls on the command file"])

p("P09", "Temporary files are announced only once complete, and private until then",
  "A PROCESS_FILE command is issued only after every byte of the temporary file has been written successfully and the file closed; the file is newly created with owner-only permissions inside temp_directory, contains whole acknowledged commands in submission order, and the command asks for its deletion. If writing fails or is short, no PROCESS_FILE command for that file is issued, the failure is logged, no descriptor is leaked, and later commands are still delivered.",
  ["schedules", "fault_sequences"], "every interleaving of write completions/failures with further submissions, for the asynchronous and the synchronous variant",
  "The suite looks at one successful large submission after the fact; ordering against completion and all failure paths are untested.",
  ["src/server/fifo.c"], [("async_dump_data/async_cb", "src/server/fifo.c"), ("sync_dump_data", "src/server/fifo.c"), ("make_process_file_command", "src/server/fifo.c")],
  [("dump_fd, dump_file", "file being written", "src/server/fifo.c")], ["command file", "temp_directory", "aio/write/close calls"])

p("P10", "Submission order is preserved on each delivery path",
  "Commands written directly to the command file appear there in the order in which the server acknowledged them, and commands stored in one temporary file appear in that file in that order, also across stalls and restarts of the reader and when queued commands are merged. A command may overtake earlier ones only if these are being delivered through a temporary file.",
  ["schedules", "histories"], "every history of submissions by any number of clients and of reader stalls",
  "Order under back-pressure is never produced by the suite.",
  ["src/server/fifo.c", "src/common/buffer.c"], [("join_buffers", "src/server/fifo.c"), ("buffer_slurp", "src/common/buffer.c")],
  (), ["command file contents", "temporary file contents"])

p("P11", "The queue is bounded by max_queue_size and losses are whole commands, logged",
  "While the command file cannot be written, the server queues up to max_queue_size megabytes of acknowledged commands without loss (without limit if it is 0); data that would exceed this (a submission, or the announcement of a temporary file) makes it discard queued data with a logged warning, never more than what was queued before, and never the new data itself. What is delivered after an overflow still consists of complete, unmodified commands in order.",
  ["histories", "configurations"], "every history of submissions while the reader is away, every limit",
  "No test ever fills the queue.",
  ["src/server/fifo.c"], [("fifo_write", "src/server/fifo.c")], (), ["command file after reader returns", "log"])

p("P12", "The server survives command file outages and resumes by itself",
  "If the command file is missing, has no reader, is not a named pipe, or breaks while in use, the server keeps accepting clients, never writes to anything that is not a named pipe, and retries every 10 seconds; once a reader is back, everything queued is delivered within that interval without any further submission being needed.",
  ["schedules", "fault_sequences"], "every sequence of outages (missing, no reader, regular file, broken pipe, transient errors) and submissions",
  "The suite always has the reader in place first.",
  ["src/server/fifo.c"], [("open_cb", "src/server/fifo.c"), ("write_cb error handling", "src/server/fifo.c")],
  (), ["open/write calls", "command file contents", "time"])

p("P13", "Connections are isolated from each other",
  "For every number of concurrent connections and every interleaving of their steps, each client observes the replies it would observe if it were alone, and its submissions are decided by its own identity only; a client that stalls, misbehaves, breaks TLS, or disconnects at any point neither disturbs nor delays another one. Failed or aborted handshakes do not affect established sessions.",
  ["schedules", "histories"], "every interleaving of connections, including misbehaving ones",
  "The suite never has two connections open at the same time.",
  ["src/common/tls.c", "src/server/server.c", "src/server/auth.c"], [("tls_state per connection", "src/common/tls.c"), ("check_tls_error", "src/common/tls.c")],
  [("per-connection state", "identity, phase, buffers", "src/common/tls.c")], ["reply lines of every connection", "command file"])

p("P14", "Idle connections are closed after the timeout, active ones never",
  "A connection on which the client has shown no activity for the configured timeout is closed, wherever it is (TCP accepted, in the TLS handshake, between requests, in the middle of a request or of pushed data, or while a close is pending), with a BAIL reply if a session was established; no connection is closed for idleness earlier, activity restarts the interval, and a timeout of 0 disables this. Data of a timed-out submission is not forwarded.",
  ["schedules", "histories", "configurations"], "every history of activity and pauses on any number of connections",
  "No test waits for a timeout.",
  ["src/common/tls.c", "src/server/server.c"], [("timeout_cb, last_activity", "src/common/tls.c"), ("handle_timeout", "src/server/server.c")],
  (), ["close time", "BAIL line"])

p("P15", "Aborted clients leave no trace",
  "A client that disappears at any point of a session (TCP reset, TCP close, TLS close, garbage on the wire, BAIL), including in the middle of a request line or of pushed data, causes nothing to be forwarded that was not completely received and acknowledged or about to be acknowledged, does not affect what was acknowledged before, and leaves the server running without leaking the connection's descriptor.",
  ["crash_points", "fault_sequences"], "every point of the session at which the client can vanish, and every way of vanishing",
  "The suite's clients always finish their sessions.",
  ["src/common/tls.c", "src/server/server.c"], [("check_tls_error", "src/common/tls.c"), ("read_bytes", "src/common/tls.c"), ("connection_stop", "src/server/server.c")],
  (), ["command file", "open descriptors of the server", "later sessions"])

p("P16", "One server per PID file; signals stop or re-execute it cleanly",
  "Of any number of servers started with the same PID file at most one runs at a time, whatever the order and overlap of their starts, stops and kills; a further one exits non-zero without touching the file, an abandoned file is taken over, and the file holds exactly the running (daemonised) server's PID and is removed on clean termination. SIGTERM and SIGINT make the server exit 0, also if they arrive together with a SIGHUP; SIGHUP makes it close its connections and re-execute itself with its arguments, picking up the changed configuration (keeping its PID if it runs in the foreground); if the new configuration is unusable, it exits non-zero.",
  ["histories", "schedules"], "every sequence of starts, stops, kills, and hangups of several servers",
  "The suite starts and stops one server at a time and never sends SIGHUP or starts a second one.",
  ["src/server/nsca-ng.c", "lib/pidfile/pidfile.c"], [("pidfile_open/write/remove", "lib/pidfile/pidfile.c"), ("signal_cb, restart", "src/server/nsca-ng.c")],
  [("PID file lock", "held by the running server", "lib/pidfile")], ["exit status", "PID file", "listening socket"])

p("P17", "Server settings come from command line, then configuration, then defaults",
  "For every setting the command line takes precedence over the configuration and the configuration over the documented default; the configuration is the given file or all .cfg and .conf files below the given directory, include directives for files and directories included. An unusable configuration (syntax error, negative number, no authorize block, a block without any password, a duplicate block, an invalid regular expression, an unreadable file, an unusable temp_directory) makes the server refuse to start with a non-zero status before it serves anyone.",
  ["configurations"], "every combination of settings, sources, file layouts and errors",
  "The suite uses one configuration file with a fixed set of settings.",
  ["src/server/conf.c", "src/server/nsca-ng.c"], [("conf_parse, include_cb", "src/server/conf.c"), ("main, get_options", "src/server/nsca-ng.c")],
  (), ["exit status", "effective behaviour per setting"])

p("P18", "Privileges are dropped completely, in order, before serving",
  "If user or chroot is configured, then after reading the configuration and before creating the PID file, the listening socket, or any temporary file the server sets the group list, changes root and working directory, then group, then user, for exactly the configured user and directory. If the user is unknown or any of these steps fails, the server exits non-zero without serving anyone.",
  ["fault_sequences", "configurations"], "every combination of user/chroot settings and every failing step",
  "The suite runs unprivileged and cannot exercise these calls.",
  ["src/server/nsca-ng.c"], [("drop_privileges", "src/server/nsca-ng.c")], (), ["system calls made by the server"])

p("P19", "systemd readiness, watchdog and socket activation follow the contract",
  "The server sends READY=1 to the service manager exactly once per start and only when it accepts connections, and sends WATCHDOG=1 at least twice per WATCHDOG_USEC for as long as it runs, also while connections or the command file are stalled, and never without WATCHDOG_USEC. With one socket passed in, it serves that socket in the foreground, ignoring its listen setting and -b; with more than one it refuses to start.",
  ["schedules", "configurations"], "every watchdog interval, activation mode and load schedule",
  "The suite never sets NOTIFY_SOCKET, WATCHDOG_USEC or LISTEN_FDS.",
  ["src/server/nsca-ng.c", "src/common/tls.c"], [("notify_systemd, keep_alive_cb", "src/server/nsca-ng.c"), ("descriptor= listen string", "src/common/tls.c")],
  (), ["notify socket", "time", "listening sockets"])

p("C01", "send_nsca exits 0 only if every submission was acknowledged",
  "send_nsca exits 0 only if it read its whole input and the server acknowledged the greeting, every submission, and the QUIT, and does exit 0 if the server then closes the session properly; in every other case (connection or TLS failure, wrong key, FAIL, BAIL, unexpected or over-long reply, unsupported protocol version, disconnect, silence, malformed input) it prints a message and exits non-zero, after which nothing further is submitted.",
  ["histories", "fault_sequences"], "every server behaviour at every step of the session, for any number of submissions",
  "The suite's server only ever succeeds or refuses a submission.",
  ["src/client/client.c", "src/client/send_nsca.c", "src/common/tls.c"], [("handle_tls_*_response, server_is_grumpy, bail", "src/client/client.c"), ("TLS_AUTO_DIE", "src/common/tls.c")],
  [("exit_code", "process exit status", "src/client/send_nsca.c")], ["exit status", "messages sent"])

p("C02", "send_nsca submits exactly one correctly encoded command per input record",
  "Each non-empty input record becomes exactly one command, in input order: three fields a host check result, four or more a service check result (delimiters in the last field are kept), with the current time, backslashes doubled and newlines inside the record written as \\n; with -C each non-empty line is passed through, getting a timestamp only if it has none. A record with fewer than three fields is an error, and a trailing newline, empty records and the missing separator after the last record do not matter.",
  ["inputs", "configurations"], "every input byte sequence (without NUL) and delimiter/separator choice",
  "The suite feeds about ten inputs; escaping of backslashes, empty fields, empty records and custom separators are hardly covered.",
  ["src/client/parse.c", "src/client/client.c", "src/client/input.c"], [("parse_check_result, parse_command, escape", "src/client/parse.c"), ("handle_input_chunk", "src/client/client.c")],
  (), ["commands received by the server"])

p("C03", "send_nsca speaks the protocol in lock step",
  "Whatever the server replies, send_nsca sends MOIN 1 with a fresh identifier of printable characters first, then for each record a PUSH with the exact byte count and, only after OKAY, exactly that many bytes, and finally QUIT; it sends each message only after the reply to the previous one, sends BAIL on an unexpected reply (a line; an over-long reply or malformed input just ends it), sends nothing after a FAIL or BAIL reply, and ends the TLS session with a close notification.",
  ["histories", "inputs"], "every sequence of server replies and inputs",
  "The suite's server is the project's own and tolerant; what the client sends is never checked.",
  ["src/client/client.c", "src/client/auth.c", "src/common/tls.c"], [("handle_tls_*_response", "src/client/client.c"), ("generate_session_id", "src/client/client.c")],
  (), ["messages received by the server"])

p("C04", "send_nsca's submissions do not depend on how its input arrives",
  "The commands send_nsca submits depend only on the bytes of its standard input, not on how these are divided into reads, on pauses between them, or on whether they arrive before or after the connection is established; records of any size are supported and end of input may come at any point.",
  ["inputs", "schedules"], "every partition of the input into reads and every timing relative to the session",
  "The suite always supplies the whole input at once, in a few short records.",
  ["src/client/input.c", "src/common/buffer.c", "src/client/client.c"], [("read_cb, input_read_chunk", "src/client/input.c"), ("buffer_read_chunk", "src/common/buffer.c")],
  (), ["commands received by the server"])

p("C05", "send_nsca settings: command line, then configuration file, then defaults",
  "For server, port, timeout and delay the command line takes precedence over the configuration file and that over the documented default; identity, password and tls_ciphers come from the file or the default (the host name for identity). The file syntax (quoting with either quote, backslash escapes, comments, blank lines, line continuation, line ends with or without CR) is interpreted as documented for every file; unknown variables, missing values, non-numeric numbers, trailing garbage and unreadable files make it exit non-zero without contacting a server.",
  ["configurations", "inputs"], "every configuration file text and option combination",
  "The suite uses two fixed configuration files.",
  ["src/client/conf.c", "src/client/send_nsca.c"], [("parse_conf_file, read_conf_line", "src/client/conf.c"), ("get_options, parse_backslash_escape", "src/client/send_nsca.c")],
  (), ["connection target, identity and key seen by the server", "exit status"])

p("C06", "send_nsca gives up on an unresponsive server after its timeout",
  "If the server shows no activity for the configured timeout at any stage (connecting, TLS handshake, waiting for any reply, in the middle of a reply, closing), send_nsca stops and, unless everything had been acknowledged already, exits non-zero; while it waits for the server it never gives up earlier, activity restarts the interval, and with a timeout of 0 it waits indefinitely.",
  ["schedules", "fault_sequences", "configurations"], "every stage and pattern of server silence, every timeout",
  "No test involves a silent server.",
  ["src/common/tls.c", "src/client/send_nsca.c"], [("timeout_cb", "src/common/tls.c")], (), ["exit status", "time of exit"])

p("M01", "Perl and Python modules report success iff the server acknowledged the result",
  "host_result, svc_result and (Perl) command return normally only if the server acknowledged that very submission, and raise an exception otherwise, whatever the server replies or wherever the connection breaks; the object stays usable, reconnecting for the next call, and a call submits the result at most once after an acknowledgement.",
  ["histories", "fault_sequences"], "every server behaviour at each step over several calls on one object",
  "The Perl tests never talk to a server; Python has none.",
  ["perl/client.c", "perl/Client.xs", "perl/lib/Net/NSCAng/Client.pm", "python/client.c", "python/nscang.c"],
  [("nscang_client_send_push/response/disconnect", "python/client.c, perl/client.c"), ("_result, command", "perl/Client.xs")],
  [("client state", "NEW / MOIN", "nscang_client_t")], ["exception or return", "messages received by the server"])

p("M02", "Perl and Python modules submit exactly the result they were given",
  "The command the modules submit is the timestamped, newline-terminated host or service check result (or raw command) made of precisely the given arguments, announced with its exact size; backslashes and newlines in the output are escaped as the protocol demands, and results of any length are submitted completely (or reported as an error), never truncated and never at the expense of memory. Constructors and calls with missing or bad arguments raise an exception.",
  ["inputs"], "every argument value and length",
  "No test ever sends a result through the modules.",
  ["perl/client.c", "python/client.c"], [("nscang_client_send_push, nscang_client_send_command", "perl/client.c, python/client.c")],
  (), ["commands received by the server"])

p("X01", "The contrib scripts submit exactly the command they were asked to, and say so only if it was accepted",
  "acknowledge, downtime, enable_notifications, disable_notifications and invoke_check submit one command: the one that fits the options given (with -S the service form, without it the host form; the last of repeated options counts; defaults only for what was not given), with comments, names and plugin output taken literally, dates converted as date(1) would, the user's full name as author, and the plugin's own exit status and output. They exit zero only if the server accepted it; on bad usage, a plugin that is missing or returns an invalid state, nothing is submitted and the exit status is non-zero. Plugin arguments reach the plugin unchanged.",
  ["inputs", "configurations", "fault_sequences"], "every sequence of options and values, plugin result and server behaviour",
  "No test runs these scripts.",
  ["contrib/acknowledge", "contrib/downtime", "contrib/enable_notifications", "contrib/disable_notifications", "contrib/invoke_check"],
  [("getopts loop and submission", "contrib/downtime, contrib/acknowledge, contrib/invoke_check, contrib/*_notifications")], (), ["commands received by the server", "exit status", "arguments seen by the plugin"])

p("P20", "The server's memory and descriptors do not grow with what it has done",
  "What the server holds is determined by its open connections and its queue, not by its past: after any finite history of connections, failed handshakes, requests (valid, malformed, refused), submissions, aborts, timeouts, command file outages, overflows and failing temporary files, once the clients are gone and the queue has been delivered, it holds no more memory and no more descriptors than after the same history before. It can therefore run indefinitely, and no client (authenticated or not) can exhaust it by repetition.",
  ["histories", "fault_sequences"], "every finite history repeated any number of times",
  "Tests run a server for one short session.",
  ["src/common/tls.c", "src/common/buffer.c", "src/server/server.c", "src/server/fifo.c", "src/server/auth.c"],
  [("tls_free", "src/common/tls.c"), ("check_psk, is_authorized", "src/server/auth.c"), ("async_cb, close_dump_file, free_output", "src/server/fifo.c"), ("handle_push, handle_command", "src/server/server.c")],
  [("memory", "allocated bytes", "heap")], ["bytes allocated and descriptors open after each repetition"])

p("M03", "A process which goes on using the Perl or Python module does not grow",
  "A process may create, use and drop objects of the modules for ever: repeating any finite history of constructors (successful or failing), calls (successful, refused, timing out, with a connection broken at any step, or with bad arguments) and disposals, on the same objects or on new ones each time, does not make it hold more memory or more descriptors from one repetition to the next.",
  ["histories", "fault_sequences"], "every finite history repeated any number of times",
  "The Perl tests create a handful of objects in one short process; Python has none.",
  ["perl/client.c", "perl/Client.xs", "python/client.c", "python/nscang.c"],
  [("nscang_client_free, nscang_client_disconnect, nscang_client_send_push", "perl/client.c, python/client.c"), ("_new, DESTROY, _result", "perl/Client.xs"), ("NSCAngNotifyer_init, NSCAngNotifyer_dealloc", "python/nscang.c")],
  [("memory", "allocated bytes", "heap"), ("descriptors", "open files", "kernel")], ["bytes allocated and descriptors open after each repetition"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
