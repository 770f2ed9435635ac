TLC = "TLA+ specification model-checked with TLC, "
CHECKS = {
 "P05": (TLC + "confluence of the byte-level specification checked, its deliveries replayed as TLS records cut into TCP segments",
         "All chunk sizes of a set at every offset of each stream in the model; the real server and client are driven with a covering set of these cuttings, records and segments cut independently, with delays in virtual time."),
 "P01": (TLC + "every connect transition of the specification replayed as a TLS-PSK handshake with the server",
         "All combinations of present blocks, own and global passwords, claimed identities and keys over a small universe, in TLS 1.2 and 1.3, plus clients without PSK and without TLS."),
 "P02": (TLC + "the specification's verdicts (regular expressions as syntax trees with their own semantics) compared with the server's on every submission",
         "Patterns are all syntax trees with up to two operators over a small alphabet, commands all short field values plus adversarial shapes; settings, global values and the fallback block in all combinations. POSIX expressions beyond literals, ., [^..], *, +, ?, | and grouping are not generated."),
 "P03": (TLC + "every string of the specification's state graph replayed into the server",
         "Exhaustive over all strings up to a length over the critical bytes and all one-byte edits of realistic commands; the real server decides each, its verdict and what it forwards are compared with the specification. Trusts the shim's quiescence detection."),
 "P04": (TLC + "its transition system replayed into the server as request sequences",
         "All request sequences to depth 4 over the core alphabet, all transitions of the full alphabet, random long sessions; one real server process built from the working tree."),
 "P06": (TLC + "its transition system replayed into the server for a range of limits",
         "Every transition of the session specification for sizes around each limit and around the integer boundaries, with exact data lengths; sizes as unbounded decimal numbers."),
 "P07": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: every acknowledged command leaves the queue exactly once and reaches the pipe or an announced file; losses only with a logged overflow or file failure. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P08": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: every attempted write is at most PIPE_BUF bytes of whole commands, also after partial fills of the pipe and retries. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P09": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: file creation flags and mode, content read back at announcement, completion and close before announcement, failures logged, no descriptor left. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P10": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: commands leave the queue in the order of acknowledgement on every path. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P11": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: discarding only above the configured limit, only of queued data, and never more than the limit kept; queues of up to 2 MB, limits 0, 1 and 2 MB. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P12": (TLC + "schedules covering the transitions of the implementation-level model (WriterImpl) run against the real server, recorded system calls validated as behaviours of the abstract queue (WriterTrace)",
         "Judged: attempts to open exactly every 10 s of virtual time while down, no write to anything but a FIFO, everything delivered 10 s after the reader is back. The model is exhaustive for up to 3 (P07: 4, thorough: 5) submissions of four size classes; the real server, with and without POSIX AIO, runs a covering set of its transitions with injected faults, a one-page pipe, controlled AIO and virtual time. Trusts the shim's log of system calls, cross-checked with what the reader receives."),
 "P13": (TLC + "its transition system (two clients) and compositions of up to 40 clients replayed as real TLS connections, every client observed after every step",
         "Every transition of the two-client specification and random interleavings of up to 40 clients, including clients which break off, send garbage, or flood without reading; one real server process. Steps are atomic up to the server's quiescence, except in the burst and flood schedules."),
 "P14": (TLC + "its timed transition system replayed in virtual time",
         "Every transition of the one- and two-client specification with the timeout in three ticks, observed just before and just after each tick, plus trickling clients and a timeout of 0. Virtual time, real server."),
 "P15": (TLC + "every way of vanishing in every state of the specification replayed, cut at random bytes",
         "All abort actions in all protocol states for one and two clients, TLS 1.2 and 1.3, cut points within records random; descriptors of the server counted after every step."),
 "P16": (TLC + "histories covering its transitions replayed with real server processes and signals",
         "All transitions for one and two servers, simultaneous starts and takeovers with three, in foreground and background mode; exit statuses, PID files, connections and served configurations compared after every step. Real time and real signals: races are sampled, not enumerated."),
 "P19": (TLC + "histories covering its transitions replayed with a stand-in service manager in virtual time",
         "All transitions over 0 to 3 passed sockets, five WATCHDOG_USEC values, five start-up faults, foreground/background and four kinds of load, in virtual time; readiness counted per incarnation and ordered against listen(), gaps between signs of life measured."),
 "P18": (TLC + "recorded privilege calls of the server validated as behaviours of the specification's kernel",
         "All combinations of user/chroot settings, option and configuration placements and every failing call, with stand-ins which record the calls; the ids and groups of servers which really switch the user compared with the specification's final state. chroot() itself is never executed for real."),
 "P17": (TLC + "configurations built by the specification (exhaustive and by its simulator) given to the server, every setting probed",
         "Random walks of the specification over command lines and trees of up to four files and directories, chosen for variety of layout and reasons of failure; each setting's effective value observed on the running server. Layouts whose outcome depends on directory order are not judged; libConfuse's own syntax only in its documented forms."),
 "C01": (TLC + "every transition of send_nsca's session with an arbitrary server replayed against the real client, server scripted",
         "All transitions of the session model for up to 3 (thorough 4) records, replies of every kind, in parts, unsolicited, and every way of the connection ending; send_nsca's messages and exit status compared after each step. An unread reply at the end of a session is left open."),
 "C03": (TLC + "its transition system replayed against the real client, server scripted, every message of the client compared",
         "All transitions for several handshake lengths, unsolicited replies and records larger than the socket buffers; after each server step exactly the specified messages, none before the reply they wait for."),
 "C06": (TLC + "its timed transition system replayed in virtual time, server scripted",
         "The timeout in three ticks, in every state including the unanswered connection attempt, the handshake, partial replies and a server which does not read; observed just before and after each tick; and no timeout with 0. Input which is slow itself is not judged."),
 "C02": (TLC + "every string of the model up to a length translated by the real send_nsca in several ways of writing it, the server's submissions compared",
         "All inputs of up to 7 (thorough 8) letters over text, delimiter, separator, newline and backslash, up to 6 (7) letters with -C; quick replays about a third of them, batched into real runs, with random delimiters and separators in every documented notation and text of up to 300 kB; unusable options. Carriage returns at line ends and blank lines with -C are not judged."),
 "C04": (TLC + "its transition system of input and session events replayed against the real client, plus random large schedules",
         "Transitions of all orders of arrival (letter by letter, end of input) relative to the session's steps, up to 7 (thorough 8) letters; pieces cut further at random, records up to 300 kB, hundreds of records in arbitrary pieces."),
 "C05": (TLC + "configuration files enumerated and simulated by the specification given to the real client, observed by a server of its own",
         "All files of up to 5 (thorough 6) letters checked on the model, about 3000 of them and random files of up to 30 letters run (identity, password and refusal observed); all sources of each setting in up to 3 (4) places and random longer ones (target, cipher suites, delay, timeout, identity, password observed). What the manual leaves open is not judged."),
 "M01": (TLC + "its transition system walked together with the real modules against a scripted server, and against the real server",
         "Unbounded histories of calls; every fault at every step of the session (bad handshakes, each kind of wrong reply, silence, slowness, closes, resets, refused connections, drops while idle, late replies), up to three objects per interpreter, both modules, TLS 1.2 and 1.3. Quick takes about half of the model's transitions per language (many depend on retry choices the modules do not make). The retry policy is not judged beyond two connections per call."),
 "M02": (TLC + "every combination of argument letters of the model given to the real modules, the submissions compared",
         "All outputs of up to 3 (thorough 4) letters over text, long text, newline, backslash, semicolon and n; names of up to 2 letters, commands of up to 4 (5) letters including time stamps; texts of up to 20 kB; constructors and incomplete calls. Semicolons and newlines in names are not judged."),
 "X01": (TLC + "command lines and environments written by the specification given to the real scripts with the real send_nsca, the server scripted",
         "All scripts, up to 3 (thorough: model up to 5) options, every class of wrong usage, plugin result and server behaviour; values drawn from texts with quotes, backslashes, blanks and shell syntax. Needs a POSIX shell and GNU date; values without newlines, host and service without semicolons. debug_server (needs xxd, not installed) is not covered."),
 "P20": (TLC + "an ownership invariant checked on it, and histories covering its transitions repeated on the real server, its allocated bytes and descriptors compared",
         "All transitions of the one-client specification with outages and with timeouts, random walks with two clients; every history repeated five times, steady growth which five more repetitions confirm is a leak. Counts come from AddressSanitizer, memory kept once (caches, event loop arrays) is allowed; both the asynchronous and the synchronous writer."),
 "M03": (TLC + "an ownership invariant checked on it, and its histories repeated with the real modules, allocated bytes and descriptors compared",
         "Histories of 6 to 60 steps with one to three objects, both modules, every fault of the M01 model plus failing constructors and incomplete calls, each repeated on the same or on new objects; growth which persists over 40 more repetitions is a leak (OpenSSL keeps up to 16 errors, the interpreters keep caches). Counts come from AddressSanitizer. Calling __init__ of one Python object twice is not covered."),
}

NOT_APPLICABLE = {}
