From 9eb82ffffd9a09181d77adac871afe3b3076e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 01/35] fix: Keep handling requests after a NOOP

The server didn't wait for another request after replying to a NOOP, so
the session hung until the client gave up.
---
 src/server/server.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 0fcd193..6de587e 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -194,9 +194,10 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 
 	info("%s C: %s", tls->peer, line);
 
-	if (strncasecmp("NOOP", line, 4) == 0)
+	if (strncasecmp("NOOP", line, 4) == 0) {
 		send_response(tls, "OKAY");
-	else if (strncasecmp("PUSH", line, 4) == 0) {
+		tls_read_line(tls, handle_connection);
+	} else if (strncasecmp("PUSH", line, 4) == 0) {
 		if (!parse_line(line, args, 2)) {
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
-- 
2.43.0


From c98f56879ec36a814189b6b5968da971cf78ab29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:44 +0000
Subject: [PATCH 02/35] fix: Don't truncate the announced PUSH size

The size was parsed using atoi(3), so that a number exceeding the range
of an int was accepted as a different (possibly small) number.
---
 src/server/server.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/server/server.c b/src/server/server.c
index 6de587e..e468a60 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -32,6 +32,8 @@
 #if HAVE_AIO_INIT
 # include <aio.h>
 #endif
+#include <errno.h>
+#include <limits.h>
 #include <stdarg.h>
 #include <stdlib.h>
 #include <string.h>
@@ -190,7 +192,7 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 {
 	connection_state *connection = tls->data;
 	char *args[2];
-	int data_size;
+	long data_size;
 
 	info("%s C: %s", tls->peer, line);
 
@@ -202,12 +204,14 @@ handle_connection(tls_state * restrict tls, char * restrict line)
 			warning("Cannot parse PUSH request from %s", tls->peer);
 			send_response(tls, "FAIL Cannot parse PUSH request");
 			tls_read_line(tls, handle_connection);
-		} else if ((data_size = atoi(args[1])) <= 0) {
+		} else if ((errno = 0, data_size = strtol(args[1], NULL, 10))
+		    <= 0) {
 			warning("Expected number of bytes from %s", tls->peer);
 			send_response(tls, "FAIL Expected number of bytes");
 			tls_read_line(tls, handle_connection);
-		} else if (connection->ctx->max_command_size > 0
-		    && (size_t)data_size > connection->ctx->max_command_size) {
+		} else if (errno == ERANGE || data_size > INT_MAX
+		    || (connection->ctx->max_command_size > 0
+		    && (size_t)data_size > connection->ctx->max_command_size)) {
 			warning("Command from %s too long", tls->peer);
 			send_response(tls, "FAIL PUSH data size too large");
 			tls_read_line(tls, handle_connection);
-- 
2.43.0


From 2d10694318adce14a7fe5feda479da71903bd40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 03/35] fix: Refuse pushed data with embedded NUL bytes

Only the part in front of the first NUL byte was authorized, but all of
the data was written to the command file, so that clients could submit
arbitrary commands behind a NUL byte.
---
 src/server/server.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/server/server.c b/src/server/server.c
index e468a60..ae59d20 100644
--- a/src/server/server.c
+++ b/src/server/server.c
@@ -238,7 +238,8 @@ handle_push(tls_state * restrict tls, char * restrict data)
 
 	info("%s C: %.*s", tls->peer, width, data);
 
-	if (is_authorized(tls->id, data)) {
+	if (strlen(data) == connection->input_length /* No embedded NULs. */
+	    && is_authorized(tls->id, data)) {
 		notice("Queuing data from %s: %.*s", tls->peer, width, data);
 		fifo_write(connection->ctx->fifo, data,
 		    connection->input_length, free);
-- 
2.43.0


From b402ec31b433cda67a3178af7e6c462d0e0e6d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 04/35] fix: Refuse commands without a leading bracket

A command was assumed to have a timestamp if there was a closing bracket
anywhere, so that arbitrary data in front of it was accepted.
---
 src/server/auth.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index f76124c..afd2d08 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -104,7 +104,7 @@ is_authorized(const char * restrict identity, const char * restrict command)
 		return false;
 	}
 	/* Match against the command without the leading bracketed timestamp. */
-	if ((command = strchr(command, ']')) == NULL) {
+	if (*command != '[' || (command = strchr(command, ']')) == NULL) {
 		warning("Timestamp missing from command submitted by %s",
 		    identity);
 		return false;
-- 
2.43.0


From c36f80b7b1d1b90197f842629779d336142f81ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 05/35] fix: Anchor all alternatives of a pattern

In a pattern such as "foo|bar", only the beginning of the first and the
end of the last alternative were anchored, so that commands which merely
began with the former or ended with the latter were accepted.
---
 src/server/conf.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 6bed98f..9e4c6f8 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -241,7 +241,7 @@ host_to_command(const char *host_pattern)
 {
 	char *command_pattern;
 
-	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;%s;.+",
+	xasprintf(&command_pattern, "PROCESS_HOST_CHECK_RESULT;(%s);.+",
 	    host_pattern);
 
 	return command_pattern;
@@ -262,7 +262,7 @@ service_to_command(const char *service_pattern)
 	service_part = pattern;
 
 	xasprintf(&command_pattern,
-	    "PROCESS_SERVICE_CHECK_RESULT;%s;%s;.+;.+",
+	    "PROCESS_SERVICE_CHECK_RESULT;(%s);(%s);.+;.+",
 	    host_part, service_part);
 
 	free(pattern);
@@ -302,7 +302,7 @@ parse_command_pattern_cb(cfg_t * restrict cfg, cfg_opt_t * restrict opt,
 	char errbuf[128];
 	int success;
 
-	xasprintf(&pattern, "^%s\n?$", value);
+	xasprintf(&pattern, "^(%s)\n?$", value);
 	*re = xmalloc(sizeof(regex_t));
 	if ((success = regcomp(*re, pattern, REG_EXTENDED | REG_NOSUB)) != 0) {
 		(void)regerror(success, *re, errbuf, sizeof(errbuf));
-- 
2.43.0


From 27cf8c82b11cc9d82a3072d9edddb17f235fac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:50 +0000
Subject: [PATCH 06/35] fix: Match host and service patterns against single
 fields

Patterns such as ".*-test" could match beyond the host or service field,
so that a client could submit results for arbitrary hosts or services by
crafting the plugin output.
---
 src/server/auth.c | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/server/auth.c b/src/server/auth.c
index afd2d08..d66b740 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -30,7 +30,9 @@
 #endif
 
 #include <sys/types.h>
+#include <limits.h>
 #include <regex.h>
+#include <stdlib.h>
 #include <string.h>
 
 #include <confuse.h>
@@ -43,6 +45,7 @@
 #include "util.h"
 #include "wrappers.h"
 
+static char *merge_fields(const char *, int);
 static bool match(regex_t * restrict, const char * restrict);
 
 /*
@@ -83,6 +86,7 @@ bool
 is_authorized(const char * restrict identity, const char * restrict command)
 {
 	const char *settings[] = { "hosts", "services", "commands" };
+	const int n_separators[] = { 2, 4, INT_MAX };
 	cfg_t *auth;
 	char *newline;
 	size_t i;
@@ -113,14 +117,18 @@ is_authorized(const char * restrict identity, const char * restrict command)
 
 	for (i = 0; i < sizeof(settings) / sizeof(*settings); i++) {
 		cfg_opt_t *opt = cfg_getopt(auth, settings[i]);
+		char *fields = merge_fields(command, n_separators[i]);
+		bool matched = false;
 		unsigned int j;
 
-		for (j = 0; j < cfg_opt_size(opt); j++) {
+		for (j = 0; j < cfg_opt_size(opt) && !matched; j++) {
 			regex_t *pattern = cfg_opt_getnptr(opt, j);
 
-			if (match(pattern, command))
-				return true;
+			matched = match(pattern, fields);
 		}
+		free(fields);
+		if (matched)
+			return true;
 	}
 	return false;
 }
@@ -129,6 +137,23 @@ is_authorized(const char * restrict identity, const char * restrict command)
  * Static functions.
  */
 
+/*
+ * Return a copy of the command with any additional field separators replaced,
+ * so that a host or service pattern cannot match more than a single field.
+ */
+static char *
+merge_fields(const char *command, int n_separators)
+{
+	char *copy = xstrdup(command);
+	char *p;
+
+	for (p = copy; (p = strchr(p, ';')) != NULL; p++)
+		if (n_separators-- <= 0)
+			*p = ' ';
+
+	return copy;
+}
+
 static bool
 match(regex_t * restrict pattern, const char * restrict command)
 {
-- 
2.43.0


From 984dbb5ba0da986571099b6d8123f6beea0421b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:29 +0000
Subject: [PATCH 07/35] fix: Use pushed data received together with the PUSH
 line

If a client sent (part of) the pushed data in the same TLS record as the
preceding request line, these data were left in the line buffer and the
server waited for further bytes instead.
---
 src/common/tls.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 9b89bce..4a0fdfa 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -832,15 +832,19 @@ static char *
 read_bytes(tls_state *tls)
 {
 	char *bytes = NULL;
-	int n, n_todo;
+	int n = 0, n_todo;
 
-	if (tls->input == NULL)
+	if (tls->input == NULL) {
 		tls->input = xmalloc(tls->input_size + 1); /* 1 for '\0'. */
+		/* Some bytes may have been received with the previous line. */
+		tls->input_offset = buffer_read(tls->input_buffer, tls->input,
+		    tls->input_size);
+	}
 	do {
 		n_todo = (int)(tls->input_size - tls->input_offset);
 
-		if ((n = SSL_read(tls->ssl, tls->input + tls->input_offset,
-		    n_todo)) <= 0) {
+		if (n_todo > 0 && (n = SSL_read(tls->ssl,
+		    tls->input + tls->input_offset, n_todo)) <= 0) {
 			debug("Received 0 of %d bytes from %s", n_todo,
 			    tls->peer);
 			check_tls_error(EV_DEFAULT_UC_ &tls->read_watcher, n);
-- 
2.43.0


From 7ca00e39110adee46e06e0753efe4b7ef9176a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 08/35] fix: Close the temporary file if writing it failed

---
 src/server/fifo.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index df044ec..de8f1aa 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -402,14 +402,16 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 	fifo->free_aio_buf((void *)fifo->async_cb.aio_buf);
 	fifo->async_cb.aio_buf = NULL;
 
-	if ((result = aio_error(&fifo->async_cb)) != 0)
+	if ((result = aio_error(&fifo->async_cb)) != 0) {
 		error("Cannot write to %s: %s", fifo->dump_file,
 		    strerror(result));
-	else if ((n = aio_return(&fifo->async_cb))
-	    != (ssize_t)fifo->async_cb.aio_nbytes) /* Presumably an error. */
+		(void)close_dump_file(fifo);
+	} else if ((n = aio_return(&fifo->async_cb))
+	    != (ssize_t)fifo->async_cb.aio_nbytes) { /* Presumably an error. */
 		error("Wrote %zd instead of %zu bytes to %s", n,
 		    fifo->async_cb.aio_nbytes, fifo->dump_file);
-	else {
+		(void)close_dump_file(fifo);
+	} else {
 		char *command = make_process_file_command(fifo);
 
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
-- 
2.43.0


From 270eaac97482442a039ab1d422d7fd88306c4a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 09/35] fix: Clear the OpenSSL error queue after a failed TLS
 shutdown

A client which sends a close notification during the TLS handshake makes
SSL_shutdown() fail.  The error was left in the queue, so that the next
I/O operation which had to be retried was mistaken for a TLS error and
another client's session was aborted.
---
 src/common/tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index 4a0fdfa..ef7dba2 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -948,6 +948,8 @@ check_tls_error(EV_P_ ev_io *w, int code)
 	case SSL_ERROR_ZERO_RETURN:
 		warning_f("%s closed the TLS connection", peer);
 		(void)SSL_shutdown(tls->ssl); /* Try to send `close notify'. */
+		/* Don't let a failure confuse the error checks of other sessions. */
+		ERR_clear_error();
 		break;
 	case SSL_ERROR_SSL:
 		if (ERR_peek_error() != 0)
-- 
2.43.0


From 45b7881ec18733511d8450aea0a49577a8448e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 10/35] fix: Close connections that are dropped right after
 accepting them

If the peer's address cannot be determined (because the client reset the
connection in the meantime), the BIO is not yet owned by an SSL object,
so its descriptor was leaked.
---
 src/common/tls.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/common/tls.c b/src/common/tls.c
index ef7dba2..594832b 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -536,6 +536,8 @@ tls_free(tls_state *tls)
 		free(tls->peer);
 	if (tls->ssl != NULL)
 		SSL_free(tls->ssl);
+	else if (tls->bio != NULL)
+		BIO_free_all(tls->bio);
 
 	free(tls);
 }
-- 
2.43.0


From c560648d0f410577e0be73bb2ec03910d38f7dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 11/35] fix: Keep the listening socket on restart when socket
 activated

On SIGHUP, the server executes itself, but libsystemd sets FD_CLOEXEC on
the socket passed in by systemd, so the new image found LISTEN_FDS set
but no socket and exited.  Clear the flag, and close what else has been
inherited, as it is done if the server wasn't socket activated.
---
 src/server/nsca-ng.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index b14a1cf..fed49ee 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -82,7 +82,7 @@ static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
 static options *get_options(int, char **);
 static void free_options(options *);
-static void close_descriptors(void);
+static void close_descriptors(int);
 static void drop_privileges(const char *, const char *);
 static void remove_pidfile(void);
 static void forget_config(void);
@@ -107,10 +107,11 @@ main(int argc, char **argv)
 		die("Cannot receive socket from init system: %m");
 	else if (socket_activated > 1)
 		die("Received too many sockets from init system");
-	else if (socket_activated == 1)
+	else if (socket_activated == 1) {
 		log_set(-1, LOG_TARGET_SYSTEMD);
-	else /* socket_activated == 0 */
-		close_descriptors();
+		close_descriptors(SD_LISTEN_FDS_START + 1);
+	} else /* socket_activated == 0 */
+		close_descriptors(STDERR_FILENO + 1);
 
 	if (atexit(log_close) != 0 || atexit(forget_config) != 0)
 		die("Cannot register function to be called on exit");
@@ -230,6 +231,9 @@ main(int argc, char **argv)
 		remove_pidfile();
 		forget_config();
 		stop_keep_alive();
+		/* Hand over the socket, sd_listen_fds(3) set FD_CLOEXEC. */
+		if (socket_activated)
+			(void)fcntl(SD_LISTEN_FDS_START, F_SETFD, 0);
 		execvp(argv[0], argv);
 		die("Cannot restart myself: %m");
 	}
@@ -329,10 +333,8 @@ free_options(options *opt)
 }
 
 static void
-close_descriptors(void)
+close_descriptors(int min_fd)
 {
-	int min_fd = STDERR_FILENO + 1;
-
 #if HAVE_CLOSEFROM /* BSD and Solaris. */
 	(void)closefrom(min_fd);
 #elif defined(F_CLOSEM) /* AIX and IRIX. */
-- 
2.43.0


From 0b534a7c2f3fe167ed4df04768515e94b8b1b25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 12/35] fix: Don't lose SIGTERM or SIGINT arriving together
 with SIGHUP

The first signal handled stopped the watchers of the others, so if a
SIGHUP was pending at the same time, the server restarted and went on
running.
---
 src/server/nsca-ng.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/server/nsca-ng.c b/src/server/nsca-ng.c
index fed49ee..00cb5aa 100644
--- a/src/server/nsca-ng.c
+++ b/src/server/nsca-ng.c
@@ -77,6 +77,7 @@ static cfg_t *cfg = NULL;
 static struct pidfh *pfh = NULL;
 static char *pid_file = NULL;
 static bool restart = false;
+static bool terminate = false;
 static ev_timer keep_alive_watcher;
 static ev_signal sighup_watcher, sigint_watcher, sigterm_watcher;
 
@@ -223,9 +224,13 @@ main(int argc, char **argv)
 
 	(void)ev_run(EV_DEFAULT_UC_ 0);
 
+	ev_signal_stop(EV_DEFAULT_UC_ &sighup_watcher);
+	ev_signal_stop(EV_DEFAULT_UC_ &sigint_watcher);
+	ev_signal_stop(EV_DEFAULT_UC_ &sigterm_watcher);
+
 	server_stop(server);
 	free_options(opt);
-	if (restart) {
+	if (restart && !terminate) {
 		notice("Restarting");
 		/* The atexit(3) functions won't be called on exec(3). */
 		remove_pidfile();
@@ -445,10 +450,6 @@ signal_cb(EV_P_ ev_signal *w, int revents __attribute__((__unused__)))
 {
 	const char *sig_string;
 
-	ev_signal_stop(EV_A_ &sighup_watcher);
-	ev_signal_stop(EV_A_ &sigint_watcher);
-	ev_signal_stop(EV_A_ &sigterm_watcher);
-
 	switch (w->signum) {
 	case SIGHUP:
 		sig_string = "SIGHUP";
@@ -466,8 +467,11 @@ signal_cb(EV_P_ ev_signal *w, int revents __attribute__((__unused__)))
 
 	ev_break(EV_A_ EVBREAK_ALL);
 
+	/* Other signals may be pending, don't let SIGHUP discard those. */
 	if (w->signum == SIGHUP)
 		restart = true;
+	else
+		terminate = true;
 }
 
 static void
-- 
2.43.0


From 4fe5ceed4eed49ab5212bc5d3b1341863cacc4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:39 +0000
Subject: [PATCH 13/35] fix: Include files with quotes or backslashes in their
 names

---
 src/server/conf.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/server/conf.c b/src/server/conf.c
index 9e4c6f8..aa96668 100644
--- a/src/server/conf.c
+++ b/src/server/conf.c
@@ -157,12 +157,22 @@ conf_parse(const char *path)
 static int
 parse_include(cfg_t * restrict cfg, const char * restrict path)
 {
-	char *include_statement;
+	char *include_statement, *quoted_path, *out;
+	const char *in;
 	int status;
 
-	xasprintf(&include_statement, "include('%s')", path);
+	out = quoted_path = xmalloc(strlen(path) * 2 + 1);
+	for (in = path; *in != '\0'; in++) {
+		if (*in == '\'' || *in == '\\')
+			*out++ = '\\';
+		*out++ = *in;
+	}
+	*out = '\0';
+
+	xasprintf(&include_statement, "include('%s')", quoted_path);
 	status = cfg_parse_buf(cfg, include_statement);
 	free(include_statement);
+	free(quoted_path);
 	return status;
 }
 
-- 
2.43.0


From f2cf22b63dcabed534b3098735ca1c68b918692e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 14/35] fix: don't busy-wait for the TCP connection, so that
 the timeout applies to it

---
 src/common/tls.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 594832b..1d38b7b 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -562,10 +562,19 @@ connect_cb(EV_P_ ev_io *w, int revents)
 
 	if (result <= 0) {
 		debug("TLS connection not (yet) established");
-		if (revents & EV_CUSTOM) {
+		/*
+		 * While the TCP connection isn't established, we must wait for
+		 * the socket to become writable: calling SSL_connect() earlier
+		 * would let some versions of OpenSSL busy-wait until then.  If
+		 * there's another address to try, the socket is a new one.
+		 */
+		if (revents & EV_CUSTOM || SSL_get_error(tls->ssl, result)
+		    == SSL_ERROR_WANT_CONNECT) {
+			if (ev_is_active(w))
+				ev_io_stop(EV_A_ w);
+			tls->fd = (int)BIO_get_fd(tls->bio, NULL);
 			ev_io_set(w, tls->fd, EV_WRITE);
-			ev_io_start(EV_A_ &tls->init_watcher);
-			ev_feed_event(EV_A_ &tls->init_watcher, EV_WRITE);
+			ev_io_start(EV_A_ w);
 		}
 		check_tls_error(EV_A_ w, result);
 	} else {
-- 
2.43.0


From 7177fb53a206033410c82ad705341bdc9ac51cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 15/35] fix: do not split check results at the "n" of an
 escaped newline

---
 src/client/parse.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/client/parse.c b/src/client/parse.c
index b37be8e..653966a 100644
--- a/src/client/parse.c
+++ b/src/client/parse.c
@@ -82,7 +82,9 @@ parse_check_result(const char *input, char delimiter)
 	n = 1;
 
 	for (pos = 0; n < 4 && input[pos] != '\0'; pos++)
-		if (input[pos] == delimiter) {
+		if (input[pos] == '\\')
+			pos++; /* Don't mistake the "n" of "\n" for a delimiter. */
+		else if (input[pos] == delimiter) {
 			lengths[n - 1] = pos - start_pos;
 			debug("Check result field %d has %d characters (%d-%d)",
 			    n, lengths[n - 1], start_pos, pos - 1);
-- 
2.43.0


From b56716a69a5054f1183db18fd4b95c9eae9f0553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 16/35] fix: send_nsca.cfg: handle a backslash near the end of
 the file

---
 src/client/conf.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index deb53f7..86d8601 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -302,9 +302,10 @@ read_conf_line(FILE *f)
 			line = xrealloc(line, size *= 2);
 		else {
 			line_number++;
-			if (pos >= 2) {
+			if (pos >= 2 && line[pos - 1] == '\n') {
 				if (line[pos - 2] == '\\') {
 					pos -= 2;
+					line[pos] = '\0';
 					continue;
 				}
 				if (line[pos - 2] == '\r') {
-- 
2.43.0


From 86991d703acbf5ba5350575c91fa7c05c422e926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 17/35] fix: send_nsca.cfg: accept a comment right after an
 unquoted value

---
 src/client/conf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client/conf.c b/src/client/conf.c
index 86d8601..0be354c 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -256,6 +256,8 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 		/*
 		 * Check the end of the line.
 		 */
+		if (done && quote_sign == 0 && in[-1] == '#')
+			in--; /* The comment may follow the value immediately. */
 		token = skip_whitespace(in);
 
 		if (*token != '\0' && *token != '#')
-- 
2.43.0


From 2b2011a864574411dabf1413abf9a2a84f4e960d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:55 +0000
Subject: [PATCH 18/35] fix: send_nsca.cfg: reject an empty string where a
 number is expected

---
 src/client/conf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client/conf.c b/src/client/conf.c
index 0be354c..2981597 100644
--- a/src/client/conf.c
+++ b/src/client/conf.c
@@ -275,7 +275,7 @@ parse_conf_file(const char * restrict path, conf * restrict cfg)
 			char *end;
 			long num = strtol(value, &end, 0);
 
-			if (*end != '\0')
+			if (end == value || *end != '\0')
 				die("%s:%lu: Nonnumeric value assigned to `%s'",
 				    path, line_number, c->key);
 
-- 
2.43.0


From 5242c7519c340d30df766f40b5b5f7706ece407f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:28 +0000
Subject: [PATCH 19/35] fix: don't busy-loop while a TLS connection can neither
 be read nor written

With both watchers active, read_cb() and write_cb() kept feeding events for
each other, so a peer which doesn't read what it's sent could hang the whole
process, and no timeout would ever strike.
---
 src/common/tls.c | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 1d38b7b..0dbf9c8 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -60,10 +60,11 @@
  *   stream and vice versa (i.e., there's only a single state of an SSL
  *   connection), such a call has to be followed by a check whether the `ev_io'
  *   watcher for the opposite I/O direction is currently active.  If so, we use
- *   ev_feed_event() to feed the event that watcher is waiting for into the
- *   event loop (we check the `events' member of the `ev_io' struct to find out
- *   whether it's EV_READ or EV_WRITE).  This forces an SSL_read()/SSL_write()
- *   call, which updates the state of that stream.
+ *   ev_feed_event() to feed an EV_CUSTOM event for that watcher into the event
+ *   loop.  This forces an SSL_read()/SSL_write() call, which updates the state
+ *   of that stream.  If a callback is invoked solely due to an EV_CUSTOM event,
+ *   it doesn't feed another one, as the two callbacks would otherwise keep on
+ *   invoking each other while neither of them can make any progress.
  *
  * For additional explanations, see the relevant OpenSSL man pages and the
  * following thread:
@@ -658,12 +659,13 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+read_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	char *data;
 
-	reset_watcher_state(EV_A_ &tls->write_watcher);
+	if (revents != EV_CUSTOM)
+		reset_watcher_state(EV_A_ &tls->write_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	data = tls->read_mode == READ_LINE ? read_line(tls) : read_bytes(tls);
@@ -675,12 +677,13 @@ read_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 }
 
 static void
-write_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
+write_cb(EV_P_ ev_io *w, int revents)
 {
 	tls_state *tls = w->data;
 	int n;
 
-	reset_watcher_state(EV_A_ &tls->read_watcher);
+	if (revents != EV_CUSTOM)
+		reset_watcher_state(EV_A_ &tls->read_watcher);
 	tls->last_activity = ev_now(EV_A);
 
 	do {
@@ -900,7 +903,7 @@ reset_watcher_state(EV_P_ ev_io *w)
 	if (ev_is_active(w)) {
 		debug("Resetting %s watcher state for %s",
 		    w == &tls->read_watcher ? "input" : "output", tls->peer);
-		ev_feed_event(EV_A_ w, w->events);
+		ev_feed_event(EV_A_ w, EV_CUSTOM);
 	}
 }
 
-- 
2.43.0


From 3add697dce779bd0b34343fcea61b8b58529ef69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:57 +0000
Subject: [PATCH 20/35] fix: Perl and Python modules: don't truncate long
 results or overrun the buffer

---
 perl/client.c   | 53 +++++++++++++++++++++++++++++++++----------------
 python/client.c | 31 ++++++++++++++++++++---------
 2 files changed, 58 insertions(+), 26 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 18f0ef4..47a09b2 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -346,26 +346,30 @@ has_timestamp_prefix(const char *s)
 int
 nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
 {
-   const int command_len = strlen(command);
-	char command_buf[1024];
+	const size_t size = strlen(command) + 32;
+	char *command_buf;
 	char cmd[32];
 	int rc, len;
 
+	if ((command_buf = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
    switch( has_timestamp_prefix(command) ) {
       case 0 :
          // There was no timestamp. Add one.
-         snprintf(command_buf, sizeof(command_buf)-1, "[%u] %s", (unsigned int)time(NULL), command);
+         snprintf(command_buf, size, "[%u] %s", (unsigned int)time(NULL), command);
          break;
       case 1 :
          // Timestamp found, just copy everything
-         strncpy(command_buf, command, sizeof(command_buf)-1);
-         command_buf[sizeof(command_buf)-1] = '\0';
+         strcpy(command_buf, command);
          break;
       default :
          // Malformed timestamp
          c->_errno = NSCANG_ERROR_FAIL;
          snprintf(c->errstr, sizeof(c->errstr), "invalid time stamp format in command `%s'", command);
-         return 0;
+         goto fail;
    }
 
    /* make sure command_buf is newline-terminated */
@@ -377,54 +381,69 @@ nscang_client_send_command(nscang_client_t *c, const char *command, int timeout)
    }
 
 	if (!nscang_client_send_moin(c, timeout))
-      return 0;
+      goto fail;
 
    snprintf(cmd, sizeof(cmd), "PUSH %d\r\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
-      return 0;
+      goto fail;
 
 	rc = nscang_client_response(c, timeout);
 
 	if (!rc)
-      return 0;
+      goto fail;
 
 	if (rc != NSCANG_RESP_OKAY) {
 		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-      return 0;
+      goto fail;
 	}
 
 	if (!nscang_client_write(c, command_buf, len, timeout))
-      return 0;
+      goto fail;
 
 	rc = nscang_client_response(c, timeout);
 
 	if (!rc)
-      return 0;
+      goto fail;
 
 	if (rc != NSCANG_RESP_OKAY) {
 		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-      return 0;
+      goto fail;
 	}
 
+   free(command_buf);
    return 1;
+
+fail:
+   free(command_buf);
+   return 0;
 }
 
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char command[1024];
+	const size_t size = strlen(host) + (service != NULL ? strlen(service) : 0) +
+	    strlen(message) + 64;
+	char *command;
+	int rc;
+
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
 
 	if (service == NULL)
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
             host, status, message);
 	else
-      snprintf(command, sizeof(command) - 1,
+      snprintf(command, size,
             "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
             host, service, status, message);
 
-   return nscang_client_send_command(c, command, timeout);
+   rc = nscang_client_send_command(c, command, timeout);
+   free(command);
+   return rc;
 }
 
 int
diff --git a/python/client.c b/python/client.c
index 12747b9..0d063e7 100644
--- a/python/client.c
+++ b/python/client.c
@@ -369,18 +369,26 @@ int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char cmd[64], command[1024];
+	char cmd[64], *command;
+	size_t size;
 	int len, rc;
 
 	if (!nscang_client_send_moin(c, timeout))
 		return 0;
 
+	size = strlen(host) + (service != NULL ? strlen(service) : 0) +
+	    strlen(message) + 128;
+	if ((command = malloc(size)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
 	if (service == NULL)
-		len = snprintf(command, sizeof(command) - 1,
+		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
 		    (unsigned int)time(NULL), host, status, message);
 	else
-		len = snprintf(command, sizeof(command) - 1,
+		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
 		    (unsigned int)time(NULL), host, service, status, message);
 
@@ -388,32 +396,37 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
 	if (!nscang_client_write(c, cmd, strlen(cmd), timeout))
-		return 0;
+		goto fail;
 
 	rc = nscang_client_response(c, timeout);
 
 	if (!rc)
-		return 0;
+		goto fail;
 
 	if (rc != NSCANG_RESP_OKAY) {
 		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-		return 0;
+		goto fail;
 	}
 
 	if (!nscang_client_write(c, command, len, timeout))
-		return 0;
+		goto fail;
 
 	rc = nscang_client_response(c, timeout);
 
 	if (!rc)
-		return 0;
+		goto fail;
 
 	if (rc != NSCANG_RESP_OKAY) {
 		c->_errno = NSCANG_ERROR_PROTOCOL_MISMATCH;
-		return 0;
+		goto fail;
 	}
 
+	free(command);
 	return 1;
+
+fail:
+	free(command);
+	return 0;
 }
 
 int
-- 
2.43.0


From 0c5997338bb6a970aef1a9a1fa71c995192e3141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 21/35] fix: Perl and Python modules: escape newlines and
 backslashes in results

---
 perl/client.c   | 53 ++++++++++++++++++++++++++++++++++++++++++++-----
 python/client.c | 50 ++++++++++++++++++++++++++++++++++++++++++----
 2 files changed, 94 insertions(+), 9 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 47a09b2..8e0df07 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -418,16 +418,58 @@ fail:
    return 0;
 }
 
+/*
+ * Strip trailing newlines, escape the other ones and the backslashes, as
+ * send_nsca(8) does.
+ */
+static char *
+escape(const char *input)
+{
+	const char *in, *end;
+	char *escaped, *out;
+
+	end = input + strlen(input);
+	while (end > input && end[-1] == '\n')
+		end--;
+
+	if ((escaped = malloc(2 * (end - input) + 1)) == NULL)
+		return NULL;
+
+	for (in = input, out = escaped; in < end; in++)
+		switch (*in) {
+		case '\\':
+			*out++ = '\\';
+			*out++ = '\\';
+			break;
+		case '\n':
+			*out++ = '\\';
+			*out++ = 'n';
+			break;
+		default:
+			*out++ = *in;
+		}
+
+	*out = '\0';
+	return escaped;
+}
+
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	const size_t size = strlen(host) + (service != NULL ? strlen(service) : 0) +
-	    strlen(message) + 64;
-	char *command;
+	size_t size;
+	char *command, *escaped;
 	int rc;
 
+	if ((escaped = escape(message)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
+	size = strlen(host) + (service != NULL ? strlen(service) : 0) +
+	    strlen(escaped) + 64;
 	if ((command = malloc(size)) == NULL) {
+		free(escaped);
 		c->_errno = NSCANG_ERROR_MALLOC;
 		return 0;
 	}
@@ -435,12 +477,13 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 	if (service == NULL)
       snprintf(command, size,
             "PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
-            host, status, message);
+            host, status, escaped);
 	else
       snprintf(command, size,
             "PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
-            host, service, status, message);
+            host, service, status, escaped);
 
+   free(escaped);
    rc = nscang_client_send_command(c, command, timeout);
    free(command);
    return rc;
diff --git a/python/client.c b/python/client.c
index 0d063e7..c9309d4 100644
--- a/python/client.c
+++ b/python/client.c
@@ -365,20 +365,61 @@ nscang_client_send_moin(nscang_client_t *c, int timeout)
 	return 1;
 }
 
+/*
+ * Strip trailing newlines, escape the other ones and the backslashes, as
+ * send_nsca(8) does.
+ */
+static char *
+escape(const char *input)
+{
+	const char *in, *end;
+	char *escaped, *out;
+
+	end = input + strlen(input);
+	while (end > input && end[-1] == '\n')
+		end--;
+
+	if ((escaped = malloc(2 * (end - input) + 1)) == NULL)
+		return NULL;
+
+	for (in = input, out = escaped; in < end; in++)
+		switch (*in) {
+		case '\\':
+			*out++ = '\\';
+			*out++ = '\\';
+			break;
+		case '\n':
+			*out++ = '\\';
+			*out++ = 'n';
+			break;
+		default:
+			*out++ = *in;
+		}
+
+	*out = '\0';
+	return escaped;
+}
+
 int
 nscang_client_send_push(nscang_client_t *c, char *host, char *service,
                         int status, char *message, int timeout)
 {
-	char cmd[64], *command;
+	char cmd[64], *command, *escaped;
 	size_t size;
 	int len, rc;
 
 	if (!nscang_client_send_moin(c, timeout))
 		return 0;
 
+	if ((escaped = escape(message)) == NULL) {
+		c->_errno = NSCANG_ERROR_MALLOC;
+		return 0;
+	}
+
 	size = strlen(host) + (service != NULL ? strlen(service) : 0) +
-	    strlen(message) + 128;
+	    strlen(escaped) + 128;
 	if ((command = malloc(size)) == NULL) {
+		free(escaped);
 		c->_errno = NSCANG_ERROR_MALLOC;
 		return 0;
 	}
@@ -386,12 +427,13 @@ nscang_client_send_push(nscang_client_t *c, char *host, char *service,
 	if (service == NULL)
 		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_HOST_CHECK_RESULT;%s;%d;%s",
-		    (unsigned int)time(NULL), host, status, message);
+		    (unsigned int)time(NULL), host, status, escaped);
 	else
 		len = snprintf(command, size - 1,
 		    "[%u] PROCESS_SERVICE_CHECK_RESULT;%s;%s;%d;%s",
-		    (unsigned int)time(NULL), host, service, status, message);
+		    (unsigned int)time(NULL), host, service, status, escaped);
 
+	free(escaped);
 	command[len++] = '\n';
 
 	snprintf(cmd, sizeof(cmd), "PUSH %d\n", len);
-- 
2.43.0


From 07229456495da24ab2f3b0d0290c397dc5c35913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 22/35] fix: Perl and Python modules: don't read before the
 buffer if the server sends an empty line

---
 perl/client.c   | 2 +-
 python/client.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index 8e0df07..17ef2eb 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -206,7 +206,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
diff --git a/python/client.c b/python/client.c
index c9309d4..5a460d8 100644
--- a/python/client.c
+++ b/python/client.c
@@ -244,7 +244,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			ptr = buf + was_read;
 
 			if (buf[was_read - 1] == '\n') {
-				if (buf[was_read - 2] == '\r')
+				if (was_read > 1 && buf[was_read - 2] == '\r')
 					buf[was_read - 2] = 0x00;
 				else
 					buf[was_read - 1] = 0x00;
-- 
2.43.0


From fbcf1812489b34ddc81c11a8c6f61c4904bc79fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 23/35] fix: Perl module: don't use the server's reply as a
 format string

---
 perl/Client.xs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 0af06a2..2d992d3 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -218,4 +218,4 @@ command(self, command)
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
 
-   croak(errstr);
+   croak("%s", errstr);
-- 
2.43.0


From ddf0f223a11d1bc2e6dd8811545903b22ce686ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 24/35] fix: Perl module: don't reject a valid time stamp
 because of an earlier error

---
 perl/client.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/perl/client.c b/perl/client.c
index 17ef2eb..dc990f6 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -337,6 +337,7 @@ has_timestamp_prefix(const char *s)
 
    if(*s++ != '[') return 0;
    if((*s < '0') || (*s > '9')) return -1; // counter strtol's skip-whitespace and sign permissiveness
+   errno = 0;
    (void)strtol(s, &end, 10); // discard result
    if(errno) return -1;
    if(*end == ']') return 1;
-- 
2.43.0


From d320b1f7a05c2fefe8afef7ee27bdfaea5f27d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:34 +0000
Subject: [PATCH 25/35] fix: Python module: don't crash if the constructor
 fails

---
 python/nscang.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/nscang.c b/python/nscang.c
index 1fd59d9..59b5408 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -149,7 +149,10 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 static void
 NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 {
-	nscang_client_free(self->client);
+	if (self->client != NULL) {
+		nscang_client_free(self->client);
+		free(self->client);
+	}
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From 430f818f1b1e5758c8a9af9c936e12fccc6b34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 26/35] fix: Python module: don't take a late reply for the
 reply to the next result

---
 python/nscang.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index 59b5408..b525e28 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -72,8 +72,9 @@ nscang_host_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "host_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+	nscang_client_disconnect(client);
+	PyErr_Format(PyExc_RuntimeError, "host_result: %s", errstr);
 	return NULL;
 }
 
@@ -106,8 +107,9 @@ nscang_svc_result(PyObject *self, PyObject *args, PyObject *kwds)
 		return Py_None;
 	}
 
-	PyErr_Format(PyExc_RuntimeError, "svc_result: %s",
-	    nscang_client_errstr(client, errstr, sizeof(errstr)));
+	nscang_client_errstr(client, errstr, sizeof(errstr));
+	nscang_client_disconnect(client);
+	PyErr_Format(PyExc_RuntimeError, "svc_result: %s", errstr);
 	return NULL;
 }
 
-- 
2.43.0


From 4667df75180ec6fa84a3ce8a80744b009a319aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 27/35] fix: Python module: don't let the host attribute point
 to freed memory

---
 python/nscang.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/nscang.c b/python/nscang.c
index b525e28..5131774 100644
--- a/python/nscang.c
+++ b/python/nscang.c
@@ -120,17 +120,25 @@ NSCAngNotifyer_init(NSCAngNotifyer *self, PyObject *args, PyObject *kwds)
 	static char *kwlist[] = { "host", "port", "identity", "psk", "ciphers",
 	    NULL };
 
-	self->host = NULL;
+	char *host = NULL;
+
 	self->port = 5668;
 	self->identity = NULL;
 	self->psk = NULL;
 	self->ciphers = NULL;
 
 	if (!PyArg_ParseTupleAndKeywords(args, kwds, "sIss|s:__init__", kwlist,
-	    &self->host, &self->port, &self->identity,
+	    &host, &self->port, &self->identity,
 	    &self->psk, &self->ciphers))
 		return -1;
 
+	free(self->host);
+	self->host = strdup(host);
+	if (self->host == NULL) {
+		PyErr_NoMemory();
+		return -1;
+	}
+
 	self->client = malloc(sizeof(nscang_client_t));
 	if (self->client == NULL) {
 		PyErr_Format(PyExc_MemoryError,
@@ -155,6 +163,7 @@ NSCAngNotifyer_dealloc(NSCAngNotifyer *self)
 		nscang_client_free(self->client);
 		free(self->client);
 	}
+	free(self->host);
 	Py_TYPE(self)->tp_free((PyObject *)self);
 }
 
-- 
2.43.0


From b662985c62780afb783419ea9eec5233695abf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 28/35] fix: Perl module: don't let SIGPIPE kill the process if
 the server closed the connection

---
 perl/Client.xs | 38 +++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 2d992d3..8ef8bfc 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -1,5 +1,6 @@
 // vim:set cindent:
 #include <openssl/ssl.h>
+#include <signal.h>
 #include <string.h>
 #define PERL_NO_GET_CONTEXT
 #include "EXTERN.h"
@@ -81,6 +82,19 @@ static void free_object(nscang_object_t *o) {
    FREE_IF_SET(o->host);
 }
 
+// Writing to a connection closed by the server must not kill the process
+static void ignore_sigpipe(struct sigaction *saved) {
+   struct sigaction sa;
+
+   memset(&sa, 0, sizeof(sa));
+   sa.sa_handler = SIG_IGN;
+   sigaction(SIGPIPE, &sa, saved);
+}
+
+static void restore_sigpipe(const struct sigaction *saved) {
+   sigaction(SIGPIPE, saved, NULL);
+}
+
 MODULE = Net::NSCAng::Client		PACKAGE = Net::NSCAng::Client
 
 PROTOTYPES: DISABLE
@@ -126,7 +140,11 @@ DESTROY(self)
    Net::NSCAng::Client self
    CODE:
       if(self) {
+         struct sigaction sa;
+
+         ignore_sigpipe(&sa);
 	      nscang_client_free(&(self->client));
+         restore_sigpipe(&sa);
          free_object(self);
          Safefree(self);
       }
@@ -144,6 +162,7 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    char *cnode_name = self->node_name;
    char *csvc_description = self->svc_description;
    char errstr[1024];
+   struct sigaction sa;
    nscang_client_t *client = &self->client;
 
    if(!self->client_initialized)
@@ -165,16 +184,22 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    if(!cnode_name)
       croak("node_name missing");
 
+   ignore_sigpipe(&sa);
+
 	if(nscang_client_send_push(client,
-      cnode_name, csvc_description, return_code, plugin_output, self->timeout))
+      cnode_name, csvc_description, return_code, plugin_output, self->timeout)) {
+      restore_sigpipe(&sa);
       XSRETURN_UNDEF;
+   }
 
    if(client->_errno == NSCANG_ERROR_TIMEOUT) {
 	   nscang_client_disconnect(client);
 
       if(nscang_client_send_push(client,
-               cnode_name, csvc_description, return_code, plugin_output, self->timeout))
+               cnode_name, csvc_description, return_code, plugin_output, self->timeout)) {
+         restore_sigpipe(&sa);
          XSRETURN_UNDEF;
+      }
    }
 
    // Retrieve the error description
@@ -182,6 +207,7 @@ _result(self, is_host_result, node_name, svc_description, return_code, plugin_ou
    // Remember to reinitialize the client text time through
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
+   restore_sigpipe(&sa);
 
    RETVAL = newSVpv(errstr, 0);
    OUTPUT:
@@ -195,6 +221,7 @@ command(self, command)
    CODE:
    char errstr[1024];
    char *ccommand;
+   struct sigaction sa;
    nscang_client_t *client = &self->client;
 
    if(!self->client_initialized)
@@ -206,8 +233,12 @@ command(self, command)
       croak("command missing");
    }
 
-	if(nscang_client_send_command(client, ccommand, self->timeout))
+   ignore_sigpipe(&sa);
+
+	if(nscang_client_send_command(client, ccommand, self->timeout)) {
+      restore_sigpipe(&sa);
       XSRETURN_UNDEF;
+   }
 
    if(client->_errno == NSCANG_ERROR_TIMEOUT)
 	   nscang_client_disconnect(client);
@@ -217,5 +248,6 @@ command(self, command)
    // Remember to reinitialize the client text time through
    self->client_initialized = 0;
    nscang_client_free(&(self->client));
+   restore_sigpipe(&sa);
 
    croak("%s", errstr);
-- 
2.43.0


From 55d8ab832e09625e554c9980bfe59107f76f250c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:25 +0000
Subject: [PATCH 29/35] fix: Perl and Python modules: don't resume the old TLS
 session when reconnecting

---
 perl/client.c   | 1 +
 python/client.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/perl/client.c b/perl/client.c
index dc990f6..c4a9090 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -287,6 +287,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* Don't resume, use the key again. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
diff --git a/python/client.c b/python/client.c
index 5a460d8..ec7f7f4 100644
--- a/python/client.c
+++ b/python/client.c
@@ -325,6 +325,7 @@ nscang_client_disconnect(nscang_client_t *c)
 	}
 
 	SSL_clear(c->ssl);
+	SSL_set_session(c->ssl, NULL); /* Don't resume, use the key again. */
 	BIO_reset(c->bio);
 
 	c->state = NSCANG_STATE_NEW;
-- 
2.43.0


From 66bd0cb17d1a41ef78ed77d2169840cb1cd253f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:21 +0000
Subject: [PATCH 30/35] fix: Perl/Python: use poll(2) instead of select(2)

The modules called FD_SET(3) with descriptors which may exceed FD_SETSIZE (so
they wrote beyond the fd_set on the stack in a process with many open files),
and select(2) with nfds = 1, so that the socket was never looked at.
---
 perl/client.c   | 45 ++++++++++++++++++++-------------------------
 python/client.c | 45 ++++++++++++++++++++-------------------------
 2 files changed, 40 insertions(+), 50 deletions(-)

diff --git a/perl/client.c b/perl/client.c
index c4a9090..a9f3dee 100644
--- a/perl/client.c
+++ b/perl/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 
@@ -149,16 +150,27 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+wait_for_io(nscang_client_t *c, short events)
+{
+	struct pollfd pfd;
+
+	/* TLS may have to read in order to write, and vice versa. */
+	if (BIO_should_read(c->bio))
+		events = POLLIN;
+	else if (BIO_should_write(c->bio))
+		events = POLLOUT;
+
+	pfd.fd = (int)BIO_get_fd(c->bio, NULL);
+	pfd.events = events;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -176,9 +188,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c, POLLOUT);
 	}
 }
 
@@ -187,14 +197,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -228,9 +233,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_io(c, POLLIN);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -270,19 +273,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c, POLLOUT);
 		SSL_shutdown(c->ssl);
 	}
 
diff --git a/python/client.c b/python/client.c
index ec7f7f4..6b2e419 100644
--- a/python/client.c
+++ b/python/client.c
@@ -27,6 +27,7 @@
 
 #include <openssl/ssl.h>
 #include <openssl/err.h>
+#include <poll.h>
 #include <string.h>
 #include <time.h>
 #include <pthread.h>
@@ -187,16 +188,27 @@ nscang_client_free(nscang_client_t *c)
 	c->state = NSCANG_STATE_NONE;
 }
 
+static void
+wait_for_io(nscang_client_t *c, short events)
+{
+	struct pollfd pfd;
+
+	/* TLS may have to read in order to write, and vice versa. */
+	if (BIO_should_read(c->bio))
+		events = POLLIN;
+	else if (BIO_should_write(c->bio))
+		events = POLLOUT;
+
+	pfd.fd = (int)BIO_get_fd(c->bio, NULL);
+	pfd.events = events;
+	(void)poll(&pfd, 1, 100);
+}
+
 int
 nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -214,9 +226,7 @@ nscang_client_write(nscang_client_t *c, void *buf, int len, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c, POLLOUT);
 	}
 }
 
@@ -225,14 +235,9 @@ nscang_client_response(nscang_client_t *c, int timeout)
 {
 	int rc;
 	time_t endtime;
-	fd_set fdset;
 	char buf[1024];
 	int was_read = 0;
 	char *ptr = buf;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
 
 	endtime = time(NULL) + timeout;
 
@@ -266,9 +271,7 @@ nscang_client_response(nscang_client_t *c, int timeout)
 			return 0;
 		}
 
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, &fdset, NULL, NULL, &tv);
+		wait_for_io(c, POLLIN);
 	}
 
 	if (strncmp(buf, "MOIN", 4) == 0) {
@@ -308,19 +311,11 @@ nscang_client_response(nscang_client_t *c, int timeout)
 void
 nscang_client_disconnect(nscang_client_t *c)
 {
-	fd_set fdset;
-	struct timeval tv;
-
-	tv.tv_sec = 0;
-	tv.tv_usec = 100000;
-
 	if (c->state == NSCANG_STATE_MOIN)
 		nscang_client_send_quit(c);
 
 	if ((SSL_shutdown(c->ssl) == -1) && BIO_should_retry(c->bio)) {
-		FD_ZERO(&fdset);
-		FD_SET(BIO_get_fd(c->bio, NULL), &fdset);
-		select(1, NULL, &fdset, NULL, &tv);
+		wait_for_io(c, POLLOUT);
 		SSL_shutdown(c->ssl);
 	}
 
-- 
2.43.0


From d69871330ef0eea32a52d802c212429560fe2379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 31/35] fix: contrib: don't interpret backslashes in comments
 and plugin output

---
 contrib/acknowledge  | 4 ++--
 contrib/downtime     | 4 ++--
 contrib/invoke_check | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/contrib/acknowledge b/contrib/acknowledge
index 31debb5..a23cc43 100755
--- a/contrib/acknowledge
+++ b/contrib/acknowledge
@@ -57,10 +57,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host acknowledgement.
-	printf '%b' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_HOST_PROBLEM;$host;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service acknowledgement.
-	printf '%b' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment\n" \
+	printf '%s\n' "ACKNOWLEDGE_SVC_PROBLEM;$host;$service;1;0;1;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/downtime b/contrib/downtime
index fa173b2..a61e00c 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -73,10 +73,10 @@ comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
 if [ -z "$service" ]
 then	# Host check.
-	printf '%b' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_HOST_DOWNTIME;$host;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 else	# Service check.
-	printf '%b' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment\n" \
+	printf '%s\n' "SCHEDULE_SVC_DOWNTIME;$host;$service;$start;$end;1;0;0;$author;$comment" \
 	    | send_nsca -C $send_nsca_args
 fi
 
diff --git a/contrib/invoke_check b/contrib/invoke_check
index abe6341..ea71eaa 100755
--- a/contrib/invoke_check
+++ b/contrib/invoke_check
@@ -57,6 +57,6 @@ state=$?
 
 test $state -le 3 || die "$0: '$@' yields invalid plugin return code $state"
 
-printf '%b' "$host\t$service\t$state\t$output\n" | send_nsca $send_nsca_args
+printf '%s\t%s\t%s\t%s\n' "$host" "$service" "$state" "$output" | send_nsca $send_nsca_args
 
 # vim:set joinspaces noexpandtab textwidth=80:
-- 
2.43.0


From 649de0054da95f1a80253832d39582310e4fdd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:47 +0000
Subject: [PATCH 32/35] fix: contrib/downtime: accept start and end dates with
 blanks

---
 contrib/downtime | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/contrib/downtime b/contrib/downtime
index a61e00c..d49031f 100755
--- a/contrib/downtime
+++ b/contrib/downtime
@@ -66,8 +66,8 @@ test $# -eq 0 || usage
 
 host=${host:-`hostname -s`}
 service=${service:+$service}
-start=`date -d ${start:-'now'} '+%s'`
-end=`date -d ${end:-'+2 hours'} '+%s'`
+start=`date -d "${start:-now}" '+%s'`
+end=`date -d "${end:-+2 hours}" '+%s'`
 author=`getent passwd "$USER" | cut -d: -f5`
 comment=${comment:-"Submitted by send_nsca@`hostname -s`"}
 
-- 
2.43.0


From 5add3c4cade21f945632adca093d4df5a8a8b536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 33/35] fix: free the client-supplied ID if the TLS handshake
 fails

---
 src/common/tls.c  | 6 ++++--
 src/server/auth.c | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common/tls.c b/src/common/tls.c
index 0dbf9c8..ec9325b 100644
--- a/src/common/tls.c
+++ b/src/common/tls.c
@@ -535,9 +535,10 @@ tls_free(tls_state *tls)
 		free(tls->id);
 	if (tls->peer != NULL)
 		free(tls->peer);
-	if (tls->ssl != NULL)
+	if (tls->ssl != NULL) {
+		free(SSL_get_app_data(tls->ssl)); /* The handshake failed. */
 		SSL_free(tls->ssl);
-	else if (tls->bio != NULL)
+	} else if (tls->bio != NULL)
 		BIO_free_all(tls->bio);
 
 	free(tls);
@@ -650,6 +651,7 @@ accept_ssl_cb(EV_P_ ev_io *w, int revents __attribute__((__unused__)))
 			error("Cannot retrieve client identity");
 			tls_free(tls);
 		} else {
+			(void)SSL_set_app_data(tls->ssl, NULL); /* It's ours. */
 			xasprintf(&tls->peer, "%s@%s", tls->id, tls->addr);
 			debug("TLS handshake with %s successful", tls->peer);
 			ev_io_stop(EV_A_ w);
diff --git a/src/server/auth.c b/src/server/auth.c
index d66b740..f93cb3a 100644
--- a/src/server/auth.c
+++ b/src/server/auth.c
@@ -71,6 +71,7 @@ check_psk(SSL *ssl, const char *identity, unsigned char *password,
 	 * With (at least) OpenSSL 1.1.1b, SSL_get_psk_identity(3) returns NULL
 	 * when TLSv1.3 is used.  As a workaround, we store the ID ourselves:
 	 */
+	free(SSL_get_app_data(ssl)); /* We might get called more than once. */
 	if (SSL_set_app_data(ssl, xstrdup(identity)) != 1) {
 		error("Cannot store client-supplied ID (`%s')", identity);
 		return 0;
-- 
2.43.0


From 3b91589de199a033ee28792658f3e02c38ad82c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:48 +0000
Subject: [PATCH 34/35] fix: free the PROCESS_FILE command if the temporary
 file cannot be closed

---
 src/server/fifo.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/server/fifo.c b/src/server/fifo.c
index de8f1aa..da80d62 100644
--- a/src/server/fifo.c
+++ b/src/server/fifo.c
@@ -417,6 +417,8 @@ async_cb(EV_P_ ev_async *w, int revents __attribute__((__unused__)))
 		debug("Wrote %zd bytes to %s", n, fifo->dump_file);
 		if (close_dump_file(fifo))
 			fifo_write(fifo, command, strlen(command), free);
+		else
+			free(command);
 	}
 
 	if (buffers_exceed_pipe_size(fifo))
@@ -479,6 +481,8 @@ sync_dump_data(fifo_state *fifo)
 	command = make_process_file_command(fifo);
 	if (close_dump_file(fifo))
 		fifo_write(fifo, command, strlen(command), free);
+	else
+		free(command);
 }
 
 #endif
-- 
2.43.0


From 09e34a2fe4a9bb17c114ea96269d7bf61bf1bfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:24 +0000
Subject: [PATCH 35/35] fix: free the Perl object if its initialization fails

---
 perl/Client.xs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/perl/Client.xs b/perl/Client.xs
index 8ef8bfc..9ab325a 100644
--- a/perl/Client.xs
+++ b/perl/Client.xs
@@ -58,19 +58,25 @@ static int init_object(
    return 0;
 }
 
-static void init_client(nscang_object_t *o)
+static int try_init_client(nscang_object_t *o, char *errstr, size_t size)
 {
 
    // Initialize the client library
    if(!nscang_client_init(&o->client, o->host, o->port, o->ciphers, o->identity, o->psk)) {
-      char errstr[1024];
-
       nscang_client_free(&o->client);
-      croak("nscang_client_init: %s",
-            nscang_client_errstr(&o->client, errstr, sizeof(errstr))
-           );
+      nscang_client_errstr(&o->client, errstr, size);
+      return 0;
    }
    o->client_initialized = 1;
+   return 1;
+}
+
+static void init_client(nscang_object_t *o)
+{
+   char errstr[1024];
+
+   if(!try_init_client(o, errstr, sizeof(errstr)))
+      croak("nscang_client_init: %s", errstr);
 }
 
 static void free_object(nscang_object_t *o) {
@@ -116,6 +122,8 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
    int timeout
 
    CODE:
+      char errstr[1024];
+
       // Alloc new object
       Newxz(RETVAL, 1, nscang_object_t);
       if(!RETVAL)
@@ -128,10 +136,15 @@ _new(class, host, port, identity, psk, ciphers, node_name, svc_description, time
                SV_OR_NULL(svc_description), timeout)
         ) {
          free_object(RETVAL);
+         Safefree(RETVAL);
          croak("no memory for object");
       }
 
-      init_client(RETVAL);
+      if(!try_init_client(RETVAL, errstr, sizeof(errstr))) {
+         free_object(RETVAL);
+         Safefree(RETVAL);
+         croak("nscang_client_init: %s", errstr);
+      }
    OUTPUT:
       RETVAL
 
-- 
2.43.0

