From 7099501739d8e8bef6f4c96734570b8b76b1ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 1/8] fix: do not shut down a dispatcher which was never
 started

If dropping privileges or starting the dispatcher fails, dispatch_cookie is
still NULL and dispatch_shutdown() crashes instead of exiting with status 1.
---
 spiped/main.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spiped/main.c b/spiped/main.c
index 60110b2..80b3f10 100644
--- a/spiped/main.c
+++ b/spiped/main.c
@@ -391,7 +391,8 @@ main(int argc, char * argv[])
 	exit(0);
 
 err7:
-	dispatch_shutdown(dispatch_cookie);
+	if (dispatch_cookie != NULL)
+		dispatch_shutdown(dispatch_cookie);
 err6:
 	if ((s != -1) && close(s))
 		warnp("close");
-- 
2.43.0


From 0764aaa339906b807eb664a427641166fa608b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 2/8] fix: do not overflow when converting huge timeouts

A timeout of infinity (or anything else too large for a time_t) became a
deadline in the past, so e.g. 'spipe -o inf' failed immediately.
---
 libcperciva/events/events_timer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libcperciva/events/events_timer.c b/libcperciva/events/events_timer.c
index e4033bc..404ecaa 100644
--- a/libcperciva/events/events_timer.c
+++ b/libcperciva/events/events_timer.c
@@ -105,6 +105,13 @@ events_timer_register_double(int (* func)(void *), void * cookie,
 {
 	struct timeval tv;
 
+	/*
+	 * Cap the timeout at 10^9 seconds (over 30 years): larger values,
+	 * including infinity, might not be representable as a time_t.
+	 */
+	if (timeo > 1000000000.0)
+		timeo = 1000000000.0;
+
 	/* Convert timeo to a struct timeval. */
 	tv.tv_sec = (time_t)timeo;
 	tv.tv_usec = (suseconds_t)((timeo - (double)tv.tv_sec) * 1000000.0);
-- 
2.43.0


From de8917296d54cd03b1de1322dd1ede6f56a68879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:09 +0000
Subject: [PATCH 3/8] fix: reject NaN when parsing floating-point numbers

NaN is not between min and max; 'spiped -r nan' was accepted and made the
daemon re-resolve the target address in a busy loop.
---
 libcperciva/util/parsenum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index d8406c9..3a6db81 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -151,7 +151,7 @@ parsenum_float(const char * s, double min, double max, int trailing)
 	val = strtod(s, &eptr);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
-	else if ((val < min) || (val > max))
+	else if (!((val >= min) && (val <= max)))
 		errno = ERANGE;
 	return (val);
 }
-- 
2.43.0


From 38168a2a70f5b006005e4f8eed02af0900668e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 4/8] fix: accept port 0 in bracketed addresses

sock_addr_ensure_port() adds ":0" to a bind address without a port
(-b [127.0.0.1]), which sock_resolve() then refused.
---
 libcperciva/util/sock.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libcperciva/util/sock.c b/libcperciva/util/sock.c
index f86aea2..5b24c2c 100644
--- a/libcperciva/util/sock.c
+++ b/libcperciva/util/sock.c
@@ -280,7 +280,7 @@ sock_resolve(const char * addr)
 	ips[strlen(ips) - 1] = '\0';
 
 	/* Parse the port number in base 10, no trailing characters. */
-	if (PARSENUM_EX(&p, ports, 1, 65535, 10, 0)) {
+	if (PARSENUM_EX(&p, ports, 0, 65535, 10, 0)) {
 		warn0("Invalid port number: %s", ports);
 		goto err1;
 	}
-- 
2.43.0


From 5bfebe763eccb84984148759e8f85c142047c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:45 +0000
Subject: [PATCH 5/8] fix: reject negative numbers when parsing unsigned values

strtoumax() turns -1 into UINTMAX_MAX, so "spiped -n -1" removed the
connection limit instead of being refused.
---
 libcperciva/util/parsenum.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libcperciva/util/parsenum.h b/libcperciva/util/parsenum.h
index 3a6db81..39a78e5 100644
--- a/libcperciva/util/parsenum.h
+++ b/libcperciva/util/parsenum.h
@@ -2,6 +2,7 @@
 #define PARSENUM_H_
 
 #include <assert.h>
+#include <ctype.h>
 #include <errno.h>
 #include <inttypes.h>
 #include <math.h>
@@ -182,15 +183,23 @@ parsenum_unsigned(const char * s, uintmax_t min, uintmax_t max,
 {
 	char * eptr;
 	uintmax_t val;
+	const char * p;
 
 	/* Sanity check. */
 	assert(s != NULL);
 
+	/* Skip whitespace, so that we can see if there is a minus sign. */
+	for (p = s; isspace((unsigned char)*p); p++)
+		continue;
+
 	val = strtoumax(s, &eptr, base);
 	if (eptr == s || (!trailing && (*eptr != '\0')))
 		errno = EINVAL;
 	else if ((val < min) || (val > max) || (val > typemax))
 		errno = ERANGE;
+	else if ((*p == '-') && (val != 0))
+		/* strtoumax negates values modulo UINTMAX_MAX + 1. */
+		errno = ERANGE;
 	return (val);
 }
 
-- 
2.43.0


From 2a19095ed6d344adf78a4fcb9aed5e49fe2fa59a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 6/8] fix: spipe: don't stop the threads twice

If the connection fails in the same iteration of the event loop in which
a SIGTERM was handled, the threads have already been joined; cancelling and
joining them again is undefined behaviour.
---
 spipe/main.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spipe/main.c b/spipe/main.c
index ba21659..ea3f570 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -52,8 +52,8 @@ callback_conndied(void * cookie, int reason)
 		ET->connection_error = 1;
 	}
 
-	/* Shut it down if there's an error. */
-	if (ET->connection_error)
+	/* Shut it down if there's an error, unless we have done so already. */
+	if (ET->connection_error && (ET->stopped == 0))
 		graceful_shutdown_manual();
 
 	/* Quit event loop. */
-- 
2.43.0


From ef6e944bc8dfda12421eb8309285c530f20ea4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:51 +0000
Subject: [PATCH 7/8] fix: spipe: don't drop a connection which has already
 ended

If the event loop fails in the same iteration in which the connection ended,
its cookie is not valid any more.
---
 spipe/main.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/spipe/main.c b/spipe/main.c
index ea3f570..ae5c378 100644
--- a/spipe/main.c
+++ b/spipe/main.c
@@ -25,6 +25,7 @@
 struct events_threads {
 	pthread_t threads[2];
 	int conndone;
+	int conndied;
 	int connection_error;
 	int stopped;
 };
@@ -34,6 +35,9 @@ callback_conndied(void * cookie, int reason)
 {
 	struct events_threads * ET = cookie;
 
+	/* The connection doesn't exist any more. */
+	ET->conndied = 1;
+
 	/* Check reason. */
 	switch (reason) {
 	case PROTO_CONN_CLOSED:
@@ -229,6 +233,7 @@ main(int argc, char * argv[])
 
 	/* Initialize the "events & threads" cookie. */
 	ET.conndone = 0;
+	ET.conndied = 0;
 	ET.connection_error = 0;
 	ET.stopped = 0;
 
@@ -338,7 +343,8 @@ err6:
 	if ((rc = pthread_join(ET.threads[1], NULL)) != 0)
 		warn0("pthread_join: %s", strerror(rc));
 err5:
-	proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
+	if (ET.conndied == 0)
+		proto_conn_drop(conn_cookie, PROTO_CONN_CANCELLED);
 err4:
 	if ((s[1] != -1) && close(s[1]))
 		warnp("close");
-- 
2.43.0


From 10547031c34276f010737cda40e28f34e823983a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:09 +0000
Subject: [PATCH 8/8] fix: network_connect: report fatal errors to the caller

A fatal error while moving on to the next address (or in getsockopt) freed the
cookie without invoking the callback, so the caller later passed a freed cookie
to network_connect_cancel().  Invoke the callback with -1, as documented.
---
 libcperciva/network/network_connect.c | 28 +++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/libcperciva/network/network_connect.c b/libcperciva/network/network_connect.c
index 940e7a9..6bbf6ba 100644
--- a/libcperciva/network/network_connect.c
+++ b/libcperciva/network/network_connect.c
@@ -59,7 +59,15 @@ dofailed(struct connect_cookie * C)
 	C->sas++;
 
 	/* Try other addresses until we run out of options. */
-	return (tryconnect(C));
+	if (tryconnect(C))
+		goto err0;
+
+	/* Success! */
+	return (0);
+
+err0:
+	/* Fatal error: Report failure (and free the cookie). */
+	return (docallback(C));
 }
 
 /* Callback when connect(2) succeeds or fails. */
@@ -92,10 +100,10 @@ callback_connect(void * cookie)
 err1:
 	if (close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
-	/* Fatal error! */
-	return (-1);
+	/* Fatal error: Report failure (and free the cookie). */
+	return (docallback(C));
 }
 
 /* Callback when a timer expires. */
@@ -114,7 +122,7 @@ callback_timeo(void * cookie)
 	return (dofailed(C));
 }
 
-/* Try to launch a connection.  Free the cookie on fatal errors. */
+/* Try to launch a connection.  Leave no socket or timer on fatal errors. */
 static int
 tryconnect(struct connect_cookie * C)
 {
@@ -157,12 +165,14 @@ failed:
 	return (0);
 
 err2:
-	if (C->cookie_timeo != NULL)
+	if (C->cookie_timeo != NULL) {
 		events_timer_cancel(C->cookie_timeo);
+		C->cookie_timeo = NULL;
+	}
 err1:
 	if ((C->s != -1) && close(C->s))
 		warnp("close");
-	free(C);
+	C->s = -1;
 
 	/* Fatal error. */
 	return (-1);
@@ -209,11 +219,13 @@ network_connect_internal(struct sock_addr * const * sas,
 
 	/* Try to connect to the first address. */
 	if (tryconnect(C))
-		goto err0;
+		goto err1;
 
 	/* Success! */
 	return (C);
 
+err1:
+	free(C);
 err0:
 	/* Failure! */
 	return (NULL);
-- 
2.43.0

