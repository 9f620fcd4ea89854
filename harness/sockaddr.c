/*
 * sockaddr.c: socket addresses, from the text the user gave.
 * MODE 0: every string of up to LEN characters.  1: long UNIX paths.
 * 2: copies and serializations.  3: one address of several; default port.
 */
#include <sys/types.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <errno.h>
#include <netdb.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

#include "vp.h"
#include "alloc.h"
#include "strto.h"
#include "tmpl.h"
#include "sock.h"
#include "sock_util.h"
#include "sock_internal.h"

void libcperciva_warn(const char * f, ...) { (void)f; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

/* One allocation, or none, fails. */
static int nalloc, failat = -1;
int
sim_fail(void)
{

	return (nalloc++ == failat);
}

intmax_t
vp_strtoimax(const char * s, char ** e, int b)
{

	vp_assert(b == 10, "ports are decimal");
	return (sim_strtoimax(s, e, 10));
}
uintmax_t
vp_strtoumax(const char * s, char ** e, int b)
{

	vp_assert(b == 10, "ports are decimal");
	return (sim_strtoumax(s, e, 10));
}
double vp_strtod(const char * s, char ** e) { (void)s; (void)e; return (0); }

#define LMAX 16
/* What the resolvers were asked. */
static char host[LMAX], port[LMAX], pton[LMAX];
static int nhost, npton, ptonfam, ptonok, nfreed;
static struct addrinfo ai[3];
static struct sockaddr_in in4[3];
static struct sockaddr_in6 in6;
static int nai;

static void
copy(char * d, const char * s)
{
	size_t i, n = vp_strlen(s);

	for (i = 0; i < LMAX - 1 && i < n; i++)
		d[i] = s[i];
	d[i] = '\0';
}

int
vp_getaddrinfo(const char * h, const char * p, const struct addrinfo * hints, struct addrinfo ** res)
{

	vp_assert(hints->ai_family == AF_UNSPEC && hints->ai_socktype == SOCK_STREAM && hints->ai_flags == 0, "any kind of stream address is asked for");
	copy(host, h);
	copy(port, p);
	nhost++;
	if (nai < 0)
		return (EAI_NONAME);
	*res = (nai > 0) ? &ai[0] : NULL;
	return (0);
}
void vp_freeaddrinfo(struct addrinfo * r) { vp_assert(r == ((nai > 0) ? &ai[0] : NULL), "the resolver's list is released"); nfreed++; }
const char * vp_gai_strerror(int e) { (void)e; return ("error"); }

int
vp_inet_pton(int fam, const char * s, void * d)
{
	size_t i;

	npton++;
	ptonfam = fam;
	copy(pton, s);
	if (ptonok)
		for (i = 0; i < ((fam == AF_INET) ? 4U : 16U); i++)
			((uint8_t *)d)[i] = (uint8_t)(0xa0 + i);
	return (ptonok);
}
const char * vp_inet_ntop(int fam, const void * a, char * d, socklen_t n) { (void)fam; (void)a; (void)n; d[0] = '\0'; return (d); }

/* The only formats used are "%s:0" and "[%s]:%d". */
int
libcperciva_asprintf(char ** r, const char * f, ...)
{
	va_list ap;
	const char * a;
	size_t i, n;

	va_start(ap, f);
	a = va_arg(ap, const char *);
	va_end(ap);
	n = vp_strlen(a);
	if (vp_strcmp(f, "%s:0") != 0 || (*r = vp_malloc(n + 3)) == NULL)
		return (-1);
	for (i = 0; i < n; i++)
		(*r)[i] = a[i];
	(*r)[n] = ':';
	(*r)[n + 1] = '0';
	(*r)[n + 2] = '\0';
	return ((int)n + 2);
}

static void
mkai(void)
{
	int i, j;

	for (i = 0; i < 3; i++) {
		ai[i].ai_family = AF_INET;
		ai[i].ai_socktype = SOCK_STREAM;
		ai[i].ai_addr = (struct sockaddr *)&in4[i];
		ai[i].ai_addrlen = sizeof(struct sockaddr_in);
		ai[i].ai_next = (i + 1 < nai) ? &ai[i + 1] : NULL;
		in4[i].sin_family = AF_INET;
		in4[i].sin_port = vp_u16();
		in4[i].sin_addr.s_addr = vp_u32();
	}
	(void)j;
	/* The second is of the other kind. */
	ai[1].ai_family = AF_INET6;
	ai[1].ai_addr = (struct sockaddr *)&in6;
	ai[1].ai_addrlen = sizeof(in6);
	in6.sin6_family = AF_INET6;
	in6.sin6_port = vp_u16();
	in6.sin6_addr.s6_addr[15] = vp_u8();
}

static void
checkai(struct sock_addr * a, int i)
{

	vp_assert(a->ai_family == ai[i].ai_family && a->ai_socktype == SOCK_STREAM && a->namelen == ai[i].ai_addrlen, "addresses as the resolver gave them, in order");
	if (i == 1) {
		struct sockaddr_in6 * b = (struct sockaddr_in6 *)a->name;
		vp_assert(b->sin6_family == AF_INET6 && b->sin6_port == in6.sin6_port && b->sin6_addr.s6_addr[15] == in6.sin6_addr.s6_addr[15], "addresses as the resolver gave them, in order");
	} else {
		struct sockaddr_in * b = (struct sockaddr_in *)a->name;
		vp_assert(b->sin_family == AF_INET && b->sin_port == in4[i].sin_port && b->sin_addr.s_addr == in4[i].sin_addr.s_addr, "addresses as the resolver gave them, in order");
	}
}

#if MODE == 0
/* Does s[0..n) equal t? */
static int
same(const char * s, size_t n, const char * t)
{
	size_t i;

	for (i = 0; i < n; i++)
		if (t[i] != s[i])
			return (0);
	return (t[n] == '\0');
}

static void
one(char * s, size_t n)
{
	struct sock_addr ** sas;
	const char * e;
	uint64_t m = 0;
	size_t i, lc = n, colons = 0;
	int neg = 0, big = 0, k, ok, plain = 1;

	for (i = 0; i < n; i++)
		if (tmpl[i] == ':')
			lc = i;
	for (i = 0; i < lc; i++)
		colons += (tmpl[i] == ':');
	sas = sock_resolve(s);

	/* What it says. */
	vp_assert(nhost + npton <= 1, "resolved once");
	if (n == 0 || s[0] == ':' || (s[0] != '/' && lc == n)) {
		vp_assert(sas == NULL && nhost + npton == 0, "malformed addresses are refused");
#ifndef PORT
		vp_witness("malformed");
#endif
	} else if (s[0] == '/') {
		vp_assert(nhost + npton == 0, "paths are not looked up");
		if (sas != NULL) {
			vp_assert(sas[0]->ai_family == AF_UNIX && sas[0]->namelen == sizeof(struct sockaddr_un), "a path is a UNIX socket");
			vp_assert(same(s, n, ((struct sockaddr_un *)sas[0]->name)->sun_path), "the path is exactly the one given");
#if !defined(PORT) && !defined(FIRST)
			vp_witness("path");
#endif
		} else
			vp_assert(vp_alloc_failed, "paths are accepted");
	} else if (s[0] != '[') {
		if (nhost) {
			vp_assert(same(s, lc, host), "the host is what precedes the last colon");
			vp_assert(same(&s[lc + 1], n - lc - 1, port), "the port is what follows the last colon");
		}
		if (sas != NULL) {
			for (k = 0; k < nai; k++)
				checkai(sas[k], k);
			vp_assert(nhost && nai >= 0 && sas[nai] == NULL, "all addresses are returned");
#if !defined(PORT) && !defined(FIRST)
			vp_witness("host");
#endif
		} else
			vp_assert(nai < 0 || vp_alloc_failed, "hosts are accepted");
		vp_assert(nhost == 0 || nai < 0 || nfreed == 1, "the resolver's list is released");
	} else {
		ok = (lc >= 2 && s[lc - 1] == ']');
		for (i = lc + 1; i < n; i++)
			plain &= (s[i] >= '0' && s[i] <= '9');
		plain &= (n > lc + 1);
		e = sim_number(&s[lc + 1], 10, &neg, &m, &big);
		ok = ok && e == &s[n] && !big && (m == 0 || !neg) && m <= 65535;
		if (sas != NULL) {
			vp_assert(ok && ptonok, "only well-formed numeric addresses are accepted");
			vp_assert(same(&s[1], lc - 2, pton), "the address is what the brackets enclose");
			vp_assert(ptonfam == (colons ? AF_INET6 : AF_INET), "addresses with a colon are IPv6");
			vp_assert(sas[0]->ai_family == ptonfam && sas[0]->ai_socktype == SOCK_STREAM && sas[1] == NULL, "one address results");
			if (ptonfam == AF_INET) {
				struct sockaddr_in * a = (struct sockaddr_in *)sas[0]->name;
				vp_assert(sas[0]->namelen == sizeof(*a) && a->sin_family == AF_INET, "an IPv4 address");
				vp_assert(a->sin_port == htons((uint16_t)m) && ((uint8_t *)&a->sin_addr)[0] == 0xa0 && ((uint8_t *)&a->sin_addr)[3] == 0xa3, "address and port as given");
			} else {
				struct sockaddr_in6 * a = (struct sockaddr_in6 *)sas[0]->name;
				vp_assert(sas[0]->namelen == sizeof(*a) && a->sin6_family == AF_INET6 && a->sin6_flowinfo == 0 && a->sin6_scope_id == 0, "an IPv6 address");
				vp_assert(a->sin6_port == htons((uint16_t)m) && a->sin6_addr.s6_addr[0] == 0xa0 && a->sin6_addr.s6_addr[15] == 0xaf, "address and port as given");
			}
#if defined(PORT) || LEN >= 5
			vp_witness("numeric");
#endif
		} else
			vp_assert(!(ok && plain && ptonok && !vp_alloc_failed), "numeric addresses are accepted");
	}
	vp_assert(sas != NULL || vp_alloc_live == 0, "nothing stays allocated after a failure");
	sock_addr_freelist(sas);
	vp_assert(vp_alloc_live == 0, "everything is released");
}

/* All templates: each position is a colon or not; brackets or a slash where they matter. */
static void
fill(size_t i, size_t n)
{
	size_t j;
	int c;

#ifdef PORT
	/* "[x]:" and any port. */
	if (i < 4) {
		tmpl[i] = "[x]:"[i];
		if (tmpl[i] != 'x')
			txt[i] = tmpl[i];
		fill(i + 1, n);
	} else if (i < n) {
		tmpl[i] = 'x';
		fill(i + 1, n);
	}
#endif
	if (i == n) {
		for (j = 0; j < n; j++)
			if (tmpl[j] == 'x')
				vp_assume(txt[j] != '\0' && txt[j] != ':');
		txt[n] = tmpl[n] = '\0';
		one(txt, n);
		vp_done();
	}
	c = vp_bool();
	if (c) {
		txt[i] = tmpl[i] = ':';
		fill(i + 1, n);
	}
	if (i == 0 && n > 0) {
		c = vp_range(0, 2);
#ifdef FIRST
		vp_assume(c == FIRST);
#endif
		if (c == 0) {
			txt[i] = tmpl[i] = '[';
			fill(i + 1, n);
		}
		if (c == 1) {
			txt[i] = tmpl[i] = '/';
			fill(i + 1, n);
		}
		vp_assume(txt[i] != '[' && txt[i] != '/');
	}
	if (i > 0 && tmpl[0] == '[') {
		c = vp_bool();
		if (c) {
			txt[i] = tmpl[i] = ']';
			fill(i + 1, n);
		}
		vp_assume(txt[i] != ']');
	}
	tmpl[i] = 'x';
	fill(i + 1, n);
}

int
main(void)
{
	static char s[TMAX];

	vp_fillarr(s);
	memcpy(txt, s, TMAX);
	ptonok = vp_bool();
	nai = NAI;
	mkai();
#ifdef PORT
	{
		size_t i, n = vp_srange(5, LEN);

		for (i = 5; i <= LEN; i++)
			if (i == n)
				fill(0, i);
	}
#else
	fill(0, LEN);
#endif
	return (0);
}
#elif MODE == 1
int
main(void)
{
	static char s[120];
	struct sock_addr ** sas;
	size_t i, n = vp_srange(sizeof(((struct sockaddr_un *)0)->sun_path) - 2, sizeof(((struct sockaddr_un *)0)->sun_path) + 3);

	for (i = 0; i < 120; i++) {
		if (i != n) {
			s[i] = (i == 0) ? '/' : 'x';
			continue;
		}
		s[i] = '\0';
		sas = sock_resolve(s);
		vp_assert((sas != NULL) == (n < sizeof(((struct sockaddr_un *)0)->sun_path)), "a path is accepted if it fits with its terminator");
		if (sas != NULL)
			vp_assert(vp_strcmp(((struct sockaddr_un *)sas[0]->name)->sun_path, s) == 0, "the path is exactly the one given");
		sock_addr_freelist(sas);
		vp_assert(vp_alloc_live == 0, "everything is released");
		vp_witness("path");
		vp_done();
	}
	return (0);
}
#elif MODE == 2
#define NL 5
static struct sock_addr a, b;
static uint8_t na[NL], nb[NL];
static void copies(size_t);

int
main(void)
{
	size_t i, n;
	int f, x;

	vp_fillarr(na);
	vp_fillarr(nb);
	x = vp_range(-1, 12);
	a.ai_family = vp_int();
	a.ai_socktype = vp_int();
	b.ai_family = vp_int();
	b.ai_socktype = vp_int();
	n = vp_srange(0, NL);
	b.namelen = (socklen_t)BL;
	a.name = (struct sockaddr *)na;
	b.name = (struct sockaddr *)nb;
	for (i = 0; i <= NL; i++)
		for (f = -1; f <= 12; f++)
			if (i == n && f == x) {
				failat = f;
				copies(i);
				vp_done();
			}
	return (0);
}

static void
copies(size_t n)
{
	struct sock_addr * c, * l[4], ** l2;
	uint8_t * buf = NULL;
	size_t i, len = 0;
	int same;

	a.namelen = (socklen_t)n;

	/* Comparison. */
	same = (a.ai_family == b.ai_family && a.ai_socktype == b.ai_socktype && a.namelen == b.namelen);
	for (i = 0; i < NL; i++)
		same &= !(i < n && na[i] != nb[i]);
	vp_assert(!sock_addr_cmp(&a, &b) == same, "addresses are equal exactly if every part is");

	/* Copy. */
	if ((c = sock_addr_dup(&a)) != NULL) {
		vp_assert(c != &a && c->name != a.name, "a copy is separate");
		vp_assert(sock_addr_cmp(&a, c) == 0, "a copy is equal");
		sock_addr_free(c);
	} else
		vp_assert(vp_alloc_failed, "fails only without memory");
	vp_assert(vp_alloc_live == 0, "everything is released");

	/* Lists. */
	l[0] = &a;
	l[1] = &b;
	l[2] = &a;
	l[3] = NULL;
	l[NLIST] = NULL;
	if ((l2 = sock_addr_duplist(l)) != NULL) {
		for (i = 0; l[i] != NULL; i++)
			vp_assert(l2[i] != NULL && sock_addr_cmp(l[i], l2[i]) == 0, "a copied list has the same addresses in the same order");
		vp_assert(l2[i] == NULL, "a copied list ends where the original does");
		sock_addr_freelist(l2);
		vp_witness("list");
	} else
		vp_assert(vp_alloc_failed, "fails only without memory");
	vp_assert(vp_alloc_live == 0, "everything is released");

	/* Serialization. */
	if (sock_addr_serialize(&a, &buf, &len) == 0) {
		vp_assert(len >= n, "all is serialized");
		c = sock_addr_deserialize(buf, len);
		if (c != NULL) {
			vp_assert(sock_addr_cmp(&a, c) == 0, "what was serialized comes back");
			sock_addr_free(c);
			vp_witness("serialized");
		} else
			vp_assert(vp_alloc_failed, "what was serialized can be read");
		vp_free(buf);
	} else
		vp_assert(vp_alloc_failed, "fails only without memory");
	vp_assert(vp_alloc_live == 0, "everything is released");
}
#elif MODE == 3
/* Anything may be deserialized. */
int
main(void)
{
	static uint8_t buf[18];
	uint8_t * p;
	struct sock_addr * c;
	size_t n = vp_srange(0, 18), i;
	uint32_t l;

	vp_fillarr(buf);
	failat = vp_range(-1, 2);
	for (i = 0; i <= 18; i++) {
		if (i != n)
			continue;
		p = malloc(i);
		memcpy(p, buf, i);
		c = sock_addr_deserialize(p, i);
		memcpy(&l, &buf[8], 4);
		vp_assert((c != NULL) == (i >= 12 && i - 12 == l && !vp_alloc_failed), "accepted exactly if the lengths agree");
		if (c != NULL) {
			vp_assert(c->namelen == l && memcmp(c->name, &buf[12], i - 12) == 0, "read as it was written");
			vp_witness("read");
		}
		sock_addr_free(c);
		free(p);
		vp_assert(vp_alloc_live == 0, "everything is released");
		vp_done();
	}
	return (0);
}
#else
/* One address, with or without a port. */
int
main(void)
{
	static const char * const in[] = { "h", "h:1", "[1.2]", "[1.2]:3", "[::1]", "[::1]:4", "/a:b", ":5", "[::", "" };
	static const char * const out[] = { "h:0", "h:1", "[1.2]:0", "[1.2]:3", "[::1]:0", "[::1]:4", "/a:b", ":5", "[:::0", NULL };
	struct sock_addr * sa;
	char * r;
	size_t i, x = vp_srange(I0, I1 - 1);
	int f, y;

	y = vp_range(-1, 3);
	f = vp_range(-1, 11);
	ptonok = 1;
	for (i = I0; i < I1; i++)
	for (nai = -1; nai <= 3; nai++)
	for (failat = -1; failat <= 11; failat++) {
		if (i > 0 && nai != 2)
			continue;
		if (i != x || nai != y || failat != f)
			continue;
		mkai();
		r = sock_addr_ensure_port(in[i]);
		if (r != NULL) {
			vp_assert(vp_strcmp(r, out[i]) == 0, "a port is added where one is missing");
			vp_free(r);
		} else
			vp_assert(vp_alloc_failed, "fails only without memory");
		sa = sock_resolve_one(in[i], 1);
		if (sa != NULL) {
			vp_assert(i < 7, "malformed addresses are refused");
			if (i < 2)
				checkai(sa, 0);
			else if (i == 6)
				vp_assert(vp_strcmp(((struct sockaddr_un *)sa->name)->sun_path, in[i]) == 0, "a path stays");
			else
				vp_assert((i < 4) ? ((struct sockaddr_in *)sa->name)->sin_port == htons(i == 2 ? 0 : 3) : ((struct sockaddr_in6 *)sa->name)->sin6_port == htons(i == 4 ? 0 : 4), "the port given, or one left to the system");
#if I0 < 7
			vp_witness("resolved");
#endif
		} else {
			vp_assert(vp_alloc_failed || i >= 7 || (i < 2 && nai <= 0), "addresses without a port are accepted");
			vp_witness("not resolved");
		}
		sock_addr_free(sa);
		vp_assert(vp_alloc_live == 0, "everything is released");
		vp_done();
	}
	return (0);
}
#endif
