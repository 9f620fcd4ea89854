/*
 * setuidgid.c: dropping privileges, with every outcome of every call.
 */
#include <sys/types.h>
#include <errno.h>
#include <grp.h>
#include <pwd.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include "vp.h"
#include "alloc.h"
#include "strto.h"
#include "tmpl.h"
#include "setuidgid.h"

void libcperciva_warn(const char * f, ...) { (void)f; errno = vp_bool() ? EIO : ENOENT; }
void libcperciva_warnx(const char * f, ...) { (void)f; }

static int failat = -1, nalloc;
int sim_fail(void) { return (nalloc++ == failat); }
void * vp_memcpy(void * d, const void * s, size_t n) { return (tmpl_memcpy(d, s, n)); }
int vp_isspace(int c) { return (sim_space((char)c)); }
double vp_strtod(const char * s, char ** e) { (void)s; (void)e; return (0); }
intmax_t vp_strtoimax(const char * s, char ** e, int b) { return (sim_strtoimax(s, e, b)); }
uintmax_t vp_strtoumax(const char * s, char ** e, int b) { vp_assert(b == 0 || b == 10, "IDs are decimal"); return (sim_strtoumax(s, e, b == 10 ? 10 : 0)); }

/* What happened. */
static int step, groups_at, gid_at, uid_at, bad, ngetgr, ngetpw;
static gid_t gid, gid_set;
static uid_t uid, uid_set;
static int gr_found, gr_err, pw_found, pw_err;
static int sg_ret, sg_errno, gid_ret, gid_errno, uid_ret, uid_errno, ng, ng1;
static gid_t curgid, onegid;
static char gname[TMAX], uname[TMAX];

static void
take(char * d, const char * s)
{
	size_t i, n = vp_strlen(s);

	for (i = 0; i < n; i++)
		d[i] = s[i];
	d[n] = '\0';
}
struct group *
vp_getgrnam(const char * n)
{
	static struct group g;

	take(gname, n);
	ngetgr++;
	if (gr_err) {
		errno = EIO;
		return (NULL);
	}
	if (!gr_found)
		return (NULL);
	g.gr_gid = gid;
	return (&g);
}
struct passwd *
vp_getpwnam(const char * n)
{
	static struct passwd p;

	take(uname, n);
	ngetpw++;
	if (pw_err) {
		errno = EIO;
		return (NULL);
	}
	if (!pw_found)
		return (NULL);
	p.pw_uid = uid;
	return (&p);
}
int
vp_setgroups(size_t n, const gid_t * l)
{

	(void)l;
	vp_assert(n == 0, "no supplementary group is kept");
	vp_assert(!uid_at, "groups are left while it is allowed");
	groups_at = ++step;
	if (sg_ret)
		errno = sg_errno;
	return (sg_ret);
}
int
vp_getgroups(int n, gid_t * l)
{

	if (ng < 0) {
		errno = EINVAL;
		return (-1);
	}
	if (n > 0 && ng1)
		l[0] = onegid;
	return ((n == 0) ? ng : ng1 ? 1 : -1);
}
gid_t vp_getegid(void) { return (curgid); }
int
vp_setgid(gid_t g)
{

	vp_assert(!uid_at, "the group is changed while it is allowed");
	vp_assert(!gid_at, "the group is changed once");
	gid_at = ++step;
	gid_set = g;
	if (gid_ret)
		errno = gid_errno;
	return (gid_ret);
}
int
vp_setuid(uid_t u)
{

	vp_assert(!uid_at, "the user is changed once");
	uid_at = ++step;
	uid_set = u;
	if (uid_ret)
		errno = uid_errno;
	return (uid_ret);
}

static int
same(const char * a, size_t n, const char * b)
{
	size_t i;

	for (i = 0; i < n; i++)
		if (a[i] != b[i])
			return (0);
	return (b[n] == '\0');
}

/* Number in the text, if the name is unknown. */
static int
number(const char * s, size_t n, uint64_t * v)
{
	int neg, big;
	const char * e = sim_number(s, 0, &neg, v, &big);

	return (e == s + n && n > 0 && !big && !(neg && *v != 0) && *v <= UINT32_MAX);
}

static void
one(size_t n, size_t lc)
{
	int mode = vp_range(0, 2), rc, err;
	int hasu = (lc > 0), hasg = (lc < n), okg, oku, left, known;
	uint64_t gv = 0, uv = 0;
	static char u2[TMAX];

	/* Texts without colon and NUL have known lengths. */
	errno = 0;
	rc = setuidgid(txt, mode == 0 ? SETUIDGID_SGROUP_IGNORE : mode == 1 ? SETUIDGID_SGROUP_LEAVE_WARN : SETUIDGID_SGROUP_LEAVE_ERROR);
	err = errno;
	vp_assert(vp_alloc_live == 0, "everything is released");
	if (vp_alloc_failed) {
		vp_assert(rc == -1 && !uid_at && !gid_at, "nothing is done halfway");
		vp_done();
	}
	if (n == 0 || lc + 1 == n) {
		vp_assert(rc == -1 && step == 0, "empty names are refused before anything is changed");
#if LEN < 2
		vp_witness("empty");
#endif
		vp_done();
	}
	tmpl_memcpy(u2, txt, lc);
	u2[lc] = '\0';
	/* What was asked for. */
	left = (sg_ret == 0 && ng >= 0 && (ng == 0 || (ng == 1 && ng1 && onegid == curgid)));
	vp_assert((mode != 0) == (groups_at > 0), "supplementary groups are left if asked");
	known = !gr_err && (gr_found || (hasg && number(&txt[lc + 1], n - lc - 1, &gv)));
	if (gr_found)
		gv = gid;
	okg = !hasg || (known && !gid_ret);
	known = !pw_err && (pw_found || (hasu && number(u2, lc, &uv)));
	if (pw_found)
		uv = uid;
	oku = !hasu || (known && !uid_ret);
	if (rc == 0) {
		vp_assert(okg && oku, "succeeds only if everything asked for was done");
		vp_assert(!hasg || (gid_at && gid_set == gv), "the group is the one asked for");
		vp_assert(!hasu || (uid_at && uid_set == uv), "the user is the one asked for");
		vp_assert(hasg || !gid_at, "nothing else is changed");
		vp_assert(hasu || !uid_at, "nothing else is changed");
		vp_assert(mode != 2 || left, "no supplementary groups remain, if that matters");
#if LEN >= 1
		vp_witness("dropped");
#endif
	} else {
		vp_assert(rc == -1, "fails with -1");
		vp_assert(!(okg && oku && (mode == 0 || left)), "succeeds if everything can be done");
		vp_assert(!uid_at || uid_ret, "fails before the user is changed");
		if (uid_at && uid_errno == EPERM)
			vp_assert(err == EPERM, "a missing permission is told apart");
#if LEN >= 1
		vp_witness("not dropped");
#endif
	}
	if (ngetgr)
		vp_assert(same(&txt[lc + 1], n - lc - 1, gname), "the group is what follows the colon");
	if (ngetpw)
		vp_assert(same(txt, lc, uname), "the user is what precedes the colon");
	(void)bad;
}

int
main(void)
{
	static char t[TMAX];
	size_t i, j, k = vp_srange(0, LEN);
	int f = vp_range(-1, 1);

	vp_fillarr(t);
	gr_found = vp_bool();
	gr_err = vp_bool();
	pw_found = vp_bool();
	pw_err = vp_bool();
	gid = vp_u32();
	uid = vp_u32();
	gid_ret = -vp_bool();
	uid_ret = -vp_bool();
	sg_ret = -vp_bool();
	sg_errno = vp_bool() ? EPERM : EINVAL;
	gid_errno = vp_bool() ? EPERM : EINVAL;
	uid_errno = vp_bool() ? EPERM : EINVAL;
	ng = vp_range(-1, 3);
	ng1 = vp_bool();
	curgid = vp_u32();
	onegid = vp_u32();
	for (i = 0; i < LEN; i++) {
		vp_assume(t[i] != '\0');
		txt[i] = t[i];
		tmpl[i] = 'x';
	}
	/* Where the first colon is; what follows may have more. */
	for (i = 0; i <= LEN; i++)
	for (failat = -1; failat <= 1; failat++) {
		if (i != k || failat != f)
			continue;
		for (j = 0; j < i; j++)
			vp_assume(txt[j] != ':');
		for (j = i + 1; j < LEN; j++)
			vp_assume(txt[j] != ':');
		if (i < LEN)
			txt[i] = tmpl[i] = ':';
		one(LEN, i);
		vp_done();
	}
	return (0);
}
