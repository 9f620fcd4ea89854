#ifndef TMPL_H_
#define TMPL_H_
/*
 * tmpl.h: symbolic text with known structure, and string functions which make
 * use of it.  The text is a template: 'x' stands for any character but NUL
 * and ':'.  In the text and copies of it, a search for one of these two never
 * stops at an 'x'; saying so here keeps the positions constants.
 */
#ifndef TMAX
#define TMAX 12
#endif
static char txt[TMAX], tmpl[TMAX];
/* Copies of (parts of) the text. */
#define NCOPY 16
static struct { const char * p; size_t off; } copies_[NCOPY];
static int ncopies;
#ifdef VP_SYM
static int
where(const char * p, size_t * o)
{
	int i;

	if (__CPROVER_same_object(p, txt)) {
		*o = __CPROVER_POINTER_OFFSET(p);
		return (1);
	}
	for (i = 0; i < ncopies; i++)
		if (__CPROVER_same_object(p, copies_[i].p)) {
			*o = __CPROVER_POINTER_OFFSET(p) + copies_[i].off;
			return (1);
		}
	return (0);
}
static void
copied(const char * d, const char * s)
{
	size_t o;

	if (ncopies < NCOPY && __CPROVER_POINTER_OFFSET(d) == 0 && where(s, &o)) {
		copies_[ncopies].p = d;
		copies_[ncopies].off = o;
		ncopies++;
	}
}
static void
never(const char * p, int c)
{
	size_t o;

	if ((c != '\0' && c != ':') || !where(p, &o) || o >= TMAX || tmpl[o] != 'x')
		return;
	vp_assert(*p == txt[o], "model: a copy is a copy");
	vp_done();
}
#else
#define never(p, c) ((void)0)
#define copied(d, s) ((void)0)
#endif

size_t
vp_strlen(const char * s)
{
	size_t n = 0;

	for (;; n++)
		if (s[n] == '\0') {
			never(&s[n], '\0');
			return (n);
		}
}

int
vp_strcmp(const char * a, const char * b)
{

	while (*a == *b && *a != '\0') {
		a++;
		b++;
	}
	return ((unsigned char)*a - (unsigned char)*b);
}

char *
vp_strchr(const char * s, int c)
{

	for (;; s++) {
		if (*s == (char)c) {
			never(s, c);
			return ((char *)s);
		}
		if (*s == '\0') {
			never(s, '\0');
			return (NULL);
		}
	}
}

char *
vp_strrchr(const char * s, int c)
{
	size_t n = vp_strlen(s) + 1;

	while (n-- > 0)
		if (s[n] == (char)c) {
			never(&s[n], c);
			return ((char *)&s[n]);
		}
	return (NULL);
}

char *
vp_strdup(const char * s)
{
	size_t n = vp_strlen(s), i;
	char * d = vp_malloc(n + 1);

	if (d == NULL)
		return (NULL);
	for (i = 0; i < n; i++)
		d[i] = s[i];
	d[n] = '\0';
	copied(d, s);
	return (d);
}

char *
vp_strcpy(char * d, const char * s)
{
	size_t n = vp_strlen(s), i;

	for (i = 0; i < n; i++)
		d[i] = s[i];
	d[n] = '\0';
	copied(d, s);
	return (d);
}

/* memcpy which keeps what is constant so. */
static void *
tmpl_memcpy(void * d, const void * s, size_t n)
{
	size_t i;

	for (i = 0; i < n; i++)
		((char *)d)[i] = ((const char *)s)[i];
	copied(d, s);
	return (d);
}
#endif
