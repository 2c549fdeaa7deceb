/* The part of kcgi(3) that validators use. */
#ifndef KCGI_H
#define KCGI_H
#include <stddef.h>
#include <stdint.h>
struct kpair {
	char *key, *val;
	size_t valsz;
	union { int64_t i; const char *s; double d; } parsed;
};
struct kvalid { int (*valid)(struct kpair *); const char *name; };
int	 kvalid_bit(struct kpair *);
int	 kvalid_date(struct kpair *);
int	 kvalid_double(struct kpair *);
int	 kvalid_email(struct kpair *);
int	 kvalid_int(struct kpair *);
int	 kvalid_string(struct kpair *);
#endif
