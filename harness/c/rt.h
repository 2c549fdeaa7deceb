#ifndef RT_H
#define RT_H
#include <stdint.h>
#include <stddef.h>
#include "kcgi.h"
#include "kcgijson.h"
struct arg { int t; int64_t i; double r; char *s; size_t sz; };	/* t: n i r s b */
struct jbuf { char *p; size_t n, max; };
extern struct jbuf out, json;
void	 jput(struct jbuf *, const char *, size_t);
void	 o(const char *, ...) __attribute__((format(printf, 1, 2)));
void	 okey(const char *, int);
void	 oint(int64_t);
void	 oreal(double);
void	 otext(const char *);
void	 oblob(const void *, size_t);
void	 ojson(void);
void	 ojsonv(void);
void	*rt_alloc(size_t);
void	 rt_free(void *);
/* of the generated driver */
struct ort;
extern const char *const tables[];
extern const int ncols[];
extern const size_t ntables;
extern struct kjsonreq kj;
extern int want_json, want_late;
void	 drv_call(struct ort *, size_t, const struct arg *);
int	 drv_write(size_t);
struct ort *drv_open(void);
void	 drv_close(struct ort *);
void	 drv_role(struct ort *, int);
int	 drv_currole(struct ort *);
void	 drv_trans(struct ort *, int, size_t, int);
int	 drv_valid(const char *, struct kpair *, int *);
int	 drv_import(size_t, const char *, size_t, int);
#endif
