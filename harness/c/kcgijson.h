/* The part of kcgijson(3) that exporters use. */
#ifndef KCGIJSON_H
#define KCGIJSON_H
#include <stdint.h>
struct kjsonreq { int depth, first[64]; };
int	 kjson_obj_open(struct kjsonreq *);
int	 kjson_objp_open(struct kjsonreq *, const char *);
int	 kjson_obj_close(struct kjsonreq *);
int	 kjson_array_open(struct kjsonreq *);
int	 kjson_arrayp_open(struct kjsonreq *, const char *);
int	 kjson_array_close(struct kjsonreq *);
int	 kjson_putintp(struct kjsonreq *, const char *, int64_t);
int	 kjson_putintstrp(struct kjsonreq *, const char *, int64_t);
int	 kjson_putdoublep(struct kjsonreq *, const char *, double);
int	 kjson_putstringp(struct kjsonreq *, const char *, const char *);
int	 kjson_putnullp(struct kjsonreq *, const char *);
#endif
