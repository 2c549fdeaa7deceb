/* What a system ort-c-source's output is compiled on gives (crypt_newhash(3)
 * is of OpenBSD's libc), and allocation, exit and abort under control. */
#ifndef PRE_H
#define PRE_H
#include <sys/types.h>
#include <sys/cdefs.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
int	 crypt_newhash(const char *, const char *, char *, size_t);
int	 crypt_checkpass(const char *, const char *);
void	*ort_malloc(size_t);
void	*ort_calloc(size_t, size_t);
void	*ort_realloc(void *, size_t);
char	*ort_strdup(const char *);
char	*ort_strndup(const char *, size_t);
void	 ort_free(void *);
void	 ort_exit(int) __attribute__((noreturn));
void	 ort_abort(void) __attribute__((noreturn));
void	 ort_perror(const char *);
#undef strdup
#undef strndup
#define malloc ort_malloc
#define calloc ort_calloc
#define realloc ort_realloc
#define strdup ort_strdup
#define strndup ort_strndup
#define free ort_free
#define exit ort_exit
#define abort ort_abort
#define perror ort_perror
#endif
