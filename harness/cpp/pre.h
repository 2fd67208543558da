/* Included before every source file of the preprocessor: system calls go to the harness' virtual files. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <time.h>
#include <stdarg.h>
#include <fcntl.h>
#include <unistd.h>
#include <sys/types.h>
#include <sys/stat.h>
extern void* memmove(void*, const void*, size_t) __asm__("cpp_memmove");
#define main cpp_main
#define exit vf_exit
#define open vs_open
#define creat vs_creat
#define dup2 vs_dup2
#define close vs_close
#define read vs_read
#define write vs_write
#define setbuf(f, b) ((void)(b))
#define fprintf vs_fprintf
#define fputc vs_fputc
#define fflush vs_fflush
#define time vf_time
#define ctime vs_ctime
#define abort vs_abort
void vf_exit(int) __attribute__((noreturn));
void vs_abort(void) __attribute__((noreturn));
int vs_open(const char*, int, ...);
int vs_creat(const char*, mode_t);
int vs_dup2(int, int);
int vs_close(int);
ssize_t vs_read(int, void*, size_t);
ssize_t vs_write(int, const void*, size_t);
int vs_fprintf(FILE*, const char*, ...);
int vs_fputc(int, FILE*);
int vs_fflush(FILE*);
time_t vf_time(time_t*);
char* vs_ctime(const time_t*);
