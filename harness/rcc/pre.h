/* Included before every source file of the compiler: files and messages go to the harness. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stddef.h>
#include <time.h>
#include <stdarg.h>
#include <ctype.h>
#include <errno.h>
#include <assert.h>
#define main rcc_main
#define exit vr_exit
#define abort vr_abort
#undef stdin
#undef stdout
#undef stderr
#define stdin ((FILE*)vr_std)
#define stdout ((FILE*)(vr_std + 1))
#define stderr ((FILE*)(vr_std + 2))
#define fread vr_fread
#define feof vr_feof
#define fopen vr_fopen
#define freopen vr_freopen
#define fclose vr_fclose
#define fgets vr_fgets
#define fseek vr_fseek
#define ftell vr_ftell
#define rewind vr_rewind
#undef getc
#undef putc
#undef putchar
#define getc vr_getc
#define fgetc vr_getc
#define putc vr_fputc
#define fputc vr_fputc
#define fputs vr_fputs
#define puts vr_puts
#define putchar vr_putchar
#define fprintf vr_fprintf
#define printf vr_printf
#define fflush(f) ((void)(f))
#define time vr_time
#define ctime vr_ctime
extern char vr_std[3];
void vr_exit(int) __attribute__((noreturn));
void vr_abort(void) __attribute__((noreturn));
size_t vr_fread(void*, size_t, size_t, FILE*);
int vr_feof(FILE*);
FILE* vr_fopen(const char*, const char*);
FILE* vr_freopen(const char*, const char*, FILE*);
int vr_fclose(FILE*);
char* vr_fgets(char*, int, FILE*);
int vr_fseek(FILE*, long, int);
long vr_ftell(FILE*);
void vr_rewind(FILE*);
int vr_getc(FILE*);
int vr_fputc(int, FILE*);
int vr_fputs(const char*, FILE*);
int vr_puts(const char*);
int vr_putchar(int);
int vr_fprintf(FILE*, const char*, ...);
int vr_printf(const char*, ...);
time_t vr_time(time_t*);
char* vr_ctime(const time_t*);
#define sscanf(s, f, ...) vr_noscan(s, f)   /* only the options -charmetric= and the like, which are not given */
#define sprintf vr_sprintf
int vr_noscan(const char*, const char*);
int vr_sprintf(char*, const char*, ...);
#define strtod vr_strtod
double vr_strtod(const char*, char**);
