/* Included before every line of q3asm.c and cmdlib.c: file access and exit go to the harness' virtual files. */
#include <stdio.h>
#include <stdlib.h>
#include <time.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <unistd.h>
#include "src/vm/vm.h"
#ifdef QS_IMAGE_MAX   /* scaled segment size (the real one is 4 MB) */
#undef VM_MAX_IMAGE_SIZE
#define VM_MAX_IMAGE_SIZE QS_IMAGE_MAX
#endif
#define main q3asm_main
#define exit vf_exit
#define fopen vf_fopen
#define fclose vf_fclose
#define fread vf_fread
#define fwrite vf_fwrite
#define fseek vf_fseek
#define ftell vf_ftell
#define rewind vf_rewind
#define feof vf_feof
#define ferror vf_ferror
#define fgetc vf_fgetc
#define fgets vf_fgets
#define fputc vf_fputc
#define fputs vf_fputs
#define fprintf vf_fprintf
#define vfprintf vf_vfprintf
#define vprintf vf_vprintf
#define printf vf_printf
#define fflush vf_fflush
#define remove vf_remove
#define mkdir vf_mkdir
#define time vf_time
void vf_exit(int) __attribute__((noreturn));
FILE* vf_fopen(const char*, const char*);
int vf_fclose(FILE*);
size_t vf_fread(void*, size_t, size_t, FILE*);
size_t vf_fwrite(const void*, size_t, size_t, FILE*);
int vf_fseek(FILE*, long, int);
long vf_ftell(FILE*);
void vf_rewind(FILE*);
int vf_feof(FILE*);
int vf_ferror(FILE*);
int vf_fgetc(FILE*);
char* vf_fgets(char*, int, FILE*);
int vf_fputc(int, FILE*);
int vf_fputs(const char*, FILE*);
int vf_fprintf(FILE*, const char*, ...);
int vf_vfprintf(FILE*, const char*, __builtin_va_list);
int vf_vprintf(const char*, __builtin_va_list);
int vf_printf(const char*, ...);
int vf_fflush(FILE*);
int vf_remove(const char*);
int vf_mkdir(const char*, mode_t);
time_t vf_time(time_t*);
