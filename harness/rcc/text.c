/* L03: no access outside the compiler's objects, and it ends */
#include "rcch.h"
static void post(int st) { qs_reach(st ? "rejected" : "accepted"); qs_check(st == 0 || st == 1, "exit status 0 or 1"); qs_check(st == 0 || en > 0, "a rejected program is diagnosed"); }
static void any(int n, const char* nm) { for (int i = 0; i < n; i++) IN[in_n++] = qs_u8(nm); }
/* one of the characters that mean something */
static void one(const char* nm) { static const char F[] = { '1', ')', 'x', '\n', '?', '(', '"', '\'', ',', '\\', '/', '{', '}', ';', '=', '*', '[', '#', '-', 0, (char)200 }; IN[in_n++] = F[qs_select(sizeof F, nm)]; }
static void rep(const char* s, int n) { while (n-- > 0) t_s(s); }
/* any few tokens, then one of some ends */
static void tokens(void) { static const char* TK[] = { "a", "d", "v", "p", "s", "pf", "u", "undef", "ps", "fn", "fv", "va", "T", "E1", "m", "b", "1", "0", "2147483648u", "2.5", "'c'", "\"st\"", "L\"w\"", "int", "char", "float", "void", "struct S", "enum E", "union U", "unsigned", "const", "static", "return", "if", "else", "for", "case", "default", "break", "continue", "sizeof", "(", ")", "[", "]", "{", "}", ";", ",", ".", "->", "...", "*", "&", "-", "+", "/", "%", "<<", ">>", "<", ">=", "==", "&&", "|", "^", "!", "~", "?", ":", "=", "+=", "<<=", "++", "--" };
  static const char* EN[] = { "; }\n", ";\n", ") a; }\n", "]; }\n", "}; }\n", "1; }\n" };
  for (int i = 0; i < qs_param("n", 1); i++) { t_s(TK[qs_select(sizeof TK / sizeof TK[0], "token")]); t_c(' '); }
  int e = qs_param("end", -1); t_s(EN[e < 0 ? qs_select(sizeof EN / sizeof EN[0], "end") : e]); }
static const char* PRE[] = {
  "", "int a", "int a = ", "int a[", "int a[3] = {", "char s[] = \"", "char s[] = \"\\", "int c = '", "int c = '\\", "int c = L'", "char *p = L\"", "int f(", "int f(int a", "int f(a", "int f(a) int ", "int f() {", "int f() { return ", "int f() { if (", "int f() { for (", "int f() { switch (1) { case ", "int f() { while (1) ", "int f() { do ; while ", "int f() { goto ", "int f() { x", "int f() { int x; x", "int f(int a) { return a", "int f(int a) { return (", "int f(int a) { return sizeof ", "int f(int a) { return a ? ",
  "struct ", "struct s {", "struct s { int ", "struct s { int a : ", "struct s { struct ", "union u { int a; } x = ", "struct { int a, b; } x = {", "enum ", "enum e {", "enum e { a = ", "typedef ", "typedef int t; ", "typedef int t; t ", "extern ", "static ", "register ", "const ", "unsigned ", "long ", "short ", "float f = ", "float f = 1", "float f = 1.5e", "int x = 0x", "int x = 0", "int x = 1", "int x = 9999999999",
  "# ", "# 3 ", "# 3 \"", "# 3 \"a\"\n", "#pragma ", "#pragma ref ", "#", "#line ", "/", "/*", "/* *", "<", ">", "-", "&", "|", "+", ".", "..", "i", "in", "els", "s", "_", "__typecod", "__firstar", "L", "*", "(", "[", "{", ";", "int *", "int (*", "int (*f)(", "int (*f[", "void ", "void f(void", "void f(int, ", "int f(int, ...", "int a, ", "volatile ", "int f(struct s", "int f() { struct s { int a; } x; x.", "int f(int *p) { p[", "int f(int *p) { p->", "int f(int *p) { (*p)", "int f() { { ", "int f() { l", "int f() { l: ", "int f() { f", "int f() { f(", "int f() { f(1, ", "int f() { break", "int f(int x) { switch (x) { case 1: case ", "int f(int x) { switch (x) { default: ", "int f() { int a[2] = {", "int f() { char s[2] = \"", "int f() { static int k = ", "int f() { \"abc\"", "int f() { asm(\"", "int a = a", "int a = &", "int *a = &a", "int a = (int)", "int a = (char)3", "int a = -", "int a = !", "int a = 1 ", "int a = 1 / ", "int a = 1 << ", "int a = 1 ? 2 : ", "int f(int a) { a ", "int f(int a) { a = ", "int f(int a) { a += ", "int f(float a) { a ", "struct s { int a; }; int f(struct s x) { x", "struct s { int a; } f() { return " };
#define NPRE ((int)(sizeof PRE / sizeof PRE[0]))
static const char* POST[] = { "", "\n", ";\n", "; }\n", "\";\n", "';\n", ");\n", "}\n", "]; int z;\n", "*/ int z;\n" };
#define NPOST ((int)(sizeof POST / sizeof POST[0]))
void qs_main(void) { int mode = qs_param("mode", 0), n = qs_param("n", 1); post_fn = post; qs_fuel(qs_param("fuel", 8000000));
  if (mode == 0) { t_s(PRE[qs_param("pre", 0)]); any(n, "text"); t_s(POST[qs_param("post", 0)]); }
  if (mode == 1) { /* repetition */
    static const char* NEST[] = { "(", "!", "-", "*", "&", "~", "(int)", "{", "[", "a[", "f(", "1?", "sizeof ", "a,", "a=", "struct{", "int*", "if(1)", "while(1)", "\"a\" ", "a.b", "/*", "'a'", "L\"a\" ", "case 1:", "l:", "else ", "do ", "int a,", "(*", "switch(1)", "for(;;)" };
    int k = qs_param("kind", 0), cnt = qs_param("base", 1) + qs_param("step", 1) * qs_select(qs_param("cnts", 6), "depth"), fn = qs_select(2, "inside");
    t_s(fn ? "int f(int a, int *b, int (*g)(int)) { a = 1; " : "int x = "); rep(NEST[k], cnt); one("last"); int cl = qs_select(3, "close"); static const char* CL[] = { ")", "]", "}", ";" }; if (cl) rep(k == 7 || k == 15 ? "}" : k == 8 || k == 9 ? "]" : ")", cl == 1 ? cnt : cnt / 2); t_s(fn ? "; }\n" : ";\n"); (void)CL; }
  if (mode == 2) { /* long tokens and lines */
    int k = qs_param("kind", 0), len = qs_param("len", 500) + qs_select(qs_param("lens", 6), "len");
    switch (k) { case 0: t_s("int "); rep("a", len); break; case 1: t_s("int x = "); rep("1", len); break; case 2: t_s("int x = 0x"); rep("f", len); break; case 3: t_s("char s[] = \""); rep("s", len); break; case 4: t_s("int c = '"); rep("c", len); break; case 5: t_s("/*"); rep("c", len); break; case 6: t_s("float x = 1."); rep("0", len); break; case 7: t_s("char s[] = \""); rep("\\1", len / 2); break; case 8: t_s("# 1 \""); rep("n", len); break; case 9: rep(" ", len); break; case 10: rep("\n", len); break; case 11: t_s("char s[] = \"\\x"); rep("0", len); break; case 12: t_s("char s[] = "); rep("\"ab\" ", len / 5); t_s("\"c"); break; case 13: t_s("#pragma "); rep("p ", len / 2); break; case 14: t_s("char *s = L\""); rep("w", len); break; case 15: t_s("float x = 1e"); rep("1", len); break; case 16: t_s("int x = 0"); rep("7", len); break; case 17: rep("\v\f\t", len / 3); t_s("int x"); break; }
    any(n, "text"); t_s(POST[qs_param("post", 2)]); }
  if (mode == 3) { /* a token across the end of the input buffer */
    int k = qs_param("kind", 0), pad = qs_param("pad", 4080) + qs_select(qs_param("pads", 8), "pad"); static const char* TK[] = { "int abcdef = 12345 ", "char s[] = \"abcdefgh", "int c = '\\x41", "/* comment *", "# 7 \"file.c\"\nint x", "#pragma ref x\nint y", "typedef int t; t v", "unsigned volatile x", "float f = 1.25e", "char *s = \"a\" \"b", "int f(void) { return 3 <<", "__typecode", "L'a" };
    if (qs_param("lines", 0)) { for (int i = 0; i < pad; i++) t_c(i % 61 == 60 ? '\n' : ' '); } else rep(" ", pad); t_s(TK[k]); any(n, "text"); t_s(POST[qs_param("post", 2)]); }
  if (mode == 4) { /* declared names of each kind of type, then any few tokens */
    static const char ENV[] = "typedef int T; struct S { int m; char c[3]; struct S *n; int b : 3; }; enum E { E1, E2 = 5 }; union U { int i; float x; };\n";
    static const char VARS[] = "int fn(int, float); int fo(); int va(char *, ...); struct S fs(struct S); void fv(void); ";
    static const char* CX[] = { "int x = ", "int *x = ", "float x = ", "char x[] = ", "struct S x = { ", "int x[2] = { 1, ", "", "static ", "T ", "struct S ", "int x(", "int (*x)", "int x[", "struct S { ", "enum E { ", "int F { return ", "int F { return a ", "int F { ", "int F { a ", "int F { v", "struct S F { return ", "void F { return ", "int F { if (", "int F { for (", "int F { switch (a) { case ", "int F { switch (", "int F { while (", "int F { T ", "int F { fn(", "int F { va(s, ", "int F { p[", "int F { return (", "int F { return *", "int F { return -", "int F { return &", "int F { d = ", "int F { v = ", "int F { p = ", "int F { return sizeof ", "int F { return a ? ", "int F { return a ? d : ", "int F { goto ", "int F { l: ", "int F { return (T) ", "int F { return (char) ", "int F { static int z = ", "int F { struct S z = { ", "int F { a += ", "int F { v.b = ", "int F { return ++", "int F { f2 = ", "int x(a) ", "int F { fo(", "int F { fs(", "int F { pf(", "int F { do ", "int F { volatile ", "int F { return !", "int F { register " };
    int cx = qs_param("cx", 0); t_s(ENV); t_s(VARS);
    for (const char* c = CX[cx]; *c; c++) { if (*c == 'F') t_s("f2(int a, float d, struct S v, int *p, char *s, int (*pf)(int), union U u, struct S *ps, unsigned k)"); else t_c(*c); }
    if (cx >= (int)(sizeof CX / sizeof CX[0])) qs_fail("no such context");
    for (int i = 0; i < 600; i++) t_c(' ');  /* more than the compiler wants to see ahead */
    more_fn = tokens; }
  run_rcc(); }
