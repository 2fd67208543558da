/* C02: no access outside the preprocessor's objects, and it ends. */
#include "cpph.h"
static void post(int st) { qs_reach(st ? "rejected" : "accepted"); qs_check(st == 0 || st == 1, "exit status 0 or 1"); }
/* any byte, or (param few) one of the characters that mean something to the tokeniser */
static void one(const char* nm) { if (qs_param("few", 0)) { static const char F[] = { '1', ')', 'X', '\n', '?', '(', '"', '\'', ',', '\\', '/', 0 }; T[tn++] = F[qs_select(sizeof F, nm)]; } else T[tn++] = qs_u8(nm); }
static void any(int n, const char* nm) { for (int i = 0; i < n; i++) T[tn++] = qs_u8(nm); }
static const char* PRE[] = {
  "", "#", "#define ", "#define f", "#define f(", "#define f(x", "#define f(x) ", "#define f(x,y) x", "#if ", "#if 1", "#if (", "#if '", "#if '\\", "#if defined", "#if 1?2", "#elif ", "#if 0\n#", "#if 0\n#elif ", "#if 1\n#el",
  "#include ", "#include <", "#include \"", "#include <a.h", "#line ", "#line 5", "#line 5 \"", "# 7 ", "#undef ", "#error ", "#warning x", "#pragma ", "#eval ", "#ifdef ", "#ifndef X", "#endif", "#else",
  "#define f(x) x\nf", "#define f(x) x\nf(", "#define f(x) x\nf(1", "#define f(x) #x\nf(", "#define f(x) #x\nf(\"", "#define f(x,y) x##y\nf(", "#define f(x,y) x##y\nf(a,", "#define f(x) x x\nf(f", "#define f(x) #", "#define f(x) x##", "#define f(x) ##x\nf(1)", "#define f() 1\nf(",
  "#define X X\nX", "#define X f\n#define f(x) X\nX(", "__LINE__", "__FILE__(", "a\\", "a\\\n", "??", "??/", "a ??/\n", "/*", "/* *", "// a", "\"", "\"\\", "'", "L", "L'", "1", "1e", ".", "..", "<<", "-", "#define X 1\n#define X ", "#if X\n", "#if -", "#if !", "#if (1", "#if 1 /", "#if 1 %", "#if 1 <<", "#define defined", "#undef defined", "#define f(x) f(x", "#define f(x,x", "#define X \\\n", "#if 0x", "#if 08", "#if 1u", "#if L'", "#if '\\x", "#if '\\1" };
#define NPRE ((int)(sizeof PRE / sizeof PRE[0]))
static const char* POST[] = { "", "\n", "\n#endif\nX f(2) __LINE__\n", ")\nX\n", "\n#else\n#endif\n", "\"\n", "'\n#endif\n" };
static void rep(const char* s, int n) { while (n-- > 0) t_s(s); }
void qs_main(void) {
  int mode = qs_param("mode", 0), n = qs_param("n", 2); post_fn = post; qs_fuel(qs_param("fuel", 6000000));
  vf_input("./a.h", (const uint8_t*)"#define A 1\n#if A\nA f(3)\n", 25);
  if (mode == 0) { t_s(PRE[qs_param("pre", 0)]); any(n, "text"); t_s(POST[qs_param("post", 0)]); }
  if (mode == 1) { /* nesting around the evaluator's stack size */
    static const char* NEST[] = { "(", "!", "-", "~", "1?", "1||", "(-", "1?2:", "1+(", "-1*", "defined X +", "1<2==" }; int k = qs_param("kind", 0), cnt = qs_param("base", 22) + qs_param("step", 1) * qs_select(20 / qs_param("step", 1), "depth");
    if (k < 12) { t_s("#if "); rep(NEST[k], cnt); one("last"); int cl = qs_select(3, "close"); rep(")", cl == 0 ? cnt : cl == 1 ? cnt / 2 : 0); if (k == 4) rep(":3", cl == 0 ? cnt : cl == 1 ? cnt / 2 : 0); t_s("\nyes\n#endif\n"); }
    if (k == 12) { rep("#if 1\n", cnt); rep("#endif\n", cnt); }
    if (k == 13) { t_s("#if 0\n"); rep("#ifdef X\n", cnt); one("text"); rep("#endif\n", cnt); }
    if (k == 14) { t_s("#define f("); for (int i = 0; i < cnt; i++) { if (i) t_c(','); t_c('a' + i / 26); t_c('a' + i % 26); } t_s(") aa bb\nf("); for (int i = 0; i < cnt; i++) { if (i) t_c(','); t_n(i); } one("text"); t_s(")\n"); }
    if (k == 15) { for (int i = 0; i < cnt; i++) { t_s("#define m"); t_n(i); t_s(" m"); t_n(i + 1); t_c('\n'); } t_s("m0\nm"); one("text"); t_s("\n"); }
    if (k == 16) { t_s("#define f(x) x\n"); rep("f(", cnt); one("text"); rep(")", cnt); t_s("\n"); }
    if (k == 17) { t_s("#define f(x) f(x) f\n"); rep("f(", 2); one("text"); rep(")", 2); t_s("\n"); } }
  if (mode == 2) { /* long tokens */
    int kind = qs_param("kind", 0), len = qs_param("len", 60) + qs_select(8, "len");
    if (kind == 0) { t_s("#define c(a,b) a##b\nc("); rep("a", len); t_c(','); rep("b", len); one("text"); t_s(")\n"); }
    if (kind == 1) { t_s("#define s(a) #a\ns("); if (qs_select(2, "quoted")) { t_c('"'); rep("\\", 0); } for (int i = 0; i < len; i++) T[tn++] = i == len / 2 ? qs_u8("mid") : 'q'; t_s(")\n"); }
    if (kind == 2) { t_s("#define s(a) #a\ns(\""); rep("\\\"", len); t_s("\""); one("text"); t_s(")\n"); }
    if (kind == 3) { t_s("#include \""); rep("d", len); one("text"); t_s("/e.h\"\n"); }
    if (kind == 4) { t_s("#include <"); rep("d/", len); one("text"); t_s("e.h>\nx\n"); }
    if (kind == 5) { rep("__FILE__ __LINE__ ", len); one("text"); t_s("\n"); }
    if (kind == 6) { t_s("#line 9 \""); rep("n", len * 8); t_s("\"\n"); rep("__FILE__ ", 4); one("text"); t_s("\n\\\n\nx\n"); } 
    if (kind == 7) { rep("x", len); one("text"); rep("y ", 3); t_s("\n"); } }
  if (mode == 3) { /* input near the end of the buffer, in small portions */
    int pad = qs_param("pad", 0) + qs_select(qs_param("pads", 4), "pad"); int kind = qs_param("kind", 0);
    if (kind == 0) { rep("x", pad); } if (kind == 1) { for (int i = 0; i < pad; i++) t_c(i % 7 == 6 ? '\n' : 'y'); } if (kind == 2) { t_s("/*"); for (int i = 0; i < pad; i++) t_c(i % 9 == 8 ? '\n' : 'z'); }
    if (kind == 3) { t_s("#define f(x) x\nf("); for (int i = 0; i < pad; i++) t_c(i % 9 == 8 ? '\n' : i % 9 == 7 ? '+' : 'z'); } if (kind == 4) { t_s("\""); rep("s", pad); } if (kind == 5) { t_s("// "); rep("c", pad); } if (kind == 6) { rep("x\\\n", pad); }
    any(n, "text"); t_s(POST[qs_param("post", 1)]); }
  if (mode == 4) { /* option values */
    static uint8_t o[64]; int k = 0; static const char* OP[] = { "-DX", "-DX=", "-D", "-UX", "-U", "-I", "-DX=\"", "-D__FILE__", "-Dif", "-Mx" }; const char* p = OP[qs_param("opt", 0)]; while (*p) o[k++] = *p++;
    for (int i = 0; i < n; i++) { o[k] = qs_u8("option"); qs_assume(o[k] != 0); k++; } o[k] = 0; opt1 = (char*)o;
    t_s("#if (X)\nX\n#elif !X\nX X\n#endif\n#ifdef X\n#if X+X\n#endif\n#endif\nX\n"); }
  run_cpp(); }
