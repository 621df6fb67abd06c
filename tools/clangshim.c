/* Fast stand-in for the "clang" that lacsap runs to link: for exactly the plain link command lacsap issues it runs
 * ld.lld directly with the arguments clang would pass; anything else goes to the real clang. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
int main(int argc, char** argv)
{
    const char* obj = 0; const char* out = 0; const char* L = 0; const char* rt = 0; int m32 = 0, ok = 1, lm = 0;
    for (int i = 1; i < argc; i++) {
	const char* a = argv[i];
	size_t n = strlen(a);
	if (!strcmp(a, "-m32")) m32 = 1;
	else if (!strcmp(a, "-g")) ;
	else if (!strcmp(a, "-lm")) lm = 1;
	else if (!strncmp(a, "-L", 2)) L = a;
	else if (!strncmp(a, "-lruntime", 9)) rt = a;
	else if (!strcmp(a, "-o") && i + 1 < argc) out = argv[++i];
	else if (n > 2 && !strcmp(a + n - 2, ".o")) obj = a;
	else ok = 0;
    }
    if (!(ok && obj && out && L && rt && lm) || getenv("MC_REALCLANG")) {
	argv[0] = "/usr/bin/clang";
	execv(argv[0], argv);
	return 127;
    }
    char* v[40]; int c = 0;
    v[c++] = "ld.lld"; v[c++] = "--threads=1"; v[c++] = "-O0"; v[c++] = "-z"; v[c++] = "relro"; v[c++] = "-z"; v[c++] = "execstack"; v[c++] = "--eh-frame-hdr";
    v[c++] = "-m"; v[c++] = m32 ? "elf_i386" : "elf_x86_64"; v[c++] = "-pie"; v[c++] = "-dynamic-linker";
    v[c++] = m32 ? "/lib/ld-linux.so.2" : "/lib64/ld-linux-x86-64.so.2";
    v[c++] = "-o"; v[c++] = (char*)out;
#define LIB64 "/usr/lib/x86_64-linux-gnu/"
#define LIB32 "/usr/lib32/"
    v[c++] = m32 ? LIB32 "Scrt1.o" : LIB64 "Scrt1.o";
    v[c++] = m32 ? LIB32 "crti.o" : LIB64 "crti.o";
    v[c++] = (char*)obj; v[c++] = (char*)L;
    v[c++] = m32 ? "-L/usr/lib32" : "-L/usr/lib/x86_64-linux-gnu";
    v[c++] = m32 ? "-L/usr/lib/gcc/x86_64-linux-gnu/13/32" : "-L/usr/lib/gcc/x86_64-linux-gnu/13";
    v[c++] = (char*)rt; v[c++] = "-lm"; v[c++] = "-lc"; v[c++] = "-lgcc";
    v[c++] = m32 ? LIB32 "crtn.o" : LIB64 "crtn.o";
    v[c] = 0;
    execv("/usr/bin/ld.lld", v);
    argv[0] = "/usr/bin/clang";
    execv(argv[0], argv);
    return 127;
}
