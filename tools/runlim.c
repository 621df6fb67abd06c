/* runlim CPU_S FSIZE_MB AS_MB(0=off) prog args...  : resource limits, then exec */
#include <stdio.h>
#include <stdlib.h>
#include <sys/resource.h>
#include <unistd.h>
static void lim(int w, unsigned long v) { struct rlimit r = { v, v }; setrlimit(w, &r); }
int main(int argc, char** argv)
{
    if (argc < 5) return 126;
    lim(RLIMIT_CPU, atol(argv[1]));
    lim(RLIMIT_FSIZE, atol(argv[2]) << 20);
    if (atol(argv[3])) lim(RLIMIT_AS, atol(argv[3]) << 20);
    lim(RLIMIT_CORE, 0);
    execv(argv[4], argv + 4);
    perror(argv[4]);
    return 127;
}
