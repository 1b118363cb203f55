/* A stand-in for a program that a launcher starts: it reports itself to the simulator and does what it is told. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <signal.h>
#include <limits.h>
#include <sys/socket.h>
#include <sys/un.h>

extern char **environ;
static char buf[1 << 18];

int main(int argc, char **argv) {
    const char *at = getenv("SIM_SOCKET");
    if (!at) return 98;
    int s = socket(AF_UNIX, SOCK_STREAM, 0);
    struct sockaddr_un a = {.sun_family = AF_UNIX};
    strncpy(a.sun_path, at, sizeof a.sun_path - 1);
    if (connect(s, (struct sockaddr *) &a, sizeof a)) return 98;
    char *p = buf, *end = buf + sizeof buf - 8;
    char cwd[PATH_MAX] = "?";
    if (!getcwd(cwd, sizeof cwd)) return 98;
    p += snprintf(p, end - p, "%d", getpid()) + 1;
    p += snprintf(p, end - p, "%d", getsid(0)) + 1;
    p += snprintf(p, end - p, "%s", cwd) + 1;
    p += snprintf(p, end - p, "%d", argc) + 1;
    for (int i = 0; i < argc && p < end; i++) p += snprintf(p, end - p, "%s", argv[i]) + 1;
    for (char **e = environ; *e && p < end; e++) p += snprintf(p, end - p, "%s", *e) + 1;
    unsigned n = p - buf;
    write(s, &n, sizeof n);
    for (char *q = buf; q < p;) { ssize_t k = write(s, q, p - q); if (k <= 0) return 98; q += k; }
    /* reply: an exit status or a signal, then text to print */
    int reply[2];
    char *r = (char *) reply;
    for (size_t got = 0; got < sizeof reply;) { ssize_t k = read(s, r + got, sizeof reply - got); if (k <= 0) return 98; got += k; }
    char text[4096];
    ssize_t k;
    while ((k = read(s, text, sizeof text)) > 0) fwrite(text, 1, k, stdout);
    fflush(stdout);
    if (reply[0] < 0) { kill(getpid(), -reply[0]); pause(); }
    return reply[0];
}
