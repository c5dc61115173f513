/* Joins stdin/stdout to a Unix socket: the command behind imap_pipe. */
#include <poll.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <unistd.h>

static int copy(int from, int to)
{
  char b[65536], *p = b;
  ssize_t n = read(from, b, sizeof b), k;
  if (n <= 0) return 0;
  while (n > 0) {
    k = write(to, p, n);
    if (k <= 0) return 0;
    p += k;
    n -= k;
  }
  return 1;
}

int main(int argc, char **argv)
{
  struct sockaddr_un a;
  struct pollfd f[2];
  int s = socket(AF_UNIX, SOCK_STREAM, 0);
  memset(&a, 0, sizeof a);
  a.sun_family = AF_UNIX;
  if (argc < 2 || s < 0) return 1;
  strncpy(a.sun_path, argv[1], sizeof a.sun_path - 1);
  if (connect(s, (struct sockaddr *)&a, sizeof a) < 0) return 1;
  f[0].fd = 0;
  f[1].fd = s;
  f[0].events = f[1].events = POLLIN;
  for (;;) {
    if (poll(f, 2, -1) < 0) return 1;
    if (f[1].revents && !copy(s, 1)) return 0;
    if (f[0].revents && !copy(0, s)) {
      /* the client is gone; so are we */
      return 0;
    }
  }
}
