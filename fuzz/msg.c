/* Fuzz target: one message, parsed, and its words taken. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "mairix.h"

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  (void) argc; (void) argv;
  dup2(open("/dev/null", O_WRONLY), 1);
  stderr = fopen("/dev/null", "w");
  return 0;
}

int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
  static struct msg_src src;
  enum data_to_rfc822_error e;
  struct rfc822 *m;
  char *b = malloc(n ? n : 1);
  memcpy(b, d, n);
  src.type = MS_FILE;
  src.filename = "x";
  m = data_to_rfc822(&src, b, n, &e);
  if (m) {
    struct database *db = new_database(1);
    tokenise_message(0, db, m);
    free_database(db);
    free_rfc822(m);
  }
  free(b);
  return 0;
}
