/* Fuzz target: one mailbox file, split, and the words of its messages taken. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include "mairix.h"

static char path[4096];

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
  (void) argc; (void) argv;
  dup2(open("/dev/null", O_WRONLY), 1);
  stderr = fopen("/dev/null", "w");
  snprintf(path, sizeof path, "%s/box-%d", getenv("TMPDIR"), (int) getpid());
  return 0;
}

int LLVMFuzzerTestOneInput(const unsigned char *d, size_t n)
{
  struct database *db;
  struct msgpath none;
  FILE *f = fopen(path, "wb");
  if (!f) return 0;
  fwrite(d, 1, n, f);
  fclose(f);
  db = new_database(1);
  build_mbox_lists(db, "/", path, NULL, 0);
  update_database(db, &none, 0, 0, NULL);
  free_database(db);
  return 0;
}
