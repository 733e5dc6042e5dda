/* The order in which directories are listed, as given by NBV_ORDER (linked
   with --wrap): 0 as they are, 1 sorted, 2 sorted backwards, others shuffled. */
#include <dirent.h>
#include <errno.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>

struct dirent *__real_readdir64(DIR *);
int __real_closedir(DIR *);

struct listing
{
  DIR *dir;
  struct dirent **entries;
  size_t count, next;
  int error;
  struct listing *below;
};

static struct listing *open_dirs;
static unsigned long order;

static uint64_t place(const struct dirent *e)
{
  uint64_t h = 1469598103934665603ULL + order * 0x9E3779B97F4A7C15ULL;
  for(const char *c = e->d_name; *c; c++) h = (h ^ (unsigned char)*c) * 1099511628211ULL;
  return h ^ (h >> 29);
}

static int compare(const void *x, const void *y)
{
  const struct dirent *a = *(struct dirent *const *)x, *b = *(struct dirent *const *)y;
  if(order == 1) return strcmp(a->d_name, b->d_name);
  if(order == 2) return strcmp(b->d_name, a->d_name);
  uint64_t p = place(a), q = place(b);
  return p < q ? -1 : p > q;
}

struct dirent *__wrap_readdir64(DIR *dir)
{
  const char *s = getenv("NBV_ORDER");
  order = s ? strtoul(s, NULL, 10) : 0;
  if(order == 0) return __real_readdir64(dir);

  struct listing *l = open_dirs;
  while(l != NULL && l->dir != dir) l = l->below;
  if(l == NULL)
  {
    const int before = errno;
    l = calloc(1, sizeof *l);
    if(l == NULL) abort();
    l->dir = dir;
    l->below = open_dirs;
    open_dirs = l;
    errno = 0;
    for(struct dirent *e; (e = __real_readdir64(dir)) != NULL; errno = 0)
    {
      l->entries = realloc(l->entries, (l->count + 1) * sizeof *l->entries);
      if(l->entries == NULL) abort();
      struct dirent *copy = malloc(e->d_reclen);
      if(copy == NULL) abort();
      memcpy(copy, e, e->d_reclen);
      l->entries[l->count++] = copy;
    }
    l->error = errno;
    errno = before;
    qsort(l->entries, l->count, sizeof *l->entries, compare);
  }
  if(l->error == 0 && l->next < l->count) return l->entries[l->next++];
  if(l->error != 0) errno = l->error;
  return NULL;
}

struct dirent *__wrap_readdir(DIR *dir)
{
  return __wrap_readdir64(dir);
}

int __wrap_closedir(DIR *dir)
{
  for(struct listing **l = &open_dirs; *l != NULL; l = &(*l)->below)
  {
    if((*l)->dir == dir)
    {
      struct listing *gone = *l;
      *l = gone->below;
      for(size_t i = 0; i < gone->count; i++) free(gone->entries[i]);
      free(gone->entries);
      free(gone);
      break;
    }
  }
  return __real_closedir(dir);
}
