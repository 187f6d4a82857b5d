// Faults for a run of the tool: SHIM="kind k chunk in_file", kinds as in spawn.rs.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

static char kind;
static unsigned long k, chunk;
static int in_fd = -1, out_fd = -1, interrupted;
static unsigned long got, put;

static ssize_t (*real_read)(int, void *, size_t);
static ssize_t (*real_write)(int, const void *, size_t);
static int (*real_open64)(const char *, int, ...);

__attribute__((constructor)) static void init(void) {
  int file = 0;
  real_read = dlsym(RTLD_NEXT, "read");
  real_write = dlsym(RTLD_NEXT, "write");
  real_open64 = dlsym(RTLD_NEXT, "open64");
  if (getenv("SHIM")) sscanf(getenv("SHIM"), "%c %lu %lu %d", &kind, &k, &chunk, &file);
  if (!file) in_fd = 0;
}

static int opened(const char *p, int fd) {
  if (!strcmp(p, "in.dj")) in_fd = fd;
  if (!strcmp(p, "out.html")) out_fd = fd;
  return fd;
}

int open64(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  int mode = va_arg(a, int);
  va_end(a);
  return opened(p, real_open64(p, flags, mode));
}

int open(const char *p, int flags, ...) {
  va_list a;
  va_start(a, flags);
  int mode = va_arg(a, int);
  va_end(a);
  return opened(p, real_open64(p, flags, mode));
}

ssize_t read(int fd, void *p, size_t n) {
  if (fd != in_fd) return real_read(fd, p, n);
  if (kind == 'R' && !interrupted) {
    interrupted = 1;
    errno = EINTR;
    return -1;
  }
  if (chunk && n > chunk) n = chunk;
  if (kind == 'r') {
    if (got >= k) {
      errno = EIO;
      return -1;
    }
    if (n > k - got) n = k - got;
  }
  ssize_t r = real_read(fd, p, n);
  if (r > 0) got += r;
  return r;
}

ssize_t write(int fd, const void *p, size_t n) {
  if (fd != 1 && fd != out_fd) return real_write(fd, p, n);
  if (kind == 'W' && !interrupted) {
    interrupted = 1;
    errno = EINTR;
    return -1;
  }
  if (chunk && n > chunk) n = chunk;
  if (kind == 'w') {
    if (put >= k && n > 0) {
      errno = ENOSPC;
      return -1;
    }
    if (n > k - put) n = k - put;
  }
  ssize_t r = real_write(fd, p, n);
  if (r > 0) put += r;
  return r;
}
