/* nbx - runs a program inside a scratch root, contained and observed.

   nbx ROOT MODE CTLOUT CTLIN TIMEOUT_S CWD -- PROGRAM [ARG]...

   PROGRAM is a path outside of ROOT.  It runs chrooted into ROOT, inside a user namespace of its own
   whose ids map to otherwise unused host ids: inside it is "root" and may
   chown/chmod whatever lies in ROOT, outside it owns nothing and reaches
   nothing.

   MODE: run   - no observation
         trace - report all file related system calls on CTLOUT
         step  - like trace, but before each of them read a command from CTLIN:
                   g        go on
                   k        kill the process before the system call
                   f ERRNO  make the system call fail with ERRNO
                   s N      limit the byte count (3rd argument) to N
                   n K      go on and ask again at the system call with index K
                   c        go on and report without asking again
                   q        go on without reporting anything anymore

   Reports, one line each (fields separated by tabs, strings %-encoded):
     E idx name a0 a1 a2 a3 path1 path2   at system call entry
     A ...                                the same, a command is awaited
     R idx result data                    at its exit
     X status                             end; exit code or 1000+signal      */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/ptrace.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <linux/ptrace.h>
#include <grp.h>
#include <unistd.h>

static void fail(const char *what)
{
  fprintf(stderr, "nbx: %s: %s\n", what, strerror(errno));
  _exit(120);
}

static const char id_map[] =
  "0 100000 65536\n"
  "2147483640 200000 16\n"
  "4294967280 300000 15\n";

static void write_file(pid_t pid, const char *name, const char *text)
{
  char path[64];
  snprintf(path, sizeof path, "/proc/%d/%s", (int)pid, name);
  int fd = open(path, O_WRONLY);
  if(fd == -1) fail(path);
  if(write(fd, text, strlen(text)) != (ssize_t)strlen(text)) fail(path);
  close(fd);
}

/* Which arguments are paths: p = path, d = dirfd for the following path,
   data direction: r (result read into buffer), w (buffer written) */
struct sc { long nr; const char *name; int p1, p2; int data; };
static const struct sc table[] = {
#define S(n, p1, p2, d) { SYS_##n, #n, p1, p2, d }
  S(open, 0, -1, 0), S(creat, 0, -1, 0), S(openat, 1, -1, 0), S(openat2, 1, -1, 0),
  S(close, -1, -1, 0), S(close_range, -1, -1, 0), S(dup, -1, -1, 0), S(dup2, -1, -1, 0), S(dup3, -1, -1, 0),
  S(read, -1, -1, 'r'), S(pread64, -1, -1, 'r'), S(readv, -1, -1, 0), S(preadv, -1, -1, 0), S(preadv2, -1, -1, 0),
  S(write, -1, -1, 'w'), S(pwrite64, -1, -1, 'w'), S(writev, -1, -1, 'v'), S(pwritev, -1, -1, 0), S(pwritev2, -1, -1, 0),
  S(lseek, -1, -1, 0),
  S(fsync, -1, -1, 0), S(fdatasync, -1, -1, 0), S(sync, -1, -1, 0), S(syncfs, -1, -1, 0), S(sync_file_range, -1, -1, 0),
  S(rename, 0, 1, 0), S(renameat, 1, 3, 0), S(renameat2, 1, 3, 0),
  S(mkdir, 0, -1, 0), S(mkdirat, 1, -1, 0), S(rmdir, 0, -1, 0),
  S(unlink, 0, -1, 0), S(unlinkat, 1, -1, 0),
  S(link, 0, 1, 0), S(linkat, 1, 3, 0), S(symlink, 0, 1, 0), S(symlinkat, 0, 2, 0),
  S(mknod, 0, -1, 0), S(mknodat, 1, -1, 0),
  S(truncate, 0, -1, 0), S(ftruncate, -1, -1, 0), S(fallocate, -1, -1, 0),
  S(chmod, 0, -1, 0), S(fchmod, -1, -1, 0), S(fchmodat, 1, -1, 0), S(fchmodat2, 1, -1, 0),
  S(chown, 0, -1, 0), S(lchown, 0, -1, 0), S(fchown, -1, -1, 0), S(fchownat, 1, -1, 0),
  S(utime, 0, -1, 0), S(utimes, 0, -1, 0), S(futimesat, 1, -1, 0), S(utimensat, 1, -1, 0),
  S(stat, 0, -1, 0), S(lstat, 0, -1, 0), S(fstat, -1, -1, 0), S(newfstatat, 1, -1, 0), S(statx, 1, -1, 0),
  S(access, 0, -1, 0), S(faccessat, 1, -1, 0), S(faccessat2, 1, -1, 0),
  S(readlink, 0, -1, 0), S(readlinkat, 1, -1, 0),
  S(getdents, -1, -1, 0), S(getdents64, -1, -1, 0),
  S(fcntl, -1, -1, 'l'), S(flock, -1, -1, 0), S(ioctl, -1, -1, 0),
  S(sendfile, -1, -1, 0), S(copy_file_range, -1, -1, 0), S(splice, -1, -1, 0),
  S(setxattr, 0, -1, 0), S(lsetxattr, 0, -1, 0), S(fsetxattr, -1, -1, 0),
  S(removexattr, 0, -1, 0), S(lremovexattr, 0, -1, 0), S(fremovexattr, -1, -1, 0),
  S(chdir, 0, -1, 0), S(fchdir, -1, -1, 0), S(chroot, 0, -1, 0), S(mount, 0, 1, 0),
  S(mmap, -1, -1, 'm'), S(msync, -1, -1, 0),
  S(fork, -1, -1, 0), S(vfork, -1, -1, 0), S(clone, -1, -1, 0), S(clone3, -1, -1, 0), S(execve, 0, -1, 0), S(execveat, 1, -1, 0),
  S(io_uring_setup, -1, -1, 0), S(name_to_handle_at, 1, -1, 0),
#undef S
};

static const struct sc *find(uint64_t nr)
{
  static const struct sc *cache[512];
  static int ready = 0;
  if(!ready)
  {
    for(size_t i = 0; i < sizeof table / sizeof *table; i++)
      if(table[i].nr < 512) cache[table[i].nr] = &table[i];
    ready = 1;
  }
  return nr < 512 ? cache[nr] : NULL;
}

static FILE *out;
static int in_fd;

static void put_encoded(const unsigned char *s, size_t n)
{
  static const char hex[] = "0123456789ABCDEF";
  for(size_t i = 0; i < n; i++)
  {
    unsigned char c = s[i];
    if(c <= 0x20 || c >= 0x7f || c == '%')
    {
      putc('%', out); putc(hex[c >> 4], out); putc(hex[c & 15], out);
    }
    else putc(c, out);
  }
}

static size_t peek(pid_t pid, uint64_t addr, void *buf, size_t n)
{
  size_t done = 0;
  while(done < n)
  {
    /* Never cross a page in one call: partial reads stop at page faults. */
    size_t page = 4096 - ((addr + done) & 4095);
    size_t want = n - done < page ? n - done : page;
    struct iovec l = { (char *)buf + done, want };
    struct iovec r = { (void *)(addr + done), want };
    ssize_t got = process_vm_readv(pid, &l, 1, &r, 1, 0);
    if(got <= 0) break;
    done += got;
  }
  return done;
}

static void put_string_at(pid_t pid, uint64_t addr)
{
  unsigned char buf[4096];
  size_t total = 0;
  if(addr == 0) { fputs("%00NULL", out); return; }
  while(total < sizeof buf)
  {
    size_t page = 4096 - ((addr + total) & 4095);
    size_t want = sizeof buf - total < page ? sizeof buf - total : page;
    size_t got = peek(pid, addr + total, buf + total, want);
    if(got == 0) break;
    unsigned char *z = memchr(buf + total, 0, got);
    if(z) { total = z - buf; break; }
    total += got;
  }
  put_encoded(buf, total);
}

static void put_data_at(pid_t pid, uint64_t addr, size_t n)
{
  unsigned char buf[65536];
  size_t done = 0;
  while(done < n)
  {
    size_t want = n - done < sizeof buf ? n - done : sizeof buf;
    size_t got = peek(pid, addr + done, buf, want);
    if(got == 0) break;
    put_encoded(buf, got);
    done += got;
  }
}

static char cmd_buf[64];
static const char *read_command(void)
{
  size_t n = 0;
  fflush(out);
  while(n + 1 < sizeof cmd_buf)
  {
    char c;
    ssize_t r = read(in_fd, &c, 1);
    if(r <= 0) return "k";
    if(c == '\n') break;
    cmd_buf[n++] = c;
  }
  cmd_buf[n] = 0;
  return cmd_buf;
}

static pid_t child = -1;
static volatile sig_atomic_t timed_out = 0;
static void on_alarm(int s)
{
  (void)s;
  timed_out = 1;
  if(child > 0) kill(child, SIGKILL);
}

int main(int argc, char **argv)
{
  if(argc < 9 || strcmp(argv[7], "--") != 0)
  {
    fprintf(stderr, "usage: nbx ROOT MODE CTLOUT CTLIN TIMEOUT CWD -- PROG ARGS\n");
    return 120;
  }
  const char *root = argv[1], *mode = argv[2], *cwd = argv[6];
  const int ctl_out = atoi(argv[3]);
  in_fd = atoi(argv[4]);
  const int timeout = atoi(argv[5]);
  const int traced = strcmp(mode, "run") != 0;
  int asking = strcmp(mode, "step") == 0;
  int reporting = traced;

  const int prog = open(argv[8], O_PATH | O_CLOEXEC);
  if(prog == -1) fail(argv[8]);
  out = fdopen(ctl_out, "w");
  if(out == NULL) fail("fdopen");

  int up[2], down[2];
  if(pipe2(up, O_CLOEXEC) != 0 || pipe2(down, O_CLOEXEC) != 0) fail("pipe");

  child = fork();
  if(child == -1) fail("fork");
  if(child == 0)
  {
    char c;
    if(prctl(PR_SET_PDEATHSIG, SIGKILL) != 0) fail("pdeathsig");
    if(unshare(CLONE_NEWUSER) != 0) fail("unshare");
    if(write(up[1], "x", 1) != 1 || read(down[0], &c, 1) != 1) fail("sync");
    if(setgroups(0, NULL) != 0) fail("setgroups");
    if(setresgid(0, 0, 0) != 0 || setresuid(0, 0, 0) != 0) fail("setresuid");
    if(chroot(root) != 0) fail("chroot");
    if(chdir(cwd) != 0) fail("chdir");
    const char *mask = getenv("NBV_UMASK");
    umask(mask ? strtol(mask, NULL, 8) : 022);
    close(ctl_out);
    if(in_fd > 2) close(in_fd);
    struct rlimit core = { 0, 0 };
    setrlimit(RLIMIT_CORE, &core);
    /* Memory limit against damaged inputs which demand absurd amounts. */
    struct rlimit as = { 2048UL << 20, 2048UL << 20 };
    setrlimit(RLIMIT_AS, &as);
    /* So that recursion without bounds needs less memory to be noticed. */
    struct rlimit stack = { 2UL << 20, 2UL << 20 };
    setrlimit(RLIMIT_STACK, &stack);
    /* So that files which are never closed are noticed. */
    struct rlimit files = { 40, 40 };
    setrlimit(RLIMIT_NOFILE, &files);
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    if(traced)
    {
      if(ptrace(PTRACE_TRACEME, 0, 0, 0) != 0) fail("traceme");
      raise(SIGSTOP);
    }
    /* The time which the program is told (see clock.c). */
    static char now[64];
    const char *fixed = getenv("NBV_NOW");
    snprintf(now, sizeof now, "NBV_NOW=%s", fixed ? fixed : "");
    char *env[] = { "LC_ALL=C", now, NULL };
    argv[8] = (char *)"nb";
    syscall(SYS_execveat, prog, "", &argv[8], env, AT_EMPTY_PATH);
    fail("execveat");
  }
  char c;
  close(up[1]);
  if(read(up[0], &c, 1) != 1) { waitpid(child, NULL, 0); return 120; }
  write_file(child, "uid_map", id_map);
  write_file(child, "gid_map", id_map);
  signal(SIGALRM, on_alarm);
  alarm(timeout);
  if(write(down[1], "x", 1) != 1) fail("sync");

  int status;
  if(!traced)
  {
    while(waitpid(child, &status, 0) == -1 && errno == EINTR);
  }
  else
  {
    waitpid(child, &status, 0);
    if(!WIFSTOPPED(status)) { fprintf(out, "X\t120\n"); fflush(out); return 120; }
    ptrace(PTRACE_SETOPTIONS, child, 0,
           PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL | PTRACE_O_TRACEEXEC);
    long index = 0, ask_at = 0;
    int in_call = 0, started = 0, inject = 0, reported = 0;
    const struct sc *call = NULL;
    uint64_t args[6];
    int sig = 0;
    for(;;)
    {
      if(ptrace(reporting || inject || in_call ? PTRACE_SYSCALL : PTRACE_CONT, child, 0, sig) != 0 &&
         errno != ESRCH)
        fail("ptrace");
      sig = 0;
      while(waitpid(child, &status, 0) == -1 && errno == EINTR);
      if(WIFEXITED(status) || WIFSIGNALED(status)) break;
      if(!WIFSTOPPED(status)) continue;
      if((status >> 8) == (SIGTRAP | (PTRACE_EVENT_EXEC << 8)))
      {
        started = 1; in_call = 1; call = NULL; /* exit of execve follows */
        continue;
      }
      if(WSTOPSIG(status) != (SIGTRAP | 0x80))
      {
        sig = WSTOPSIG(status);
        if(!started) sig = 0;
        continue;
      }
      struct user_regs_struct regs;
      if(ptrace(PTRACE_GETREGS, child, 0, &regs) != 0) continue;
      if(!in_call)
      {
        in_call = 1;
        call = started ? find(regs.orig_rax) : NULL;
        inject = 0; reported = 0;
        if(call == NULL || !reporting) { call = NULL; continue; }
        args[0] = regs.rdi; args[1] = regs.rsi; args[2] = regs.rdx;
        args[3] = regs.r10; args[4] = regs.r8; args[5] = regs.r9;
        /* Anonymous mappings are memory management, not file access. */
        if(call->data == 'm' && (int)args[4] == -1) { call = NULL; continue; }
        fprintf(out, "%c\t%ld\t%s\t%lld\t%lld\t%lld\t%lld\t",
                asking && index >= ask_at ? 'A' : 'E', index, call->name,
                (long long)args[0], (long long)args[1], (long long)args[2], (long long)args[3]);
        if(call->p1 >= 0) put_string_at(child, args[call->p1]);
        putc('\t', out);
        if(call->p2 >= 0) put_string_at(child, args[call->p2]);
        else if(call->data == 'w') put_data_at(child, args[1], args[2]);
        else if(call->data == 'v')
        {
          for(uint64_t i = 0; i < args[2] && i < 16; i++)
          {
            struct iovec v;
            if(peek(child, args[1] + i * sizeof v, &v, sizeof v) != sizeof v) break;
            put_data_at(child, (uint64_t)v.iov_base, v.iov_len);
          }
        }
        else if(call->data == 'l' && ((int)args[1] == F_SETLK || (int)args[1] == F_SETLKW ||
                                      (int)args[1] == F_GETLK || (int)args[1] == F_OFD_SETLK ||
                                      (int)args[1] == F_OFD_SETLKW))
        {
          struct flock fl;
          if(peek(child, args[2], &fl, sizeof fl) == sizeof fl)
            fprintf(out, "%d", (int)fl.l_type);
        }
        putc('\n', out);
        reported = 1;
        index++;
        if(asking && index > ask_at)
        {
          const char *cmd = read_command();
          if(cmd[0] == 'k')
          {
            regs.orig_rax = (unsigned long long)-1;
            ptrace(PTRACE_SETREGS, child, 0, &regs);
            kill(child, SIGKILL);
          }
          else if(cmd[0] == 'f')
          {
            inject = atoi(cmd + 2);
            regs.orig_rax = (unsigned long long)-1;
            ptrace(PTRACE_SETREGS, child, 0, &regs);
          }
          else if(cmd[0] == 's')
          {
            regs.rdx = strtoull(cmd + 2, NULL, 10);
            args[2] = regs.rdx;
            ptrace(PTRACE_SETREGS, child, 0, &regs);
          }
          else if(cmd[0] == 'n') ask_at = atol(cmd + 2);
          else if(cmd[0] == 'c') asking = 0;
          else if(cmd[0] == 'q') { asking = 0; reporting = 0; }
        }
      }
      else
      {
        in_call = 0;
        if(call == NULL) continue;
        if(inject)
        {
          regs.rax = (unsigned long long)(-(long long)inject);
          ptrace(PTRACE_SETREGS, child, 0, &regs);
        }
        if(reported)
        {
          fprintf(out, "R\t%ld\t%lld\t", index - 1, (long long)regs.rax);
          if(call->data == 'r' && (long long)regs.rax > 0)
            put_data_at(child, args[1], regs.rax);
          putc('\n', out);
        }
        inject = 0; call = NULL; reported = 0;
      }
    }
  }
  int code = timed_out ? 1999 : WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
  fprintf(out, "X\t%d\n", code);
  fflush(out);
  return 0;
}
