/* Faults of read() on one file: short reads, interrupted calls, errors.
 * Preloaded; configured by fault_set() in this process or by the environment in child processes. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <unistd.h>

static ssize_t (*real_read)(int, void *, size_t);
static int active;
static dev_t dev;
static ino_t ino;
static long max_chunk, fail_offset, fail_count;
static int fail_errno, eintr;
static unsigned long state = 88172645463325252UL;
/* pipes: no byte behind pipe_offset can be read (-1: none) */
static long pipe_offset = -1, pipe_pos;
static long n_short, n_eintr, n_failed, n_reads;

static unsigned long rnd(void)
{
    state ^= state << 13;
    state ^= state >> 7;
    state ^= state << 17;
    return state;
}

/* max_chunk: largest number of bytes per call (0: no limit); eintr: one of so many calls is interrupted (0: none);
 * fail_offset: no byte behind it can be read (-1: none); fail_count: number of failing calls (-1: all) */
int fault_set(const char *path, long chunk, int interrupts, long offset, int err, long count, unsigned long seed)
{
    struct stat st;
    active = 0;
    if (stat(path, &st))
        return -1;
    dev = st.st_dev;
    ino = st.st_ino;
    max_chunk = chunk;
    eintr = interrupts;
    fail_offset = offset;
    fail_errno = err;
    fail_count = count;
    state = seed * 2 + 1;
    n_short = n_eintr = n_failed = n_reads = 0;
    active = 1;
    return 0;
}

/* reads of this process from any pipe fail after so many bytes in total */
void fault_pipe(long offset, int err)
{
    pipe_pos = 0;
    n_failed = 0;
    fail_errno = err;
    pipe_offset = offset;
}

void fault_clear(void)
{
    active = 0;
    pipe_offset = -1;
}

long fault_stat(int k) { return k == 0 ? n_reads : k == 1 ? n_short : k == 2 ? n_eintr : n_failed; }

__attribute__((constructor)) static void init(void)
{
    const char *p = getenv("FAULT_PATH");
    real_read = dlsym(RTLD_NEXT, "read");
    if (p)
        fault_set(p, atol(getenv("FAULT_CHUNK")), 0, atol(getenv("FAULT_OFFSET")), atoi(getenv("FAULT_ERRNO")), -1, 1);
}

ssize_t read(int fd, void *buf, size_t n)
{
    struct stat st;
    if (!real_read)
        real_read = dlsym(RTLD_NEXT, "read");
    if (pipe_offset >= 0 && n > 0 && fstat(fd, &st) == 0 && S_ISFIFO(st.st_mode)) {
        ssize_t m;
        if (pipe_pos >= pipe_offset) {
            n_failed++;
            errno = fail_errno;
            return -1;
        }
        if ((long)n > pipe_offset - pipe_pos)
            n = pipe_offset - pipe_pos;
        m = real_read(fd, buf, n);
        if (m > 0)
            pipe_pos += m;
        return m;
    }
    if (!active || n == 0 || fstat(fd, &st) || st.st_dev != dev || st.st_ino != ino)
        return real_read(fd, buf, n);
    n_reads++;
    if (eintr && rnd() % eintr == 0) {
        n_eintr++;
        errno = EINTR;
        return -1;
    }
    if (fail_offset >= 0 && fail_count) {
        off_t pos = lseek(fd, 0, SEEK_CUR);
        if (pos >= 0 && pos + (off_t)n > fail_offset) {
            if (pos >= fail_offset) {
                if (fail_count > 0)
                    fail_count--;
                n_failed++;
                errno = fail_errno;
                return -1;
            }
            n = fail_offset - pos;
            n_short++;
        }
    }
    if (max_chunk) {
        size_t m = 1 + rnd() % max_chunk;
        if (m < n) {
            n = m;
            n_short++;
        }
    }
    return real_read(fd, buf, n);
}
