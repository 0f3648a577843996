#include "vfs.h"
#include "alloc.h"
#include "sched.h"
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/statvfs.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include "core.h"
#include "raw.h"

long raw_syscall6(long n, long a, long b, long c, long d, long e, long f) {
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    long r;
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return r;
}
static long fixErr(long r) { if (r < 0 && r > -4096) { errno = int(-r); return -1; } return r; }
ssize_t raw_write(int fd, const void* p, size_t n) { return fixErr(raw_syscall6(SYS_write, fd, (long)p, n, 0, 0, 0)); }
ssize_t raw_read(int fd, void* p, size_t n) { return fixErr(raw_syscall6(SYS_read, fd, (long)p, n, 0, 0, 0)); }
off_t raw_lseek(int fd, off_t o, int w) { return fixErr(raw_syscall6(SYS_lseek, fd, o, w, 0, 0, 0)); }
int raw_close(int fd) { return fixErr(raw_syscall6(SYS_close, fd, 0, 0, 0, 0, 0)); }
int raw_clock_gettime(clockid_t c, timespec* t) { return fixErr(raw_syscall6(SYS_clock_gettime, c, (long)t, 0, 0, 0, 0)); }
int raw_nanosleep(const timespec* a, timespec* b) { return fixErr(raw_syscall6(SYS_nanosleep, (long)a, (long)b, 0, 0, 0, 0)); }

namespace sim { namespace vfs {

static constexpr int MAXI = 600;
static constexpr uint64_t DATA = 1ull << 30;
struct Inode { char path[240]; bool used, dir; uint64_t off, size, cap; };
struct Disk {
    uint64_t brk, capacity, used;
    int n;
    Inode ino[MAXI];
};
static Disk* D;
static char* data;
static std::vector<Fault>* faults;
static bool shortRd, isQuiet;
// Shared, as the disk is: what a program run as a subprocess does counts
static constexpr int MAXOPS = 1 << 16;
struct Past { uint64_t fired; int n; struct { int op; char path[124]; } op[MAXOPS]; };
static Past* past;

struct OFD { int ino; uint64_t pos; int flags; int refs; std::string path; };
static std::map<int, OFD*>* fds;
static std::map<FILE*, OFD*>* files;
static constexpr int FD0 = 1000000;
static int nextFd = FD0;

struct Init { Init() {
    D = (Disk*)sharedAlloc(sizeof(Disk));
    data = (char*)sharedAlloc(DATA);
    faults = new std::vector<Fault>;
    fds = new std::map<int, OFD*>;
    files = new std::map<FILE*, OFD*>;
    past = (Past*)sharedAlloc(sizeof(Past));
    D->capacity = ~0ull;
} };
static void init() { static Init i; }
struct Early { Early() { init(); } } early;

void reset() { init(); memset(D, 0, offsetof(Disk, ino)); D->capacity = ~0ull; memset(D->ino, 0, sizeof(D->ino)); faults->clear(); past->fired = 0; shortRd = false; isQuiet = false; past->n = 0; nextFd = FD0; }
void format() { D->brk = 0; D->used = 0; D->n = 0; memset(D->ino, 0, sizeof(D->ino)); }

const char* opName(int op) {
    switch (op) { case OPEN: return "open"; case READ: return "read"; case WRITE: return "write"; case SYNC: return "sync"; case CLOSE: return "close"; case SEEK: return "seek"; case STAT: return "stat"; case UNLINK: return "unlink"; case RENAME: return "rename"; case MKDIR: return "mkdir"; case OPENDIR: return "opendir"; }
    return "?";
}
static std::string norm(const char* p) {
    std::string s(p);
    size_t k;
    while ((k = s.find("//")) != std::string::npos) s.erase(k, 1);
    while ((k = s.find("/./")) != std::string::npos) s.erase(k, 2);
    while (s.size() > 1 && s.back() == '/') s.pop_back();
    return s;
}
bool mine(const char* p) { return p && p[0] == '/' && p[1] == 's' && p[2] == 'i' && p[3] == 'm' && (p[4] == '/' || !p[4]); }
static int find(const std::string& p) { for (int i = 0; i < D->n; i++) if (D->ino[i].used && p == D->ino[i].path) return i; return -1; }
static int create(const std::string& p, bool dir) {
    if (p.size() >= sizeof(D->ino[0].path)) return -1;
    int k = -1;
    for (int i = 0; i < D->n; i++) if (!D->ino[i].used) { k = i; break; }
    if (k < 0) { if (D->n >= MAXI) harnessError("too many files"); k = D->n++; }
    Inode& o = D->ino[k];
    memset(&o, 0, sizeof o);
    strcpy(o.path, p.c_str());
    o.used = true; o.dir = dir;
    return k;
}
static void reserve(Inode& o, uint64_t n) {
    if (n <= o.cap) return;
    uint64_t c = o.cap ? o.cap : 4096;
    while (c < n) c *= 2;
    if (D->brk + c > DATA) harnessError("simulated disk exhausted");
    memcpy(data + D->brk, data + o.off, o.size);
    o.off = D->brk; o.cap = c;
    D->brk += c;
}
static bool parentOk(const std::string& p) {
    size_t k = p.rfind('/');
    std::string d = p.substr(0, k);
    if (d == "/sim" || d.empty()) return true;
    int i = find(d);
    return i >= 0 && D->ino[i].dir;
}

void put(const std::string& path, const std::string& b) {
    int i = find(path);
    if (i < 0) i = create(path, false);
    Inode& o = D->ino[i];
    D->used -= o.size;
    o.size = 0;
    reserve(o, b.size());
    memcpy(data + o.off, b.data(), b.size());
    o.size = b.size();
    D->used += o.size;
}
std::string get(const std::string& path) { int i = find(path); if (i < 0) return ""; return std::string(data + D->ino[i].off, D->ino[i].size); }
bool exists(const std::string& path) { return find(path) >= 0; }
bool isDir(const std::string& path) { int i = find(path); return i >= 0 && D->ino[i].dir; }
void remove(const std::string& path) { int i = find(path); if (i >= 0) { D->used -= D->ino[i].size; D->ino[i].used = false; } }
void mkdir(const std::string& path) { if (find(path) < 0) create(path, true); }
std::vector<std::string> list(const std::string& prefix) {
    std::vector<std::string> r;
    for (int i = 0; i < D->n; i++) if (D->ino[i].used && !strncmp(D->ino[i].path, prefix.c_str(), prefix.size())) r.push_back(D->ino[i].path);
    std::sort(r.begin(), r.end());
    return r;
}
uint64_t size(const std::string& p) { int i = find(p); return i < 0 ? 0 : D->ino[i].size; }
void addFault(const Fault& f) { faults->push_back(f); }
void clearFaults() { faults->clear(); D->capacity = ~0ull; }
uint64_t faultsFired() { return past->fired; }
static int byThread = -1;
int& faultThread() { return byThread; }

static uint64_t capacityEnds = ~0ull;
void capacity(uint64_t b, uint64_t untilNs) { D->capacity = b; capacityEnds = untilNs; }
uint64_t used() { return D->used; }
void shortReads(bool on) { shortRd = on; }
void countOps() { past->n = 0; }
uint64_t ops(int mask, const std::string& path) {
    uint64_t n = 0;
    for (int i = 0; i < past->n; i++) if ((past->op[i].op & mask) && (path.empty() || strstr(past->op[i].path, path.c_str()))) n++;
    return n;
}
uint64_t openHandles() { return fds->size() + files->size(); }
static uint64_t peak = 0;
uint64_t peakHandles(bool again) { if (again) peak = 0; return peak; }
void quiet(bool on) { isQuiet = on; }

// Called at the start of each operation. Returns the fault that fires, if any.
static Fault* before(int op, const std::string& path) {
    if (isQuiet) return nullptr;
    step();
    advance(2000);
    if (past->n < MAXOPS) { auto& o = past->op[past->n++]; o.op = op; snprintf(o.path, sizeof o.path, "%s", path.c_str()); }
    for (auto& f : *faults) {
        if (!(f.ops & op)) continue;
        if (!f.path.empty() && path.find(f.path) == std::string::npos) continue;
        uint64_t k = f.seen++;
        if (k < f.at || k - f.at >= f.times) continue;
        f.fired++;
        past->fired++;
        faultThread() = sched::self();
        static const char* an[] = {"err", "short", "crash", "crash_torn", "crash_after"};
        count(strf("fault.%s.%s", opName(op), an[f.act]).c_str());
        log("FAULT %s %s #%llu %s %s", opName(op), path.c_str(), (unsigned long long)k, an[f.act], f.act == ERR ? strerror(f.err) : "");
        if (f.act == CRASH) _exit(CRASH_EXIT);
        return &f;
    }
    return nullptr;
}
static void after(Fault* f) { if (f && f->act == CRASH_AFTER) _exit(CRASH_EXIT); }

static int doOpen(const char* p, int flags, OFD** out) { sim::alloc::Pause pause_;
    std::string path = norm(p);
    Fault* f = before(OPEN, path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    int i = find(path);
    if (i < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        if (!parentOk(path)) { errno = ENOENT; return -1; }
        i = create(path, false);
        if (i < 0) { errno = ENAMETOOLONG; return -1; }
    } else {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
        if (D->ino[i].dir && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    }
    if ((flags & O_TRUNC) && (flags & O_ACCMODE) != O_RDONLY) { D->used -= D->ino[i].size; D->ino[i].size = 0; }
    if (!isQuiet) log("open %s %x", path.c_str(), flags & (O_ACCMODE | O_TRUNC | O_APPEND | O_CREAT));
    *out = new OFD{i, 0, flags, 1, path};
    peak = std::max<uint64_t>(peak, openHandles() + 1);
    after(f);
    return 0;
}
static ssize_t doRead(OFD* o, void* buf, size_t n, bool allowShort) { sim::alloc::Pause pause_;
    Fault* f = before(READ, o->path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    Inode& i = D->ino[o->ino];
    if (i.dir) { errno = EISDIR; return -1; }
    if ((o->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    uint64_t k = o->pos >= i.size ? 0 : i.size - o->pos;
    if (k > n) k = n;
    if (f && f->act == SHORT && k > 1) { k = 1 + (k - 1) * f->arg / 1000; }
    else if (allowShort && shortRd && k > 1 && !isQuiet) {
        uint32_t c = draw(FAULT, 4);
        if (c == 1) k = 1 + draw(FAULT, k > 16 ? 16 : k);
        else if (c >= 2) k = 1 + draw(FAULT, k);
        if (k > n) k = n;
        uint64_t left = i.size - o->pos;
        if (k > left) k = left;
        if (c) count("fault.read.short_fd");
    }
    memcpy(buf, data + i.off + o->pos, k);
    o->pos += k;
    advance(k / 4);
    after(f);
    return k;
}
static ssize_t doWrite(OFD* o, const void* buf, size_t n) { sim::alloc::Pause pause_;
    Fault* f = before(WRITE, o->path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
    size_t want = n;
    if (f && (f->act == SHORT || f->act == CRASH_TORN)) { n = n * f->arg / 1000; if (n >= want && want) n = want - 1; }
    Inode& i = D->ino[o->ino];
    if (o->flags & O_APPEND) o->pos = i.size;
    uint64_t end = o->pos + n;
    uint64_t grow = end > i.size ? end - i.size : 0;
    if (D->capacity != ~0ull && now() >= capacityEnds) { D->capacity = ~0ull; log("space has become free"); }
    if (D->used + grow > D->capacity) {
        uint64_t room = D->capacity > D->used ? D->capacity - D->used : 0;
        uint64_t cut = grow - room;
        if (cut >= n) { if (!isQuiet) { count("fault.write.enospc"); past->fired++; log("ENOSPC %s", o->path.c_str()); } errno = ENOSPC; return -1; }
        n -= cut;
        end = o->pos + n;
        grow = room;
        if (!isQuiet) { count("fault.write.short_enospc"); past->fired++; log("short ENOSPC %s", o->path.c_str()); }
    }
    reserve(i, end);
    if (o->pos > i.size) memset(data + i.off + i.size, 0, o->pos - i.size);
    memcpy(data + i.off + o->pos, buf, n);
    if (end > i.size) { D->used += end - i.size; i.size = end; }
    o->pos = end;
    advance(n / 2);
    if (f && f->act == CRASH_TORN) _exit(CRASH_EXIT);
    after(f);
    return n;
}
static int64_t doSeek(OFD* o, int64_t off, int wh) { sim::alloc::Pause pause_;
    Fault* f = before(SEEK, o->path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? int64_t(o->pos) : int64_t(D->ino[o->ino].size);
    if (b + off < 0) { errno = EINVAL; return -1; }
    o->pos = b + off;
    after(f);
    return o->pos;
}
static int doClose(OFD* o) { sim::alloc::Pause pause_;
    Fault* f = before(CLOSE, o->path);
    int rc = 0, e = 0;
    if (f && f->act == ERR) { rc = -1; e = f->err; }
    after(f);
    if (--o->refs == 0) delete o;
    if (rc) errno = e;
    return rc;
}
static int doSync(OFD* o) { sim::alloc::Pause pause_;
    Fault* f = before(SYNC, o->path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    advance(5000000);
    after(f);
    return 0;
}
static OFD* ofd(int fd) { if (fd < FD0) return nullptr; auto i = fds->find(fd); return i == fds->end() ? nullptr : i->second; }

static ssize_t ckRead(void* c, char* b, size_t n) { return doRead((OFD*)c, b, n, false); }
static ssize_t ckWrite(void* c, const char* b, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t k = doWrite((OFD*)c, b + done, n - done);
        if (k < 0) { return done; }          // stdio sees a short count and sets its error flag
        done += k;
        if (k == 0) break;
    }
    return done;
}
static int ckSeek(void* c, off64_t* o, int w) { int64_t r = doSeek((OFD*)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ckClose(void* c) { return doClose((OFD*)c); }

int openFd(const std::string& path, int flags) { sim::alloc::Pause pause_;
    OFD* o;
    if (doOpen(path.c_str(), flags, &o)) return -1;
    int fd = nextFd++;
    (*fds)[fd] = o;
    return fd;
}
static void fillStat(int i, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_ino = i + 1;
    st->st_dev = 77;
    st->st_nlink = 1;
    st->st_mode = D->ino[i].dir ? (S_IFDIR | 0755) : (S_IFREG | 0644);
    st->st_size = D->ino[i].size;
    st->st_blksize = 4096;
    st->st_blocks = (D->ino[i].size + 511) / 512;
}
static int doStat(const char* p, struct stat* st) { sim::alloc::Pause pause_;
    std::string path = norm(p);
    Fault* f = before(STAT, path);
    if (f && f->act == ERR) { errno = f->err; return -1; }
    if (path == "/sim") { memset(st, 0, sizeof *st); st->st_mode = S_IFDIR | 0755; return 0; }
    int i = find(path);
    if (i < 0) { errno = ENOENT; return -1; }
    fillStat(i, st);
    return 0;
}
}  // namespace vfs
}  // namespace sim

using namespace sim::vfs;
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)

extern "C" {

static FILE* simFopen(const char* p, const char* m) { sim::alloc::Pause pause_;
    int fl = 0;
    bool plus = strchr(m, '+');
    switch (m[0]) {
        case 'r': fl = plus ? O_RDWR : O_RDONLY; break;
        case 'w': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC; break;
        case 'a': fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND; break;
    }
    OFD* o;
    if (doOpen(p, fl, &o)) return nullptr;
    cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
    FILE* f = fopencookie(o, m, io);
    if (!f) { delete o; return nullptr; }
    (*files)[f] = o;
    return f;
}
FILE* fopen(const char* p, const char* m) { if (mine(p)) return simFopen(p, m); REAL(fopen); return real(p, m); }
FILE* fopen64(const char* p, const char* m) { if (mine(p)) return simFopen(p, m); REAL(fopen64); return real(p, m); }
FILE* fdopen(int fd, const char* m) {
    if (OFD* o = ofd(fd)) {
        cookie_io_functions_t io = {ckRead, ckWrite, ckSeek, ckClose};
        FILE* f = fopencookie(o, m, io);
        (*files)[f] = o;
        fds->erase(fd);
        return f;
    }
    REAL(fdopen);
    return real(fd, m);
}
int fclose(FILE* f) { sim::alloc::Pause pause_;
    REAL(fclose);
    if (files && files->count(f)) {
        OFD* o = (*files)[f];
        for (auto i = fds->begin(); i != fds->end();) if (i->second == o) i = fds->erase(i); else ++i;   // aliases made by fileno()
        files->erase(f);
    }
    return real(f);
}
int fileno(FILE* f) { sim::alloc::Pause pause_;
    if (files && files->count(f)) {
        // a stable fake descriptor that aliases the stream's file
        OFD* o = (*files)[f];
        for (auto& p : *fds) if (p.second == o) return p.first;
        int fd = nextFd++;
        (*fds)[fd] = o;        // dropped with the stream: see close below
        return fd;
    }
    REAL(fileno);
    return real(f);
}
int fsync(int fd) { if (OFD* o = ofd(fd)) return doSync(o); REAL(fsync); return real(fd); }
int fdatasync(int fd) { if (OFD* o = ofd(fd)) return doSync(o); REAL(fdatasync); return real(fd); }

int open(const char* p, int flags, ...) {
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if (mine(p)) return openFd(p, flags);
    return fixErr(raw_syscall6(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
}
int open64(const char* p, int flags, ...) {
    int mode = 0;
    if (flags & (O_CREAT | O_TMPFILE)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
    if (mine(p)) return openFd(p, flags);
    return fixErr(raw_syscall6(SYS_openat, AT_FDCWD, (long)p, flags, mode, 0, 0));
}
ssize_t read(int fd, void* b, size_t n) { if (fd >= FD0) { OFD* o = ofd(fd); if (!o) { errno = EBADF; return -1; } return doRead(o, b, n, true); } return raw_read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { if (fd >= FD0) { OFD* o = ofd(fd); if (!o) { errno = EBADF; return -1; } return doWrite(o, b, n); } return raw_write(fd, b, n); }
ssize_t writev(int fd, const struct iovec* v, int k) {
    if (OFD* o = ofd(fd)) {
        ssize_t t = 0;
        for (int i = 0; i < k; i++) { ssize_t r = doWrite(o, v[i].iov_base, v[i].iov_len); if (r < 0) return t ? t : -1; t += r; if (size_t(r) < v[i].iov_len) break; }
        return t;
    }
    return fixErr(raw_syscall6(SYS_writev, fd, (long)v, k, 0, 0, 0));
}
off_t lseek(int fd, off_t o, int w) noexcept { if (fd >= FD0) { OFD* f = ofd(fd); if (!f) { errno = EBADF; return -1; } return doSeek(f, o, w); } return raw_lseek(fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { return lseek(fd, o, w); }
int close(int fd) { sim::alloc::Pause pause_;
    if (fd >= FD0) {
        OFD* o = ofd(fd);
        if (!o) { errno = EBADF; return -1; }
        fds->erase(fd);
        return doClose(o);
    }
    return raw_close(fd);
}
int dup(int fd) noexcept { sim::alloc::Pause pause_;
    if (fd >= FD0) {
        OFD* o = ofd(fd);
        if (!o) { errno = EBADF; return -1; }
        Fault* f = before(OPEN, o->path);
        if (f && f->act == ERR) { errno = f->err; return -1; }
        o->refs++;
        int n = nextFd++;
        (*fds)[n] = o;
        return n;
    }
    return fixErr(raw_syscall6(SYS_dup, fd, 0, 0, 0, 0, 0));
}
int access(const char* p, int m) noexcept { if (mine(p)) { struct stat st; return doStat(p, &st); } return fixErr(raw_syscall6(SYS_access, (long)p, m, 0, 0, 0, 0)); }
int stat(const char* p, struct stat* st) noexcept { if (mine(p)) return doStat(p, st); REAL(stat); return real(p, st); }
int lstat(const char* p, struct stat* st) noexcept { if (mine(p)) return doStat(p, st); REAL(lstat); return real(p, st); }
int stat64(const char* p, struct stat64* st) noexcept { if (mine(p)) return doStat(p, (struct stat*)st); REAL(stat64); return real(p, st); }
int lstat64(const char* p, struct stat64* st) noexcept { if (mine(p)) return doStat(p, (struct stat*)st); REAL(lstat64); return real(p, st); }
int fstat(int fd, struct stat* st) noexcept { if (OFD* o = ofd(fd)) { fillStat(o->ino, st); return 0; } REAL(fstat); return real(fd, st); }
int fstat64(int fd, struct stat64* st) noexcept { if (OFD* o = ofd(fd)) { fillStat(o->ino, (struct stat*)st); return 0; } REAL(fstat64); return real(fd, st); }
int __xstat(int, const char* p, struct stat* st) { return stat(p, st); }
int __lxstat(int, const char* p, struct stat* st) { return lstat(p, st); }
int __fxstat(int, int fd, struct stat* st) { return fstat(fd, st); }
int __xstat64(int, const char* p, struct stat64* st) { return stat64(p, st); }
int __fxstat64(int, int fd, struct stat64* st) { return fstat64(fd, st); }

int unlink(const char* p) noexcept { sim::alloc::Pause pause_;
    if (mine(p)) {
        std::string path = norm(p);
        Fault* f = before(UNLINK, path);
        if (f && f->act == ERR) { errno = f->err; return -1; }
        int i = find(path);
        if (i < 0) { errno = ENOENT; return -1; }
        sim::log("unlink %s", path.c_str());
        sim::vfs::remove(path);
        return 0;
    }
    return fixErr(raw_syscall6(SYS_unlink, (long)p, 0, 0, 0, 0, 0));
}
int rename(const char* a, const char* b) noexcept { sim::alloc::Pause pause_;
    if (mine(a) && mine(b)) {
        std::string x = norm(a), y = norm(b);
        Fault* f = before(RENAME, x);
        if (f && f->act == ERR) { errno = f->err; return -1; }
        int i = find(x);
        if (i < 0) { errno = ENOENT; return -1; }
        sim::vfs::remove(y);
        strcpy(D->ino[i].path, y.c_str());
        return 0;
    }
    return fixErr(raw_syscall6(SYS_rename, (long)a, (long)b, 0, 0, 0, 0));
}
int mkdir(const char* p, mode_t m) noexcept { sim::alloc::Pause pause_;
    if (mine(p)) {
        std::string path = norm(p);
        Fault* f = before(MKDIR, path);
        if (f && f->act == ERR) { errno = f->err; return -1; }
        if (find(path) >= 0) { errno = EEXIST; return -1; }
        sim::vfs::mkdir(path);
        return 0;
    }
    return fixErr(raw_syscall6(SYS_mkdir, (long)p, m, 0, 0, 0, 0));
}
int rmdir(const char* p) noexcept { if (mine(p)) { sim::alloc::Pause pause_; sim::vfs::remove(norm(p)); return 0; } return fixErr(raw_syscall6(SYS_rmdir, (long)p, 0, 0, 0, 0, 0)); }
int chmod(const char* p, mode_t m) noexcept { if (mine(p)) return 0; return fixErr(raw_syscall6(SYS_chmod, (long)p, m, 0, 0, 0, 0)); }
int truncate(const char* p, off_t n) noexcept {
    if (mine(p)) { sim::alloc::Pause pause_; int i = find(norm(p)); if (i < 0) { errno = ENOENT; return -1; } auto& o = D->ino[i]; if (uint64_t(n) < o.size) { D->used -= o.size - n; o.size = n; } return 0; }
    return fixErr(raw_syscall6(SYS_truncate, (long)p, n, 0, 0, 0, 0));
}
int link(const char* a, const char* b) noexcept { if (mine(a) || mine(b)) { errno = EPERM; return -1; } return fixErr(raw_syscall6(SYS_link, (long)a, (long)b, 0, 0, 0, 0)); }
char* realpath(const char* p, char* out) noexcept {
    if (mine(p)) { sim::alloc::Pause pause_;
        struct stat st;
        if (doStat(p, &st)) return nullptr;
        std::string n = norm(p);
        if (!out) out = (char*)malloc(PATH_MAX);
        strcpy(out, n.c_str());
        return out;
    }
    REAL(realpath);
    return real(p, out);
}
ssize_t readlink(const char* p, char* b, size_t n) noexcept { if (mine(p)) { errno = EINVAL; return -1; } return fixErr(raw_syscall6(SYS_readlink, (long)p, (long)b, n, 0, 0, 0)); }

struct SimDir { uint64_t magic; std::vector<std::string> names; size_t at; struct dirent de; std::string path; int fd = -1; };
static std::map<void*, SimDir*>* dirs;
DIR* opendir(const char* p) {
    if (mine(p)) { sim::alloc::Pause pause_;
        std::string path = norm(p);
        Fault* f = before(OPENDIR, path);
        if (f && f->act == ERR) { errno = f->err; return nullptr; }
        auto* d = new SimDir{1, {}, 0, {}, path};
        d->names = {".", ".."};
        for (auto& x : sim::vfs::list(path + "/")) { std::string r = x.substr(path.size() + 1); if (r.find('/') == std::string::npos) d->names.push_back(r); }
        if (!dirs) dirs = new std::map<void*, SimDir*>;
        (*dirs)[d] = d;
        return (DIR*)d;
    }
    REAL(opendir);
    return real(p);
}
static bool simDir(DIR* d) { return dirs && dirs->count(d); }
static bool nextDir(SimDir* d, struct dirent* e) {
    if (d->at >= d->names.size()) return false;
    memset(e, 0, sizeof *e);
    const std::string& n = d->names[d->at++];
    e->d_ino = d->at;
    e->d_type = DT_UNKNOWN;
    snprintf(e->d_name, sizeof e->d_name, "%s", n.c_str());
    return true;
}
struct dirent* readdir(DIR* d) { if (simDir(d)) { auto* s = (SimDir*)d; return nextDir(s, &s->de) ? &s->de : nullptr; } REAL(readdir); return real(d); }
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
int readdir_r(DIR* d, struct dirent* e, struct dirent** r) { if (simDir(d)) { *r = nextDir((SimDir*)d, e) ? e : nullptr; return 0; } REAL(readdir_r); return real(d, e, r); }
#pragma GCC diagnostic pop
int dirfd(DIR* d) noexcept {
    if (simDir(d)) { sim::alloc::Pause pause_;
        auto* s = (SimDir*)d;
        if (s->fd < 0) { s->fd = nextFd++; (*fds)[s->fd] = new OFD{-1, 0, O_RDONLY, 1, s->path}; }     // only good for fsync
        return s->fd;
    }
    REAL(dirfd);
    return real(d);
}
int closedir(DIR* d) { if (simDir(d)) { auto* s = (SimDir*)d; if (s->fd >= 0) { delete (*fds)[s->fd]; fds->erase(s->fd); } dirs->erase(d); delete s; return 0; } REAL(closedir); return real(d); }

// ---------------------------------------------------------------- clock
static const uint64_t EPOCH = 1700000000ull * 1000000000ull;
int clock_gettime(clockid_t c, struct timespec* t) noexcept {
    uint64_t n = EPOCH + sim::now();
    t->tv_sec = n / 1000000000ull;
    t->tv_nsec = n % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval* t, void*) noexcept {
    uint64_t n = EPOCH + sim::now();
    t->tv_sec = n / 1000000000ull;
    t->tv_usec = n % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t* t) noexcept { time_t v = (EPOCH + sim::now()) / 1000000000ull; if (t) *t = v; return v; }
clock_t clock() noexcept { return sim::now() / 1000; }
int nanosleep(const struct timespec* a, struct timespec*) { sim::advance(a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }
unsigned sleep(unsigned s) { sim::advance(s * 1000000000ull); return 0; }
int usleep(useconds_t u) { sim::advance(u * 1000ull); return 0; }
pid_t getpid() noexcept { return 4242; }
int gethostname(char* b, size_t n) noexcept { snprintf(b, n, "simhost"); return 0; }
}
