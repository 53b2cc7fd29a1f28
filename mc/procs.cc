#include "mc/procs.h"

#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/sem.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>

namespace procs {

namespace {
struct Area {
    int numbers[64];
    size_t used;
    char data[1 << 18];
};
Area* area_ = nullptr;
int self_   = -1;

void put(char kind, const std::string& s) {
    Area* a = area_;
    if (!a || a->used + s.size() + 16 > sizeof(a->data)) return;
    uint32_t n         = uint32_t(s.size());
    a->data[a->used]   = kind;
    a->data[a->used + 1] = char(self_);
    memcpy(a->data + a->used + 2, &n, 4);
    memcpy(a->data + a->used + 6, s.data(), n);
    __sync_synchronize();
    a->used += 6 + n;
}

struct Bad {
    std::string msg;
};

void body(const std::function<void()>& fn) {
    try {
        fn();
        put('D', "");
    }
    catch (Bad& b) {
        put('B', b.msg);
    }
    catch (std::exception& e) {
        put('E', e.what());
    }
    catch (...) {
        put('E', "unknown exception");
    }
    _exit(0);
}

std::string peekString(pid_t p, unsigned long addr) {
    char buf[1024];
    std::string s;
    while (s.size() < 1024) {
        size_t n = std::min<size_t>(sizeof(buf), 4096 - (addr & 4095));
        struct iovec l = {buf, n}, r = {reinterpret_cast<void*>(addr), n};
        ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0);
        if (k <= 0) break;
        size_t m = strnlen(buf, size_t(k));
        s.append(buf, m);
        if (m < size_t(k)) break;
        addr += m;
    }
    return s;
}
bool peek(pid_t p, unsigned long addr, void* to, size_t n) {
    struct iovec l = {to, n}, r = {reinterpret_cast<void*>(addr), n};
    return process_vm_readv(p, &l, 1, &r, 1, 0) == ssize_t(n);
}
bool poke(pid_t p, unsigned long addr, const void* from, size_t n) {
    struct iovec l = {const_cast<void*>(from), n}, r = {reinterpret_cast<void*>(addr), n};
    return process_vm_writev(p, &l, 1, &r, 1, 0) == ssize_t(n);
}
std::string link(const std::string& s) {
    char b[1024];
    ssize_t n = readlink(s.c_str(), b, sizeof(b) - 1);
    return n > 0 ? std::string(b, size_t(n)) : std::string();
}
std::string fdPath(pid_t p, int fd) { return link("/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd)); }
std::string absolute(pid_t p, int dirfd, const std::string& s) {
    if (!s.empty() && s[0] == '/') return s;
    if (dirfd == AT_FDCWD) return link("/proc/" + std::to_string(p) + "/cwd") + "/" + s;
    return fdPath(p, dirfd) + "/" + s;
}

struct Call {
    const char* name = nullptr;  // null: not visible
    std::string path;
    bool lock = false, release = false, yield = false, mutating = false;
};

Call decode(pid_t p, const user_regs_struct& r, const std::string& root) {
    Call c;
    auto fd   = [&](const char* n) { c.name = n; c.path = fdPath(p, int(r.rdi)); };
    auto path = [&](const char* n) { c.name = n; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi)); };
    auto at   = [&](const char* n) { c.name = n; c.path = absolute(p, int(r.rdi), peekString(p, r.rsi)); };
    switch (r.orig_rax) {
        case SYS_write: case SYS_pwrite64: case SYS_writev: case SYS_pwritev: fd("write"); c.mutating = true; break;
        case SYS_read: case SYS_pread64: case SYS_readv: fd("read"); break;
        case SYS_lseek: if (r.rdx == SEEK_END) fd("lseek end"); break;
        case SYS_fstat: fd("fstat"); break;
        case SYS_open: path("open"); c.mutating = r.rsi & (O_CREAT | O_TRUNC); break;
        case SYS_creat: path("creat"); c.mutating = true; break;
        case SYS_openat: at("open"); c.mutating = r.rdx & (O_CREAT | O_TRUNC); break;
        case SYS_stat: case SYS_lstat: path("stat"); break;
        case SYS_newfstatat:
            if (peekString(p, r.rsi).empty()) fd("fstat");
            else at("stat");
            break;
        case SYS_access: path("access"); break;
        case SYS_faccessat: case 439: at("access"); break;
        case SYS_rename: case SYS_link: case SYS_symlink: path("rename"); c.mutating = true; break;
        case SYS_renameat: case SYS_renameat2: case SYS_linkat: at("rename"); c.mutating = true; break;
        case SYS_unlink: case SYS_rmdir: path("unlink"); c.mutating = true; break;
        case SYS_unlinkat: at("unlink"); c.mutating = true; break;
        case SYS_mkdir: path("mkdir"); c.mutating = true; break;
        case SYS_mkdirat: at("mkdir"); c.mutating = true; break;
        case SYS_chmod: path("chmod"); c.mutating = true; break;
        case SYS_truncate: path("truncate"); c.mutating = true; break;
        case SYS_ftruncate: case SYS_fallocate: fd("ftruncate"); c.mutating = true; break;
        case SYS_getdents64: fd("getdents"); break;
        case SYS_mmap: if (int(r.r8) >= 0) c.name = "mmap", c.path = fdPath(p, int(r.r8)); break;
        case SYS_utime: case SYS_utimes: path("utime"); break;
        case SYS_utimensat: at("utime"); break;
        case SYS_close: fd("close"); c.release = true; break;
        case SYS_fcntl:
            if (r.rsi == F_SETLK || r.rsi == F_SETLKW || r.rsi == F_OFD_SETLK || r.rsi == F_OFD_SETLKW) {
                fd("fcntl lock");
                struct flock l;
                memset(&l, 0, sizeof(l));
                peek(p, r.rdx, &l, sizeof(l));
                c.lock    = r.rsi == F_SETLKW || r.rsi == F_OFD_SETLKW;
                c.release = l.l_type == F_UNLCK;
                if (c.release) c.name = "fcntl unlock";
            }
            break;
        case SYS_flock:
            fd("flock");
            c.lock    = !(r.rsi & (LOCK_UN | LOCK_NB));
            c.release = r.rsi & LOCK_UN;
            break;
        case SYS_semop: case SYS_semtimedop: c.name = "semop"; c.path = root; c.lock = true; c.release = true; break;
        case SYS_semget: c.name = "semget"; c.path = root; break;
        case SYS_semctl: c.name = "semctl"; c.path = root; c.release = true; break;
        case SYS_nanosleep: case SYS_clock_nanosleep: c.name = "sleep"; c.path = root; c.yield = true; break;
        default: break;
    }
    if (c.name && c.path.compare(0, root.size(), root) != 0 && c.path.compare(0, 12, "/dev/shm/mc-") != 0) c.name = nullptr;
    return c;
}

struct Proc {
    pid_t pid = 0;
    enum { Ready, Blocked, Done } state = Ready;
    Call at;
    user_regs_struct regs;
    bool killed = false;
};

struct Procs {
    std::vector<Proc> p;
    ~Procs() {
        for (auto& x : p)
            if (x.pid > 0 && x.state != Proc::Done) {
                kill(x.pid, SIGKILL);
                int st;
                while (waitpid(x.pid, &st, 0) < 0 && errno == EINTR) {
                }
            }
    }
};
}  // namespace

void ack(const std::string& s) { put('A', s); }
void bad(const std::string& msg) { throw Bad{msg}; }
volatile int* shared() { return area_->numbers; }
void step() { ::access("step", F_OK); }

Result run(mc::Ctx& c, const Options& o, const std::vector<std::function<void()>>& bodies) {
    if (!area_) area_ = static_cast<Area*>(mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    memset(area_->numbers, 0, sizeof(area_->numbers));
    area_->used = 0;
    char cwd[1024];
    const std::string root = getcwd(cwd, sizeof(cwd));
    Procs ps;
    Result res;
    res.crashed.resize(bodies.size());
    res.errors.resize(bodies.size());
    int st = 0;

    // to the next visible call, or its end; false: it ended
    auto toCall = [&](Proc& x) {
        long sig = 0;
        while (true) {
            if (ptrace(PTRACE_SYSCALL, x.pid, 0, sig) < 0) break;
            sig = 0;
            if (waitpid(x.pid, &st, 0) < 0) break;
            if (WIFEXITED(st) || WIFSIGNALED(st)) break;
            if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
                sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
                continue;
            }
            ptrace(PTRACE_GETREGS, x.pid, 0, &x.regs);
            x.at = decode(x.pid, x.regs, root);
            if (x.at.name) return true;
            if (ptrace(PTRACE_SYSCALL, x.pid, 0, 0) < 0) break;
            if (waitpid(x.pid, &st, 0) < 0) break;
            if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        }
        x.state = Proc::Done;
        return false;
    };

    ps.p.resize(bodies.size());
    for (size_t i = 0; i < bodies.size(); i++) {
        Proc& x = ps.p[i];
        x.pid   = fork();
        if (x.pid == 0) {
            self_ = int(i);
            ptrace(PTRACE_TRACEME, 0, 0, 0);
            raise(SIGSTOP);
            body(bodies[i]);
        }
        waitpid(x.pid, &st, 0);
        if (!WIFSTOPPED(st)) {
            x.state = Proc::Done;
            c.fail("HARNESS: cannot trace", "harness");
        }
        ptrace(PTRACE_SETOPTIONS, x.pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
        toCall(x);
    }

    int current = -1, preemptions = o.preemptions, crashes = o.crashes, steps = 0;
    auto release = [&] {
        for (auto& x : ps.p)
            if (x.state == Proc::Blocked) x.state = Proc::Ready;
    };
    while (true) {
        std::vector<int> can;
        bool stays = current >= 0 && ps.p[size_t(current)].state == Proc::Ready;
        if (stays) can.push_back(current);
        if (!stays || preemptions > 0)
            for (size_t i = 0; i < ps.p.size(); i++)
                if (int(i) != current && ps.p[i].state == Proc::Ready) can.push_back(int(i));
        if (can.empty()) {
            bool blocked = false;
            for (auto& x : ps.p) blocked = blocked || x.state == Proc::Blocked;
            if (!blocked) break;
            c.fail("the processes wait for each other for ever");
        }
        if (++steps > 20000) c.fail("the processes do not end");
        // who goes on, or is killed
        size_t n = can.size(), k = 0;
        bool die = false;
        int options = int(n);
        if (crashes > 0 && (current < 0 || stays) && current >= 0 && ps.p[size_t(current)].at.mutating) options++;
        if (options > 1) k = size_t(c.chooseNoThrow(options, "who goes on"));
        if (k == n) {
            die = true;
            k   = 0;
        }
        int next = can[k];
        if (stays && next != current) preemptions--;
        current = next;
        Proc& x = ps.p[size_t(next)];
        if (die) {
            crashes--;
            res.crashed[size_t(next)] = true;
            res.where                 = mc::cat(x.at.name, " ", x.at.path);
            MC_LOG(c, "  process ", next, " is killed before ", x.at.name, " ", x.at.path.substr(std::min(root.size(), x.at.path.size())));
            kill(x.pid, SIGKILL);
            while (waitpid(x.pid, &st, 0) < 0 && errno == EINTR) {
            }
            area_->numbers[next] = 0;
            x.state = Proc::Done;
            release();
            continue;
        }
        c.step();
        user_regs_struct r = x.regs;
        sembuf ops[8], saved[8];
        size_t nops = 0;
        if (x.at.lock) {  // do not wait
            if (r.orig_rax == SYS_fcntl) r.rsi = r.rsi == F_SETLKW ? F_SETLK : F_OFD_SETLK;
            else if (r.orig_rax == SYS_flock) r.rsi |= LOCK_NB;
            else {
                nops = std::min<size_t>(r.rdx, 8);
                peek(x.pid, r.rsi, saved, nops * sizeof(sembuf));
                memcpy(ops, saved, sizeof(ops));
                for (size_t i = 0; i < nops; i++) ops[i].sem_flg = short(ops[i].sem_flg | IPC_NOWAIT);
                poke(x.pid, r.rsi, ops, nops * sizeof(sembuf));
            }
            ptrace(PTRACE_SETREGS, x.pid, 0, &r);
        }
        if (x.at.yield) {
            r.orig_rax = -1UL;
            ptrace(PTRACE_SETREGS, x.pid, 0, &r);
        }
        if (ptrace(PTRACE_SYSCALL, x.pid, 0, 0) < 0 || waitpid(x.pid, &st, 0) < 0 || WIFEXITED(st) || WIFSIGNALED(st)) {
            x.state = Proc::Done;
            release();
            continue;
        }
        user_regs_struct e;
        ptrace(PTRACE_GETREGS, x.pid, 0, &e);
        bool again = false;
        if (x.at.lock) {
            long ret = long(e.rax);
            if (nops) poke(x.pid, x.regs.rsi, saved, nops * sizeof(sembuf));
            bool nowait = false;
            for (size_t i = 0; i < nops; i++) nowait = nowait || (saved[i].sem_flg & IPC_NOWAIT);
            if ((ret == -EAGAIN || ret == -EACCES) && !nowait) again = true;
        }
        MC_LOG(c, "  ", next, ": ", x.at.name, " ", x.at.path.substr(std::min(root.size(), x.at.path.size())), again ? " waits" : "", long(e.rax) < 0 && long(e.rax) > -200 && !again ? mc::cat(" ", strerror(int(-long(e.rax)))) : std::string());
        if (again) {
            e.rip -= 2;
            e.rax = x.regs.orig_rax;
            e.rsi = x.regs.rsi;
            ptrace(PTRACE_SETREGS, x.pid, 0, &e);
            if (toCall(x)) x.state = Proc::Blocked;
            continue;
        }
        if (x.at.lock && r.rsi != x.regs.rsi) {
            e.rsi = x.regs.rsi;
            ptrace(PTRACE_SETREGS, x.pid, 0, &e);
        }
        if (x.at.yield) {
            e.rax = 0;
            ptrace(PTRACE_SETREGS, x.pid, 0, &e);
        }
        bool rel = x.at.release, yield = x.at.yield;
        if (!toCall(x)) rel = true;
        if (rel) {
            bool was = x.state == Proc::Blocked;
            release();
            if (was) x.state = Proc::Blocked;
        }
        if (yield && x.state == Proc::Ready)  // let the others go first
            for (auto& y : ps.p)
                if (&y != &x && y.state == Proc::Ready) { current = int(&y - ps.p.data()); break; }
    }
    std::vector<bool> done(bodies.size());
    std::string failure;
    for (size_t i = 0; i < area_->used;) {
        char kind = area_->data[i];
        int who   = area_->data[i + 1];
        uint32_t n;
        memcpy(&n, area_->data + i + 2, 4);
        std::string s(area_->data + i + 6, n);
        if (kind == 'A') res.acks.push_back({who, s});
        if (kind == 'D') done[size_t(who)] = true;
        if (kind == 'E') res.errors[size_t(who)] = s;
        if (kind == 'B') failure = s;
        i += 6 + n;
    }
    if (!failure.empty()) c.fail(failure);
    for (size_t i = 0; i < bodies.size(); i++)
        if (!done[i] && res.errors[i].empty() && !res.crashed[i]) c.fail(mc::cat("process ", i, " died"));
    return res;
}

}  // namespace procs
