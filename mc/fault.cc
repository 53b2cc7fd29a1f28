#include "mc/fault.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/ptrace.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/user.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <map>
#include <set>

namespace fault {

namespace {

struct Area {
    size_t used;
    size_t acks;
    char data[1 << 20];
};
Area* area_ = nullptr;

Area* area() {
    if (!area_) {
        area_ = static_cast<Area*>(mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    }
    return area_;
}

void put(char kind, const std::string& s) {
    Area* a = area_;
    if (!a || a->used + s.size() + 16 > sizeof(a->data)) {
        return;
    }
    uint32_t n = uint32_t(s.size());
    a->data[a->used] = kind;
    memcpy(a->data + a->used + 1, &n, 4);
    memcpy(a->data + a->used + 5, s.data(), n);
    __sync_synchronize();
    a->used += 5 + n;
}

template <class F>
void each(F f) {
    Area* a = area_;
    for (size_t i = 0; i < a->used;) {
        uint32_t n;
        memcpy(&n, a->data + i + 1, 4);
        f(a->data[i], std::string(a->data + i + 5, n));
        i += 5 + n;
    }
}

struct Bad {
    std::string msg;
};

std::string slurp(const std::string& p) {
    std::ifstream f(p, std::ios::binary);
    return std::string((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

void body(const std::function<void()>& fn) {
    try {
        fn();
        put('D', "");
    }
    catch (Bad& b) {
        put('B', b.msg);
    }
    catch (std::exception& e) {
        put('E', e.what());
    }
    catch (...) {
        put('E', "unknown exception");
    }
    _exit(0);
}

std::string peekString(pid_t p, unsigned long addr) {
    char buf[1024];
    struct iovec l = {buf, sizeof(buf)}, r = {reinterpret_cast<void*>(addr), sizeof(buf)};
    // up to the end of the page
    size_t n = std::min<size_t>(sizeof(buf), 4096 - (addr & 4095));
    l.iov_len = r.iov_len = n;
    ssize_t k = process_vm_readv(p, &l, 1, &r, 1, 0);
    std::string s;
    if (k > 0) {
        s.assign(buf, strnlen(buf, k));
        if (size_t(k) == s.size() && s.size() < sizeof(buf)) {
            l.iov_len = r.iov_len = sizeof(buf) - s.size();
            l.iov_base = buf + s.size();
            r.iov_base = reinterpret_cast<void*>(addr + s.size());
            ssize_t k2 = process_vm_readv(p, &l, 1, &r, 1, 0);
            if (k2 > 0) {
                s.append(buf + s.size(), strnlen(buf + s.size(), k2));
            }
        }
    }
    return s;
}

std::string fdPath(pid_t p, int fd) {
    char b[1024];
    ssize_t n = readlink(("/proc/" + std::to_string(p) + "/fd/" + std::to_string(fd)).c_str(), b, sizeof(b) - 1);
    return n > 0 ? std::string(b, n) : std::string();
}

std::string absolute(pid_t p, int dirfd, const std::string& s) {
    if (!s.empty() && s[0] == '/') {
        return s;
    }
    if (dirfd == AT_FDCWD) {
        char b[1024];
        ssize_t n = readlink(("/proc/" + std::to_string(p) + "/cwd").c_str(), b, sizeof(b) - 1);
        return (n > 0 ? std::string(b, n) : std::string()) + "/" + s;
    }
    return fdPath(p, dirfd) + "/" + s;
}

struct Call {
    enum Kind { None, Write, Read, Create, Rename, Unlink, Mkdir, Trunc, Sync, Other } kind = None;
    std::string path, path2, name;
    unsigned long len = 0;
    int lenArg        = -1;  // 2: rdx
    bool stream       = false;
};

bool below(const std::string& p, const std::string& root) { return p.compare(0, root.size(), root) == 0; }

Call decode(pid_t p, const user_regs_struct& r) {
    Call c;
    switch (r.orig_rax) {
        case SYS_write:
        case SYS_pwrite64:
            c.kind = Call::Write; c.name = r.orig_rax == SYS_write ? "write" : "pwrite"; c.path = fdPath(p, int(r.rdi)); c.len = r.rdx; c.lenArg = 2;
            break;
        case SYS_writev:
        case SYS_pwritev:
            c.kind = Call::Write; c.name = "writev"; c.path = fdPath(p, int(r.rdi)); c.len = 1;
            break;
        case SYS_read:
        case SYS_pread64:
            c.kind = Call::Read; c.name = "read"; c.path = fdPath(p, int(r.rdi)); c.len = r.rdx; c.lenArg = 2;
            break;
        case SYS_open:
            if (r.rsi & (O_CREAT | O_TRUNC)) {
                c.kind = Call::Create; c.name = "open"; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi));
            }
            break;
        case SYS_openat:
            if (r.rdx & (O_CREAT | O_TRUNC)) {
                c.kind = Call::Create; c.name = "openat"; c.path = absolute(p, int(r.rdi), peekString(p, r.rsi));
            }
            break;
        case SYS_creat:
            c.kind = Call::Create; c.name = "creat"; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi));
            break;
        case SYS_rename:
        case SYS_link:
        case SYS_symlink:
            c.kind = Call::Rename; c.name = r.orig_rax == SYS_rename ? "rename" : r.orig_rax == SYS_link ? "link" : "symlink";
            c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi)); c.path2 = absolute(p, AT_FDCWD, peekString(p, r.rsi));
            break;
        case SYS_renameat:
        case SYS_renameat2:
        case SYS_linkat:
            c.kind = Call::Rename; c.name = "rename"; c.path = absolute(p, int(r.rdi), peekString(p, r.rsi)); c.path2 = absolute(p, int(r.rdx), peekString(p, r.r10));
            break;
        case SYS_unlink:
        case SYS_rmdir:
            c.kind = Call::Unlink; c.name = r.orig_rax == SYS_unlink ? "unlink" : "rmdir"; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi));
            break;
        case SYS_unlinkat:
            c.kind = Call::Unlink; c.name = "unlinkat"; c.path = absolute(p, int(r.rdi), peekString(p, r.rsi));
            break;
        case SYS_mkdir:
            c.kind = Call::Mkdir; c.name = "mkdir"; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi));
            break;
        case SYS_mkdirat:
            c.kind = Call::Mkdir; c.name = "mkdir"; c.path = absolute(p, int(r.rdi), peekString(p, r.rsi));
            break;
        case SYS_truncate:
            c.kind = Call::Trunc; c.name = "truncate"; c.path = absolute(p, AT_FDCWD, peekString(p, r.rdi));
            break;
        case SYS_ftruncate:
        case SYS_fallocate:
            c.kind = Call::Trunc; c.name = "ftruncate"; c.path = fdPath(p, int(r.rdi));
            break;
        case SYS_fsync:
        case SYS_fdatasync:
            c.kind = Call::Sync; c.name = "fsync"; c.path = fdPath(p, int(r.rdi));
            break;
        case SYS_mmap:
            if ((r.r10 & MAP_SHARED) && int(r.r8) >= 0) {
                c.kind = Call::Other; c.name = "mmap"; c.path = fdPath(p, int(r.r8));
            }
            break;
        default: break;
    }
    return c;
}

// what a power failure would leave
struct Disk {
    struct File {
        std::string synced;     // contents at the last fsync
        bool data = false;      // has unsynced data
        bool entry = false;     // its directory entry is not synced
        bool replaced = false;  // ... and it took the place of a file that was
        std::string old;        // with these contents
    };
    std::map<std::string, File> files;
    std::map<std::string, std::string> before;  // contents of removed/replaced files still durable
    void start(const std::string& d) {  // what is there already is on disk
        if (DIR* x = opendir(d.c_str())) {
            while (dirent* e = readdir(x)) {
                std::string n = e->d_name;
                if (n == "." || n == "..") continue;
                std::string p = d + "/" + n;
                struct stat st;
                if (lstat(p.c_str(), &st) != 0) continue;
                if (S_ISDIR(st.st_mode)) start(p);
                else if (S_ISREG(st.st_mode) && st.st_size < (1 << 20)) files[p].synced = slurp(p);
            }
            closedir(x);
        }
    }
    static std::string dir(const std::string& p) { return p.substr(0, p.rfind('/')); }
    void after(const Call& c, long ret) {
        if (ret < 0) return;
        switch (c.kind) {
            case Call::Create:
            case Call::Trunc: {
                auto i = files.find(c.path);
                if (i == files.end()) {
                    File f;
                    f.entry = true;
                    files[c.path] = f;
                }
                files[c.path].data = true;
                break;
            }
            case Call::Write: files[c.path].data = true; break;
            case Call::Rename: {
                File f = files.count(c.path) ? files[c.path] : File();
                f.entry = true;
                auto i = files.find(c.path2);
                if (i != files.end()) {
                    f.replaced = !i->second.entry || i->second.replaced;
                    f.old      = i->second.entry ? i->second.old : i->second.synced;
                }
                files.erase(c.path);
                files[c.path2] = f;
                break;
            }
            case Call::Unlink: files.erase(c.path); break;
            case Call::Sync: {
                struct stat st;
                if (stat(c.path.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
                    for (auto& f : files)
                        if (dir(f.first) == c.path) f.second.entry = f.second.replaced = false;
                }
                else {
                    files[c.path].data   = false;
                    files[c.path].synced = slurp(c.path);
                }
                break;
            }
            default: break;
        }
    }
    std::vector<std::string> pending() const {
        std::vector<std::string> v;
        for (auto& f : files) {
            if (f.second.data) v.push_back("data of " + f.first);
            if (f.second.entry) v.push_back("entry of " + f.first);
        }
        return v;
    }
    void lose(int how) {  // 0 nothing, 1 data only (the file is there, as last synced), 2 entries of new files too
        for (auto& f : files) {
            if (how >= 1 && f.second.data) {
                std::ofstream o(f.first, std::ios::binary | std::ios::trunc);
                o.write(f.second.synced.data(), f.second.synced.size());
            }
            if (how >= 2 && f.second.entry) {
                if (f.second.replaced) {
                    std::ofstream o(f.first, std::ios::binary | std::ios::trunc);
                    o.write(f.second.old.data(), f.second.old.size());
                }
                else {
                    ::unlink(f.first.c_str());
                }
            }
        }
    }
};

}  // namespace

void ack(const std::string& s) { put('A', s); }
void note(const std::string& s) { put('N', s); }
void bad(const std::string& msg) { throw Bad{msg}; }

void inChild(mc::Ctx& c, const std::function<void()>& fn, const char* what) {
    area()->used = 0;
    pid_t pid = fork();
    if (pid == 0) {
        body(fn);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
    }
    bool done = false;
    std::string failure;
    each([&](char k, const std::string& s) {
        if (k == 'N') MC_LOG(c, s);
        if (k == 'D') done = true;
        if (k == 'B') failure = s;
        if (k == 'E') failure = mc::cat(what, " failed: ", s);
    });
    if (!failure.empty()) {
        c.fail(failure);
    }
    if (!done) {
        c.fail(mc::cat(what, " died, status ", st));
    }
}

Result run(mc::Ctx& c, const Options& o, const std::function<void()>& fn) {
    Result res;
    area()->used = 0;
    char cwd[1024];
    std::string root = getcwd(cwd, sizeof(cwd));
    pid_t pid = fork();
    if (pid == 0) {
        ptrace(PTRACE_TRACEME, 0, 0, 0);
        raise(SIGSTOP);
        body(fn);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!WIFSTOPPED(st)) {
        c.fail("HARNESS: cannot trace", "harness");
    }
    ptrace(PTRACE_SETOPTIONS, pid, 0, PTRACE_O_TRACESYSGOOD | PTRACE_O_EXITKILL);
    int budget = o.budget;
    Disk disk;
    if (o.power) {
        disk.start(root);
    }
    bool killed = false;
    auto doKill = [&](const Call& k, const char* how) {
        kill(pid, SIGKILL);
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {
        }
        killed      = true;
        res.crashed = true;
        res.where   = mc::cat(how, " ", k.name, " ", k.path);
        MC_LOG(c, "  killed ", res.where);
        if (o.power) {
            int h = c.chooseNoThrow(3, "what is lost");
            if (h) MC_LOG(c, "  power failure: unsynced data lost", h == 2 ? " and new directory entries" : "");
            disk.lose(h);
        }
    };
    long sig = 0;
    while (true) {
        if (ptrace(PTRACE_SYSCALL, pid, 0, sig) < 0) {
            break;
        }
        sig = 0;
        if (waitpid(pid, &st, 0) < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (WSTOPSIG(st) != (SIGTRAP | 0x80)) {
            sig = WSTOPSIG(st) == SIGTRAP ? 0 : WSTOPSIG(st);
            continue;
        }
        user_regs_struct r;
        ptrace(PTRACE_GETREGS, pid, 0, &r);
        Call k = decode(pid, r);
        bool mine = k.kind != Call::None && (below(k.path, root) || (!k.path2.empty() && below(k.path2, root)) || (!o.also.empty() && below(k.path, o.also)));
        if (k.kind == Call::Read && !o.reads) mine = false;
        int act = 0;
        if (mine) {
            res.events++;
            c.step();
            MC_LOG(c, "  ", k.name, " ", k.path.substr(std::min(root.size(), k.path.size())), k.path2.empty() ? "" : " -> ", k.path2.empty() ? "" : k.path2.substr(std::min(root.size(), k.path2.size())),
                   k.len ? mc::cat(" ", k.len) : std::string());
            // 0 go on, then: crash before, torn, errors..., short
            std::vector<int> acts{0};
            if (budget > 0) {
                bool mut = k.kind != Call::Read;
                if (o.crash && mut) acts.push_back(1);
                if (o.crash && o.torn && k.kind == Call::Write && k.lenArg >= 0 && k.len > 1) acts.push_back(2);
                if (o.shortWrites && k.lenArg >= 0 && k.len > 1) acts.push_back(3);
                for (size_t i = 0; i < o.errors.size(); ++i) acts.push_back(10 + int(i));
            }
            act = acts[c.chooseNoThrow(int(acts.size()), k.name.c_str())];
            if (act) budget--;
        }
        if (act == 1) {
            doKill(k, "before");
            break;
        }
        if (act == 2 || act == 3) {
            r.rdx = k.len / 2;
            ptrace(PTRACE_SETREGS, pid, 0, &r);
        }
        if (act >= 10) {
            r.orig_rax = -1UL;
            ptrace(PTRACE_SETREGS, pid, 0, &r);
            res.faulted = true;
            res.where   = mc::cat(k.name, " ", k.path);
            MC_LOG(c, "  fails: ", strerror(o.errors[act - 10]));
        }
        // to its end
        if (ptrace(PTRACE_SYSCALL, pid, 0, 0) < 0) break;
        if (waitpid(pid, &st, 0) < 0) break;
        if (WIFEXITED(st) || WIFSIGNALED(st)) break;
        if (act >= 10 || mine) {
            user_regs_struct e;
            ptrace(PTRACE_GETREGS, pid, 0, &e);
            if (act >= 10) {
                e.rax = -long(o.errors[act - 10]);
                ptrace(PTRACE_SETREGS, pid, 0, &e);
            }
            if (mine) disk.after(k, long(e.rax));
        }
        if (act == 2) {
            doKill(k, "in the middle of");
            break;
        }
    }
    if (!killed && !(WIFEXITED(st))) {
        if (!WIFSIGNALED(st)) kill(pid, SIGKILL);
    }
    bool done = false;
    std::string failure;
    each([&](char kind, const std::string& s) {
        if (kind == 'A') { res.acks.push_back(s); }
        if (kind == 'N') MC_LOG(c, s);
        if (kind == 'D') done = true;
        if (kind == 'E') { res.threw = true; res.error = s; }
        if (kind == 'B') failure = s;
    });
    res.unsynced = disk.pending();
    if (!failure.empty()) c.fail(failure);
    if (!killed && !done && !res.threw) {
        c.fail(mc::cat("the process died, status ", st));
    }
    // a power failure right at the end
    if (!killed && o.power && o.crash && budget > 0) {
        int h = c.chooseNoThrow(3, "power fails at the end, losing");
        if (h) {
            MC_LOG(c, "  power failure at the end");
            disk.lose(h);
            res.crashed = true;
            res.where   = "after the end";
        }
    }
    return res;
}

}  // namespace fault
