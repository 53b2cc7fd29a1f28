#include "mc/mc.h"

#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <cxxabi.h>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>

namespace mc {

static const int MAXCHOICES = 20000;

struct Shared {
    volatile uint64_t executions;
    volatile uint64_t beat;  // bumped at each execution start
    volatile uint64_t steps;
    volatile uint64_t evals;
    volatile uint64_t nontrivial;
    volatile uint64_t known;
    volatile int finished;   // 1 done, 2 violation written
    volatile int capped;
    volatile int nchoices;
    int choices[MAXCHOICES];
    int nfirst, nlast;
    int first[64], last[MAXCHOICES];
    int vchoices[MAXCHOICES];
    int vn;
    // isolate mode: results of one execution
    int imade[MAXCHOICES], iwidth[MAXCHOICES];
    int in;
    int iskipped, irejected, inontrivial, ibad, icomplete;
    uint64_t isteps, ievals;
    int nstates, noutcomes;
    uint64_t istates[256];
    char ioutcomes[8][320];
    char iknown[512];
    char vkey[512];
    char vmsg[16384];
};

struct Section {
    std::string name;
    Body body;
    Opts opts;
};

static std::vector<Section>& sections() {
    static std::vector<Section> s;
    return s;
}
static std::function<void()>& initf() {
    static std::function<void()> f;
    return f;
}
void setInit(std::function<void()> f) { initf() = f; }

Register::Register(const char* name, Body body, Opts opts) { sections().push_back({name, body, opts}); }

static Ctx* current_   = nullptr;
static Shared* shm_    = nullptr;
static int tier_       = 0;
static int part_       = 0;
static int parts_      = 1;
static int split_      = 0;
static bool isolate_   = false;
static std::string scratch_, outDir_;
static std::set<std::string> known_;
static std::map<std::string, uint64_t> knownHit_;
static double deadline_ = 0;
static std::unordered_set<uint64_t> states_;
static std::unordered_set<uint64_t> outcomes_;
static std::vector<std::string> outcomeSamples_;
static std::unordered_map<uint64_t, int> seen_;

static double now() {
    struct timespec t;
    // raw system call: clock functions may be interposed
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

Ctx& ctx() { return *current_; }

uint64_t hash(const void* p, size_t n, uint64_t h) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h ^= c[i];
        h *= 1099511628211ULL;
    }
    h ^= h >> 32;
    h *= 0x9E3779B97F4A7C15ULL;
    h ^= h >> 29;
    return h;
}

std::string hex(const void* p, size_t n, size_t max) {
    static const char d[] = "0123456789abcdef";
    const unsigned char* c = static_cast<const unsigned char*>(p);
    std::string s;
    for (size_t i = 0; i < n && i < max; ++i) {
        s += d[c[i] >> 4];
        s += d[c[i] & 15];
    }
    if (n > max) {
        s += "..";
    }
    return s;
}

std::string quote(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c == '\n') {
            r += "\\n";
        }
        else if (c < 32 || c >= 127) {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += char(c);
        }
    }
    return r + "\"";
}

static bool owned(const std::vector<int>& v, size_t n) {
    if (parts_ <= 1) {
        return true;
    }
    uint64_t h = hash(v.data(), n * sizeof(int));
    return int((h >> 11) % uint64_t(parts_)) == part_;
}

int Ctx::chooseNoThrow(int n, const char* what) {
    if (n <= 1) {
        return 0;
    }
    size_t i = made_.size();
    int c    = 0;
    if (i < prefix_.size()) {
        c = prefix_[i];
        if (c >= n || c < 0) {
            failHard(cat("HARNESS-DIVERGENCE: replaying choice #", i, " '", what, "': ", c, " of ", n), "divergence");
        }
    }
    if (made_.size() + 1 >= size_t(MAXCHOICES)) {
        failHard("HARNESS-HORIZON: too many choices in one execution (livelock?)", "horizon");
    }
    made_.push_back(c);
    width_.push_back(n);
    if (shm_) {
        shm_->choices[i] = c;
        shm_->nchoices   = int(i + 1);
    }
    if (tracing_ && what[0] && c) {
        log(cat("choice ", what, " = ", c, " of ", n));
    }
    if (!replay_ && int(made_.size()) == split_ && !owned(made_, made_.size())) {
        skipped_ = true;
    }
    return c;
}

int Ctx::choose(int n, const char* what) {
    int c = chooseNoThrow(n, what);
    if (skipped_) {
        throw Skip();
    }
    return c;
}

void Ctx::state(uint64_t h) { states_.insert(h); }
void Ctx::state(const std::string& s) { states_.insert(hash(s)); }
void Ctx::outcome(const std::string& s) {
    if (skipped_) {
        return;
    }
    if (outcomes_.insert(hash(s)).second && outcomeSamples_.size() < 8) {
        outcomeSamples_.push_back(s.substr(0, 300));
    }
}
bool Ctx::seen(const std::string& canon, int remaining) {
    // only where new ground is explored, and the whole continuation is this worker's
    if (replay_ || skipped_ || int(made_.size()) < split_ || made_.size() < prefix_.size()) {
        return false;
    }
    uint64_t h = hash(canon);
    auto it    = seen_.find(h);
    if (it != seen_.end() && it->second >= remaining) {
        return true;
    }
    seen_[h] = remaining;
    return false;
}
bool Ctx::exhaustedBudget() const { return false; }
int Ctx::tier() const { return tier_; }
const std::string& Ctx::scratch() const { return scratch_; }
uint64_t Ctx::execution() const { return shm_ ? shm_->executions : 0; }

bool isKnown(const std::string& key) { return !key.empty() && known_.count(key) > 0; }

void Ctx::reject() { throw Reject(); }

void Ctx::fail(const std::string& msg, const std::string& key) { throw Violation{key, msg}; }

static void writeViolation(const Ctx& c, const std::string& key, const std::string& msg) {
    shm_->vn = int(std::min(c.made_.size(), size_t(MAXCHOICES)));
    for (int i = 0; i < shm_->vn; ++i) {
        shm_->vchoices[i] = c.made_[i];
    }
    snprintf(shm_->vkey, sizeof shm_->vkey, "%s", key.c_str());
    snprintf(shm_->vmsg, sizeof shm_->vmsg, "%s", msg.c_str());
    shm_->finished = 2;
}

static void dumpTrace(const Ctx& c, const std::string& file) {
    FILE* f = fopen(file.c_str(), "w");
    if (!f) {
        return;
    }
    for (auto& s : c.trace_) {
        fprintf(f, "%s\n", s.c_str());
    }
    fclose(f);
}

void Ctx::failHard(const std::string& msg, const std::string& key) {
    if (skipped_) {
        // another worker owns this prefix and reports it
        shm_->finished = 3;
        _exit(4);
    }
    writeViolation(*this, key, msg);
    if (tracing_) {
        dumpTrace(*this, outDir_ + "/trace.txt");
    }
    _exit(3);
}

// ---------------------------------------------------------------- one execution

// returns true if violation (unknown key)
static bool runOnce(Section& s, Ctx& c) {
    current_ = &c;
    if (shm_) {
        shm_->beat     = shm_->beat + 1;
        shm_->nchoices = 0;
    }
    std::string key, msg;
    bool bad = false;
    try {
        s.body(c);
    }
    catch (Skip&) {
    }
    catch (Reject&) {
        c.rejected_ = true;
    }
    catch (Violation& v) {
        bad = true;
        key = v.key;
        msg = v.msg;
    }
    catch (std::exception& e) {
        bad = true;
        int st = 0;
        char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
        msg    = cat("unexpected exception ", n ? n : typeid(e).name(), ": ", e.what());
        free(n);
    }
    if (bad && !c.skipped_) {
        if (isKnown(key)) {
            knownHit_[key]++;
            shm_->known = shm_->known + 1;
            return false;
        }
        writeViolation(c, key, msg);
        return true;
    }
    return false;
}

static void writeStats(const std::string& base) {
    {
        std::ofstream f(base + ".states", std::ios::binary);
        for (auto h : states_) {
            f.write(reinterpret_cast<const char*>(&h), sizeof h);
        }
    }
    {
        std::ofstream f(base + ".outcomes", std::ios::binary);
        for (auto h : outcomes_) {
            f.write(reinterpret_cast<const char*>(&h), sizeof h);
        }
    }
    {
        std::ofstream f(base + ".osamples");
        for (auto& s : outcomeSamples_) {
            f << quote(s) << "\n";
        }
    }
    {
        std::ofstream f(base + ".known");
        for (auto& k : knownHit_) {
            f << k.first << "\t" << k.second << "\n";
        }
    }
}

#ifdef __SANITIZE_ADDRESS__
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:detect_odr_violation=0:detect_stack_use_after_return=0:malloc_context_size=6"; }
extern "C" void __asan_set_error_report_callback(void (*)(const char*));
static void asanReport(const char* text) {
    // its first line, and the innermost frames of the code
    std::istringstream in(text);
    std::string l, msg;
    int frames = 0;
    while (std::getline(in, l)) {
        auto p = l.find("AddressSanitizer: ");
        if (p != std::string::npos && msg.empty()) msg = l.substr(p, l.find(" on ", p) - p);
        if ((p = l.find(" in ")) != std::string::npos && l.find("    #") == 0 && frames < 3 && l.find("/repo/") != std::string::npos) {
            msg += " <" + l.substr(p + 4);
            frames++;
        }
        if (l.find("allocated by") != std::string::npos) break;
    }
    ctx().failHard(msg);
}
#endif

static void workerInit() {
    std::string cmd;
    mkdir(scratch_.c_str(), 0777);
    if (chdir(scratch_.c_str())) {
        _exit(9);
    }
    struct rlimit rl;
    rl.rlim_cur = rl.rlim_max = 0;
    setrlimit(RLIMIT_CORE, &rl);
#ifdef __SANITIZE_ADDRESS__
    __asan_set_error_report_callback(&asanReport);
    if (false) {
#else
    if (!getenv("MC_NO_AS_LIMIT")) {
#endif
        rl.rlim_cur = rl.rlim_max = 6ULL << 30;
        setrlimit(RLIMIT_AS, &rl);
    }
    // harness output is noise
    if (!getenv("MC_VERBOSE")) {
        int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
    }
    if (initf()) {
        initf()();
    }
}

static void recordExec(Ctx& c) {
    shm_->executions = shm_->executions + 1;
    shm_->steps      = shm_->steps + c.steps_;
    shm_->evals      = shm_->evals + c.evals_;
    shm_->nontrivial = shm_->nontrivial + (c.nontrivial_ ? 1 : 0);
    int n            = int(c.made_.size());
    if (shm_->executions == 1) {
        shm_->nfirst = std::min(n, 64);
        std::copy(c.made_.begin(), c.made_.begin() + shm_->nfirst, shm_->first);
        if (n > 64) {
            shm_->nfirst = 0;
        }
    }
    shm_->nlast = n;
    std::copy(c.made_.begin(), c.made_.end(), shm_->last);
}

static void warmUp(Section& s, bool replay) {
    // one-time initialisations happen here, so that every recorded execution starts from the same process state
    if (s.opts.isolate) {
        return;
    }
    Ctx c;
    c.replay_  = true;
    c.tracing_ = replay;
    uint64_t k = shm_->known;
    auto kh    = knownHit_;
    if (runOnce(s, c)) {
        if (replay) {
            dumpTrace(c, outDir_ + "/trace.txt");
        }
        _exit(3);
    }
    shm_->known = k;
    knownHit_   = kh;
    states_.clear();
    outcomes_.clear();
    outcomeSamples_.clear();
    seen_.clear();
}

// one execution in a process of its own
static bool runIsolated(Section& s, Ctx& c) {
    shm_->icomplete = 0;
    shm_->iknown[0] = 0;
    pid_t pid       = fork();
    if (pid == 0) {
        bool bad = runOnce(s, c);
        shm_->in = int(c.made_.size());
        std::copy(c.made_.begin(), c.made_.end(), shm_->imade);
        std::copy(c.width_.begin(), c.width_.end(), shm_->iwidth);
        shm_->iskipped    = c.skipped_;
        shm_->irejected   = c.rejected_;
        shm_->inontrivial = c.nontrivial_;
        shm_->isteps      = c.steps_;
        shm_->ievals      = c.evals_;
        shm_->nstates     = 0;
        for (auto h : states_) {
            if (shm_->nstates < 256) {
                shm_->istates[shm_->nstates++] = h;
            }
        }
        shm_->noutcomes = 0;
        for (auto& o : outcomeSamples_) {
            snprintf(shm_->ioutcomes[shm_->noutcomes++], 320, "%s", o.c_str());
        }
        if (!knownHit_.empty()) {
            snprintf(shm_->iknown, 512, "%s", knownHit_.begin()->first.c_str());
        }
        shm_->ibad      = bad;
        shm_->icomplete = 1;
        _exit(bad ? 3 : 0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    if (!shm_->icomplete) {
        if (shm_->finished == 2) {
            return true;
        }
        // crash
        _exit(5);
    }
    c.made_.assign(shm_->imade, shm_->imade + shm_->in);
    c.width_.assign(shm_->iwidth, shm_->iwidth + shm_->in);
    c.skipped_    = shm_->iskipped;
    c.rejected_   = shm_->irejected;
    c.nontrivial_ = shm_->inontrivial;
    c.steps_      = shm_->isteps;
    c.evals_      = shm_->ievals;
    if (shm_->iknown[0]) {
        knownHit_[shm_->iknown]++;
    }
    if (!c.skipped_) {
        for (int i = 0; i < shm_->nstates; ++i) {
            states_.insert(shm_->istates[i]);
        }
        for (int i = 0; i < shm_->noutcomes; ++i) {
            if (outcomes_.insert(hash(std::string(shm_->ioutcomes[i]))).second && outcomeSamples_.size() < 8) {
                outcomeSamples_.push_back(shm_->ioutcomes[i]);
            }
        }
    }
    return shm_->ibad;
}

static void worker(Section& s, const std::string& base) {
    workerInit();
    warmUp(s, false);
    std::vector<int> prefix;
    while (true) {
        Ctx c;
        c.prefix_ = prefix;
        if (isolate_ ? runIsolated(s, c) : runOnce(s, c)) {
            writeStats(base);
            _exit(3);
        }
        if (!c.skipped_ && int(c.made_.size()) < split_ && !owned(c.made_, c.made_.size())) {
            c.skipped_ = true;
        }
        if (!c.skipped_ && !c.rejected_) {
            recordExec(c);
        }
        std::vector<int> m = c.made_, w = c.width_;
        if (c.skipped_ && int(m.size()) > split_) {
            m.resize(split_);
            w.resize(split_);
        }
        while (!m.empty() && m.back() + 1 >= w.back()) {
            m.pop_back();
            w.pop_back();
        }
        if (m.empty()) {
            break;
        }
        m.back()++;
        prefix = m;
        if (now() > deadline_) {
            shm_->capped = 1;
            break;
        }
    }
    writeStats(base);
    shm_->finished = 1;
    _exit(0);
}

// ---------------------------------------------------------------- parent

static void cleanDir(const std::string& d) {
    if (d.size() < 8) {
        return;
    }
    DIR* dir = opendir(d.c_str());
    if (!dir) {
        return;
    }
    while (struct dirent* e = readdir(dir)) {
        std::string n = e->d_name;
        if (n == "." || n == "..") {
            continue;
        }
        std::string p = d + "/" + n;
        struct stat st;
        if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) {
            chmod(p.c_str(), 0777);
            cleanDir(p);
            rmdir(p.c_str());
        }
        else {
            unlink(p.c_str());
        }
    }
    closedir(dir);
}

struct Task {
    int section;
    int part;
    Shared* shm = nullptr;
    pid_t pid   = 0;
    uint64_t lastBeat = 0;
    double lastTime   = 0;
    bool done = false;
    int status = 0;
    bool hang = false;
};

static std::vector<int> vecOf(const volatile int* p, int n) { return std::vector<int>(p, p + n); }

static Shared* newShm() {
    void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(p, 0, sizeof(Shared));
    return static_cast<Shared*>(p);
}

struct ReplayResult {
    int kind = 0;  // 0 ok, 1 violation, 2 crash, 3 hang
    std::string msg, key;
    std::vector<std::string> trace;
};

static ReplayResult replay(int section, const std::vector<int>& choices, double limit) {
    ReplayResult r;
    Shared* sh = newShm();
    std::string traceFile = outDir_ + "/trace.txt";
    unlink(traceFile.c_str());
    std::string sc = scratch_;
    std::string mine = sc + "/replay";
    mkdir(mine.c_str(), 0777);
    cleanDir(mine);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        setpgid(0, 0);
        shm_     = sh;
        scratch_ = mine;
        parts_   = 1;
        split_   = -1;
        workerInit();
        warmUp(sections()[section], true);
        Ctx c;
        c.prefix_  = choices;
        c.replay_  = true;
        c.tracing_ = true;
        bool bad   = runOnce(sections()[section], c);
        dumpTrace(c, traceFile);
        _exit(bad ? 3 : 0);
    }
    double t0 = now();
    int st    = 0;
    bool hang = false;
    while (true) {
        pid_t p = waitpid(pid, &st, WNOHANG);
        if (p == pid) {
            break;
        }
        if (now() - t0 > limit) {
            kill(-pid, SIGKILL);
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            hang = true;
            break;
        }
        usleep(2000);
    }
    kill(-pid, SIGKILL);
    std::ifstream f(traceFile);
    std::string l;
    while (std::getline(f, l)) {
        r.trace.push_back(l);
    }
    if (hang) {
        r.kind = 3;
        r.msg  = cat("execution did not finish within ", limit, " s");
    }
    else if (sh->finished == 2) {
        r.kind = 1;
        r.msg  = sh->vmsg;
        r.key  = sh->vkey;
    }
    else if (WIFSIGNALED(st)) {
        r.kind = 2;
        r.msg  = cat("process killed by signal ", WTERMSIG(st), " (", strsignal(WTERMSIG(st)), ")");
    }
    else if (WEXITSTATUS(st) != 0) {
        r.kind = 2;
        r.msg  = cat("process exited unexpectedly with status ", WEXITSTATUS(st));
    }
    munmap(sh, sizeof(Shared));
    cleanDir(mine);
    return r;
}

static std::string jarr(const std::vector<int>& v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size(); ++i) {
        s += (i ? "," : "") + std::to_string(v[i]);
    }
    return s + "]";
}
static std::string jarr(const std::vector<std::string>& v, size_t max = 200) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < max; ++i) {
        s += (i ? "," : "") + quote(v[i]);
    }
    return s + "]";
}

static std::set<uint64_t> readHashes(const std::string& f) {
    std::set<uint64_t> r;
    std::ifstream i(f, std::ios::binary);
    uint64_t h;
    while (i.read(reinterpret_cast<char*>(&h), sizeof h)) {
        r.insert(h);
    }
    return r;
}

}  // namespace mc

using namespace mc;

// usage: harness --out DIR --scratch DIR [--tier quick|thorough] [--known FILE] [--jobs N] [--cap SECONDS]
//                [--only SECTION] [--replay SECTION c0,c1,...]
int main(int argc, char** argv) {
    std::string only, rsec, rch;
    int jobs   = 8;
    double cap = 600;
    bool doReplay = false;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next     = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") outDir_ = next();
        else if (a == "--scratch") scratch_ = next();
        else if (a == "--tier") tier_ = next() == "thorough" ? 1 : 0;
        else if (a == "--jobs") jobs = atoi(next().c_str());
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--only") only = next();
        else if (a == "--known") {
            std::ifstream f(next());
            std::string l;
            while (std::getline(f, l)) {
                if (!l.empty()) known_.insert(l);
            }
        }
        else if (a == "--replay") {
            doReplay = true;
            rsec     = next();
            rch      = next();
        }
    }
    mkdir(outDir_.c_str(), 0777);
    mkdir(scratch_.c_str(), 0777);
    deadline_ = now() + cap;

    if (doReplay) {
        std::vector<int> ch;
        std::stringstream ss(rch);
        std::string tok;
        while (std::getline(ss, tok, ',')) {
            if (!tok.empty()) ch.push_back(atoi(tok.c_str()));
        }
        for (size_t i = 0; i < sections().size(); ++i) {
            if (sections()[i].name == rsec) {
                known_.clear();
                ReplayResult r = replay(int(i), ch, 120);
                for (auto& t : r.trace) printf("  %s\n", t.c_str());
                printf("%s %s\n", r.kind ? "REPRODUCED" : "NOT-REPRODUCED", r.msg.c_str());
                return r.kind ? 1 : 0;
            }
        }
        fprintf(stderr, "no section %s\n", rsec.c_str());
        return 2;
    }

    std::vector<Task> tasks;
    for (size_t i = 0; i < sections().size(); ++i) {
        auto& s = sections()[i];
        if (!only.empty() && s.name != only) continue;
        if (s.opts.thoroughOnly && tier_ == 0) continue;
        if (s.opts.quickOnly && tier_ == 1) continue;
        for (int p = 0; p < s.opts.parts; ++p) {
            Task t;
            t.section = int(i);
            t.part    = p;
            t.shm     = newShm();
            tasks.push_back(t);
        }
    }

    auto base = [&](const Task& t) { return outDir_ + "/t" + std::to_string(t.section) + "_" + std::to_string(t.part); };

    auto launch = [&](Task& t) {
        Section& s       = sections()[t.section];
        std::string mine = scratch_ + "/w" + std::to_string(t.section) + "_" + std::to_string(t.part);
        mkdir(mine.c_str(), 0777);
        cleanDir(mine);
        memset(t.shm, 0, sizeof(Shared));
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            shm_     = t.shm;
            part_    = t.part;
            parts_   = s.opts.parts;
            split_   = s.opts.split;
            isolate_ = s.opts.isolate;
            scratch_ = mine;
            worker(s, base(t));
            _exit(0);
        }
        t.pid      = pid;
        t.lastBeat = 0;
        t.lastTime = now();
        t.done     = false;
        t.hang     = false;
    };

    struct V {
        int section;
        std::vector<int> choices;
        std::string key, msg;
        ReplayResult rr;
    };
    std::vector<V> violations;
    size_t nextTask = 0, running = 0, finished = 0;
    bool stop = false;
    std::vector<size_t> bad;
    while (finished < tasks.size()) {
        while (!stop && running < size_t(jobs) && nextTask < tasks.size()) {
            launch(tasks[nextTask++]);
            running++;
        }
        if (running == 0) break;
        bool any = false;
        for (size_t i = 0; i < nextTask; ++i) {
            Task& t = tasks[i];
            if (t.done) continue;
            int st;
            pid_t p = waitpid(t.pid, &st, WNOHANG);
            if (p == t.pid) {
                kill(-t.pid, SIGKILL);
                t.done   = true;
                t.status = st;
                running--;
                finished++;
                any = true;
                if (t.shm->finished != 1) {
                    bad.push_back(i);
                    stop = true;
                }
                std::string mine = scratch_ + "/w" + std::to_string(t.section) + "_" + std::to_string(t.part);
                cleanDir(mine);
                rmdir(mine.c_str());
                continue;
            }
            if (t.shm->beat != t.lastBeat) {
                t.lastBeat = t.shm->beat;
                t.lastTime = now();
            }
            else if (now() - t.lastTime > sections()[t.section].opts.hangSec || (stop && now() - t.lastTime > 5)) {
                t.hang = !(stop && now() - t.lastTime <= sections()[t.section].opts.hangSec);
                kill(-t.pid, SIGKILL);
                kill(t.pid, SIGKILL);
                waitpid(t.pid, &st, 0);
                t.done   = true;
                t.status = st;
                running--;
                finished++;
                if (t.hang) {
                    bad.push_back(i);
                    stop = true;
                }
            }
        }
        if (stop && !bad.empty()) {
            // let the others go: the first violation is enough
            for (size_t i = 0; i < nextTask; ++i) {
                Task& t = tasks[i];
                if (!t.done) {
                    int st;
                    kill(-t.pid, SIGKILL);
                    kill(t.pid, SIGKILL);
                    waitpid(t.pid, &st, 0);
                    t.done = true;
                    running--;
                    finished++;
                }
            }
            break;
        }
        if (!any) usleep(3000);
    }

    std::string note;
    for (size_t bi : bad) {
        if (!violations.empty()) break;
        Task& t = tasks[bi];
        V v;
        v.section = t.section;
        if (t.shm->finished == 2) {
            v.choices = vecOf(t.shm->vchoices, t.shm->vn);
            v.key     = t.shm->vkey;
            v.msg     = t.shm->vmsg;
        }
        else {
            v.choices = vecOf(t.shm->choices, t.shm->nchoices);
            v.msg     = t.hang ? "execution hangs" : (WIFSIGNALED(t.status) ? cat("crash: signal ", WTERMSIG(t.status), " ", strsignal(WTERMSIG(t.status))) : cat("unexpected exit status ", WEXITSTATUS(t.status)));
        }
        double lim = 4 * sections()[t.section].opts.hangSec;
        v.rr       = replay(t.section, v.choices, t.hang ? lim : lim);
        if (v.rr.kind == 0) {
            // not reproducible on its own: does the same worker fail again from the start?
            Shared before = *t.shm;
            bool wasHang  = t.hang;
            launch(t);
            int st    = 0;
            double t0 = now();
            bool h    = false;
            while (waitpid(t.pid, &st, WNOHANG) != t.pid) {
                if (t.shm->beat != t.lastBeat) {
                    t.lastBeat = t.shm->beat;
                    t.lastTime = now();
                }
                else if (now() - t.lastTime > lim) {
                    kill(-t.pid, SIGKILL);
                    kill(t.pid, SIGKILL);
                    waitpid(t.pid, &st, 0);
                    h = true;
                    break;
                }
                usleep(3000);
            }
            (void)t0;
            kill(-t.pid, SIGKILL);
            if (t.shm->finished == 1 && !h) {
                note += cat("worker ", t.section, "/", t.part, wasHang ? " (slow) " : " ", "did not fail again: ", v.msg, "; ");
                continue;
            }
            v.msg += cat(" [only after ", uint64_t(before.executions), " earlier executions in the same process]");
        }
        else {
            v.msg = v.rr.msg;
            v.key = v.rr.key;
        }
        violations.push_back(v);
    }

    // ---- results
    std::string j = "{\n \"sections\": [";
    bool firstS   = true;
    uint64_t totalEx = 0;
    std::map<std::string, uint64_t> known;
    for (size_t s = 0; s < sections().size(); ++s) {
        uint64_t ex = 0, st = 0, ev = 0, nt = 0;
        int cappedN = 0, unfinished = 0, n = 0;
        std::set<uint64_t> states, outcomes;
        std::vector<std::string> os;
        std::vector<int> first, last;
        for (auto& t : tasks) {
            if (t.section != int(s)) continue;
            n++;
            ex += t.shm->executions;
            st += t.shm->steps;
            ev += t.shm->evals;
            nt += t.shm->nontrivial;
            cappedN += t.shm->capped;
            if (t.shm->finished != 1) unfinished++;
            auto h = readHashes(base(t) + ".states");
            states.insert(h.begin(), h.end());
            h = readHashes(base(t) + ".outcomes");
            outcomes.insert(h.begin(), h.end());
            std::ifstream f(base(t) + ".osamples");
            std::string l;
            while (std::getline(f, l)) {
                if (os.size() < 12 && std::find(os.begin(), os.end(), l) == os.end()) os.push_back(l);
            }
            std::ifstream k(base(t) + ".known");
            while (std::getline(k, l)) {
                auto p = l.find('\t');
                known[l.substr(0, p)] += strtoull(l.c_str() + p + 1, nullptr, 10);
            }
            if (t.shm->executions) {
                if (first.empty() && t.shm->nfirst) first = vecOf(t.shm->first, t.shm->nfirst);
                last = vecOf(t.shm->last, t.shm->nlast);
            }
        }
        if (n == 0) continue;
        totalEx += ex;
        std::vector<std::string> sampleTrace;
        if (violations.empty() && ex) {
            auto r = replay(int(s), last, 60);
            sampleTrace = r.trace;
        }
        j += cat(firstS ? "" : ",", "\n  {\"name\": ", quote(sections()[s].name), ", \"executions\": ", ex, ", \"transitions\": ", st,
                 ", \"evaluations\": ", ev, ", \"nontrivial\": ", nt, ", \"states\": ", states.size(), ", \"outcomes\": ", outcomes.size(),
                 ", \"exhaustive\": ", (cappedN || unfinished) ? "false" : "true", ", \"capped_workers\": ", cappedN,
                 ",\n   \"sample_choices\": ", jarr(last), ", \"sample_trace\": ", jarr(sampleTrace, 60), ", \"outcome_samples\": [");
        for (size_t i = 0; i < os.size(); ++i) j += (i ? "," : "") + os[i];
        j += "]}";
        firstS = false;
    }
    j += "\n ],\n \"note\": " + quote(note) + ",\n \"known\": {";
    bool fk = true;
    for (auto& k : known) {
        j += cat(fk ? "" : ",", quote(k.first), ": ", k.second);
        fk = false;
    }
    j += "},\n \"violations\": [";
    for (size_t i = 0; i < violations.size(); ++i) {
        auto& v = violations[i];
        j += cat(i ? "," : "", "\n  {\"section\": ", quote(sections()[v.section].name), ", \"key\": ", quote(v.key), ", \"message\": ", quote(v.msg),
                 ", \"choices\": ", jarr(v.choices), ", \"trace\": ", jarr(v.rr.trace, 400), "}");
    }
    j += "\n ]\n}\n";
    FILE* f = fopen((outDir_ + "/result.json").c_str(), "w");
    fputs(j.c_str(), f);
    fclose(f);
    return violations.empty() ? 0 : 1;
}

// every eckit exception collects a textual backtrace, which costs milliseconds and of which nothing checked depends
extern "C" int backtrace(void**, int) {
    return 0;
}
extern "C" char** backtrace_symbols(void* const*, int) {
    return static_cast<char**>(calloc(1, sizeof(char*)));
}
