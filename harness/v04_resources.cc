// V04: a resource has the value of the first of its sources which states one
static void restart(int argc, char** argv);
#define HARNESS_MAIN restart
#include "common.h"

#include <map>

#include "eckit/config/Configurable.h"
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/Resource.h"
#include "eckit/config/ResourceMgr.h"
#include "eckit/types/Types.h"

using namespace eckit;

namespace eckit {
// the command which may forget what was read from the configuration files
class ConfigCmd {
public:
    static void reset() { ResourceMgr::instance().reset(); }
};
}  // namespace eckit

namespace {
struct Tool : Main {
    Tool(int argc, char** argv) : Main(argc, argv, "MC_HOME") {}
};
}  // namespace
static void restart(int argc, char** argv) {
    static std::unique_ptr<Tool> tool;
    tool.reset();
    tool.reset(new Tool(argc, argv));
}

namespace {

using Strings = std::vector<std::string>;

#define CK(c, cond, ...) MC_CHECK(c, cond, __VA_ARGS__)

std::string quote(const std::string& s) {
    std::string r = "\"";
    for (char ch : s.size() > 300 ? s.substr(0, 300) + "..." : s) {
        r += ch == '\n' ? std::string("\\n") : ch == '\t' ? std::string("\\t") : std::string(1, ch);
    }
    return r + "\"";
}

std::string home() {
    return Main::instance().home();
}

// The configuration files of this process: the names in the order they are read
const char* FILES[] = {"general", "local", "harness", "harness.local"};

void configFiles(const Strings& texts) {
    ::mkdir((home() + "/etc").c_str(), 0777);
    ::mkdir((home() + "/etc/config").c_str(), 0777);
    static Strings last(4, "\1");
    static std::string where;
    if (where != home()) {
        where = home();
        last  = Strings(4, "\1");
    }
    for (size_t i = 0; i < 4; ++i) {
        std::string path = home() + "/etc/config/" + FILES[i];
        if (texts[i] == last[i]) {
            continue;
        }
        last[i] = texts[i];
        if (texts[i] == "\2") {
            ::unlink(path.c_str());
        }
        else {
            putFile(path, texts[i]);
        }
    }
}

bool blank(char ch) {
    return ch == ' ' || ch == '\t' || ch == '\r';
}
std::string trim(const std::string& s) {
    size_t a = 0, b = s.size();
    while (a < b && blank(s[a])) {
        ++a;
    }
    while (b > a && blank(s[b - 1])) {
        --b;
    }
    return s.substr(a, b - a);
}

struct Name {
    std::string kind, owner, name;
    bool operator<(const Name& o) const {
        return std::tie(kind, owner, name) < std::tie(o.kind, o.owner, o.name);
    }
};

// What a configuration file says. Not defined for parts of a name which are empty or next to blanks
struct Config {
    std::map<Name, std::string> values;
    bool open = false;

    void read(const std::string& text) {
        size_t pos = 0;
        while (pos < text.size()) {
            size_t nl = text.find('\n', pos);
            if (nl == std::string::npos) {
                nl = text.size();
            }
            line(trim(text.substr(pos, nl - pos)));
            pos = nl + 1;
        }
    }
    void line(const std::string& l) {
        if (l.empty() || l[0] == '#') {
            return;
        }
        size_t colon = l.find(':');
        if (colon == std::string::npos) {
            return;  // not understood
        }
        std::string left = trim(l.substr(0, colon));
        Strings parts(1);
        for (char ch : left) {
            if (ch == '.') {
                parts.push_back("");
            }
            else {
                parts.back() += ch;
            }
        }
        if (parts.size() > 3) {
            return;
        }
        for (const auto& p : parts) {
            if (p.empty() || blank(p.front()) || blank(p.back())) {
                open = true;
                return;
            }
        }
        for (const auto& p : parts) {
            for (char ch : p) {
                if (blank(ch)) {
                    return;
                }
            }
        }
        Name n;
        n.name = parts.back();
        if (parts.size() > 1) {
            n.owner = parts[parts.size() - 2];
        }
        if (parts.size() > 2) {
            n.kind = parts[0];
        }
        values[n] = trim(l.substr(colon + 1));
    }
    const std::string* find(const std::string& kind, const std::string& owner, const std::string& name) const {
        for (const Name& n : {Name{kind, owner, name}, Name{"", owner, name}, Name{"", "", name}}) {
            auto i = values.find(n);
            if (i != values.end()) {
                return &i->second;
            }
        }
        return nullptr;
    }
};

struct Owner : Configurable {
    std::string kind_, name_;
    int told = 0;
    Owner(const std::string& k, const std::string& n) : kind_(k), name_(n) {}
    std::string kind() const override { return kind_; }
    std::string name() const override { return name_; }
    void reconfigure() override { ++told; }
};

void texts(mc::Ctx& c, const std::string& alphabet, int min, int max) {
    int n = c.choose(max - min + 1, "length") + min;
    std::string text;
    for (int i = 0; i < n; ++i) {
        text += alphabet[c.choose(alphabet.size(), "char")];
    }
    Config m;
    m.read(text);
    if (m.open) {
        c.reject();
        return;
    }
    configFiles({text, "\2", "\2", "\2"});
    ConfigCmd::reset();

    size_t found = 0;
    Strings names{"a", "b", "ab", "aa", "ba", "bb", "aaa", "a b", "", "#"};
    Strings owners{"", "a", "b", "ab"};
    for (const auto& k : Strings{"", "a", "b"}) {
        for (const auto& o : owners) {
            if (o.empty() && !k.empty()) {
                continue;
            }
            std::unique_ptr<Owner> owner;
            if (!o.empty() || !k.empty()) {
                owner.reset(new Owner(k, o));
            }
            for (const auto& n : names) {
                const std::string* e = n.empty() ? nullptr : m.find(k, o, n);
                std::unique_ptr<Resource<std::string>> r(owner ? new Resource<std::string>(owner.get(), n, "default")
                                                               : new Resource<std::string>(n, "default"));
                std::string v = *r;
                CK(c, v == (e ? *e : "default"), "configuration file ", quote(text), ": the resource \"", k, ".", o, ".", n,
                   "\" is ", quote(v), ", not ", quote(e ? *e : "default"));
                found += e != nullptr;
            }
        }
    }
    if (found) {
        c.nontrivial();
    }
    c.state(uint64_t(m.values.size()));
}

MC_SECTION("text", [](mc::Ctx& c) { texts(c, "ab.: #\n", 0, c.tier() ? 7 : 6); }, opts(3));
// longer ones, with fewer characters
MC_SECTION("text-qualified", [](mc::Ctx& c) { texts(c, "a.:\n", 6, c.tier() ? 10 : 9); }, opts(4));
MC_SECTION("text-blanks", [](mc::Ctx& c) { texts(c, "a: \t\r\n", 5, c.tier() ? 8 : 7); }, opts(4));

// Lines of every length: what follows, or precedes, a long one is not lost, and long names and values are not cut
MC_SECTION("long", [](mc::Ctx& c) {
    const int lengths[] = {1, 2, 500, 1015, 1016, 1017, 1018, 1019, 1020, 1021, 1022, 1023, 1024, 1025, 1026, 2046, 2047, 2048, 2049, 4096, 10000, 70000};
    int what  = c.choose(4, "which part is long: comment, value, name, owner");
    int len   = lengths[c.choose(sizeof(lengths) / sizeof(*lengths), "length")];
    int place = c.choose(3, "before, between or after the other lines");
    bool nl   = c.flag("the last line ends with a newline");
    bool twin = c.flag("another name differs from it in its last character");
    std::string big(len, 'x');
    std::string l = what == 0 ? "#" + big : what == 1 ? "big: " + big : what == 2 ? big + "y: value" : "k." + big + "y.big: value";
    Strings lines{"first: 1", "second: 2"};
    if (twin && what >= 2) {
        lines.insert(lines.begin(), what == 2 ? big + "z: other" : "k." + big + "z.big: other");
    }
    lines.insert(lines.begin() + (place == 0 ? 0 : place == 1 ? 1 : lines.size()), l);
    std::string text;
    for (size_t i = 0; i < lines.size(); ++i) {
        text += lines[i];
        if (i + 1 < lines.size() || nl) {
            text += "\n";
        }
    }
    configFiles({text, "\2", "third: 3\n", "\2"});
    ConfigCmd::reset();
    auto get = [&](const std::string& n) {
        std::string s = Resource<std::string>(n, "default");
        return s;
    };
    CK(c, get("first") == "1", "with a line of ", l.size(), " characters the other lines are lost: first is ", quote(get("first")));
    CK(c, get("second") == "2", "with a line of ", l.size(), " characters the other lines are lost: second is ", quote(get("second")));
    CK(c, get("third") == "3", "with a line of ", l.size(), " characters the next file is lost");
    if (what == 1) {
        std::string v = get("big");
        CK(c, v == big, "a value of ", len, " characters is read as ", v.size(), " characters");
    }
    else if (what == 2) {
        CK(c, get(big + "y") == "value", "a resource with a name of ", len + 1, " characters is ", quote(get(big + "y")));
        CK(c, get(big + "z") == (twin ? "other" : "default"), "names of ", len + 1, " characters are confused: ", quote(get(big + "z")));
    }
    else if (what == 3) {
        Owner a("k", big + "y"), b("k", big + "z"), d("j", big + "y");
        std::string va = Resource<std::string>(&a, "big", "default");
        std::string vb = Resource<std::string>(&b, "big", "default");
        std::string vd = Resource<std::string>(&d, "big", "default");
        CK(c, va == "value", "a resource of an owner whose name has ", len + 1, " characters is ", quote(va));
        CK(c, vb == (twin ? "other" : "default"), "owners with names of ", len + 1, " characters are confused: ", quote(vb));
        CK(c, vd == "default", "owners of another kind with names of ", len + 1, " characters are confused: ", quote(vd));
    }
    c.nontrivial();
    c.state(uint64_t(len));
}, opts(2));

// Names and owners which differ only in where the dots are
MC_SECTION("names", [](mc::Ctx& c) {
    Strings parts{"a", "b", "a.b", "a.a", "ab"};
    Name set{c.pick(Strings{"", "a", "b", "ab"}, "kind set"), c.pick(Strings{"", "a", "b", "ab"}, "owner set"), c.pick(Strings{"a", "b", "ab"}, "name set")};
    if (set.owner.empty() && !set.kind.empty()) {
        c.reject();
        return;
    }
    Name ask{c.pick(parts, "kind asked"), c.pick(parts, "owner asked"), c.pick(parts, "name asked")};
    std::string text = (set.kind.empty() ? "" : set.kind + ".") + (set.owner.empty() ? "" : set.owner + ".") + set.name + ": set\n";
    Config m;
    m.read(text);
    configFiles({"\2", "\2", "\2", text});
    ConfigCmd::reset();
    Owner owner(ask.kind, ask.owner);
    std::string v        = Resource<std::string>(&owner, ask.name, "default");
    const std::string* e = m.find(ask.kind, ask.owner, ask.name);
    CK(c, v == (e ? *e : "default"), "with ", quote(text), " the resource ", ask.name, " of the ", ask.kind, " ", ask.owner, " is ", quote(v));
    if (e) {
        c.nontrivial();
    }
}, opts(3));

// All the sources at once
void sources(mc::Ctx& c, int maxTokens) {
    // the definition, its parts in any order
    const char* definitions[] = {"r;$MC_R;-r", "-r;$MC_R;r", "$MC_R;r", "r;-r", "-r;$MC_R", "r", "$MC_R", "-r", "-s;r;$MC_R"};
    std::string def = definitions[c.choose(sizeof(definitions) / sizeof(*definitions), "definition")];
    std::string option = def.find("-r") != std::string::npos ? "-r" : def.find("-s") != std::string::npos ? "-s" : "";
    bool hasEnv        = def.find("$MC_R") != std::string::npos;
    bool hasName       = def.substr(0, 1) == "r" || def.find(";r") != std::string::npos;

    Strings args{"/somewhere/bin/harness"};
    int n = option.empty() ? 0 : c.choose(maxTokens + 1, "arguments");
    for (int i = 0; i < n; ++i) {
        args.push_back(c.pick(Strings{"-r", "-s", "1", "-2", "r", "-rr", ""}, "argument"));
    }
    int env = hasEnv ? c.choose(3, "environment: not set, empty, a value") : 0;
    Strings files(4, "\2");
    int kind = c.choose(3, "owner: none, harness h, harness g");
    std::string k = kind ? "harness" : "", o = kind == 1 ? "h" : kind == 2 ? "g" : "";
    Config m;
    if (hasName) {
        for (int i = 0; i < 4; ++i) {
            std::string v = "file" + std::to_string(i);
            switch (c.choose(n > 1 ? 2 : kind ? 5 : 3, "file")) {
                case 0:
                    break;
                case 1:
                    files[i] = "r: " + v + "\n";
                    break;
                case 2:
                    files[i] = "s: " + v + "\nrr: " + v + "\n r : " + v + " x\nr: ";
                    break;
                case 3:
                    files[i] = "h.r: " + v + "\n";
                    break;
                case 4:
                    files[i] = "harness.h.r: " + v + "\nj.h.r: other\nharness.g.r: g" + v;
                    break;
            }
            if (files[i] != "\2") {
                m.read(files[i]);
            }
        }
    }
    std::vector<const char*> raw;
    for (const auto& s : args) {
        raw.push_back(s.c_str());
    }
    raw.push_back(nullptr);
    if (env) {
        ::setenv("MC_R", env == 1 ? "" : "environment", 1);
    }
    else {
        ::unsetenv("MC_R");
    }
    configFiles(files);
    ConfigCmd::reset();
    restart(int(args.size()), const_cast<char**>(raw.data()));

    std::string expect = "default";
    bool stated        = false;
    for (size_t i = 1; i < args.size() && !option.empty() && !stated; ++i) {
        if (args[i] == option) {
            stated = true;
            expect = i + 1 == args.size() || args[i + 1].substr(0, 1) == "-" ? "true" : args[i + 1];
        }
    }
    if (!stated && hasEnv && env) {
        stated = true;
        expect = env == 1 ? "" : "environment";
    }
    if (!stated && hasName) {
        if (const std::string* e = m.find(k, o, "r")) {
            stated = true;
            expect = *e;
        }
    }
    std::string cmd;
    for (const auto& a : args) {
        cmd += quote(a) + " ";
    }
    for (int i = 0; i < 4; ++i) {
        cmd += std::string(FILES[i]) + (files[i] == "\2" ? std::string(" absent ") : " " + quote(files[i]) + " ");
    }
    cmd += env == 0 ? "no variable" : env == 1 ? "an empty variable" : "a variable";
    {
        std::unique_ptr<Owner> owner;
        if (kind) {
            owner.reset(new Owner(k, o));
        }
        std::unique_ptr<Resource<std::string>> r(owner ? new Resource<std::string>(owner.get(), def, "default") : new Resource<std::string>(def, "default"));
        const std::string& v = *r;
        CK(c, v == expect, "resource \"", def, "\" of ", k, " ", o, " is ", quote(v), ", not ", quote(expect), " with ", cmd);
        // asked again
        ::setenv("MC_R", "changed", 1);
        const std::string& again = *r;
        CK(c, again == expect, "resource \"", def, "\" changes to ", quote(again), " when it is asked again with ", cmd);
        if (kind) {
            // told to configure itself again, it looks at its sources again
            Configurable::reconfigureAll();
            CK(c, owner->told == 1, "an object is told to reconfigure ", owner->told, " times");
            std::string after = *r;
            bool optionGiven = false;
            for (size_t i = 1; i < args.size(); ++i) {
                optionGiven = optionGiven || (!option.empty() && args[i] == option);
            }
            std::string e2 = hasEnv && !optionGiven ? "changed" : expect;
            CK(c, after == e2, "resource \"", def, "\" is ", quote(after), ", not ", quote(e2), " after a new configuration, with ", cmd);
        }
        ::unsetenv("MC_R");
    }
    if (stated) {
        c.nontrivial();
    }
    c.state(uint64_t(stated));
}
MC_SECTION("sources", [](mc::Ctx& c) { sources(c, c.tier() ? 3 : 2); }, opts(3));

// Typed values, from every source
template <typename T>
void typed(mc::Ctx& c, const std::string& text, const T& expect, const T& def, int source, const std::string& type) {
    configFiles({source == 0 ? "n: " + text + "\n" : "\2", "\2", "\2", "\2"});
    if (source == 1) {
        ::setenv("MC_N", text.c_str(), 1);
    }
    else {
        ::unsetenv("MC_N");
    }
    const char* raw[] = {"harness", source == 2 ? "-n" : "-m", text.c_str(), nullptr};
    ConfigCmd::reset();
    restart(3, const_cast<char**>(raw));
    T v = Resource<T>("n;$MC_N;-n", def);
    CK(c, v == (source == 3 ? def : expect), "the ", type, " resource ", quote(text), " from source ", source, " is not ", source == 3 ? "its default" : "this value");
    ::unsetenv("MC_N");
    c.nontrivial();
}

MC_SECTION("types", [](mc::Ctx& c) {
    int source = c.choose(4, "source: file, environment, option, none");
    switch (c.choose(6, "type")) {
        case 0: {
            long v = c.pick(std::vector<long>{0, 1, 9, 12, 2147483647L, 2147483648L, 9223372036854775807L}, "value");
            typed<long>(c, std::to_string(v), v, -7, source, "long");
            break;
        }
        case 1: {
            long n      = c.pick(std::vector<long>{0, 1, 2, 31, 1000}, "number");
            int u       = c.choose(4, "unit");
            long f[]    = {1024L, 1024L * 1024, 1024L * 1024 * 1024, 1024L * 1024 * 1024 * 1024};
            const char* names[][4] = {{"KiB", "Kb", "KB", " kb"}, {"MiB", "Mb", "MB", " mb"}, {"GiB", "Gb", "GB", " gb"}, {"TiB", "Tb", "TB", " tb"}};
            typed<long>(c, std::to_string(n) + names[u][c.choose(4, "spelling")], n * f[u], -7, source, "long");
            break;
        }
        case 2: {
            bool v       = c.flag("value");
            const char* names[][6] = {{"false", "no", "off", "0", "FALSE", "No"}, {"true", "yes", "on", "1", "TRUE", "Yes"}};
            typed<bool>(c, names[v][c.choose(4, "spelling")], v, !v, source, "boolean");
            break;
        }
        case 3: {
            double v = c.pick(std::vector<double>{0., 0.5, 1e300, 1.25, 3.}, "value");
            char b[64];
            snprintf(b, sizeof(b), "%.17g", v);
            typed<double>(c, b, v, -1., source, "real");
            break;
        }
        case 4: {
            int n = c.choose(4, "elements") + 1;
            std::vector<long> v;
            std::string t;
            for (int i = 0; i < n; ++i) {
                v.push_back(c.pick(std::vector<long>{0, 1, 77}, "element"));
                t += (i ? "," : "") + std::to_string(v.back());
            }
            typed<std::vector<long>>(c, t, v, {5, 6}, source, "list");
            break;
        }
        case 5: {
            int n = c.choose(4, "elements") + 1;
            Strings v;
            std::string t;
            for (int i = 0; i < n; ++i) {
                v.push_back(c.pick(Strings{"a", "b.c", "x:y", "#"}, "element"));
                t += (i ? "," : "") + v.back();
            }
            typed<Strings>(c, t, v, {"d"}, source, "list of names");
            break;
        }
    }
}, opts(3));

// The resources of a library: command line, environment, its own configuration, default
struct Lib {
    LocalConfiguration config;
    static Lib& instance() {
        static Lib lib;
        return lib;
    }
    const Configuration& configuration() const { return config; }
};

MC_SECTION("library", [](mc::Ctx& c) {
    int option = c.choose(3, "option: absent, with a value, without");
    int env    = c.choose(2, "environment");
    int file   = c.choose(2, "in the file of the process");
    int conf   = c.choose(4, "in the configuration of the library: absent, there, nested only, other");
    bool real  = c.flag("a number");
    const char* raw[] = {"harness", option ? "-l" : "-x", option == 1 ? "10" : "-y", nullptr};
    if (env) {
        ::setenv("MC_L", "20", 1);
    }
    else {
        ::unsetenv("MC_L");
    }
    configFiles({file ? "lib: 30\n" : "\2", "\2", "\2", "\2"});
    Lib::instance().config = LocalConfiguration();
    if (conf == 1) {
        Lib::instance().config.set("lib", real ? "40" : "40");
    }
    else if (conf == 2) {
        Lib::instance().config.set("other.lib", "41");
    }
    else if (conf == 3) {
        Lib::instance().config.set("libs", "42");
    }
    ConfigCmd::reset();
    restart(3, const_cast<char**>(raw));
    std::string expect = option == 1 ? "10" : option == 2 ? "true" : env ? "20" : conf == 1 ? "40" : "50";
    if (real && expect != "true") {
        long v = LibResource<long, Lib>("lib;$MC_L;-l", 50);
        CK(c, v == std::stol(expect), "the resource of a library is ", v, ", not ", expect);
    }
    else {
        std::string v = LibResource<std::string, Lib>("lib;$MC_L;-l", "50");
        CK(c, v == expect, "the resource of a library is ", v, ", not ", expect);
    }
    ::unsetenv("MC_L");
    c.nontrivial();
}, opts(2));

// The name of the process decides which files are read
MC_SECTION("process", [](mc::Ctx& c) {
    std::string arg0 = c.pick(Strings{"harness", "/a/b/harness", "./harness", "harness.x", "other", "harness.local"}, "argv[0]");
    int app          = c.choose(3, "--application-name: absent, harness, other");
    Strings texts(4);
    Config m[4];
    for (int i = 0; i < 4; ++i) {
        texts[i] = c.flag("file") ? std::string("r: ") + FILES[i] + "\n" : "\2";
    }
    std::string option  = std::string("--application-name=") + (app == 1 ? "harness" : "other");
    const char* raw[] = {arg0.c_str(), app ? option.c_str() : nullptr, nullptr};
    configFiles(texts);
    ConfigCmd::reset();
    restart(app ? 2 : 1, const_cast<char**>(raw));
    std::string name = app == 1 ? "harness" : app == 2 ? "other" : arg0;
    if (!app) {
        size_t slash = name.rfind('/');
        if (slash != std::string::npos) {
            name = name.substr(slash + 1);
        }
        name = name.substr(0, name.find('.'));
    }
    std::string expect = "default";
    for (int i = 0; i < 4; ++i) {
        if ((i < 2 || name == "harness") && texts[i] != "\2") {
            expect = FILES[i];
        }
    }
    CK(c, Main::instance().name() == name, "the process ", arg0, app ? " " + option : std::string(), " is called ", Main::instance().name(), ", not ", name);
    std::string v = Resource<std::string>("r", "default");
    CK(c, v == expect, "the process ", name, " has the value ", quote(v), ", not ", quote(expect));
    if (expect != "default") {
        c.nontrivial();
    }
}, opts(3));

}  // namespace
