// U01: paths, the file tree and URIs
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include "eckit/filesystem/LocalPathName.h"
#include "eckit/filesystem/PathName.h"
#include "eckit/filesystem/TmpDir.h"
#include "eckit/filesystem/TmpFile.h"
#include "eckit/filesystem/URI.h"
#include "eckit/serialisation/MemoryStream.h"
#include "common.h"

using namespace eckit;

namespace {
// what a path denotes: absolute or not, steps up, names
struct Place {
    bool absolute = false;
    int up        = 0;
    std::vector<std::string> names;
    bool operator==(const Place& o) const { return absolute == o.absolute && up == o.up && names == o.names; }
};
std::vector<std::string> splitSlash(const std::string& s) {
    std::vector<std::string> p(1);
    for (char ch : s)
        if (ch == '/') p.push_back("");
        else p.back() += ch;
    return p;
}
Place place(const std::string& s) {
    Place r;
    r.absolute = !s.empty() && s[0] == '/';
    for (auto& n : splitSlash(s)) {
        if (n.empty() || n == ".") continue;
        if (n == "..") {
            if (!r.names.empty()) r.names.pop_back();
            else if (!r.absolute) r.up++;
        }
        else r.names.push_back(n);
    }
    return r;
}
Place join(Place a, const Place& b) {
    if (b.absolute) return b;
    for (int i = 0; i < b.up; i++) {
        if (!a.names.empty()) a.names.pop_back();
        else if (!a.absolute) a.up++;
    }
    a.names.insert(a.names.end(), b.names.begin(), b.names.end());
    return a;
}
template <class F>
bool fails(F f) {
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}
}  // namespace

// every text of a path
MC_SECTION("tidy", [](mc::Ctx& c) {
    static const std::string alphabet = "/.ab";
    int n = 1 + c.choose(c.tier() ? 11 : 9);
    std::string s;
    for (int i = 0; i < n && i < 4; i++) s += alphabet[c.choose(4)];
    uint64_t e = 0;
    std::function<void(int)> go = [&](int k) {
        if (k) {
            for (char ch : alphabet) {
                s.push_back(ch);
                go(k - 1);
                s.pop_back();
            }
            return;
        }
        e++;
        LocalPathName p(s);
        std::string t = p.path();
        if (t.empty() && place(s).absolute) c.fail("the path '" + s + "' becomes empty");
        if (t.empty()) {  // leads back to where it starts
            if (!(place(s) == Place())) c.fail("the path '" + s + "' becomes empty");
            return;
        }
        if (!(place(s) == place(t))) c.fail("the path '" + s + "' becomes '" + t + "', another place");
        // tidy: no //, no . but the first, no .. but at the start
        auto v = splitSlash(t);
        bool name = t[0] == '/';
        for (size_t i = 0; i < v.size(); i++) {
            bool first = i == 0, last = i + 1 == v.size();
            if ((v[i].empty() && !first && !last) || (v[i] == "." && !first) || (v[i] == ".." && name)) c.fail("the path '" + s + "' becomes '" + t + "', not tidy");
            name = name || (v[i] != ".." && v[i] != "." && !v[i].empty());
        }
        if ((t.back() == '/') != (s.back() == '/') && !place(s).names.empty()) c.fail("the path '" + s + "' becomes '" + t + "': the last / is not kept");
        if (LocalPathName(t).path() != t) c.fail("'" + t + "' is not tidy");
        if (PathName(s).asString() != t) c.fail("PathName differs for '" + s + "'");
        // the directory and the name in it
        if (t.back() != '/' && v.back() != ".." && v.back() != ".") {
            Place j = join(place(p.dirName().path()), place(p.baseName().path()));
            if (!(j == place(t))) c.fail("'" + p.dirName().path() + "' and '" + p.baseName().path() + "' is not '" + t + "'");
            if (p.baseName().path().find('/') != std::string::npos) c.fail("the base name of '" + t + "' is '" + p.baseName().path() + "'");
            std::string b = p.baseName().path(), x = p.extension();
            size_t dot = b.rfind('.');
            if (x != (dot == std::string::npos ? "" : b.substr(dot))) c.fail("the extension of '" + t + "' is '" + x + "'");
        }
        if (!p.fullName().path().empty() && p.fullName().path()[0] != '/') c.fail("the full name of '" + t + "' is '" + p.fullName().path() + "'");
    };
    go(n > 4 ? n - 4 : 0);
    c.evals(e);
    c.nontrivial();
}, opts(3));

MC_SECTION("join", [](mc::Ctx& c) {
    static const std::vector<std::string> parts = {"a", "b", "..", ".", "a.b", "...", ""};
    auto path = [&](bool absolute, int max) {
        std::string s = absolute ? "/" : "";
        int n = c.choose(max + 1);
        for (int i = 0; i < n; i++) s += (i ? "/" : "") + c.pick(parts);
        return s;
    };
    bool absolute = c.flag();
    std::string a = path(absolute, 3), b = path(false, 3);
    if (a.empty() || b.empty() || place(a) == Place()) c.reject();
    PathName p(a);
    Place want = join(place(a), place(b[0] == '/' ? b.substr(1) : b));
    if (b[0] == '/') want = join(place(a), place(b.substr(b.find_first_not_of('/') == std::string::npos ? b.size() : b.find_first_not_of('/'))));
    MC_CHECK(c, place((p / b).asString()) == want, "'", a, "' / '", b, "' is '", (p / b).asString(), "'");
    LocalPathName l(a), m(b);
    if (b[0] != '/') MC_CHECK(c, place((l / m).path()) == want, "'", a, "' / '", b, "' is '", (l / m).path(), "'");
    PathName q(a);
    q += "/" + b;
    MC_CHECK(c, q == p / b, "'", a, "' += '/", b, "' is '", q.asString(), "'");
    // from one place to another
    if (absolute) {
        std::string other = "/" + b;
        LocalPathName o(other), p(a);
        LocalPathName r = p.relativePath(o);
        MC_CHECK(c, r.path()[0] != '/', "the path of '", p.path(), "' relative to '", o.path(), "' is absolute");
        MC_CHECK(c, join(place(o.path()), place(r.path())) == place(a), "'", p.path(), "' relative to '", o.path(), "' is '", r.path(), "'");
    }
    // order and equality are those of the names
    PathName x(b);
    MC_CHECK(c, (p < x) == (p.asString() < x.asString()) && (p == x) == (p.asString() == x.asString()) && (p >= x) == (p.asString() >= x.asString()), "order of paths");
    char buf[1024];
    MemoryStream out(buf, sizeof(buf));
    out << p;
    MemoryStream in(buf, sizeof(buf));
    PathName back;
    in >> back;
    MC_CHECK(c, back == p, "'", p.asString(), "' streamed is '", back.asString(), "'");
    c.nontrivial();
}, opts(3));

// --------------------------------------------------------------------------------------------------------------------
// operations on a tree of files
namespace {
struct Node {
    bool dir = false;
    std::shared_ptr<std::string> data;  // shared by links
};
using Tree = std::map<std::string, Node>;
std::string parent(const std::string& x) {
    size_t k = x.rfind('/');
    return k == std::string::npos ? "" : x.substr(0, k);
}
bool isDir(const Tree& t, const std::string& x) {
    auto i = t.find(x);
    return x.empty() || (i != t.end() && i->second.dir);
}
bool hasBelow(const Tree& t, const std::string& x) {
    auto i = t.lower_bound(x + "/");
    return i != t.end() && i->first.compare(0, x.size() + 1, x + "/") == 0;
}
bool mkdirs(Tree& t, const std::string& x) {
    if (x.empty()) return true;
    if (!mkdirs(t, parent(x))) return false;
    auto i = t.find(x);
    if (i != t.end()) return i->second.dir;
    t[x].dir = true;
    return true;
}
std::string showTree(const Tree& t) {
    std::string s;
    for (auto& n : t) s += n.first + (n.second.dir ? "/" : "=" + *n.second.data) + " ";
    return s;
}
std::string listing(const std::string& root) {
    std::map<std::string, std::string> m;
    namespace fs = std::filesystem;
    for (auto& e : fs::recursive_directory_iterator(root)) {
        std::string n = e.path().string().substr(root.size() + 1);
        m[n] = e.is_directory() ? "/" : "=" + getFile(e.path().string());
    }
    std::string s;
    for (auto& n : m) s += n.first + n.second + " ";
    return s;
}
}  // namespace
MC_SECTION("tree", [](mc::Ctx& c) {
    bool many = c.tier() && c.flag();
    std::vector<std::string> names = {"a", "b", "a/c"};
    if (many) names = {"a", "b", "a/c", "b/c", "a/c/d"};
    std::string root = "tree";
    std::filesystem::remove_all(root);
    std::filesystem::create_directory(root);
    Tree t;
    int depth = c.tier() && !many ? 4 : 3;
    for (int step = 0; step < depth; step++) {
        int op = c.choose(12);
        if (op == 11) break;
        std::string x = c.pick(names), y;
        if (op == 5 || op == 6 || op == 7) y = c.pick(std::vector<std::string>(names.begin(), names.begin() + (many ? 4 : 3)));
        PathName p(root + "/" + x), q(root + "/" + y);
        auto ix = t.find(x), iy = t.find(y);
        bool xe = ix != t.end(), ye = iy != t.end();
        bool ok = true, unspecified = false;  // expected success; state after a failure not specified
        Tree before = t;
        bool did = true;
        std::string what;
        try {
            switch (op) {
                case 0:
                    what = "mkdir " + x;
                    ok = mkdirs(t, x);
                    p.mkdir();
                    break;
                case 1:
                    what = "touch " + x;
                    ok = mkdirs(t, parent(x));
                    if (ok && !xe) t[x].data = std::make_shared<std::string>();
                    p.touch();
                    break;
                case 2:
                    what = "write " + x;
                    if (!isDir(t, parent(x)) || isDir(t, x)) c.reject();
                    if (!xe) t[x].data = std::make_shared<std::string>();
                    *t[x].data = "hello" + std::to_string(step);
                    { std::ofstream f(root + "/" + x, std::ios::trunc); f << "hello" << step; }
                    break;
                case 3:
                    what = "unlink " + x;
                    ok = !xe || !ix->second.dir;
                    // below a file: not a directory
                    if (!xe) for (std::string k = parent(x); !k.empty(); k = parent(k)) if (t.count(k) && !t[k].dir) ok = false;
                    if (ok) t.erase(x);
                    p.unlink(false);
                    break;
                case 4:
                    what = "rmdir " + x;
                    ok = !xe || (ix->second.dir && !hasBelow(t, x));
                    if (!xe) for (std::string k = parent(x); !k.empty(); k = parent(k)) if (t.count(k) && !t[k].dir) ok = false;
                    if (ok) t.erase(x);
                    p.rmdir(false);
                    break;
                case 5: {
                    what = "rename " + x + " " + y;
                    bool below = y.compare(0, x.size() + 1, x + "/") == 0;
                    ok = xe && isDir(t, parent(y)) && (!below || !ix->second.dir);
                    if (ok && ye && x != y) {
                        if (ix->second.dir) ok = iy->second.dir && !hasBelow(t, y);
                        else ok = !iy->second.dir;
                    }
                    if (ok && x != y && !(ye && !ix->second.dir && iy->second.data == ix->second.data)) {
                        Tree moved;
                        for (auto& n : before) {
                            if (n.first == x) moved[y] = n.second;
                            else if (n.first.compare(0, x.size() + 1, x + "/") == 0) moved[y + n.first.substr(x.size())] = n.second;
                            else if (n.first != y) moved.insert(n);
                        }
                        t = moved;
                    }
                    PathName::rename(p, q);
                    break;
                }
                case 6:
                    what = "link " + x + " " + y;
                    ok = xe && !ix->second.dir && !ye && isDir(t, parent(y));
                    if (ok) t[y] = ix->second;
                    PathName::link(p, q);
                    break;
                case 7: {
                    what = "copy " + x + " " + y;
                    bool same = xe && ye && !ix->second.dir && ix->second.data == iy->second.data;
                    ok = xe && !ix->second.dir && isDir(t, parent(y)) && !isDir(t, y);
                    if (same) unspecified = true;  // nothing to do, or refused
                    else if (ok) {
                        auto d = ix->second.data;
                        if (!ye) t[y].data = std::make_shared<std::string>();
                        *t[y].data = *d;
                    }
                    LocalPathName(p).copy(LocalPathName(q));
                    break;
                }
                case 8:
                    what = "empty " + x;
                    ok = isDir(t, parent(x)) && !isDir(t, x);
                    if (ok) {
                        if (!xe) t[x].data = std::make_shared<std::string>();
                        t[x].data->clear();
                    }
                    LocalPathName(p).empty();
                    break;
                case 9:
                    what = "truncate " + x;
                    ok = xe && !ix->second.dir;
                    if (ok) t[x].data->resize(3);
                    LocalPathName(p).truncate(3);
                    break;
                case 10: {
                    what = "hash " + x;
                    ok = xe && !ix->second.dir;
                    std::string h = LocalPathName(p).hash("MD5");
                    if (ok) {
                        putFile("plain", *ix->second.data);
                        MC_CHECK(c, h == LocalPathName("plain").hash("MD5"), "hash of ", x);
                    }
                    break;
                }
            }
        }
        catch (eckit::Exception&) { did = false; }
        MC_LOG(c, what, did ? "" : " refused");
        if (!did) {
            if (ok && !unspecified) c.fail(what + " is refused in " + showTree(before));
            // touch and mkdir may have made directories on the way
            if (op > 1) t = before;
            if (unspecified && !t.count(y)) std::filesystem::remove(root + "/" + y);
        }
        else if (!ok && !unspecified) c.fail(what + " is accepted in " + showTree(before) + "giving " + listing(root));
        MC_CHECK(c, listing(root) == showTree(t), what, " of ", showTree(before), "gives ", listing(root), "not ", showTree(t));
        // what is said about each name
        for (auto& n : names) {
            PathName z(root + "/" + n);
            auto i = t.find(n);
            MC_CHECK(c, z.exists() == (i != t.end()), "exists of ", n);
            if (i == t.end()) {
                MC_CHECK(c, fails([&] { z.size(); }) && fails([&] { z.isDir(); }), "size of the missing ", n);
                continue;
            }
            MC_CHECK(c, z.isDir() == i->second.dir, "isDir of ", n);
            if (!i->second.dir) {
                MC_CHECK(c, (long long)z.size() == (long long)i->second.data->size(), "size of ", n);
                for (auto& o : t) MC_CHECK(c, z.sameAs(root + "/" + o.first) == (o.second.data == i->second.data), n, " same as ", o.first);
            }
            else {
                std::vector<PathName> files, dirs;
                z.children(files, dirs);
                std::set<std::string> f, d, wf, wd;
                for (auto& k : files) f.insert(k.asString());
                for (auto& k : dirs) d.insert(k.asString());
                for (auto& o : t)
                    if (parent(o.first) == n) (o.second.dir ? wd : wf).insert(root + "/" + o.first);
                MC_CHECK(c, f == wf && d == wd && f.size() == files.size() && d.size() == dirs.size(), "children of ", n);
            }
        }
        c.step();
        c.state(showTree(t));
    }
    if (!t.empty()) c.nontrivial();
}, opts(2));

// searching a tree: patterns, children, new names
MC_SECTION("search", [](mc::Ctx& c) {
    namespace fs = std::filesystem;
    const std::string root = fs::absolute("search").string();
    fs::remove_all(root);
    fs::create_directories(root);
    const int bits = c.choose(1 << 8);
    static const char* entries[] = {"a", "b/", "b/a", "b/c/", "b/c/ab", ".a", ".d/", ".d/a"};
    std::map<std::string, bool> tree;  // name: is a directory
    for (int i = 0; i < 8; ++i) {
        if (!(bits & (1 << i))) continue;
        std::string n = entries[i];
        bool dir      = n.back() == '/';
        if (dir) n.pop_back();
        fs::create_directories(dir ? root + "/" + n : parent(root + "/" + n));
        if (!dir) putFile(root + "/" + n, n);
        for (std::string k = parent(n); !k.empty(); k = parent(k)) tree[k] = true;
        tree[n] = dir;
    }
    auto names = [&](const std::vector<PathName>& v) {
        std::multiset<std::string> s;
        for (auto& p : v) s.insert(p.asString());
        return s;
    };
    auto show = [](const std::multiset<std::string>& s) {
        std::string r;
        for (auto& x : s) r += x + " ";
        return r;
    };
    // patterns of names
    static const std::vector<std::pair<const char*, std::function<bool(const std::string&)>>> patterns = {
        {"a", [](const std::string& n) { return n == "a"; }},
        {"[ab]*", [](const std::string& n) { return n[0] == 'a' || n[0] == 'b'; }},
        {"?", [](const std::string& n) { return n.size() == 1; }},
        {"*b", [](const std::string& n) { return n.back() == 'b'; }},
        {"[a-c]", [](const std::string& n) { return n.size() == 1 && n[0] >= 'a' && n[0] <= 'c'; }},
        {"z", [](const std::string&) { return false; }},
        {".a", [](const std::string& n) { return n == ".a"; }},
        {"*", [](const std::string& n) { return true; }},
        {"*a", [](const std::string& n) { return n.back() == 'a'; }}};
    for (auto& p : patterns) {
        for (const std::string from : {"", "b", "b/c"}) {
            if (!from.empty() && !tree.count(from)) continue;
            for (bool rec : {false, true}) {
                std::multiset<std::string> want;
                for (auto& n : tree) {
                    std::string up = parent(n.first);
                    // hidden directories are not searched, hidden names may be found by a pattern that begins with anything
                    bool in = up == from;
                    if (!in && rec && (from.empty() || up.compare(0, from.size() + 1, from + "/") == 0)) {
                        std::string below = "/" + (from.empty() ? up : up.substr(from.size() + 1)) + "/";
                        in                = below.find("/.") == std::string::npos;
                    }
                    if (in && p.second(n.first.substr(up.empty() ? 0 : up.size() + 1))) want.insert(root + "/" + n.first);
                }
                std::vector<PathName> found;
                PathName::match(root + (from.empty() ? "" : "/" + from) + "/" + p.first, found, rec);
                MC_CHECK(c, names(found) == want, p.first, rec ? " below '" : " in '", from, "' finds ", show(names(found)), "instead of ", show(want));
                c.evals();
            }
        }
    }
    // all below
    std::vector<PathName> files, dirs;
    PathName(root).childrenRecursive(files, dirs);
    std::multiset<std::string> wf, wd;
    for (auto& n : tree) (n.second ? wd : wf).insert(root + "/" + n.first);
    MC_CHECK(c, names(files) == wf && names(dirs) == wd, "all below: ", show(names(files)), "and ", show(names(dirs)));
    MC_CHECK(c, fails([&] { std::vector<PathName> f; PathName::match(root + "/none/x", f); }), "a directory which is not there is searched");
    // new names: next to the name given, never one that there is
    std::set<std::string> made;
    for (int i = 0; i < 4; ++i) {
        const std::string base = root + (i % 2 ? "/new/" : "/b/") + "n";
        PathName u             = PathName::unique(base);
        MC_CHECK(c, made.insert(u.asString()).second && !u.exists(), "the name ", u, " is not new");
        MC_CHECK(c, u.asString().compare(0, base.size(), base) == 0 && u.dirName() == PathName(base).dirName() && u.dirName().isDir(), u, " is somewhere else than ", base);
        if (i < 2) u.touch();
    }
    // a file reserved has its size and nothing in it, and does not replace another
    for (long size : {0L, 1L, 5000L}) {
        PathName r(root + "/reserved" + std::to_string(size));
        r.reserve(size);
        MC_CHECK(c, getFile(r.asString()) == std::string(size, '\0'), "reserving ", size, " gives ", getFile(r.asString()).size());
        if (size) {
            MC_CHECK(c, fails([&] { r.reserve(3); }) && getFile(r.asString()) == std::string(size, '\0'), "a file is reserved again");
        }
    }
    c.nontrivial();
}, opts(1));

// a temporary directory goes with all it has, and with nothing else
MC_SECTION("tmpdir", [](mc::Ctx& c) {
    namespace fs = std::filesystem;
    fs::remove_all("keep");
    fs::remove_all("base");
    fs::create_directories("keep/in");
    fs::create_directories("base");
    putFile("keep/file", "kept");
    putFile("keep/in/file", "kept too");
    fs::path keep = fs::absolute("keep");
    int bits = c.choose(1 << 9);
    bool nested = c.flag(), moved = c.flag();
    std::string name;
    {
        TmpDir first(fs::absolute("base").c_str());
        std::unique_ptr<TmpDir> d(moved ? new TmpDir(std::move(first)) : nullptr);
        PathName root = moved ? *d : first;
        name = root.asString();
        MC_CHECK(c, root.isDir() && root.dirName() == PathName(fs::absolute("base").string()), "a temporary directory is made in its base");
        std::string in = name;
        if (nested) {
            in += "/sub/sub";
            fs::create_directories(in);
        }
        if (bits & 1) putFile(in + "/file", "x");
        if (bits & 2) putFile(in + "/.hidden", "x");
        if (bits & 4) fs::create_directories(in + "/dir/.hidden/dir");
        if (bits & 8) fs::create_directory_symlink(keep, in + "/link-dir");
        if (bits & 16) fs::create_symlink(keep / "file", in + "/link-file");
        if (bits & 32) fs::create_symlink("nowhere", in + "/link-broken");
        if (bits & 64) putFile(in + "/name with spaces", "x");
        if (bits & 128) fs::create_hard_link(keep / "file", in + "/hard");
        if (bits & 256) putFile(in + "/...", "x"), putFile(in + "/~x", "x"), fs::create_directory(in + "/..d");
    }
    MC_CHECK(c, !fs::exists(name), "the temporary directory is still there");
    MC_CHECK(c, fs::is_empty("base"), "something is left beside the temporary directory");
    MC_CHECK(c, getFile("keep/file") == "kept" && getFile("keep/in/file") == "kept too", "files outside of the temporary directory are gone");
    c.nontrivial();
}, opts(2));

// --------------------------------------------------------------------------------------------------------------------
// URIs: the parts given in the text
MC_SECTION("uri-parts", [](mc::Ctx& c) {
    static const std::vector<std::string> schemes = {"http", "https", "file"}, users = {"", "u", "u:p"}, hosts = {"h", "a.b-c.d", ""}, ports = {"", "8", "65535"},
                                          paths = {"", "/", "/p", "/p/q.x", "/p:7", "/a@b", "/a:8/b@c:9", "//p", "/~p"}, queries = {"", "a=1", "a=1&b=2", "b=%41%2F", "a=x@y:1", "a=b=c", "a=/p/q", "a=1?2"},
                                          fragments = {"", "f", "f?x", "f@x:1"};
    std::string scheme = c.pick(schemes), user = c.pick(users), host = c.pick(hosts), port = c.pick(ports), path = c.pick(paths), query = c.pick(queries), fragment = c.pick(fragments);
    bool web = scheme != "file";
    if (!web && (!user.empty() || !host.empty() || !port.empty() || path.empty())) c.reject();
    if (host.empty() && (!user.empty() || !port.empty())) c.reject();
    if (host.empty() && path.compare(0, 2, "//") == 0) c.reject();
    if (host.empty() && path.empty()) c.reject();
    std::string auth = (user.empty() ? "" : user + "@") + host + (port.empty() ? "" : ":" + port);
    std::string text = scheme + ":" + (auth.empty() ? "" : "//" + auth) + path + (query.empty() ? "" : "?" + query) + (fragment.empty() ? "" : "#" + fragment);
    std::map<std::string, std::string> values;
    for (size_t i = 0; i < query.size();) {
        size_t e = std::min(query.find('&', i), query.size());
        std::string kv = query.substr(i, e - i), k = kv.substr(0, kv.find('=')), v = kv.substr(kv.find('=') + 1), d;
        for (size_t j = 0; j < v.size(); j++)
            if (v[j] == '%') d += char(strtol(v.substr(j + 1, 2).c_str(), nullptr, 16)), j += 2;
            else d += v[j];
        values[k] = d;
        i = e + 1;
    }
    auto same = [&](const URI& u, const std::string& how) {
        MC_CHECK(c, u.scheme() == scheme, how, text, ": scheme ", u.scheme());
        MC_CHECK(c, u.user() == user && u.host() == host && u.port() == (port.empty() ? -1 : atoi(port.c_str())), how, text, ": user '", u.user(), "' host '", u.host(), "' port ", u.port());
        MC_CHECK(c, u.name() == path, how, text, ": name '", u.name(), "'");
        MC_CHECK(c, u.fragment() == fragment, how, text, ": fragment '", u.fragment(), "'");
        for (auto& kv : values) MC_CHECK(c, u.query(kv.first) == kv.second, how, text, ": value of ", kv.first, " is '", u.query(kv.first), "'");
        MC_CHECK(c, u.query("other").empty() && u.query().empty() == values.empty(), how, text, ": query ", u.query());
        MC_CHECK(c, u.authority() == auth, how, text, ": authority ", u.authority());
    };
    URI u(text);
    same(u, "");
    std::string raw = u.asRawString();
    URI again(raw);
    same(again, "written and read ");
    MC_CHECK(c, again == u && !(again != u) && again.asRawString() == raw, text, " written as ", raw, " reads as another");
    if (web) MC_CHECK(c, u.asString() == raw, text, " as a string is ", u.asString());
    {
        char buf[4096];
        MemoryStream out(buf, sizeof(buf));
        out << u;
        MemoryStream in(buf, sizeof(buf));
        URI s(in);
        MC_CHECK(c, s == u, text, " streamed is another");
    }
    URI moved("https", u);
    MC_CHECK(c, moved.name() == u.name() && moved.query() == u.query() && moved.scheme() == "https" && moved.authority() == u.authority(), text, " with another scheme");
    c.nontrivial();
    c.outcome(web ? "web" : "file");
}, opts(3));

// URIs: values of any bytes
MC_SECTION("uri-values", [](mc::Ctx& c) {
    int a = c.choose(256);
    for (int b = 0; b < 257; b++) {
        std::string v(1, char(a));
        if (b < 256) v += char(b);
        URI u("http://h/p");
        u.query("other", "1");
        u.query("key", v);
        MC_CHECK(c, u.query("key") == v && u.query("other") == "1", "a value of bytes ", a, " ", b, " is not given back");
        URI back(u.asRawString());
        MC_CHECK(c, back == u && back.query("key") == v && back.query("other") == "1", u.asRawString(), " does not read back");
        u.query("key", "");
        MC_CHECK(c, u.query("key").empty() && u.query() == "other=1", "a value set to nothing stays");
    }
    c.evals(257);
    c.nontrivial();
}, opts(1));

// URIs: any text is refused or gives a URI that is stable
MC_SECTION("uri-text", [](mc::Ctx& c) {
    static const std::string alphabet = "a:/@?#=&%4.";
    static const std::vector<std::string> starts = {"http:", "http://", "http://h/p?k=", "file:", "", "unix:"};
    std::string s = c.pick(starts);
    int n = c.choose(c.tier() ? 7 : 6);
    for (int i = 0; i < n && i < 2; i++) s += alphabet[c.choose(int(alphabet.size()))];
    uint64_t e = 0;
    std::function<void(int)> go = [&](int k) {
        if (k) {
            for (char ch : alphabet) {
                s.push_back(ch);
                go(k - 1);
                s.pop_back();
            }
            return;
        }
        e++;
        bool ok = true;
        std::string raw;
        try {
            URI u(s);
            raw = u.asRawString();
            for (auto k : {"k", "a"}) u.query(k);
        }
        catch (std::exception&) { ok = false; }
        if (s.find("k=%44") != std::string::npos && !ok && s.find('%', s.find("k=%44") + 5) == std::string::npos) c.fail("'" + s + "' is refused");
        // a percent sign of a value stands for a byte
        size_t q = s.find("?k=%");
        if (ok && q != std::string::npos && s.find_first_of("?#&=", q + 3) == std::string::npos && s.compare(0, 10, "http://h/p") == 0) {
            bool bad = false;
            for (size_t i = q; i < s.size(); i++)
                if (s[i] == '%' && !(i + 2 < s.size() && isxdigit(s[i + 1]) && isxdigit(s[i + 2]))) bad = true;
            if (bad) c.fail("'" + s + "' has a value of no bytes, and is accepted");
        }
        if (ok) c.nontrivial();
    };
    go(n > 2 ? n - 2 : 0);
    c.evals(e);
}, opts(3));
