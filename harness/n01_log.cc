// N01: what is written to a log channel reaches every one of its targets, once, whole and in order
#include "common.h"

#include <map>
#include <sstream>

#include "eckit/log/CallbackTarget.h"
#include "eckit/log/Channel.h"
#include "eckit/log/ColouringTarget.h"
#include "eckit/log/FileTarget.h"
#include "eckit/log/LogTarget.h"
#include "eckit/log/OStreamTarget.h"
#include "eckit/log/PrefixTarget.h"
#include "eckit/log/TeeTarget.h"
#include "eckit/log/UserChannel.h"

using namespace eckit;

namespace {

std::string shown(const std::string& s) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size();) {
        size_t j = i;
        while (j < s.size() && s[j] == s[i]) {
            ++j;
        }
        std::string ch = s[i] == '\n' ? "\\n" : std::string(1, s[i]);
        if (j - i > 4) {
            r += mc::cat("<", j - i, " times ", ch, ">");
        }
        else {
            for (size_t k = i; k < j; ++k) {
                r += ch;
            }
        }
        i = j;
    }
    return r + "\"";
}

// A place where text ends up
struct Record {
    std::string text;   // all of it, or
    std::string path;   // in this file
    std::vector<std::string> lines;  // line by line
    bool byLine = false;
    bool alive  = true;
    std::ostringstream stream;
    bool streamed = false;
    std::string all() const {
        if (byLine) {
            std::string r;
            for (const auto& l : lines) {
                r += l + "\n";
            }
            return r;
        }
        return streamed ? stream.str() : !path.empty() ? getFile(path) : text;
    }
};

struct Sink : LogTarget {
    std::shared_ptr<Record> r;
    Sink(std::shared_ptr<Record> rec) : r(rec) {}
    ~Sink() override { r->alive = false; }
    void write(const char* start, const char* end) override { r->text.append(start, end); }
    void flush() override {}
};

std::ostream& open(std::ostream& s) {
    return s << "<";
}
std::ostream& shut(std::ostream& s) {
    return s << ">";
}

std::string indentation;  // what an indented line starts with

// What should happen
struct Node {
    std::string text;  // a place
    std::shared_ptr<Record> record;
    bool wrapper = false, isIndent = false, fresh = true;
    std::string prefix, suffix;
    std::shared_ptr<Node> left, right;
    void write(char ch) {
        if (record) {
            text += ch;
            return;
        }
        if (!wrapper) {
            if (left) {
                left->write(ch);
            }
            if (right) {
                right->write(ch);
            }
            return;
        }
        if (ch == '\n') {
            for (char s : suffix) {
                left->write(s);
            }
            left->write(ch);
            fresh = true;
            return;
        }
        if (fresh) {
            fresh = false;
            for (char p : prefix) {
                left->write(p);
            }
        }
        left->write(ch);
    }
};
using NodeP = std::shared_ptr<Node>;

struct World {
    std::vector<std::weak_ptr<Node>> nodes;   // places
    std::vector<std::shared_ptr<Record>> records;
    std::map<std::shared_ptr<Record>, std::string> last;  // what the places gone had
    int files = 0;

    NodeP place(std::shared_ptr<Record> r) {
        NodeP n(new Node);
        n->record = r;
        records.push_back(r);
        nodes.push_back(n);
        return n;
    }
    std::pair<LogTarget*, NodeP> sink() {
        auto r = std::make_shared<Record>();
        return {new Sink(r), place(r)};
    }
    std::pair<LogTarget*, NodeP> target(int kind) {
        switch (kind) {
            case 0:
                return sink();
            case 1: {
                auto r      = std::make_shared<Record>();
                r->streamed = true;
                return {new OStreamTarget(r->stream), place(r)};
            }
            case 2: {
                auto r  = std::make_shared<Record>();
                r->path = mc::cat("log", files++);
                ::unlink(r->path.c_str());
                return {new FileTarget(r->path, 16), place(r)};
            }
            case 3: {
                auto r    = std::make_shared<Record>();
                r->byLine = true;
                return {new CallbackTarget([](void* p, const char* l) { static_cast<Record*>(p)->lines.push_back(l); }, r.get()), place(r)};
            }
            case 4: {
                auto s = sink();
                NodeP n(new Node);
                n->wrapper = true;
                n->prefix  = "p:";
                n->left    = s.second;
                return {new PrefixTarget("p", s.first, ":"), n};
            }
            case 5: {
                auto s = sink();
                NodeP n(new Node);
                n->wrapper = true;
                n->prefix  = "<";
                n->suffix  = ">";
                n->left    = s.second;
                return {new ColouringTarget(s.first, open, shut), n};
            }
            case 6: {
                auto a = sink(), b = target(3);
                NodeP n(new Node);
                n->left  = a.second;
                n->right = b.second;
                return {new TeeTarget(a.first, b.first), n};
            }
            default: {
                auto a = target(5);
                NodeP n(new Node);
                n->wrapper = true;
                n->prefix  = "q ";
                n->left    = a.second;
                return {new PrefixTarget("q", a.first), n};
            }
        }
    }
    // nobody refers to it any more
    void gone() {
        for (size_t i = 0; i < nodes.size(); ++i) {
            if (auto n = nodes[i].lock()) {
                last[n->record] = n->text;
            }
        }
    }
};

struct Chan {
    std::unique_ptr<Channel> real;
    NodeP model;
    std::string log;
};

void same(mc::Ctx& c, World& w, const std::string& when) {
    w.gone();
    for (size_t i = 0; i < w.records.size(); ++i) {
        const Record& r      = *w.records[i];
        std::string expect = w.last[w.records[i]];
        std::string got    = r.all();
        if (r.byLine) {  // what is not a line yet has not arrived
            size_t nl = expect.rfind('\n');
            expect    = nl == std::string::npos ? "" : expect.substr(0, nl + 1);
        }
        const char* what = r.byLine ? "callback" : r.streamed ? "stream" : r.path.empty() ? "target" : "file";
        MC_CHECK(c, got == expect, when, " the ", what, " has ", shown(got), " instead of ", shown(expect));
        if (!r.byLine && !r.streamed && r.path.empty()) {
            bool held = !w.nodes[i].expired();
            MC_CHECK(c, r.alive == held, when, " a target which is ", held ? "in use was deleted" : "no longer used was not deleted");
        }
    }
}

void text(Chan& ch, const std::string& s) {
    if (!ch.model) {
        *ch.real << s;
        return;
    }
    *ch.real << s;
    for (char x : s) {
        ch.model->write(x);
    }
}

const std::vector<std::string> shorts{"a", "b\n", "\n", "c\nd", "e\n\nf\n"};

void one(mc::Ctx& c, World& w, Chan& ch, bool big, const std::vector<int>& kinds, Chan* other) {
    switch (c.choose(other ? 9 : 8, "op")) {
        case 0: {
            if (!ch.model) {
                c.reject();
            }
            std::string s;
            if (big) {
                int n = c.pick(std::vector<int>{1, 1023, 1024, 1025, 4095, 4096, 5000}, "characters");
                s     = std::string(n, 'x') + (c.flag("end of line") ? "\n" : "");
                s[0]  = 'w';
            }
            else {
                s = c.pick(shorts, "text");
            }
            MC_LOG(c, "write ", shown(s));
            text(ch, s);
            return;
        }
        case 1:
            MC_LOG(c, "flush");
            ch.real->flush();
            break;
        case 2: {
            int kind = c.pick(kinds, "target");
            MC_LOG(c, "set ", kind);
            auto t = w.target(kind);
            w.gone();
            if (kind == 1 || kind == 3) {  // also without a target
                delete t.first;
                if (kind == 1) {
                    ch.real->setStream(t.second->record->stream);
                }
                else {
                    ch.real->setCallback([](void* p, const char* l) { static_cast<Record*>(p)->lines.push_back(l); }, t.second->record.get());
                }
            }
            else {
                ch.real->setTarget(t.first);
            }
            ch.model = t.second;
            break;
        }
        case 3: {
            int kind = c.pick(kinds, "target");
            MC_LOG(c, "add ", kind);
            auto t = w.target(kind);
            if (kind == 1 || kind == 3) {
                delete t.first;
                if (kind == 1) {
                    ch.real->addStream(t.second->record->stream);
                }
                else {
                    ch.real->addCallback([](void* p, const char* l) { static_cast<Record*>(p)->lines.push_back(l); }, t.second->record.get());
                }
            }
            else {
                ch.real->addTarget(t.first);
            }
            NodeP n(new Node);
            n->left  = ch.model;
            n->right = t.second;
            ch.model = n;
            break;
        }
        case 4: {
            MC_LOG(c, "indent");
            ch.real->indent("i");
            if (ch.model) {
                NodeP n(new Node);
                n->wrapper = n->isIndent = true;
                n->prefix                = indentation;
                n->left                  = ch.model;
                ch.model                 = n;
            }
            break;
        }
        case 5: {
            MC_LOG(c, "unindent");
            bool failed = false;
            try {
                ch.real->unindent();
            }
            catch (SeriousBug&) {
                failed = true;
            }
            bool expect = ch.model && !ch.model->isIndent;
            MC_CHECK(c, failed == expect, "undoing an indentation ", failed ? "fails" : "does not fail", " where there is ", expect ? "none" : "one");
            if (failed) {
                ch.real->flush();
            }
            if (ch.model && !failed) {
                w.gone();
                ch.model = NodeP(ch.model->left);
            }
            break;
        }
        case 6:
            MC_LOG(c, "reset");
            ch.real->reset();
            w.gone();
            ch.model.reset();
            break;
        case 7:
            MC_LOG(c, "new channel");
            ch.real.reset(new Channel());
            w.gone();
            ch.model.reset();
            break;
        case 8: {
            // both channels to one target
            MC_LOG(c, "shared");
            auto t = w.target(c.pick(kinds, "target"));
            ch.real->flush();
            other->real->flush();
            w.gone();
            ch.real->setTarget(t.first);
            other->real->setTarget(t.first);
            ch.model = other->model = t.second;
            break;
        }
    }
    if (other) {
        other->real->flush();
    }
    MC_CHECK(c, bool(*ch.real) == bool(ch.model), "a channel is ", ch.model ? "not " : "", "active");
    same(c, w, "afterwards");
    c.state(mc::cat(w.records.size(), ch.model ? ch.model->prefix : "-"));
}

void calibrate(mc::Ctx& c) {
    if (indentation.empty()) {
        auto r = std::make_shared<Record>();
        Channel ch(new Sink(r));
        ch.indent("i");
        ch << "x\n" << std::flush;
        size_t x = r->text.find("x\n");
        MC_CHECK(c, x != std::string::npos && x > 0 && r->text.substr(0, x).find("i") != std::string::npos, "an indented line is ", shown(r->text));
        indentation = r->text.substr(0, x);
    }
}

void drive(mc::Ctx& c, int depth, bool big, const std::vector<int>& kinds, bool two) {
    calibrate(c);
    World w;
    Chan ch[2];
    int n = two ? 2 : 1;
    for (int i = 0; i < n; ++i) {
        auto t = w.target(c.pick(kinds, "first target"));
        ch[i].real.reset(new Channel(t.first));
        ch[i].model = t.second;
    }
    for (int i = 0; i < depth; ++i) {
        int k = two ? c.choose(2, "channel") : 0;
        one(c, w, ch[k], big, kinds, two ? &ch[1 - k] : nullptr);
        if (two) {
            // the order between channels is that of their flushes
            ch[0].real->flush();
            ch[1].real->flush();
        }
        c.step();
    }
    w.gone();
    for (int i = 0; i < n; ++i) {
        if (c.flag("deleted") || two) {
            ch[i].real.reset();  // what was written arrives
            ch[i].model.reset();
        }
        else {
            ch[i].real->flush();
        }
    }
    same(c, w, "in the end");
    c.nontrivial();
}

}  // namespace

MC_SECTION("short", [](mc::Ctx& c) { drive(c, c.tier() ? 5 : 4, false, {0, 4}, false); }, opts(4));
MC_SECTION("kinds", [](mc::Ctx& c) { drive(c, c.tier() ? 4 : 3, false, {0, 1, 2, 3, 4, 5, 6, 7}, false); }, opts(4));
MC_SECTION("long", [](mc::Ctx& c) { drive(c, c.tier() ? 4 : 3, true, {0, 3, 7}, false); }, opts(4));
MC_SECTION("two", [](mc::Ctx& c) { drive(c, c.tier() ? 3 : 2, false, {0, 2, 3, 4}, true); }, opts(4));

// every way to cut a text into pieces, with and without flushes
MC_SECTION("pieces", [](mc::Ctx& c) {
    calibrate(c);
    int kind = c.choose(8, "target");
    World w;
    Chan ch;
    auto t = w.target(kind);
    ch.real.reset(new Channel(t.first));
    ch.model = t.second;
    std::string s;
    int n = c.choose(c.tier() ? 8 : 7, "length");
    for (int i = 0; i < n; ++i) {
        s += c.pick(std::vector<char>{'a', '\n'}, "char");
    }
    for (int i = 0; i < n; ++i) {
        text(ch, s.substr(i, 1));
        if (c.flag("flush")) {
            ch.real->flush();
            same(c, w, "after a flush");
        }
    }
    ch.real->flush();
    same(c, w, "in the end");
    c.nontrivial();
}, opts(4));

// lines of every length to a callback and through prefixes
MC_SECTION("lengths", [](mc::Ctx& c) {
    calibrate(c);
    World w;
    Chan ch;
    auto t = w.target(c.pick(std::vector<int>{0, 2, 3, 4, 6, 7}, "target"));
    ch.real.reset(new Channel(t.first));
    ch.model = t.second;
    const std::vector<int> lengths{0, 1, 15, 16, 17, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4094, 4095, 4096, 4097, 8191, 8192, 8193, 100000, 1048575, 1048576, 1048577};
    int lines = c.choose(2, "lines") + 1;
    for (int i = 0; i < lines; ++i) {
        int n = c.pick(lengths, "length");
        if (lines > 1 && n > 10000 && !c.tier()) {
            c.reject();
        }
        std::string s;
        for (int k = 0; k < n; ++k) {
            s += char('a' + (k / 7 + i) % 26);
        }
        s += "\n";
        int at = c.choose(3, "flush: not, in the middle, near the end");
        if (at && n) {
            size_t p = at == 1 ? n / 2 : n - 1;
            text(ch, s.substr(0, p));
            ch.real->flush();
            text(ch, s.substr(p));
        }
        else {
            text(ch, s);
        }
    }
    ch.real->flush();
    same(c, w, "in the end");
    c.nontrivial();
}, opts(2));

// targets used directly, and deleted without a flush
MC_SECTION("direct", [](mc::Ctx& c) {
    World w;
    int kind = c.choose(8, "target");
    auto t   = w.target(kind);
    t.first->attach();
    int n = c.choose(4, "writes");
    for (int i = 0; i < n; ++i) {
        std::string s = c.pick(std::vector<std::string>{"", "a", "b\n", "0123456789012345678901234567890\n", "\n"}, "text");
        t.first->write(s.data(), s.data() + s.size());
        for (char x : s) {
            t.second->write(x);
        }
        if (c.flag("flush")) {
            t.first->flush();
            same(c, w, "after a flush");
        }
    }
    w.gone();
    t.second.reset();
    t.first->detach();
    same(c, w, "when it was deleted");
    c.nontrivial();
}, opts(2));

// messages to the user: each arrives once, line by line, as what it is
namespace {
struct User : UserMsg {
    std::vector<std::string> got;
    void infoMsg(const std::string& s) override { got.push_back("info " + s); }
    void warningMsg(const std::string& s) override { got.push_back("warning " + s); }
    void errorMsg(const std::string& s) override { got.push_back("error " + s); }
    void notifyClient(const std::string& s) override { got.push_back("notify " + s); }
};
}  // namespace
MC_SECTION("user", [](mc::Ctx& c) {
    User u;
    std::vector<std::string> expect;
    bool registered = false;
    auto channel    = std::make_unique<UserChannel>();
    int n           = c.choose(c.tier() ? 4 : 3, "steps") + 1;
    for (int i = 0; i < n; ++i) {
        switch (c.choose(3, "op")) {
            case 0: {
                registered = c.flag("registered");
                channel->userMsg(registered ? &u : nullptr);
                MC_CHECK(c, channel->userMsg() == (registered ? &u : nullptr), "another one is registered");
                break;
            }
            case 1: {
                int type = c.choose(4, "type");
                const char* names[] = {"", "info ", "error ", "warning "};
                UserChannel::MsgType types[] = {UserChannel::NONE, UserChannel::INFO, UserChannel::ERROR, UserChannel::WARN};
                std::string s = c.pick(n > 3 ? std::vector<std::string>{"a", "hello"} : std::vector<std::string>{"a", "two words", std::string(1000, 'x')}, "message");
                channel->msgType(types[type]);
                *channel << s;
                bool line = c.flag("line");
                if (line) {
                    *channel << "\n";
                }
                if (c.flag("another line")) {
                    if (!line) {
                        *channel << "\n";
                    }
                    *channel << "z" << "\n";
                    if (type && registered) {
                        expect.push_back(names[type] + s);
                        expect.push_back(std::string(names[type]) + "z");
                    }
                }
                else if (type && registered) {
                    expect.push_back(names[type] + s);
                }
                channel->flush();
                break;
            }
            case 2:
                channel->flush();  // nothing was written
                break;
        }
    }
    channel.reset();
    std::string g, e;
    for (const auto& x : u.got) {
        g += "[" + x + "]";
    }
    for (const auto& x : expect) {
        e += "[" + x + "]";
    }
    MC_CHECK(c, u.got == expect, "the messages are ", shown(g), " instead of ", shown(e));
    if (!expect.empty()) {
        c.nontrivial();
    }
}, opts(3));
