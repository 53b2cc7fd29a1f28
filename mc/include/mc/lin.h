// Brute-force linearizability: is there an order of the completed operations, compatible with their
// real-time order and with the sequential specification, that leaves every pending operation blocked?
#pragma once
#include <functional>
#include <set>
#include <string>
#include <vector>

namespace mclin {

template <class S>
struct Op {
    int call = 0, ret = -1;  // stamps; ret < 0: still blocked
    std::string desc;
    std::function<bool(S&)> apply;          // completed: can it take effect now with the result it returned?
    std::function<bool(const S&)> blocked;  // pending: the specification lets it wait in this state
};

template <class S>
struct Checker {
    const std::vector<Op<S>>& ops;
    std::set<std::pair<unsigned long, std::string>> seen;
    bool requireBlocked;

    bool go(unsigned long done, const S& s) {
        if (!seen.insert({done, s.key()}).second) {
            return false;
        }
        bool all = true;
        for (size_t i = 0; i < ops.size(); ++i) {
            if (ops[i].ret < 0 || (done >> i & 1)) {
                continue;
            }
            all = false;
            // minimal: no other unfinished completed op returned before this one was called
            bool minimal = true;
            for (size_t j = 0; j < ops.size() && minimal; ++j) {
                if (j != i && ops[j].ret >= 0 && !(done >> j & 1) && ops[j].ret < ops[i].call) {
                    minimal = false;
                }
            }
            if (!minimal) {
                continue;
            }
            S n = s;
            if (ops[i].apply(n) && go(done | 1ul << i, n)) {
                return true;
            }
        }
        if (!all) {
            return false;
        }
        if (requireBlocked) {
            for (auto& o : ops) {
                if (o.ret < 0 && !o.blocked(s)) {
                    return false;
                }
            }
        }
        return true;
    }
};

template <class S>
bool linearizable(const std::vector<Op<S>>& ops, const S& init, bool requireBlocked = true) {
    Checker<S> c{ops, {}, requireBlocked};
    return c.go(0, init);
}

}  // namespace mclin
