// Linearizability of short recorded histories against an executable sequential model
// (Wing & Gong search with memoisation, after Lowe / Horn & Kroening).
#pragma once
#include "vh.hpp"
#include <algorithm>
#include <unordered_set>

namespace vh {
struct Op {
    int thread = 0;
    int kind = 0;
    long arg = 0;
    long res = 0;       // model-defined result
    bool ok = false;    // model-defined success flag
    int64_t call = 0, ret = 0;
};

// Model: struct with  bool apply(const Op&, const std::vector<Op>& all, size_t i)  (mutating; false = illegal)
//        and          void key(std::string&) const
// Returns 1 linearizable, 0 not, -1 gave up.
template<class Model>
int linearizable(const std::vector<Op> &ops, const Model &init, size_t budget = 2000000) {
    size_t n = ops.size();
    if (n > 63) return -1;
    struct Frame { Model m; uint64_t done; size_t next; };
    std::vector<Frame> stack;
    std::unordered_set<std::string> seen;
    stack.push_back({init, 0, 0});
    const uint64_t full = n == 64 ? ~0ull : ((1ull << n) - 1);
    size_t steps = 0;
    while (!stack.empty()) {
        Frame &f = stack.back();
        if (f.done == full) return 1;
        if (++steps > budget) return -1;
        // an op may be linearized next only if no pending op returned before it was called
        int64_t minRet = INT64_MAX;
        for (size_t i = 0; i < n; ++i)
            if (!(f.done >> i & 1)) minRet = std::min(minRet, ops[i].ret);
        bool pushed = false;
        for (size_t i = f.next; i < n; ++i) {
            if (f.done >> i & 1 || ops[i].call > minRet) continue;
            Model m = f.m;
            if (!m.apply(ops[i], ops, i)) continue;
            uint64_t d = f.done | (1ull << i);
            std::string k((const char *) &d, sizeof d);
            m.key(k);
            f.next = i + 1;
            if (!seen.insert(k).second) continue;
            stack.push_back({m, d, 0});
            pushed = true;
            break;
        }
        if (!pushed) stack.pop_back();
    }
    return 0;
}

inline std::string showHistory(std::vector<Op> ops, const char *const *names) {
    std::sort(ops.begin(), ops.end(), [](const Op &a, const Op &b) { return a.call < b.call; });
    std::ostringstream o;
    int64_t t0 = ops.empty() ? 0 : ops[0].call;
    for (auto &p : ops)
        o << "  [" << p.call - t0 << "," << p.ret - t0 << "] t" << p.thread << " " << names[p.kind] << "(" << p.arg << ") -> "
          << (p.ok ? "ok " : "fail ") << p.res << "\n";
    return o.str();
}
} // namespace vh
