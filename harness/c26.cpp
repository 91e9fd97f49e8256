#include "hx.hpp"
#include <dbzero/core/collections/b_index/v_bindex.hpp>
#include <dbzero/core/collections/b_index/mb_index.hpp>

using namespace hx;
using K = std::uint64_t;

static std::string str(const std::set<K> &s, std::size_t n = 8)
{
    std::ostringstream o; o << s.size() << "{";
    for (auto k: s) { if (!n--) break; o << k << " "; }
    o << "}"; return o.str();
}

static std::vector<K> some(Rng &r, const std::set<K> &have, K range, std::size_t max, double known)
{
    std::vector<K> v; std::vector<K> h(have.begin(), have.end());
    std::size_t n = r.size(max);
    bool run = r.p(.3); K base = r(range);
    for (std::size_t i = 0; i < n; ++i) {
        if (!h.empty() && r.p(known)) v.push_back(run ? h[(base + i) % h.size()] : h[r(h.size())]);
        else v.push_back(run ? (base + i) % range : r(range));
    }
    return v;
}

static void diff(const std::string &what, const std::set<K> &got, const std::set<K> &want)
{
    count("checked");
    if (got == want) return;
    std::set<K> miss, extra;
    for (auto k: want) if (!got.count(k)) miss.insert(k);
    for (auto k: got) if (!want.count(k)) extra.insert(k);
    fail(what, "missing " + str(miss) + " extra " + str(extra) + " of " + str(want, 0));
}

template <typename C> static std::set<K> all(const C &c, const char *what)
{
    std::set<K> out; bool first = true; K last = 0;
    auto it = c.begin(), end = c.end();
    for (; it != end; ++it) {
        K k = *it;
        check(first || last < k, std::string(what) + ":order");
        out.insert(k); last = k; first = false;
    }
    return out;
}

static void v_bindex_case(Rng &r, int n, const std::string &)
{
    Space sp;
    auto &ms = sp.m_memspace;
    using C = db0::v_bindex<K>;
    std::set<K> m; K range = r.pick({ 50, 400, 3000, 1ull << 60 });
    auto hint = r.pick({ 256, 512, 4096 });
    auto c = std::make_unique<C>(ms, hint);
    std::size_t max = r.pick({ 8, 100, 1000 });
    for (int i = 0; i < n; ++i) {
        switch (r(8)) {
        case 0: case 1: {
            at("v_bindex.bulkInsertUnique");
            auto v = some(r, m, range, max, .2); std::set<K> fresh;
            std::size_t uniq = 0; for (auto k: v) if (m.insert(k).second) { ++uniq; fresh.insert(k); }
            std::set<K> told;
            std::function<void(K)> cb = [&](K k) { told.insert(k); };
            auto res = c->bulkInsertUnique(v.begin(), v.end(), &cb);
            check(res.second == uniq, "v_bindex.bulkInsertUnique:count");
            diff("v_bindex.bulkInsertUnique:callback", told, fresh);
            break; }
        case 2: {
            at("v_bindex.insert");
            K k = r(range); if (m.insert(k).second) c->insert(k);
            break; }
        case 3: case 4: case 5: {
            at("v_bindex.bulkErase");
            auto v = some(r, m, range, max, .8); std::set<K> gone, told;
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            for (auto k: v) if (m.erase(k)) gone.insert(k);
            std::function<void(K)> cb = [&](K k) { told.insert(k); };
            auto e = c->bulkErase(v.begin(), v.end(), static_cast<const K*>(nullptr), &cb);
            diff("v_bindex.bulkErase:callback", told, gone);
            check(e == gone.size(), "v_bindex.bulkErase:count");
            break; }
        case 6: {
            at("v_bindex.erase");
            if (m.empty()) break;
            K k = *std::next(m.begin(), r(m.size()));
            auto it = c->find(k);
            check(it != c->end(), "v_bindex.find:missing", std::to_string(k));
            c->erase(it); m.erase(k);
            break; }
        case 7: {
            at("v_bindex.reopen");
            c->commit(); auto a = c->getAddress();
            c = std::make_unique<C>(ms.myPtr(a), hint);
            break; }
        }
        count("ops");
        check(c->size() == m.size(), crumb + ":size", std::to_string(c->size()) + " vs " + std::to_string(m.size()));
        diff(crumb + ":content", all(*c, "v_bindex"), m);
        K k = r.p(.5) && !m.empty() ? *std::next(m.begin(), r(m.size())) : r(range);
        at("v_bindex.find"); check((c->find(k) != c->end()) == (m.count(k) > 0), "v_bindex.find", std::to_string(k));
        at("v_bindex.join");
        auto j = c->beginJoin(1); 
        if (!j.is_end()) {
            bool ok = j.join(k, 1); auto lb = m.lower_bound(k);
            check(ok == (lb != m.end()), "v_bindex.join:end", std::to_string(k));
            if (ok) check(*j == *lb, "v_bindex.join:value", std::to_string(k));
        }
    }
    c->destroy();
}

static void mb_index_case(Rng &r, int n, const std::string &)
{
    Space sp;
    auto &ms = sp.m_memspace;
    using C = db0::MorphingBIndex<K>;
    std::set<K> m; K range = r.pick({ 10, 50, 400, 3000, 1ull << 60 });
    auto c = std::make_unique<C>(ms, db0::bindex::type::empty);
    std::size_t max = r.pick({ 2, 6, 100, 1000 });
    for (int i = 0; i < n; ++i) {
        switch (r(8)) {
        case 0: case 1: {
            at("mb_index.bulkInsertUnique");
            auto v = some(r, m, range, max, .2); std::set<K> fresh, told;
            for (auto k: v) if (m.insert(k).second) fresh.insert(k);
            std::function<void(K)> cb = [&](K k) { told.insert(k); };
            c->bulkInsertUnique(v.begin(), v.end(), &cb);
            diff("mb_index.bulkInsertUnique:callback", told, fresh);
            break; }
        case 2: {
            at("mb_index.insert");
            K k = r(range); if (m.insert(k).second) c->insert(k);
            break; }
        case 3: case 4: case 5: {
            at("mb_index.bulkErase");
            auto v = some(r, m, range, max, .8); std::set<K> gone, told;
            std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
            for (auto k: v) if (m.erase(k)) gone.insert(k);
            std::function<void(K)> cb = [&](K k) { told.insert(k); };
            auto e = c->bulkErase(v.begin(), v.end(), &cb);
            diff("mb_index.bulkErase:callback", told, gone);
            check(e == gone.size(), "mb_index.bulkErase:count", std::to_string(e) + " vs " + std::to_string(gone.size()));
            break; }
        case 6: {
            at("mb_index.erase");
            if (m.empty()) break;
            K k = *std::next(m.begin(), r(m.size()));
            c->erase(k); m.erase(k);
            break; }
        case 7: {
            at("mb_index.reopen");
            auto a = c->getAddress(); auto t = c->getIndexType();
            c = std::make_unique<C>(ms, a, t);
            break; }
        }
        count("ops"); count("mb_type" + std::to_string((int)c->getIndexType()));
        check(c->size() == m.size(), crumb + ":size", std::to_string(c->size()) + " vs " + std::to_string(m.size()));
        std::set<K> got; for (auto j = c->beginJoin(1); !j.is_end(); ++j) got.insert(*j);
        diff(crumb + ":content", got, m);
        std::set<K> back; for (auto j = c->beginJoin(-1); !j.is_end(); --j) { back.insert(*j); }
        diff(crumb + ":content-backwards", back, m);
        K k = r.p(.5) && !m.empty() ? *std::next(m.begin(), r(m.size())) : r(range);
        at("mb_index.contains"); check(c->contains(k) == (m.count(k) > 0), "mb_index.contains", std::to_string(k));
        at("mb_index.join");
        auto j = c->beginJoin(1);
        if (!j.is_end()) {
            bool ok = j.join(k, 1); auto lb = m.lower_bound(k);
            check(ok == (lb != m.end()), "mb_index.join:end", std::to_string(k));
            if (ok) check(*j == *lb, "mb_index.join:value", std::to_string(k));
        }
        auto b = c->beginJoin(-1);
        if (!b.is_end()) {
            bool ok = b.join(k, -1); auto ub = m.upper_bound(k);
            check(ok == (ub != m.begin()), "mb_index.join-back:end", std::to_string(k));
            if (ok) check(*b == *std::prev(ub), "mb_index.join-back:value", std::to_string(k));
        }
    }
    c->destroy();
}

int main(int argc, char **argv)
{
    return hx::main_(argc, argv, [](const std::string &kind, std::uint64_t seed, int n, const std::string &opt) {
        Rng r(seed);
        if (kind == "v_bindex") v_bindex_case(r, n, opt);
        else if (kind == "mb_index") mb_index_case(r, n, opt);
        else fail("harness", "unknown kind " + kind);
    });
}
