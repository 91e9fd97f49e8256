// C25: random page writes (whole and as differences), transactions, flushes and reopenings of a file-backed storage
// against a model that keeps every page version.
#include "hx.hpp"
#include <dbzero/core/storage/BDevStorage.hpp>
#include <dbzero/core/memory/diff_utils.hpp>
#include <cstring>
#include <memory>

using namespace hx;
using Bytes = std::vector<std::uint8_t>;
using State = db0::StateNumType;
using db0::AccessType;

static std::string P(std::uint64_t page, std::uint64_t state) { return "page " + std::to_string(page) + " state " + std::to_string(state); }

struct Model
{
    std::map<std::uint64_t, std::map<State, Bytes>> pages;
    std::map<std::pair<std::uint64_t, State>, std::string> how;
    std::map<State, std::set<std::uint64_t>> log;            // pages written by a state
    const Bytes *at(std::uint64_t p, State s, State *which = nullptr) const
    {
        auto i = pages.find(p);
        if (i == pages.end()) return nullptr;
        auto j = i->second.upper_bound(s);
        if (j == i->second.begin()) return nullptr;
        --j; if (which) *which = j->first;
        return &j->second;
    }
};

struct Case
{
    Rng &r; std::string dir, file; int steps;
    Model m;
    std::uint32_t ps; std::uint32_t dram; std::size_t step;
    std::uint64_t range; double diff_p; unsigned max_len; std::size_t meta;
    db0::BDevStorage *st = nullptr, *rd = nullptr;
    State cur = 0, rd_state = 0;
    std::vector<std::uint64_t> hot;

    Case(Rng &r, const std::string &dir, int n): r(r), dir(dir), file(dir + "/px.db0"), steps(n) {}

    std::uint64_t page()
    {
        if (!hot.empty() && r.p(.7)) return hot[r(hot.size())];
        std::uint64_t p = r(range);
        if (r.p(.02)) p += r.pick({ 1ull << 20, 1ull << 26, 1ull << 30 });
        hot.push_back(p);
        if (hot.size() > 4000) hot.erase(hot.begin(), hot.begin() + 1000);
        return p;
    }

    void fill(Bytes &b, std::size_t o, std::size_t n)
    {
        if (r.p(.2)) { std::memset(&b[o], r.p(.5) ? 0 : r(256), n); return; }
        for (std::size_t i = 0; i < n; ++i) b[o + i] = (std::uint8_t)r.g();
    }

    // a changed copy of the page
    Bytes edit(const Bytes *base)
    {
        Bytes b = base ? *base : Bytes(ps, 0);
        switch (r(6)) {
        case 0: fill(b, 0, ps); break;
        case 1: fill(b, 0, r.in(1, ps)); break;
        case 2: { auto o = r(ps); fill(b, o, r.in(1, ps - o)); break; }
        default: {
            for (int k = r.in(1, r.pick({ 1, 3, 20, 200 })); k--;) { auto o = r(ps); fill(b, o, std::min<std::size_t>(ps - o, r.in(1, r.pick({ 1, 4, 40 })))); }
            if (r.p(.1)) { b[0] ^= 1; }
            if (r.p(.1)) { b[ps - 1] ^= 1; } } }
        return b;
    }

    void whole(std::uint64_t p, const Bytes &b)
    {
        at("write");
        auto copy = b;
        st->write(p * ps, cur, ps, copy.data());
        m.pages[p][cur] = b; m.log[cur].insert(p); count("full"); m.how[{p, cur}] += "F";
    }

    void transaction()
    {
        auto before = cur;
        cur += r.p(.8) ? 1 : r.in(1, 5);
        at("transaction");
        int n = r.in(1, r.pick({ 2, 10, 80, 400 }));
        std::map<std::uint64_t, bool> done;
        // pages that leave the cache in the middle of the transaction are written whole, and read back
        if (r.p(.3)) for (int k = r.in(1, r.pick({ 3, 40 })); k--;) {
            auto p = page(); auto b = edit(m.at(p, cur)); whole(p, b);
            if (r.p(.2)) sample(*st, cur, 2, "read:unflushed");
        }
        for (int i = 0; i < n; ++i) {
            auto p = page();
            if (done.count(p)) continue;
            done[p] = true;
            State bs; auto base = m.at(p, cur - 1, &bs);
            Bytes old = base ? *base : Bytes();
            bool had = base != nullptr;
            auto now = m.at(p, cur);
            Bytes b = edit(now);
            if (!r.p(diff_p)) {
                if (r.p(.1)) {           // several pages in one write
                    int k = r.in(2, 5); Bytes all = b; bool ok = true;
                    for (int j = 1; j < k; ++j) { if (done.count(p + j)) ok = false; Bytes x = edit(m.at(p + j, cur)); all.insert(all.end(), x.begin(), x.end()); }
                    if (ok) {
                        at("write:wide"); auto copy = all;
                        st->write(p * ps, cur, all.size(), copy.data());
                        for (int j = 0; j < k; ++j) { m.pages[p + j][cur] = Bytes(all.begin() + j * ps, all.begin() + (j + 1) * ps); m.log[cur].insert(p + j); m.how[{p + j, cur}] += "W"; done[p + j] = true; }
                        count("wide");
                        continue;
                    }
                }
                whole(p, b); continue;
            }
            // the end of a transaction: differences to the content before it, whole where they do not fit
            std::vector<std::uint16_t> d;
            db0::DiffRange fr; std::vector<std::pair<std::uint16_t, std::uint16_t>> forced;
            if (r.p(.3)) for (int k = r.in(1, 5); k--;) { auto o = r(ps); fr.insert(o, o + r.in(1, std::min<std::uint64_t>(ps - o, 64)), 64); }
            db0::DiffRangeView view = fr.empty() || fr.isOverflow() ? db0::DiffRangeView() : db0::DiffRangeView(fr);
            at("getDiffs");
            bool ok = had ? db0::getDiffs(old.data(), b.data(), ps, d, 0, {}, view) : db0::getDiffs(b.data(), ps, d, 0, {}, view);
            if (ok && d.empty()) { check(had && old == b, "getDiffs:empty", P(p, cur)); count("nodiff"); if (m.at(p, cur) && *m.at(p, cur) != b) whole(p, b); continue; }
            at("tryWriteDiffs");
            auto copy = b;
            if (ok && st->tryWriteDiffs(p * ps, cur, ps, copy.data(), d, max_len)) {
                m.pages[p][cur] = b; m.log[cur].insert(p); count("diff"); m.how[{p, cur}] += had ? "d" : "z";
                if (!had) count("zerobase");
            } else whole(p, b);
        }
        if (!m.log.count(cur)) cur = before; else count("states");
    }

    void verify(db0::BDevStorage &s, std::uint64_t p, State state, const std::string &what)
    {
        at(what);
        Bytes got(ps, 0xa5); State ws = 0;
        auto want = m.at(p, state, &ws);
        State ms = 0;
        bool found = s.tryFindMutation(p, state, ms);
        check(found == (want != nullptr), what + ":mutation-found", P(p, state));
        if (!want) {
            bool threw = false;
            try { s.read(p * ps, state, ps, got.data(), { db0::AccessOptions::read }); } catch (std::exception &) { threw = true; }
            check(threw, what + ":absent-page", P(p, state));
            count("absent");
            return;
        }
        check(ms == ws, what + ":mutation", P(p, state) + ": got " + std::to_string(ms) + " want " + std::to_string(ws));
        try { s.read(p * ps, state, ps, got.data(), { db0::AccessOptions::read }); }
        catch (std::exception &e) {
            std::ostringstream o; for (auto &v: m.pages[p]) o << v.first << m.how[{p, v.first}] << " ";
            fail(what + ":error", P(p, state) + " of " + o.str() + e.what());
        }
        if (got != *want) {
            std::size_t i = 0, n = 0, f = ps; for (; i < ps; ++i) if (got[i] != (*want)[i]) { ++n; f = std::min(f, i); }
            std::ostringstream o; for (auto &v: m.pages[p]) o << v.first << m.how[{p, v.first}] << " ";
            fail(what, P(p, state) + " of " + o.str() + ": " + std::to_string(n) + " bytes differ from byte " + std::to_string(f) + ", last written at state " + std::to_string(ws));
        }
        count("checked");
    }

    void sample(db0::BDevStorage &s, State top, int n, const std::string &what)
    {
        if (m.pages.empty()) return;
        for (int i = 0; i < n; ++i) {
            auto it = m.pages.lower_bound(hot.empty() ? 0 : hot[r(hot.size())]);
            if (it == m.pages.end()) it = m.pages.begin();
            State state = r.p(.3) ? top : r.in(1, top);
            if (r.p(.3)) { auto v = std::next(it->second.begin(), r(it->second.size())); state = std::min(top, v->first + (State)r.pick({ 0, 1 })); if (state > 1 && r.p(.3)) --state; }
            verify(s, it->first + (r.p(.03) ? 1 : 0), state, what);
        }
    }

    void everything(db0::BDevStorage &s, const std::string &what)
    {
        if (!cur) return;
        check(s.getMaxStateNum() == cur, what + ":max-state", std::to_string(s.getMaxStateNum()) + " want " + std::to_string(cur));
        double every = m.pages.size() > 1500 ? 1500. / m.pages.size() : 1;       // bounded cost for large histories
        for (auto &p: m.pages) {
            if (every < 1 && !r.p(every)) continue;
            verify(s, p.first, cur, what);
            for (auto &v: p.second) if (r.p(p.second.size() > 10 ? 3. / p.second.size() : .3)) { verify(s, p.first, v.first, what); if (v.first > 1) verify(s, p.first, v.first - 1, what); }
        }
        // the change log
        State b = r.in(1, cur), e = r.in(b, cur + 1);
        at("changelog");
        std::map<State, std::set<std::uint64_t>> got, want;
        s.fetchDP_ChangeLogs(b, e, [&](const db0::BaseStorage::DP_ChangeLogT &c) { auto &x = got[c.m_state_num]; for (auto p: c) x.insert(p); });
        for (auto &l: m.log) if (l.first >= b && l.first < e) want[l.first] = l.second;
        std::ostringstream o;
        for (auto &w: want) if (got[w.first] != w.second) o << w.first << ":" << got[w.first].size() << "/" << w.second.size() << " ";
        check(got == want, what + ":changelog", "[" + std::to_string(b) + "," + std::to_string(e) + ") got/want " + o.str());
        count("logs");
    }

    void flush() { at("flush"); st->flush(); }

    void open() { at("open"); st = new db0::BDevStorage(file, AccessType::READ_WRITE, {}, meta); count("opened"); }

    void refresh()
    {
        if (!rd) { at("reader"); rd = new db0::BDevStorage(file, AccessType::READ_ONLY, {}, meta); rd_state = cur; count("readers"); }
        else {
            std::map<State, std::set<std::uint64_t>> got, want;
            at("refresh");
            bool any = rd->beginRefresh();
            check(any == (rd_state != cur), "refresh:pending", std::to_string(any));
            if (any) {
                rd->completeRefresh([&](std::uint64_t p, State s) { got[s].insert(p); });
                for (auto &l: m.log) if (l.first > rd_state && l.first <= cur) want[l.first] = l.second;
                check(got == want, "refresh:updates", std::to_string(got.size()) + " states reported, want " + std::to_string(want.size()));
            }
            rd_state = cur; count("refreshed");
        }
        if (cur) check(rd->getMaxStateNum() == cur, "refresh:state", std::to_string(rd->getMaxStateNum()) + " want " + std::to_string(cur));
        sample(*rd, std::max<State>(cur, 1), 30, "read:reader");
    }

    void copy()
    {
        at("copy");
        auto to = dir + "/copy.db0"; std::remove(to.c_str());
        db0::BDevStorage::create(to, ps, dram, std::max<std::size_t>(step, 1 << 20));
        auto src = new db0::BDevStorage(file, AccessType::READ_ONLY, {}, meta);
        auto out = new db0::BDevStorage(to);
        src->copyTo(*out); out->close(); src->close();
        at("copy:open");
        auto c = new db0::BDevStorage(to);
        everything(*c, "read:copy");
        c->close(); count("copies");
    }

    void run()
    {
        ps = r.pick({ 512, 4096, 4096 }); dram = r.pick({ 512, 2000, (16u << 10) - 256 });
        step = r.pick({ 0, 0, 64 << 10, 1 << 20 });
        range = r.pick({ 3, 30, 300, 20000 }); diff_p = r.pick({ 0, 3, 7, 10 }) / 10.; max_len = r.pick({ 1, 2, 4, 32, 1000 });
        meta = r.pick({ 1, 4096, 1 << 16, 16 << 20 });
        if (trace()) std::fprintf(stderr, "page %u dram %u step %zu range %lu diff %.1f max %u meta %zu\n", ps, dram, step, range, diff_p, max_len, meta);
        at("create");
        db0::BDevStorage::create(file, ps, dram, step ? std::optional<std::size_t>(step) : std::nullopt);
        open();
        for (int i = 0; i < steps; ++i) {
            transaction();
            flush(); count("flushes");
            if (r.p(.5)) sample(*st, cur, 20, "read:writer");
            if (r.p(.4)) refresh();
            if (r.p(.05) && rd) { at("reader:close"); rd->close(); rd = nullptr; }
            if (r.p(.1)) {
                if (r.p(.5)) { transaction(); }        // closed without a flush of its own
                at("close"); st->close(); open(); everything(*st, "read:reopened");
            }
            if (r.p(.03) && i > 3) copy();
        }
        everything(*st, "read:end");
        at("close"); st->close();
        open(); everything(*st, "read:reopened"); st->close();
    }
};

int main(int argc, char **argv)
{
    return hx::main_(argc, argv, [](const std::string &dir, std::uint64_t seed, int n, const std::string &) {
        auto r = new Rng(seed);
        (new Case(*r, dir, n))->run();
    });
}
