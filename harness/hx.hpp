// Harness support: a real memspace (paged prefix + the engine's own allocator), case rng, verdict reporting
#pragma once
#include <dbzero/core/memory/Memspace.hpp>
#include <dbzero/core/memory/CacheRecycler.hpp>
#include <dbzero/core/memory/PrefixImpl.hpp>
#include <dbzero/core/memory/MetaAllocator.hpp>
#include <dbzero/core/storage/Storage0.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <atomic>
#include <map>
#include <set>
#include <random>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

namespace hx
{
    struct Violation { std::string key, msg; };
    inline std::map<std::string, long> counts;
    inline std::string crumb;
    inline void count(const std::string &k, long n = 1) { counts[k] += n; }
    [[noreturn]] inline void fail(const std::string &key, const std::string &msg = "") { throw Violation { key, msg }; }
    inline void check(bool c, const std::string &key, const std::string &msg = "") { ++counts["checked"]; if (!c) fail(key, msg); }
    inline bool trace() { static bool t = std::getenv("HX_TRACE"); return t; }

    struct Rng
    {
        std::mt19937_64 g;
        Rng(std::uint64_t s): g(s) {}
        std::uint64_t operator()(std::uint64_t n) { return n ? g() % n : 0; }            // [0, n)
        std::uint64_t in(std::uint64_t a, std::uint64_t b) { return a + (*this)(b - a + 1); }
        bool p(double x) { return (g() >> 11) * 0x1p-53 < x; }
        std::uint64_t pick(std::initializer_list<std::uint64_t> l) { return *(l.begin() + (*this)(l.size())); }
        // skewed size: mostly small, sometimes up to max
        std::uint64_t size(std::uint64_t max) { std::uint64_t m = 1ull << (*this)(64 - __builtin_clzll(max | 1)); return in(0, std::min(max, m)); }
    };

    struct Space
    {
        std::atomic<std::size_t> m_dirty_meter = 0;
        db0::CacheRecycler m_recycler;
        std::shared_ptr<db0::Prefix> m_prefix;
        db0::Memspace m_memspace;
        Space(std::size_t page_size = 4096, std::size_t slab_size = 1u << 20, std::size_t cache_size = 1u << 30)
            : m_recycler(cache_size, m_dirty_meter)
        {
            m_prefix = std::shared_ptr<db0::Prefix>(new db0::PrefixImpl("hx", m_dirty_meter, m_recycler, std::make_shared<db0::Storage0>(page_size)));
            db0::MetaAllocator::formatPrefix(m_prefix, page_size, slab_size);
            m_memspace = db0::Memspace(m_prefix, std::make_shared<db0::MetaAllocator>(m_prefix, nullptr, false), 0x12345678);
        }
        ~Space() { m_memspace.getAllocator().commit(); m_memspace = {}; m_prefix->close(); }
    };

    // runs f(seed, n), prints one verdict line
    template <typename F> int main_(int argc, char **argv, F f)
    {
        int rc = 0;
        try {
            f(argc > 1 ? argv[1] : "", std::strtoull(argc > 2 ? argv[2] : "1", nullptr, 10), std::atoi(argc > 3 ? argv[3] : "100"), argc > 4 ? argv[4] : "");
            std::printf("verdict ok\n");
        } catch (Violation &v) {
            std::printf("verdict violation\t%s\t%s\n", v.key.c_str(), v.msg.c_str());
            rc = 1;
        } catch (std::exception &e) {
            std::string s = e.what();
            for (auto &c: s) if (c == '\n' || c == '\t') c = ' ';
            std::printf("verdict exception\t%s\t%s\n", crumb.c_str(), s.c_str());
            rc = 1;
        }
        for (auto &c: counts) std::printf("n %s %ld\n", c.first.c_str(), c.second);
        std::fflush(stdout);
        _exit(rc);
    }
    // breadcrumb of the operation under way, visible after a crash
    inline void at(const std::string &s)
    {
        crumb = s;
        if (trace()) std::fprintf(stderr, "%s\n", s.c_str());
        static int fd = std::getenv("HX_CRUMB") ? std::atoi(std::getenv("HX_CRUMB")) : -1;
        if (fd >= 0) { std::string b = s; b.resize(100, ' '); if (pwrite(fd, b.data(), 100, 0)) {} }
    }
}
