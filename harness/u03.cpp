// Extension managers against a registration list.
#include "pbt.hpp"
#include <optional>
#include <DRAMPower/util/extension_manager.h>
#include <DRAMPower/util/extension_manager_static.h>
#include <DRAMPower/util/extensions.h>
namespace em = DRAMPower::util::extension_manager; namespace ems = DRAMPower::util::extension_manager_static; using pbt::Src; using pbt::eq;
template <typename H> constexpr H hook(unsigned i) { return static_cast<H>(static_cast<std::underlying_type_t<H>>(1) << i); }
template <typename F, std::size_t... I> void each(F&& f, std::index_sequence<I...>) { (f(std::integral_constant<unsigned, I>{}), ...); }
template <unsigned N, typename F> void each(F&& f) { each(f, std::make_index_sequence<N>{}); }
template <unsigned N, typename F> void with(unsigned i, F&& f) { each<N>([&](auto k) { if (k.value == i) f(k); }); }
// ---- plain manager
struct Base : DRAMPower::util::Serialize, DRAMPower::util::Deserialize { std::string blob; virtual ~Base() = default;
    void serialize(std::ostream& o) const override { uint32_t n = uint32_t(blob.size()); o.write(reinterpret_cast<const char*>(&n), 4); o.write(blob.data(), n); }
    void deserialize(std::istream& i) override { uint32_t n = 0; i.read(reinterpret_cast<char*>(&n), 4); if (n > 100) throw pbt::Fail("an extension was restored from a foreign position of the stream"); blob.assign(n, 0); i.read(blob.data(), n); } };
template <unsigned K> struct Ext : Base { unsigned k = K; Ext(std::string b = "") { blob = std::move(b); } };
static std::string text(Src& s) { std::string t(s.below(6), 'a'); for (auto& c : t) c = char('a' + s.below(26)); return t; }
constexpr unsigned N = 8;
static void plain(Src& s) {
    em::ExtensionManager<Base> m; std::vector<std::pair<unsigned, std::string>> reg; auto has = [&](unsigned k) { for (auto& r : reg) if (r.first == k) return true; return false; }; unsigned ops = 1 + s.below(16), ev = 0;
    auto verify = [&](em::ExtensionManager<Base>& x, const std::vector<std::pair<unsigned, std::string>>& want) {
        each<N>([&](auto K) { constexpr unsigned k = decltype(K)::value; const std::string* b = nullptr; for (auto& r : want) if (r.first == k) b = &r.second; std::string p = "extension " + std::to_string(k) + ": ";
            eq(x.template hasExtension<Ext<k>>(), b != nullptr, p + "registered"); auto w = x.template getExtension<Ext<k>>().lock(); eq(bool(w), b != nullptr, p + "retrievable"); unsigned calls = 0; x.template withExtension<Ext<k>>([&](auto& e) { ++calls; eq(e.k, k, p + "visited kind"); if (b) eq(e.blob, *b, p + "visited state"); if (w) eq(&e == w.get(), true, p + "same object"); }); eq(calls, unsigned(b != nullptr), p + "visits"); if (w && b) eq(w->blob, *b, p + "state"); }); };
    for (unsigned i = 0; i < ops; ++i) {
        switch (s.below(3)) {
        case 0: { unsigned k = s.below(N); bool again = has(k); if (again && !s.chance(1, 3)) break; auto t = text(s); s << (again ? "replace " : "register ") << k << " " << t << "\n"; std::weak_ptr<Base> old; if (again) with<N>(k, [&](auto K) { old = m.getExtension<Ext<decltype(K)::value>>(); }); with<N>(k, [&](auto K) { m.registerExtension<Ext<decltype(K)::value>>(t); }); if (again) { eq(old.expired(), true, "the replaced extension is released"); for (auto i = reg.begin(); i != reg.end(); ++i) if (i->first == k) { reg.erase(i); break; } ++ev; } reg.emplace_back(k, t); break; }
        case 1: { unsigned k = s.below(N); auto t = text(s); s << "change " << k << " to " << t << "\n"; with<N>(k, [&](auto K) { m.withExtension<Ext<decltype(K)::value>>([&](auto& e) { e.blob = t; }); }); for (auto& r : reg) if (r.first == k) r.second = t; break; }
        default: {   // a manager with the same registrations restores the saved state of each extension
            std::stringstream st; m.serialize(st); std::string want; for (auto& r : reg) { uint32_t n = uint32_t(r.second.size()); want.append(reinterpret_cast<char*>(&n), 4); want += r.second; } eq(st.str() == want, true, "saved in registration order");
            em::ExtensionManager<Base> o; for (auto& r : reg) with<N>(r.first, [&](auto K) { o.registerExtension<Ext<decltype(K)::value>>(text(s)); }); o.deserialize(st); verify(o, reg); ev += reg.size() > 1; s << "save and restore\n"; break; } }
        verify(m, reg);
    }
    s.interesting(ev * 2 + reg.size());
}
// ---- hooks
template <typename H> struct HBase : em::ExtensionWithHooks<H>, DRAMPower::util::Serialize, DRAMPower::util::Deserialize { std::underlying_type_t<H> mask = 0; unsigned id = 0; H getSupportedHooks() const override { return static_cast<H>(mask); }
    void serialize(std::ostream&) const override {} void deserialize(std::istream&) override {} };
template <typename H, unsigned K> struct HExt : HBase<H> { HExt(std::underlying_type_t<H> m) { this->mask = m; this->id = K; } };
enum class H8 : uint8_t {}; enum class H32 : uint32_t {}; enum class H64 : uint64_t {}; enum class HInt : int {};
template <typename H> void hooks(Src& s) {
    using V = std::underlying_type_t<H>; constexpr unsigned bits = std::numeric_limits<V>::digits; em::ExtensionManagerWithHooks<HBase<H>, H> m; std::vector<std::pair<unsigned, V>> reg; unsigned ops = 1 + s.below(20), calls = 0; s << bits << " hooks\n";
    unsigned few[3] = {unsigned(s.below(bits)), unsigned(s.below(bits)), unsigned(s.below(bits))};
    for (unsigned i = 0; i < ops; ++i) {
        unsigned k = s.below(N); bool known = false; for (auto& r : reg) known |= r.first == k;
        if (s.chance(1, known ? 8 : 2)) { if (known) for (auto i = reg.begin(); i != reg.end(); ++i) if (i->first == k) { reg.erase(i); break; } V mask = 0; if (s.chance(1, 4)) mask = V(s.raw64()) & std::numeric_limits<V>::max(); else for (unsigned f : few) if (s.chance(1, 2)) mask = V(mask | V(V(1) << f)); s << (known ? "replace " : "register ") << k << " hooks " << uint64_t(mask) << "\n"; with<N>(k, [&](auto K) { m.template registerExtension<HExt<H, decltype(K)::value>>(mask); }); reg.emplace_back(k, mask);
            with<N>(k, [&](auto K) { eq(m.template hasExtension<HExt<H, decltype(K)::value>>(), true, "registered"); }); }
        else { unsigned h = s.chance(3, 4) ? few[s.below(3)] : s.below(bits); std::vector<unsigned> got, want; m.callHook(hook<H>(h), [&](HBase<H>& e) { got.push_back(e.id); }); for (auto& r : reg) if (r.second >> h & 1) want.push_back(r.first); s << "call hook " << h << "\n"; CHECK_MSG(got == want, "hook " << h << " of " << bits << " reached " << got.size() << " extensions, " << want.size() << " support it (or the order differs)"); calls += want.size() > 0; }
    }
    s.interesting(calls);
}
// ---- static manager: every combination is compiled in, the run picks one
template <unsigned K, uint64_t M> struct SExt { std::vector<unsigned> log; int state = 0; static constexpr H64 getSupportedHooks() { return static_cast<H64>(M); } };
template <uint64_t... M> struct Combo {
    template <std::size_t... I> static auto make(std::index_sequence<I...>) { return std::make_unique<ems::StaticExtensionManager<DRAMUtils::util::type_sequence<SExt<I, M>...>, H64>>(); }
    static void run(Src& s) { go(s, std::make_index_sequence<sizeof...(M)>{}); }
    template <std::size_t... I> static void go(Src& s, std::index_sequence<I...> q) {
        auto m = make(q); const uint64_t masks[] = {M..., 0}; using Mgr = std::remove_reference_t<decltype(*m)>; constexpr unsigned n = sizeof...(M); eq(Mgr::template hasExtension<SExt<99, 1>>(), false, "an extension that is not in the list is present");
        (eq(Mgr::template hasExtension<SExt<I, M>>(), true, "an extension of the list is present"), ...);
        std::vector<std::vector<unsigned>> want(n); unsigned ops = 1 + s.below(12), calls = 0; std::vector<unsigned> order, worder;
        for (unsigned i = 0; i < ops; ++i) {
            unsigned h = s.below(5); static constexpr uint64_t bit[] = {1, 2, 4, 1ull << 40, 1ull << 63}; bool two = s.chance(1, 3); order.clear(); worder.clear(); s << "hook " << h << (two ? " with two functors\n" : "\n");
            with<5>(h, [&](auto K) { constexpr H64 hk = static_cast<H64>(bit[decltype(K)::value]); auto f = [&](auto& e) { e.log.push_back(h); order.push_back(0); }; auto g = [&](auto& e) { e.log.push_back(100 + h); order.push_back(1); }; if (two) m->template callHook<hk>(f, g); else m->template callHook<hk>(f); });
            for (unsigned e = 0; e < n; ++e) if (masks[e] & bit[h]) { want[e].push_back(h); worder.push_back(0); if (two) { want[e].push_back(100 + h); worder.push_back(1); } ++calls; }
            eq(order == worder, true, "order of the hook calls");
            (eq(m->template getExtension<SExt<I, M>>().log == want[I], true, "hook calls of extension " + std::to_string(I)), ...);
            (eq(m->template withExtension<SExt<I, M>>([](auto& e) { return ++e.state; }), int(i + 1), "state kept by the visited extension"), ...);
            const Mgr& c = *m; (eq(c.template getExtension<SExt<I, M>>().state, int(i + 1), "state seen through a constant manager"), ...);
        }
        s.interesting(calls);
    } };
static void statics(Src& s) {
    constexpr uint64_t X = 1ull << 40, Y = 1ull << 63;
    switch (s.below(8)) { case 0: Combo<1>::run(s); break; case 1: Combo<0, 1, 2>::run(s); break; case 2: Combo<7, 0, 5, X>::run(s); break; case 3: Combo<X | 1, Y, Y | X, 2>::run(s); break; case 4: Combo<3, 3, 3>::run(s); break; case 5: Combo<Y | 7, 4, 2, 1, X | 2>::run(s); break; case 6: Combo<0, 0>::run(s); break; default: Combo<~0ull, 1, ~0ull>::run(s); }
}
// ---- the two extensions of the library: a state changes exactly when its callback accepts it
static void dbi(Src& s) {
    using namespace DRAMPower::extensions; bool init = s.chance(1, 2), state = init, answer = true; std::vector<std::pair<uint64_t, bool>> got, want; DBI d([&](uint64_t t, bool e) { got.emplace_back(t, e); return answer; }, init); unsigned n = 1 + s.below(12), refused = 0;
    for (unsigned i = 0; i < n; ++i) { answer = s.chance(2, 3); uint64_t t = s.below(1000); bool e = s.chance(1, 2); s << "enable " << e << " at " << t << (answer ? " accepted\n" : " refused\n"); eq(d.enable(t, e), answer, "answer"); want.emplace_back(t, e); eq(got == want, true, "requests passed on"); if (answer) state = e; else ++refused; eq(d.isEnabled(), state, "enabled");
        if (s.chance(1, 4)) { std::stringstream st; d.serialize(st); DBI o([](uint64_t, bool) { return true; }, s.chance(1, 2)); o.deserialize(st); eq(o.isEnabled(), state, "restored state"); } }
    s.interesting(refused + 1);
    std::pair<uint16_t, uint16_t> cur{uint16_t(s.below(65536)), uint16_t(s.below(65536))}; MetaData m([&](uint16_t a, uint16_t b) { cur = {a, b}; }, [&]() { return std::make_tuple(cur.first, cur.second); }, std::make_tuple(cur.first, cur.second));
    for (unsigned i = 0; i < 4; ++i) { uint16_t a = uint16_t(s.below(65536)), b = uint16_t(s.below(65536)); m.setMetaData(a, b); eq(cur.first, a, "first word passed on"); eq(cur.second, b, "second word passed on"); auto g = m.getMetaData(); eq(std::get<0>(g), a, "first word"); eq(std::get<1>(g), b, "second word"); std::stringstream st; m.serialize(st); MetaData o([](uint16_t, uint16_t) {}, MetaData::get_callback_t{}, std::make_tuple(uint16_t(1), uint16_t(2))); o.deserialize(st); auto r = o.getMetaData(); eq(std::get<0>(r), a, "restored first word"); eq(std::get<1>(r), b, "restored second word"); }
}
int main(int c, char** v) {
    pbt::Property p; p.id = "U03"; p.quick_cases = 3600000; p.thorough_cases = 30000000;
    p.rule = "random registrations, changes, look-ups, saves and hook calls on managers with hook sets of 7 to 64 bits and on compiled-in static combinations, compared with the list of registrations; non-trivial when hooks reached an extension or several registered extensions were saved";
    p.assumptions = {"an extension type that is registered again takes the place of the previous one and is the last in the order", "a manager is restored into one with the same registrations in the same order"};
    p.scenarios = {{"registry", plain, 3, 4}, {"hooks (8 bit)", hooks<H8>, 1, 1}, {"hooks (32 bit)", hooks<H32>, 1, 1}, {"hooks (64 bit)", hooks<H64>, 2, 1}, {"hooks (signed)", hooks<HInt>, 1, 1}, {"static manager", statics, 2, 1}, {"library extensions", dbi, 2, 2}};
    return pbt::pbt_main(c, v, p);
}
