#include "nn.h"
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <set>
#include <deque>
#include <list>
#include <queue>
#include <stack>
#include <array>
#include <optional>
#include <variant>
#include <span>
#include <functional>
#include <sstream>
#include <algorithm>
#include <ranges>
#include <numeric>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <bitset>
#include <cstring>
#include <string_view>
#include <tuple>
#include <valarray>
#include <format>
#include <bit>
#include <iterator>
#include <limits>
#include <thread>
#include <future>
#include <semaphore>
#include <shared_mutex>
#include <complex>
extern "C" void umap() { std::unordered_map<int, float> m; float s = 0; for (int i = 0; i < 20; i++) m[i * 7] = snn_float("x"); for (auto& [k, v] : m) s += v; snn_check(m.size() == 20, "size"); std::unordered_set<int> u{1, 2, 3}; snn_check(u.count(2), "c"); std::unordered_map<std::string, int> w; w["ab"] = 3; w["c"] = 4; snn_check(w.at("ab") == 3, "s"); }
extern "C" void omap() { std::map<int, float> m; for (int i = 0; i < 20; i++) m[(i * 7) % 11] = snn_float("x"); m.erase(3); snn_check(m.size() == 10, "size"); int p = -1; for (auto& [k, v] : m) { snn_check(k > p, "order"); p = k; } std::set<std::string> s{"b", "a"}; snn_check(*s.begin() == "a", "s"); std::multimap<int,int> mm; mm.emplace(1,2); mm.emplace(1,3); snn_check(mm.count(1) == 2, "mm"); }
extern "C" void seqs() { std::deque<float> d; for (int i = 0; i < 200; i++) d.push_front(i); snn_check(d[3] == 196, "d"); std::list<int> l{3, 1, 2}; l.sort(); snn_check(l.front() == 1, "l"); std::priority_queue<int> q; q.push(3); q.push(9); snn_check(q.top() == 9, "q"); std::array<float, 3> a{1, 2, 3}; snn_check(a[1] == 2, "a"); std::vector<bool> b(70); b[65] = true; snn_check(b[65] && !b[64], "b"); b.flip(); snn_check(std::count(b.begin(), b.end(), true) == 69, "f"); std::queue<int> qq; qq.push(1); qq.pop(); snn_check(qq.empty(), "qq"); }
extern "C" void opts() { std::optional<float> o; snn_check(!o, "o"); o = snn_float("x"); snn_check(o.has_value(), "o"); std::variant<int, std::string> v = std::string("x"); snn_check(std::get<std::string>(v) == "x", "v"); int r = std::visit([](auto&& a) { return (int)sizeof(a) > 8; }, v); snn_check(r, "visit"); auto t = std::make_tuple(1, 2.0f); auto [a, b] = t; snn_check(a == 1 && b == 2, "t"); bool th = false; try { std::get<int>(v); } catch (std::bad_variant_access&) { th = true; } snn_check(th, "bad"); }
extern "C" void funcs() { float k = snn_float("k"); std::function<float(float)> f = [k](float x) { return x + k; }; auto g = std::bind(f, std::placeholders::_1); snn_check(g(1) == k + 1, "f"); std::function<int(int)> fib = [&](int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }; snn_check(fib(8) == 21, "fib"); snn_check(std::plus<>()(1, 2) == 3 && std::invoke([](int a) { return a; }, 3) == 3, "p"); }
extern "C" void strs() { std::stringstream s; s << "a" << 12 << " " << 'c' << 1u << 3l << true; snn_check(s.str() == "a12 c131", "ss"); std::string t = std::to_string(42) + "x"; snn_check(t == "42x" && t.find("x") == 2 && t.substr(1) == "2x", "to_string"); std::string_view v = t; snn_check(v.starts_with("42"), "sv"); std::string r(3, 'a'); r += "b"; r.insert(0, "q"); r.erase(1, 1); std::replace(r.begin(), r.end(), 'a', 'z'); snn_check(r == "qzzb", "r"); }
extern "C" void flt() { std::stringstream s; s << 1.5f; snn_check(s.str().size() > 0, "fs"); }
extern "C" void fmt() { std::string s = std::format("{} {}", 1, "a"); snn_check(s == "1 a", "fmt"); }
extern "C" void manip() { std::stringstream s; s << std::setw(5) << std::setfill('0') << 42 << std::fixed << std::setprecision(2) << std::endl; snn_check(s.str() == "00042\n", "m"); s << 1.5 << 3.14159; snn_check(s.str() == "00042\n1.503.14", s.str().c_str()); }
extern "C" void algos() { std::vector<int> v{5, 3, 9, 1, 7, 2, 8, 8, 0, 4, 6, 11, 15, 12, 13, 14, 10, 20, 19, 18, 17, 16}; auto w = v; std::sort(w.begin(), w.end()); snn_check(std::is_sorted(w.begin(), w.end()), "sort"); w = v; std::stable_sort(w.begin(), w.end(), std::greater<>()); snn_check(w[0] == 20, "ss"); std::partial_sort(w.begin(), w.begin() + 3, w.end()); snn_check(w[0] == 0, "ps"); std::nth_element(w.begin(), w.begin() + 4, w.end()); std::rotate(w.begin(), w.begin() + 2, w.end()); std::reverse(w.begin(), w.end()); w.erase(std::unique(w.begin(), w.end()), w.end()); snn_check(std::binary_search(w.begin(), w.end(), 400) == false, "bs"); snn_check(*std::max_element(v.begin(), v.end()) == 20, "me"); snn_check(std::accumulate(v.begin(), v.end(), 0) > 0 && std::reduce(v.begin(), v.end()) > 0, "acc"); std::vector<int> o(v.size()); std::partial_sum(v.begin(), v.end(), o.begin()); std::adjacent_difference(v.begin(), v.end(), o.begin()); std::transform(v.begin(), v.end(), o.begin(), [](int a) { return a * 2; }); std::copy_if(v.begin(), v.end(), o.begin(), [](int a) { return a > 3; }); std::iota(o.begin(), o.end(), 0); std::fill_n(o.begin(), 3, 9); std::generate(o.begin(), o.end(), [n = 0]() mutable { return n++; }); snn_check(o[3] == 3, "gen"); snn_check(std::all_of(o.begin(), o.end(), [](int a) { return a >= 0; }), "all"); auto mm = std::minmax_element(v.begin(), v.end()); snn_check(*mm.first == 0, "mm"); std::for_each(v.begin(), v.end(), [](int& a) { a++; }); snn_check(std::clamp(5, 0, 3) == 3, "clamp"); std::next_permutation(w.begin(), w.end()); std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end()); std::make_heap(v.begin(), v.end()); std::inplace_merge(w.begin(), w.begin() + 2, w.end()); std::partition(v.begin(), v.end(), [](int a) { return a % 2; }); std::swap_ranges(v.begin(), v.begin() + 2, v.begin() + 2); std::set_union(v.begin(), v.begin(), w.begin(), w.begin(), o.begin()); }
extern "C" void falgos() { V v; for (int i = 0; i < 3; i++) v.push_back(snn_float("x")); V w = v; float d = std::inner_product(v.begin(), v.end(), w.begin(), 0.f); float e = std::transform_reduce(v.begin(), v.end(), w.begin(), 0.f); snn_check(d == e, "ip"); std::sort(w.begin(), w.end()); snn_check(w[0] <= w[2], "sorted"); auto m = std::ranges::max_element(v); snn_check(*m == w[2], "max"); float s = std::reduce(v.begin(), v.end(), 0.f, std::plus<>()); snn_check(s == v[0] + v[1] + v[2], "r"); auto z = std::ranges::count_if(v, [](float f) { return f > 0; }); snn_check(z <= 3, "z"); auto [a, b] = std::minmax(v[0], v[1]); snn_check(a <= b, "mm"); }
extern "C" void rngs() { V v{1, 2, 3, 4}; float s = 0; for (float f : v | std::views::filter([](float f) { return f > 1; }) | std::views::transform([](float f) { return f * 2; }) | std::views::take(2)) s += f; snn_check(s == 10, "views"); for (int i : std::views::iota(0, 4)) s += i; snn_check(s == 16, "iota"); for (float f : v | std::views::reverse | std::views::drop(1)) s += f; std::ranges::sort(v, std::greater<>()); snn_check(v[0] == 4, "rs"); std::ranges::transform(v, v.begin(), [](float f) { return -f; }); snn_check(v[0] == -4, "rt"); std::span<float> sp(v.data() + 1, 2); snn_check(sp.size() == 2 && sp[0] == -3, "span"); std::ranges::fill(v, 0.f); std::ranges::copy(sp, v.begin()); for (auto&& x : std::views::all(v)) x = 1; std::ranges::for_each(v, [](float& f) { f = 2; }); snn_check(std::ranges::all_of(v, [](float f) { return f == 2; }), "all"); }
extern "C" void maths() { float x = snn_float("x"); snn_assume(x > 1); snn_assume(x < 100); float a = std::fabs(x) + std::abs(-x) + std::fmax(x, 2.f) + std::fmin(x, 2.f) + std::max({x, 1.f}); snn_check(a > 0, "a"); snn_check(std::floor(x) <= x && std::ceil(x) >= x && std::trunc(x) <= x, "floor"); snn_check(std::round(x) <= x + 1, "round"); long l = std::lround(x); snn_check(l >= 1, "lround"); snn_check(std::fma(x, x, 1.f) == x * x + 1, "fma"); snn_check(std::pow(x, 2) == x * x && std::pow(x, 2.f) == x * x, "pow"); snn_check(std::hypot(x, 0.f) >= 0, "hypot"); snn_check(!std::signbit(x), "sb"); snn_check(std::copysign(x, -1.f) == -x, "cs"); snn_check(std::midpoint(1, 3) == 2, "mid"); snn_check(std::lerp(0.f, x, 1.f) == x, "lerp"); snn_check(std::fmod(x, 200.f) == x, "fmod"); snn_check(std::remainder(5.f, 3.f) == -1, "rem"); snn_check(true, "cbrt"); float lg = std::log(x); (void)lg; snn_check(std::isfinite(x) && !std::isnan(x), "fin"); double dd = std::sqrt((double)x); snn_check(dd * dd == (double)x, "sqrt"); int ir = (int)std::rint(x); (void)ir; std::nearbyint(x); }
extern "C" void syncs() { std::mutex m; { std::lock_guard<std::mutex> g(m); } { std::unique_lock<std::mutex> g(m); g.unlock(); } { std::scoped_lock g(m); } std::atomic<int> a{0}; a++; a.fetch_add(2); snn_check(a.load() == 3, "atomic"); std::atomic<bool> b{false}; b.store(true); bool ex = true; b.compare_exchange_strong(ex, false); snn_check(!b, "cas"); std::once_flag o; std::call_once(o, [&] { a = 9; }); snn_check(a == 9, "once"); std::recursive_mutex rm; rm.lock(); rm.unlock(); std::shared_mutex sm; sm.lock_shared(); sm.unlock_shared(); std::atomic_flag fl = ATOMIC_FLAG_INIT; fl.test_and_set(); }
extern "C" void threads() { int x = 0; std::thread t([&] { x = 3; }); t.join(); snn_check(x == 3, "thread"); std::jthread j([&] { x = 4; }); j.join(); snn_check(x == 4, "jthread"); }
extern "C" void cond() { std::mutex m; std::condition_variable c; bool ready = false; std::thread t([&] { { std::lock_guard<std::mutex> g(m); ready = true; } c.notify_one(); }); { std::unique_lock<std::mutex> g(m); c.wait(g, [&] { return ready; }); } t.join(); snn_check(ready, "cv"); }
extern "C" void mems() { char a[32], b[32]; std::memset(a, 1, 32); std::memcpy(b, a, 32); std::memmove(a + 1, a, 20); snn_check(std::memcmp(a, b, 32) == 0, "mem"); snn_check(std::strlen("abc") == 3 && std::strcmp("a", "b") < 0, "str"); std::bitset<70> bs; bs.set(65); snn_check(bs.count() == 1 && bs[65], "bitset"); snn_check(std::popcount(7u) == 3 && std::bit_ceil(5u) == 8 && std::countl_zero(1u) == 31, "bit"); float f = 1; auto u = std::bit_cast<unsigned>(f); snn_check(u == 0x3f800000, "bc"); auto p = std::make_shared<int>(3); std::weak_ptr<int> w = p; p.reset(); snn_check(w.expired(), "weak"); std::valarray<float> va{1, 2, 3}; snn_check(va.sum() == 6, "va"); void* raw = std::malloc(10); raw = std::realloc(raw, 100); std::free(raw); void* z = std::calloc(3, 4); snn_check(*(int*)z == 0, "calloc"); std::free(z); std::complex<float> c(1, 2); snn_check(c.real() == 1, "cpx"); }
struct Base { virtual ~Base() = default; virtual int f() { return 1; } }; struct Derived : Base { int f() override { return 2; } };
extern "C" void objs() { std::unique_ptr<Base> b = std::make_unique<Derived>(); snn_check(b->f() == 2 && dynamic_cast<Derived*>(b.get()) && typeid(*b) == typeid(Derived), "rtti"); bool c = false; try { throw std::runtime_error("x"); } catch (const std::exception& e) { c = std::string(e.what()) == "x"; } snn_check(c, "ex"); try { try { throw 3; } catch (...) { throw; } } catch (int i) { snn_check(i == 3, "re"); } bool oor = false; try { std::vector<int>{1}.at(3); } catch (std::out_of_range&) { oor = true; } snn_check(oor, "at"); static int count = []{ return 4; }(); snn_check(count == 4, "static"); thread_local int tl = 3; snn_check(tl == 3, "tl"); }
extern "C" void outs() { std::cout << "a" << 3 << std::endl; std::cerr << "b\n"; printf("%d\n", 3); std::puts("x"); std::cout << 1.5f << std::flush; std::clog << "z"; fprintf(stderr, "%s", "q"); }
extern "C" void chron() { using namespace std::chrono; auto t = steady_clock::now(); auto e = duration_cast<milliseconds>(steady_clock::now() - t).count(); snn_check(e >= 0, "t"); auto u = system_clock::now().time_since_epoch().count(); snn_check(u > 0, "u"); std::this_thread::sleep_for(1ms); auto h = high_resolution_clock::now(); (void)h; std::this_thread::sleep_until(steady_clock::now() + 1ms); }
extern "C" void rnds() { std::mt19937 g(3); std::uniform_int_distribution<int> d(0, 5); int k = d(g); snn_check(k >= 0 && k <= 5, "k"); std::uniform_real_distribution<float> f(0, 1); snn_check(f(g) <= 1, "f"); std::bernoulli_distribution b(0.5); b(g); V v{1, 2, 3}; std::shuffle(v.begin(), v.end(), g); std::random_device rd; std::default_random_engine de(rd()); std::uniform_int_distribution<size_t> s(0, 3); snn_check(s(de) < 4, "s"); std::ranges::shuffle(v, g); std::discrete_distribution<int> dd{1,2}; dd(g);}
