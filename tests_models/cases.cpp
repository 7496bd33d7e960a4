// Model validation: every function below is both run natively and interpreted abstractly; the texts must agree.
#include <fmt/format.h>
#include <algorithm>
#include <array>
#include <cerrno>
#include <charconv>
#include <cstdlib>
#include <functional>
#include <iterator>
#include <map>
#include <numeric>
#include <optional>
#include <range/v3/all.hpp>
#include <ranges>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <tuple>
#include <unordered_map>
#include <utility>
#include <vector>

namespace mt {
using V = std::vector<int>;
template <class R> std::string show(const R& r) { std::string s; for (const auto& x : r) { s += std::to_string(x); s += ' '; } return s; }
inline std::string b(bool x) { return x ? "T" : "F"; }

std::string t_is_sorted() { V v{ 1, 2, 2 }, w{ 2, 1 }; return b(std::is_sorted(v.begin(), v.end())) + b(std::is_sorted(w.begin(), w.end())) + b(std::ranges::is_sorted(v)) + b(std::is_sorted(w.begin(), w.end(), std::greater<int>())) + b(ranges::is_sorted(w)); }
std::string t_is_sorted_until() { V v{ 1, 3, 2 }; return std::to_string(std::is_sorted_until(v.begin(), v.end()) - v.begin()); }
std::string t_find_first_of() { V v{ 1, 3, 2 }, w{ 2, 3 }; return std::to_string(std::find_first_of(v.begin(), v.end(), w.begin(), w.end()) - v.begin()); }
std::string t_search() { V v{ 1, 2, 3, 2, 3 }, w{ 2, 3 }; auto a = std::search(v.begin(), v.end(), w.begin(), w.end()); auto e = std::find_end(v.begin(), v.end(), w.begin(), w.end()); return std::to_string(a - v.begin()) + std::to_string(e - v.begin()); }
std::string t_mismatch() { V v{ 1, 2, 3 }, w{ 1, 5, 3 }; auto [x, y] = std::mismatch(v.begin(), v.end(), w.begin()); return std::to_string(*x) + std::to_string(*y); }
std::string t_mismatch2() { V v{ 1, 2, 3 }, w{ 1, 2 }; auto r = std::mismatch(v.begin(), v.end(), w.begin(), w.end()); return b(r.first == v.end()) + b(r.second == w.end()); }
std::string t_mismatch3() { V v{ 1, 2, 3 }, w{ 1, 2 }; auto r = std::ranges::mismatch(v, w); return b(r.in1 == v.end()) + b(r.in2 == w.end()); }
std::string t_lex() { V v{ 1, 2, 3 }, w{ 1, 2 }; return b(std::lexicographical_compare(v.begin(), v.end(), w.begin(), w.end())) + b(std::lexicographical_compare(w.begin(), w.end(), v.begin(), v.end())) + b(v < w); }
std::string t_lex3() { V v{ 1, 2, 3 }, w{ 1, 2 }; return b((std::lexicographical_compare_three_way(v.begin(), v.end(), w.begin(), w.end()) > 0)) + b((v <=> w) > 0); }
std::string t_perm() { V v{ 1, 2, 3 }, w{ 3, 1, 2 }, u{ 1, 1, 2 }; return b(std::is_permutation(v.begin(), v.end(), w.begin(), w.end())) + b(std::is_permutation(v.begin(), v.end(), u.begin())); }
std::string t_minmax() { auto [a, c] = std::minmax({ 3, 1, 2 }); V v{ 3, 1, 3 }; auto [x, y] = std::minmax_element(v.begin(), v.end()); return std::to_string(a) + std::to_string(c) + std::to_string(x - v.begin()) + std::to_string(y - v.begin()); }
std::string t_bounds() { V v{ 1, 2, 2, 4 }; return std::to_string(std::lower_bound(v.begin(), v.end(), 2) - v.begin()) + std::to_string(std::upper_bound(v.begin(), v.end(), 2) - v.begin()) + b(std::binary_search(v.begin(), v.end(), 3)) + b(std::ranges::binary_search(v, 4)); }
std::string t_eqrange() { V v{ 1, 2, 2, 4 }; auto [x, y] = std::equal_range(v.begin(), v.end(), 2); return std::to_string(y - x); }
std::string t_sets() { V v{ 1, 2, 4 }, w{ 2, 3 }, o, p, q, r; std::set_union(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(o)); std::set_intersection(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(p)); std::set_difference(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(q)); std::merge(v.begin(), v.end(), w.begin(), w.end(), std::back_inserter(r)); return show(o) + "|" + show(p) + "|" + show(q) + "|" + show(r) + b(std::includes(v.begin(), v.end(), p.begin(), p.end())); }
std::string t_reduce() { V v{ 1, 2, 4 }; return std::to_string(std::reduce(v.begin(), v.end())) + std::to_string(std::reduce(v.begin(), v.end(), 10)) + std::to_string(std::accumulate(v.begin(), v.end(), 1, std::multiplies<int>())); }
std::string t_treduce() { V v{ 1, 2, 4 }, w{ 2, 2, 2 }; return std::to_string(std::transform_reduce(v.begin(), v.end(), 0, std::plus<>(), [](int x) { return x * x; })) + std::to_string(std::inner_product(v.begin(), v.end(), w.begin(), 1)); }
std::string t_psum() { V v{ 1, 2, 4 }, o, d; std::partial_sum(v.begin(), v.end(), std::back_inserter(o)); std::adjacent_difference(v.begin(), v.end(), std::back_inserter(d)); return show(o) + show(d); }
std::string t_rotate() { V v{ 1, 2, 3, 4 }; auto it = std::rotate(v.begin(), v.begin() + 1, v.end()); return show(v) + std::to_string(*it); }
std::string t_partition() { V v{ 1, 2, 3, 4 }; auto it = std::stable_partition(v.begin(), v.end(), [](int x) { return x % 2 == 0; }); return show(v) + std::to_string(it - v.begin()); }
std::string t_remove() { V v{ 1, 2, 1, 4 }; v.erase(std::remove(v.begin(), v.end(), 1), v.end()); V w{ 1, 2, 1, 4 }; w.erase(std::remove_if(w.begin(), w.end(), [](int x) { return x > 1; }), w.end()); V u{ 1, 2, 3 }; std::erase_if(u, [](int x) { return x == 2; }); return show(v) + show(w) + show(u); }
std::string t_unique() { V v{ 1, 1, 2, 2, 1 }; v.erase(std::unique(v.begin(), v.end()), v.end()); V w{ 1, 3, 2 }; w.erase(std::unique(w.begin(), w.end(), [](int a, int c) { return a % 2 == c % 2; }), w.end()); return show(v) + show(w); }
std::string t_replace() { V v{ 1, 2, 1 }; std::replace(v.begin(), v.end(), 1, 9); std::replace_if(v.begin(), v.end(), [](int x) { return x == 2; }, 7); V o; std::replace_copy(v.begin(), v.end(), std::back_inserter(o), 9, 8); return show(v) + show(o); }
std::string t_copies() { V v{ 1, 2, 3 }, o, p(5, 0), q; std::reverse_copy(v.begin(), v.end(), std::back_inserter(o)); std::copy_n(v.begin(), 2, p.begin()); std::copy_backward(v.begin(), v.end(), p.end()); std::fill_n(std::back_inserter(q), 3, 6); int k = 0; std::generate_n(std::back_inserter(q), 2, [&k] { return ++k; }); return show(o) + show(p) + show(q); }
std::string t_generate() { V v(3); int n = 5; std::generate(v.begin(), v.end(), [&n]() { return n--; }); std::for_each_n(v.begin(), 2, [](int& x) { x *= 10; }); return show(v); }
std::string t_iota() { V v(4); std::iota(v.begin(), v.end(), 3); std::reverse(v.begin(), v.end()); std::swap_ranges(v.begin(), v.begin() + 2, v.begin() + 2); return show(v); }
std::string t_sort() { V v{ 3, 1, 2 }; std::sort(v.begin(), v.end(), std::greater<>()); std::vector<std::pair<int, std::string>> w{ { 2, "b" }, { 1, "c" }, { 2, "a" } }; std::stable_sort(w.begin(), w.end(), [](const auto& a, const auto& c) { return a.first < c.first; }); std::string s = show(v); for (const auto& [k, x] : w) s += x; std::ranges::sort(v); s += show(v); std::ranges::sort(w, {}, &std::pair<int, std::string>::second); for (auto& x : w) s += x.second; return s; }
std::string t_any() { V v{ 3, 1, 2 }; return b(std::any_of(v.begin(), v.end(), [](int x) { return x > 2; })) + b(std::ranges::all_of(v, [](int x) { return x > 2; })) + b(ranges::none_of(v, [](int x) { return x > 5; })) + std::to_string(std::ranges::count(v, 1)) + std::to_string(ranges::count_if(v, [](int x) { return x < 3; })); }
std::string t_maps() { std::map<std::string, int> m{ { "b", 1 }, { "a", 2 } }; std::string s; for (const auto& [k, x] : m) s += k + std::to_string(x); m.try_emplace("c", 3); m.insert_or_assign("a", 5); auto it = m.lower_bound("b"); s += it->first; s += std::to_string(m.at("a")); s += b(m.contains("c")) + b(m.count("z")); m.erase("b"); for (auto& [k, x] : m) s += k + std::to_string(x); auto [i2, ins] = m.emplace("a", 1); s += b(ins) + i2->first; return s; }
std::string t_set() { std::set<int> st{ 3, 1, 2, 1 }; std::string s = show(st); s += b(st.insert(2).second) + b(st.insert(7).second); s += std::to_string(*st.rbegin()) + std::to_string(*st.begin()); st.erase(1); s += std::to_string(st.size()); return s; }
std::string t_views() { V v{ 1, 2, 3, 4, 5 }; std::string s; for (int x : v | std::views::take(3) | std::views::drop(1)) s += std::to_string(x); s += '|'; for (int x : v | std::views::reverse) s += std::to_string(x); s += '|'; for (int x : v | std::views::filter([](int y) { return y % 2; }) | std::views::transform([](int y) { return y * y; })) s += std::to_string(x); s += '|'; for (int x : std::views::iota(2, 5)) s += std::to_string(x); for (int x : std::ranges::reverse_view(v)) s += std::to_string(x); for (auto x : std::views::iota(0) | std::views::take(3)) s += std::to_string(x); return s; }
std::string t_views2() { std::map<std::string, int> m{ { "b", 1 }, { "a", 2 } }; std::string s; for (const auto& k : m | std::views::keys) s += k; for (auto x : m | std::views::values) s += std::to_string(x); std::vector<std::string> w{ "ab", "c" }; for (char c : w | std::views::join) { s += c; s += '.'; } V v{ 1, 2, 7, 1 }; for (int x : v | std::views::take_while([](int y) { return y < 5; })) s += std::to_string(x); for (int x : v | std::views::drop_while([](int y) { return y < 5; })) s += std::to_string(x); return s; }
std::string t_rv3() { V v{ 1, 2, 3, 4 }, w{ 5, 6 }; std::string s; for (auto&& [x, y] : ranges::views::zip(v, w)) s += std::to_string(x * y) + ","; for (const auto& [i, x] : ranges::views::enumerate(w)) s += std::to_string(i) + ":" + std::to_string(x) + ","; for (int x : ranges::views::concat(v, w)) s += std::to_string(x); auto o = v | ranges::views::drop(1) | ranges::views::transform([](int x) { return x + 1; }) | ranges::to<std::vector>(); s += show(o); auto u = ranges::to<std::vector<int>>(v | ranges::views::reverse | ranges::views::take(2)); s += show(u); for (auto i : ranges::views::iota(0, 3)) s += std::to_string(i); s += std::to_string(ranges::accumulate(v, 0)); s += b(ranges::equal(v, w)); return s; }
std::string t_rv3b() { V v{ 1, 2, 3, 4 }; std::string s; for (auto x : v | ranges::views::filter([](int y) { return y > 2; })) s += std::to_string(x); s += std::to_string(ranges::distance(v)); s += std::to_string(*ranges::max_element(v)); auto it = ranges::find_if(v, [](int y) { return y > 2; }); s += std::to_string(*it); s += b(ranges::any_of(v, [](int y) { return y > 3; })) + b(ranges::contains(v, 3)); ranges::reverse(v); s += show(v); ranges::sort(v); s += show(v); return s; }
std::string t_strto() { char* end = nullptr; const char* p = "12ab"; long x = std::strtol(p, &end, 10); std::string s = std::to_string(x) + end; s += std::to_string(std::strtol("0x1f", nullptr, 0)) + std::to_string(std::strtol("017", nullptr, 0)) + std::to_string(std::strtoll("zz", nullptr, 36)); s += std::to_string(std::atoi(" -42")); return s; }
std::string t_stoi() { std::size_t n = 0; std::string s = std::to_string(std::stoi("010", nullptr, 0)); s += std::to_string(std::stoi("0x10", &n, 0)); s += std::to_string(n) + std::to_string(std::stoll("10", nullptr, 0)); s += std::to_string(std::stoi("08x", &n, 10)); s += std::to_string(n) + std::to_string(std::stoi("0", nullptr, 0)); try { (void)std::stoi("x"); } catch (const std::invalid_argument&) { s += "inv"; } try { (void)std::stoi("99999999999"); } catch (const std::out_of_range&) { s += "oor"; } return s; }
std::string t_str() { std::string s = "hello world"; std::string r = s.substr(2, 3) + std::to_string(s.find("o")) + std::to_string(s.rfind('o')) + std::to_string(s.find_first_of("wr")) + std::to_string(s.find_last_not_of("dl")) + std::to_string(s.find("z") == std::string::npos); s.replace(0, 5, "HEY"); r += s; s.insert(3, "!"); s.erase(0, 1); s.pop_back(); s.push_back('X'); s.append(2, 'y').append("zz", 1); r += s + b(s.starts_with("EY")) + b(s.ends_with("yz")) + std::to_string(s.compare("EZ") < 0); r += s.front(); r += s.back(); r += s.at(1); return r + std::to_string(s.size()); }
std::string t_sv() { std::string_view v = "abc,def"; auto p = v.find(','); std::string_view a = v.substr(0, p); v.remove_prefix(p + 1); v.remove_suffix(1); return std::string(a) + "/" + std::string(v) + b(a == "abc") + std::to_string(v.size()) + std::string{ v.begin(), v.end() }; }
std::string t_fmt() { return fmt::format("{} {:>4} {:<4}| {:04} {:x} {:#X} {:.3f} {:e} {} {{}} {:?}", 1, 2, 3, 4, 255, 255, 1.5, 12.0, true, "q\"\n") + fmt::format("{1}{0}", "a", 'b') + fmt::format("{:.{}f}|{:^7}|{:*<5}", 3.14159, 2, "mid", "ab"); }
std::string t_join() { V v{ 1, 2, 3 }; return fmt::format("[{}]", fmt::join(v, ", ")) + fmt::format("{}", fmt::join(v.begin(), v.begin() + 2, "-")); }
std::string t_oss() { std::ostringstream o; o << "a" << 1 << ' ' << 2.5 << true << std::string("x") << 'c'; return o.str(); }
std::string t_iss() { std::istringstream i("one two\nthree"); std::string a, c, l; i >> a >> c; std::getline(i, l); std::getline(i, l); return a + "," + c + "," + l; }
std::string t_getline() { std::istringstream i("1.2.3"); std::string p, s; while (std::getline(i, p, '.')) s += p + ";"; return s; }
std::string t_regex() { std::regex r("(\\d+)\\.(\\d+)"); std::smatch m; std::string s = "v12.34x"; bool k = std::regex_search(s, m, r); return b(k) + m[1].str() + m[2].str() + b(std::regex_match(s, r)) + std::regex_replace(s, std::regex("[0-9]"), "#") + m.prefix().str() + m.suffix().str(); }
std::string t_opt() { std::optional<int> o, p = 3; std::string s = b(o.has_value()) + b(p > 2) + std::to_string(o.value_or(7)) + std::to_string(*p) + b(o < p) + b(p == 3) + b(o == std::nullopt); o = 4; s += std::to_string(*o); o.reset(); s += b(bool(o)); p.emplace(8); return s + std::to_string(p.value()); }
std::string t_tuple() { auto t = std::make_tuple(1, std::string("x"), 2.5); auto& [a, c, d] = t; a += 4; int x; std::string y; std::tie(x, y, std::ignore) = t; return std::to_string(x) + y + std::to_string(std::get<0>(t)) + b(std::tie(a, c) < std::tie(x, y)) + b(std::make_pair(1, 2) < std::make_pair(1, 3)); }
std::string t_cmp() { return b(std::cmp_less(-1, 1u)) + b(std::cmp_equal(-1, 4294967295u)) + b(std::in_range<std::int8_t>(200)) + std::to_string(std::clamp(7, 1, 5)) + std::to_string(std::max({ 1, 4, 2 })) + std::to_string(std::gcd(12, 18)); }
std::string t_int() { int x = -7; unsigned u = 3; std::uint8_t c = 250; c += 10; long l = x; return std::to_string(x / 2) + std::to_string(x % 3) + std::to_string(x >> 1) + std::to_string(u << 3) + std::to_string(c) + std::to_string(u - 4) + std::to_string(static_cast<std::int8_t>(200)) + std::to_string(l * 3) + std::to_string(~x) + std::to_string(x & 5) + std::to_string(6 ^ 3); }
std::string t_ctl() { std::string s; for (int i = 0; i < 6; ++i) { if (i == 1) continue; if (i == 4) break; switch (i) { case 0: s += "z"; [[fallthrough]]; case 2: s += "t"; break; default: s += "d"; } } int k = 3; do { s += std::to_string(k); } while (--k); while (k < 2) { ++k; s += k == 1 ? "a" : "b"; } return s; }
std::string t_exc() { std::string s; try { try { throw std::out_of_range("oo"); } catch (const std::invalid_argument&) { s += "no"; } } catch (const std::logic_error& e) { s += e.what(); } try { std::vector<int> v; (void)v.at(1); } catch (const std::out_of_range&) { s += "at"; } try { throw 3; } catch (...) { s += "any"; } return s; }
std::string t_fn() { std::function<int(int)> f = [](int x) { return x + 1; }; std::function<int(int)> g; auto h = std::bind(std::plus<int>(), 3, std::placeholders::_1); std::string s = std::to_string(h(4)) + std::to_string(f(2)) + b(bool(g)); std::map<std::string, std::function<int(int, int)>> ops{ { "+", std::plus<int>() }, { "-", [](int a, int c) { return a - c; } } }; return s + std::to_string(ops.at("+")(2, 3)) + std::to_string(ops["-"](2, 3)) + std::to_string(std::invoke(f, 9)); }
std::string t_transform() { V v{ 1, 2, 3 }, o(3), w{ 4, 5, 6 }; std::transform(v.begin(), v.end(), w.begin(), o.begin(), std::plus<>()); std::string t = "AbC"; std::transform(t.begin(), t.end(), t.begin(), [](unsigned char c) { return static_cast<char>(std::tolower(c)); }); std::ranges::transform(v, v.begin(), [](int x) { return -x; }); return show(o) + t + show(v); }
std::string t_vec() { V v{ 1, 2, 3 }; v.insert(v.begin() + 1, 9); v.insert(v.end(), { 7, 8 }); v.erase(v.begin()); v.emplace_back(4); v.resize(8, 5); v.pop_back(); V w; w.assign(2, 3); w.swap(v); v.insert(v.end(), w.rbegin(), w.rend()); std::array<int, 3> a{ 1, 2, 3 }; return show(v) + show(w) + std::to_string(a[1] + a.size()) + std::to_string(w.front() + w.back()); }
std::string t_split() { std::string s = "a,b,,c", o; for (auto part : s | std::views::split(',')) { o += std::string(part.begin(), part.end()) + ";"; } for (auto part : s | ranges::views::split(',')) o += ranges::to<std::string>(part) + "/"; return o; }
std::string t_rfind() { V v{ 1, 2, 3, 2 }; auto it = std::find(v.rbegin(), v.rend(), 2); auto f = it.base() - v.begin(); auto n = std::next(v.begin(), 2); return std::to_string(f) + std::to_string(*n) + std::to_string(*std::prev(v.end())) + std::to_string(std::distance(v.begin(), n)); }
std::string t_umap() { std::unordered_map<std::string, int> m; m["x"] = 3; ++m["y"]; m.erase("x"); return std::to_string(m.size()) + std::to_string(m.at("y")) + b(m.find("x") == m.end()); }
std::string t_dbl() { return fmt::format("{} {} {} {} {}", 1e20, 0.1, 1.0, 1e-7, 123456789.0) + std::to_string(1.5) + fmt::format("{}", static_cast<int>(-2.9)) + fmt::format("{:.2f}", 2.675) + b(std::isnan(0.0 / 1.0)) + fmt::format("{}", std::floor(-1.5)); }
std::string t_char() { std::string s; for (char c = 'a'; c <= 'e'; ++c) s += static_cast<char>(c ^ 0x20); s += 'a' + 1; return s + std::to_string('a') + b(std::isdigit('5') != 0) + b(std::isalpha('5') != 0) + std::string(1, static_cast<char>(std::toupper('q'))) + std::string(3, '-'); }
std::string t_ost() { V v{ 1, 2 }; std::ostringstream o; std::copy(v.begin(), v.end(), std::ostream_iterator<int>(o, ",")); return o.str(); }
std::string t_append() { fmt::memory_buffer buf; fmt::format_to(std::back_inserter(buf), "{}-{}", 1, 2); std::string s; fmt::format_to(std::back_inserter(s), "<{}>", "k"); return fmt::to_string(buf) + s; }
std::string t_starts() { V v{ 1, 2, 3 }, w{ 1, 2 }; return b(ranges::starts_with(v, w)) + b(std::equal(w.begin(), w.end(), v.begin())) + b(std::ranges::equal(v, w)); }
std::string t_ptr() { auto p = std::make_shared<int>(3); auto q = p; *q += 2; std::unique_ptr<std::string> u = std::make_unique<std::string>("u"); auto r = std::move(u); return std::to_string(*p) + b(p == q) + b(u == nullptr) + *r + b(p.get() == q.get()); }
std::string t_variadic() { auto f = [](auto... xs) { return (xs + ... + 0); }; auto g = [](const auto&... xs) { std::string s; ((s += xs), ...); return s; }; return std::to_string(f(1, 2, 3)) + g("a", "b"); }
std::string t_adj() { V v{ 1, 2, 2 }; return std::to_string(std::adjacent_find(v.begin(), v.end()) - v.begin()) + b(std::adjacent_find(v.begin(), v.end(), std::greater<>()) == v.end()); }
std::string t_next() { std::string s = "abc"; std::next_permutation(s.begin(), s.end()); return s; }
std::string t_exch() { int x = 3; int y = std::exchange(x, 5); std::swap(x, y); return std::to_string(x) + std::to_string(y); }
std::string t_mapalg() { std::map<int, int> m{ { 1, 2 }, { 3, 4 } }; int t = 0; std::for_each(m.cbegin(), m.cend(), [&t](const auto& kv) { t += kv.first * kv.second; }); auto it = std::find_if(m.begin(), m.end(), [](const auto& kv) { return kv.second == 4; }); V ks; std::transform(m.begin(), m.end(), std::back_inserter(ks), [](const auto& p) { return p.first; }); return std::to_string(t) + std::to_string(it->first) + show(ks); }
std::string t_fromto() { int v = 0; std::string s = "42x"; auto [p, ec] = std::from_chars(s.data(), s.data() + s.size(), v); char buf[16]; auto r = std::to_chars(buf, buf + 16, 255, 16); return std::to_string(v) + std::to_string(p - s.data()) + b(ec == std::errc()) + std::string(buf, r.ptr); }
std::string t_ptrloop() { const char* p = "abc"; std::string s; for (const char* q = p; *q != '\0'; ++q) s += *q; int a[3] = { 1, 2, 3 }; int t = 0; for (int* q = a; q != a + 3; ++q) t += *q; return s + std::to_string(t) + std::to_string(std::size(a)); }
std::string t_goto() { int i = 0; std::string s; for (auto it = s.begin(); it != s.end(); ++it) { ++i; } for (size_t k = 3; k-- > 0;) s += std::to_string(k); return s; }
std::string t_sviter() { std::string s = "a\tb"; std::string o; for (auto it = s.cbegin(); it != s.cend(); ++it) { if (*it == '\t') o += "\\t"; else o += *it; } for (size_t i = 0; i < s.length(); i++) o += s[i] == 'a' ? 'A' : '_'; return o; }
std::string t_visit() { struct P { int x; std::string y; bool operator==(const P&) const = default; auto operator<=>(const P&) const = default; }; P a{ 1, "q" }, c{ .x = 1, .y = "r" }; return b(a == c) + b(a < c) + std::to_string(a.x); }
}
