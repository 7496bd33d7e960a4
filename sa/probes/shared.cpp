// One instance of everything the rules of P26 forbid: each run of the check must find all of them here.
#include <cstdlib>
#include <ctime>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

namespace probe_shared {

struct Table {
    std::map<std::string, int> entries;
    int lookups = 0;
    static Table& get() {
        static Table table;  // shared
        return table;
    }
    int find(const std::string& name) {
        ++lookups;             // bad: member of a shared object written
        return entries[name];  // bad: inserts
    }
};

int counter = 0;
thread_local std::string last;

int count() {
    return ++counter;  // bad: global written
}

const std::string& remember(const std::string& s) {
    last = s;  // bad: global assigned
    return last;
}

int cached(int x) {
    static std::map<int, int> cache;
    auto it = cache.find(x);
    if (it == cache.end()) {
        it = cache.emplace(x, x * x).first;  // bad: modified
    }
    return it->second;
}

bool first(int limit, int x) {
    static const int bound = limit;  // bad: initialised by whichever call comes first
    return x < bound;
}

void alter(std::vector<int>& v);
std::vector<int> pool;
void borrow() {
    alter(pool);  // bad: passed to be modified
}

std::vector<std::string> names(const std::unordered_map<std::string, int>& table) {
    std::vector<std::string> ret;
    for (const auto& [k, v] : table) {  // bad: unspecified order
        ret.push_back(k);
    }
    return ret;
}

int smallest(const std::set<int*>& s) {  // bad: ordered by address
    int n = 0;
    for (auto* p : s) {
        n = n * 2 + *p;
    }
    return n;
}

long environment() {
    std::random_device d;                                                       // bad
    return std::rand() + std::time(nullptr) + (std::getenv("X") != nullptr) + d();  // bad
}

void alpha(bool b) {
    std::cout << b << std::boolalpha << "\n";  // bad: the next one to write finds it so
}

void digits(double x) {
    std::cerr << std::setprecision(3) << x;  // bad
}

void quiet() {
    std::cerr.setf(std::ios::hex);  // bad
}

void force(const std::string& s) {
    const_cast<std::string&>(s).clear();  // bad
}

std::map<int, int>& store() {
    static std::map<int, int> held;
    return held;
}
void through_reference(int k) {
    auto& t = pool;
    t.push_back(k);  // bad: an alias of a global
}
void through_handle(int k) {
    store().emplace(k, k);  // bad: the function hands out a static
}
void through_iterator(int k) {
    auto it = store().find(k);
    it->second = k;  // bad: an element of a static
}
void through_loop() {
    for (auto& [k, v] : store()) {
        v = k;  // bad: as above
    }
}
void through_pointer(int k) {
    auto* p = &pool;
    p->push_back(k);  // bad: a pointer to a global
}
struct Held {
    int hits = 0;
    void hit() { ++hits; }  // bad: an object of this class is held by a static
};
void hit() {
    static const auto it = std::make_unique<Held>();
    it->hit();
}
int unrelated(std::map<int, int> own, int k) {
    auto& t = own;
    t.emplace(k, k);
    const auto& c = store();
    return static_cast<int>(c.size() + t.size());
}

}  // namespace probe_shared
