// C31: a collection owns what it is given, until it is cleared, freed or
// released, and frees it exactly once.
// Oracle: a list of identifiers and the set of objects that are alive.
#include <memory>
#include <set>

#include "pbt.hpp"
#include "utils.hpp"

namespace {
std::multiset<int> alive;
struct Base {
    int id;
    explicit Base(int i) : id(i) { alive.insert(i); }
    Base(const Base&) = delete;
    Base& operator=(const Base&) = delete;
    virtual ~Base() {
        auto p = alive.find(id);
        if (p != alive.end()) alive.erase(p);
        else alive.insert(-1 - id);
    }
};
struct Derived : Base {
    std::vector<int> more;
    explicit Derived(int i) : Base(i), more(10, i) {}
};
}  // namespace

SECTION(history, 40000, 700000, "1-25 operations, sometimes up to 300: objects (also of derived types) added, looked up, freed, released or all cleared, then the collection destroyed; non-trivial: at least three objects, one of them freed or released") {
    alive.clear();
    int made = 0, removed = 0;
    std::vector<std::unique_ptr<Base>> mine;  // released to us
    {
        Collection<Base> c;
        std::vector<int> ids;
        std::vector<Base*> ptrs;
        bool known = true;  // what the positions are after a release is not defined
        const int ops = static_cast<int>(s.chance(1, 40) ? s.i(26, 300) : s.i(1, 25));
        const pbt::Swarm swarm(s, 0, 9);
        for (int k = 0; k < ops; ++k) {
            const int n = static_cast<int>(ids.size());
            switch (swarm(s)) {
                case 5: {
                    if (!n || !known) break;
                    const int at = static_cast<int>(s.i(0, n - 1));
                    s.note() << " free " << at;
                    c.free_object(at);
                    ids.erase(ids.begin() + at);
                    ptrs.erase(ptrs.begin() + at);
                    ++removed;
                    break;
                }
                case 6: {
                    if (!n || !known) break;
                    const int at = static_cast<int>(s.i(0, n - 1));
                    s.note() << " release " << at;
                    Base* p = c.release_object(at);
                    REQUIRE(p == ptrs[static_cast<size_t>(at)] && p->id == ids[static_cast<size_t>(at)], "released another object than the one at " << at);
                    mine.emplace_back(p);
                    known = false;
                    ++removed;
                    break;
                }
                case 7:
                    if (!s.chance(1, 3)) break;
                    s.note() << " clear";
                    c.clear();
                    ids.clear();
                    ptrs.clear();
                    known = true;
                    break;
                default: {
                    s.note() << " add";
                    std::unique_ptr<Base> p;
                    if (s.b()) p = std::make_unique<Base>(made);
                    else p = std::make_unique<Derived>(made);
                    ids.push_back(made++);
                    ptrs.push_back(p.get());
                    c.add_object(p);
                    REQUIRE(p == nullptr, "the pointer of an added object is still set");
                }
            }
            if (known) {
                REQUIRE(c.num_objects() == static_cast<int>(ids.size()), c.num_objects() << " objects, expected " << ids.size());
                for (size_t i = 0; i < ids.size(); ++i) {
                    Base* p = c.get_object(static_cast<int>(i));
                    REQUIRE(p == ptrs[i] && p->id == ids[i], "object " << i << " is not the one that was added");
                }
            }
            std::multiset<int> want(ids.begin(), ids.end());
            for (auto& m : mine) want.insert(m->id);
            REQUIRE(known ? alive == want : alive.size() <= want.size() + 0, alive.size() << " objects are alive, expected " << want.size());
        }
    }
    std::multiset<int> want;
    for (auto& m : mine) want.insert(m->id);
    REQUIRE(alive == want, alive.size() << " objects are alive after the collection is gone, expected " << want.size());
    mine.clear();
    REQUIRE(alive.empty(), alive.size() << " objects are left");
    s.nontrivial(made > 2 && removed > 0);
}

SECTION(many, 150, 2000, "hundreds of objects, sometimes up to 70000, some of them looked up, freed and added again, then all cleared or left to the destructor; non-trivial: more than a thousand objects") {
    alive.clear();
    const int n = static_cast<int>(s.chance(1, 8) ? s.i(20000, 70000) : s.chance(1, 4) ? s.i(1000, 10000) : s.i(50, 1000));
    s.note() << n << " objects";
    s.nontrivial(n > 1000);
    {
        Collection<Base> c;
        std::vector<int> ids;
        std::vector<Base*> ptrs;
        int made = 0;
        auto add = [&] {
            std::unique_ptr<Base> p;
            if (made % 3) p = std::make_unique<Base>(made);
            else p = std::make_unique<Derived>(made);
            ids.push_back(made++);
            ptrs.push_back(p.get());
            c.add_object(p);
        };
        auto check = [&] {
            REQUIRE(c.num_objects() == static_cast<int>(ids.size()), c.num_objects() << " objects, expected " << ids.size());
            for (size_t i = 0; i < ids.size(); ++i) {
                Base* p = c.get_object(static_cast<int>(i));
                REQUIRE(p == ptrs[i] && p->id == ids[i], "object " << i << " is not the one that was added");
            }
            REQUIRE(alive.size() == ids.size(), alive.size() << " objects are alive, expected " << ids.size());
        };
        for (int i = 0; i < n; ++i) add();
        check();
        for (int k = static_cast<int>(s.i(0, 20)); k > 0; --k) {
            const int at = static_cast<int>(s.i(0, static_cast<int64_t>(ids.size()) - 1));
            s.note() << " free " << at;
            c.free_object(at);
            ids.erase(ids.begin() + at);
            ptrs.erase(ptrs.begin() + at);
        }
        check();
        for (int64_t k = s.i(0, 20); k > 0; --k) add();
        check();
        if (s.b()) {
            s.note() << " clear";
            c.clear();
            REQUIRE(c.num_objects() == 0 && alive.empty(), alive.size() << " objects are alive after a clear, " << c.num_objects() << " in the collection");
            if (s.b()) {
                ids.clear();
                ptrs.clear();
                for (int64_t k = s.i(1, 500); k > 0; --k) add();
                check();
            }
        }
    }
    REQUIRE(alive.empty(), alive.size() << " objects are alive after the collection is gone");
}

PBT_MAIN
