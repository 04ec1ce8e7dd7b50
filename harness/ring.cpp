// CircularBuffer against a model deque (common/circular_buffer.h)
#include <array>
#include <type_traits>
#include <new>
#include <utility>
#include "sym.h"
#include "common/circular_buffer.h"
using namespace mc;

// an element that owns memory: destroying it twice, or the wrong slot, or
// assigning to raw memory is a memory error
struct Elem
{
    static int live;
    int* p;
    explicit Elem(int v) : p(new int(v)) { ++live; }
    Elem(const Elem& o) : p(new int(*o.p)) { ++live; }
    Elem& operator=(const Elem& o)
    {
        *p = *o.p;
        return *this;
    }
    ~Elem()
    {
        --live;
        delete p;
        p = nullptr;
    }
};
int Elem::live = 0;

static constexpr int N = 5;
using Buf = CircularBuffer<Elem, N>;

struct Model
{
    int v[64];
    int lo = 32, hi = 32;
    int size() const { return hi - lo; }
};

static void step(Buf& b, Model& m, int op, int val)
{
    const Elem e(val);
    switch (op)
    {
    case 0:
    case 1:
        if (op)
            b.push_back(e);
        else
            b.emplace_back(val);
        if (m.size() == N - 1) m.lo++;
        m.v[m.hi++] = val;
        break;
    case 2:
    case 3:
        if (op == 3)
            b.push_front(e);
        else
            b.emplace_front(val);
        if (m.size() == N - 1) m.hi--;
        m.v[--m.lo] = val;
        break;
    case 4:
        if (m.size())
        {
            b.pop_front();
            m.lo++;
        }
        break;
    case 5:
        if (m.size())
        {
            b.pop_back();
            m.hi--;
        }
        break;
    case 6:
        b.clear();
        m.lo = m.hi;
        break;
    default:
        break;
    }
}

static void compare(Buf& b, const Model& m)
{
    const Buf& c = b;
    const int n = m.size();
    sym_assert((int)b.size() == n, "size");
    sym_assert(b.empty() == (n == 0), "empty");
    sym_assert(b.full() == (n == N - 1), "full");
    sym_assert((int)b.capacity() == N - 1 && (int)b.max_size() == N - 1, "capacity");
    bool ok = true, okc = true;
    for (int i = 0; i < n; ++i)
    {
        ok = ok & (*b[i].p == m.v[m.lo + i]) & (*b.at(i).p == m.v[m.lo + i]);
        okc = okc & (*c[i].p == m.v[m.lo + i]) & (*c.at(i).p == m.v[m.lo + i]);
    }
    sym_assert(ok, "operator[] yields the elements in order");
    sym_assert(okc, "const operator[] yields the elements in order");
    if (n)
    {
        sym_assert(*b.front().p == m.v[m.lo] && *c.front().p == m.v[m.lo], "front");
        sym_assert(*b.back().p == m.v[m.hi - 1] && *c.back().p == m.v[m.hi - 1], "back");
    }
    ok = true;
    int k = 0;
    for (auto it = b.begin(); it != b.end(); ++it, ++k)
    {
        if (k >= n) { ok = false; break; }
        ok = ok & (*it->p == m.v[m.lo + k]) & ((int)it.idx() == k);
    }
    sym_assert(ok && k == n, "forward iteration visits every element once in order");
    ok = true;
    k = n;
    for (auto it = c.end(); it != c.begin();)
    {
        --it;
        if (--k < 0) { ok = false; break; }
        ok = ok & (*it->p == m.v[m.lo + k]);
    }
    sym_assert(ok && k == 0, "backward iteration visits every element once in reverse order");
}

// every fill level at every offset, then three arbitrary operations
static void reach(Buf& b, Model& m)
{
    const int off = sym_choice("offset", 0, N - 1), n = sym_choice("fill", 0, N - 1);
    const int base = sym_i32("base");
    for (int i = 0; i < off; ++i)
    {
        b.emplace_back(base);
        b.pop_front();
    }
    for (int i = 0; i < n; ++i)
    {
        const int v = (int)((unsigned)base + 17u * i);
        b.emplace_back(v);
        m.v[m.hi++] = v;
    }
}
extern "C" void h_ops()
{
    Elem::live = 0;
    const int x = sym_i32("x"), y = sym_i32("y"), z = sym_i32("z");
    {
        Buf b;
        Model m;
        reach(b, m);
        step(b, m, sym_choice("op1", 0, 6), x);
        step(b, m, sym_choice("op2", 0, 7), y);
        step(b, m, sym_choice("op3", 0, 6), z);
        compare(b, m);
        sym_assert(Elem::live == m.size(), "exactly the stored elements are alive");
    }
    sym_assert(Elem::live == 0, "the destructor destroys every stored element");
    sym_reach("end");
}
extern "C" void h_iter()
{
    Elem::live = 0;
    Buf b;
    Model m;
    reach(b, m);
    const Buf& c = b;
    const int n = m.size();
    const int i = sym_choice("i", 0, N - 1), j = sym_choice("j", 0, N - 1);
    sym_assume(i <= n && j <= n);
    auto a = b.begin() + i;
    auto e = b.end() - (n - j);
    auto ca = c.begin() + i;
    auto ce = c.end() - (n - j);
    sym_assert(ca - ce == i - j && ce - ca == j - i, "difference of iterators");
    sym_assert(a - e == i - j, "difference of iterators");
    sym_assert((int)a.idx() == i && (int)e.idx() == j && (int)ca.idx() == i && (int)ce.idx() == j, "idx");
    sym_assert((a == e) == (i == j) && (a != e) == (i != j), "== and !=");
    sym_assert((ca < ce) == (i < j) && (ca > ce) == (i > j), "< and >");
    sym_assert((ca <= ce) == (i <= j) && (ca >= ce) == (i >= j), "<= and >=");
    if (i < n) sym_assert(*a->p == m.v[m.lo + i] && *(*ca).p == m.v[m.lo + i], "dereference");
    if (j < n) sym_assert(*e->p == m.v[m.lo + j] && *(*ce).p == m.v[m.lo + j], "dereference");
    auto f = b.begin();
    f += i;
    sym_assert(f == a, "+=");
    f = b.end();
    f -= n - i;
    sym_assert(f == a, "-=");
    auto f2 = c.begin() + j;
    f2 -= j;
    sym_assert(f2 == c.begin(), "-= inverts +");
    if (i < n)
    {
        auto g = c.begin() + i;
        auto h = g++;
        sym_assert((int)h.idx() == i && (int)g.idx() == i + 1, "post-increment");
        h = g--;
        sym_assert((int)h.idx() == i + 1 && (int)g.idx() == i, "post-decrement");
        *(b.begin() + i)->p = 4242;
        sym_assert(*b[i].p == 4242, "writes through an iterator");
    }
    sym_reach("end");
}
// longer histories of back/front pushes and pops with symbolic data
extern "C" void h_history()
{
    Elem::live = 0;
    int d[7];
    for (int i = 0; i < 7; ++i) d[i] = sym_i32("d");
    {
        CircularBuffer<Elem, 3> b;
        int v[32], lo = 16, hi = 16;
        for (int i = 0; i < 7; ++i)
        {
            const int op = sym_choice("op", 0, 3);
            if (op == 0)
            {
                b.emplace_back(d[i]);
                if (hi - lo == 2) lo++;
                v[hi++] = d[i];
            }
            else if (op == 1)
            {
                b.push_front(Elem(d[i]));
                if (hi - lo == 2) hi--;
                v[--lo] = d[i];
            }
            else if (op == 2 && hi > lo)
            {
                b.pop_front();
                lo++;
            }
            else if (op == 3 && hi > lo)
            {
                b.pop_back();
                hi--;
            }
            sym_assert((int)b.size() == hi - lo, "size after every operation");
            bool ok = true;
            int k = 0;
            for (auto& e : b) ok = ok & (k < hi - lo) & (*e.p == v[lo + k]), ++k;
            sym_assert(ok && k == hi - lo, "contents after every operation");
            sym_assert(Elem::live == hi - lo, "live elements after every operation");
        }
    }
    sym_assert(Elem::live == 0, "the destructor destroys every stored element");
    sym_reach("end");
}
