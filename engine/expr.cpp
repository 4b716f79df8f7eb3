#include "expr.h"
#include <cmath>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <algorithm>

bool realMode = true;
z3::context* zctx = nullptr;

uint64_t maskW(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
int64_t signedOf(uint64_t v, unsigned w)
{
    if (w >= 64) return (int64_t)v;
    uint64_t m = 1ull << (w - 1);
    v &= maskW(w);
    return (int64_t)((v ^ m) - m);
}

namespace
{
struct Key
{
    Kind k; Sort s; uint16_t w; uint8_t fn; uint64_t c; const FConst* f; E a[3]; const std::string* n;
    bool operator==(const Key& o) const
    {
        return k == o.k && s == o.s && w == o.w && fn == o.fn && c == o.c && f == o.f && a[0] == o.a[0] && a[1] == o.a[1] && a[2] == o.a[2] && n == o.n;
    }
};
struct KeyHash
{
    size_t operator()(const Key& x) const
    {
        uint64_t h = x.k * 1000003ull + x.s * 31 + x.w * 7919 + x.fn * 131;
        auto mix = [&](uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); };
        mix(x.c); mix((uint64_t)x.f); mix((uint64_t)x.a[0]); mix((uint64_t)x.a[1]); mix((uint64_t)x.a[2]); mix((uint64_t)x.n);
        return h;
    }
};
std::unordered_map<Key, E, KeyHash> table;
std::set<std::string> names;
const std::string* intern(const std::string& s) { return &*names.insert(s).first; }
uint32_t nextId = 1;

struct FCmpLess
{
    bool operator()(const std::pair<FConst, int>& a, const std::pair<FConst, int>& b) const
    {
        if (a.second != b.second) return a.second < b.second;
        if (a.first.special != b.first.special) return a.first.special < b.first.special;
        if (a.first.special) return false;
        if (realMode) return a.first.q < b.first.q;
        uint64_t x, y;
        memcpy(&x, &a.first.d, 8); memcpy(&y, &b.first.d, 8);
        return x < y;
    }
};
std::set<std::pair<FConst, int>, FCmpLess> fconsts;

E get(Kind k, Sort s, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint64_t cv = 0, const FConst* f = nullptr, const std::string* n = nullptr, uint8_t fn = 0)
{
    Key key{k, s, (uint16_t)w, fn, cv, f, {a, b, c}, n};
    auto it = table.find(key);
    if (it != table.end()) return it->second;
    Expr* e = new Expr();
    e->k = k; e->s = s; e->w = w; e->c = cv; e->f = f; e->name = n; e->fn = fn;
    e->a[0] = a; e->a[1] = b; e->a[2] = c;
    e->id = nextId++;
    e->hasUF = k == K_FUN || (a && a->hasUF) || (b && b->hasUF) || (c && c->hasUF);
    table.emplace(key, e);
    return e;
}
unsigned fw(Sort s) { return s == S_F32 ? 32 : 64; }
}

E mkConst(uint64_t v, unsigned w)
{
    return get(K_CONST, S_BV, w, nullptr, nullptr, nullptr, v & maskW(w));
}
E mkVar(const std::string& n, unsigned w) { return get(K_VAR, S_BV, w, nullptr, nullptr, nullptr, 0, nullptr, intern(n)); }
E mkFVar(const std::string& n, Sort s) { return get(K_FVAR, s, fw(s), nullptr, nullptr, nullptr, 0, nullptr, intern(n)); }

static E mkFC(const FConst& f, Sort s)
{
    auto it = fconsts.insert({f, (int)s}).first;
    return get(K_FCONST, s, fw(s), nullptr, nullptr, nullptr, 0, &it->first);
}
E mkFConst(double d, Sort s)
{
    FConst f;
    if (std::isnan(d)) f.special = 1;
    else if (std::isinf(d)) f.special = d > 0 ? 2 : 3;
    if (!f.special && realMode) f.q = mpq_class(d);
    f.d = d;
    if (realMode) f.d = 0;
    if (!realMode && s == S_F32 && !f.special) f.d = (float)d;
    if (!realMode && f.special == 0 && std::isinf(f.d)) f.special = f.d > 0 ? 2 : 3;
    return mkFC(f, s);
}
E mkFRat(const mpq_class& q, Sort s)
{
    FConst f; f.q = q; f.q.canonicalize();
    return mkFC(f, s);
}

bool exactFloat(const FConst& f, Sort s, double& d)
{
    if (f.special == 1) { d = NAN; return true; }
    if (f.special == 2) { d = INFINITY; return true; }
    if (f.special == 3) { d = -INFINITY; return true; }
    if (!realMode) { d = f.d; return true; }
    d = f.q.get_d();
    if (s == S_F32) d = (float)d;
    if (std::isinf(d)) return false;
    return mpq_class(d) == f.q;
}
bool fconstAsDouble(E e, double& d) { return isFC(e) && exactFloat(*e->f, e->s, d); }

static bool isTrue(E e) { return e->k == K_CONST && e->w == 1 && e->c == 1; }
static bool isFalse(E e) { return e->k == K_CONST && e->w == 1 && e->c == 0; }

E mkNot(E a)
{
    if (isC(a)) return mkConst(~a->c, a->w);
    if (a->k == K_XOR && isC(a->a[1]) && a->a[1]->c == maskW(a->w)) return a->a[0];
    return get(K_XOR, S_BV, a->w, a, mkConst(maskW(a->w), a->w));
}
E mkAndB(E a, E b)
{
    if (isFalse(a) || isFalse(b)) return mkConst(0, 1);
    if (isTrue(a)) return b;
    if (isTrue(b)) return a;
    if (a == b) return a;
    return get(K_AND, S_BV, 1, a, b);
}
E mkOrB(E a, E b) { return mkNot(mkAndB(mkNot(a), mkNot(b))); }

// exact reals: a number cut to an integer is at least c (numbers beyond the integer's range are undefined behaviour)
static E cutAtLeast(E t, int64_t c)
{
    E x = t->a[0];
    bool fl = false;
    while (x->k == K_FEXT || x->k == K_FTRUNC) x = x->a[0];
    if (x->k == K_FFLOOR) { fl = true; x = x->a[0]; }
    if (fl || c > 0) return mkFCmp(K_FLE, mkFRat(mpq_class((long)c), x->s), x);
    return mkFCmp(K_FLT, mkFRat(mpq_class((long)(c - 1)), x->s), x);
}
E mkBin(Kind k, E a, E b)
{
    unsigned w = a->w;
    if (realMode && w <= 64 && (k == K_SLT || k == K_SLE || k == K_EQ) && ((a->k == K_FPTOSI && isC(b)) || (b->k == K_FPTOSI && isC(a))))
    {
        const bool left = a->k == K_FPTOSI;
        E t = left ? a : b;
        const int64_t c = signedOf(left ? b->c : a->c, w);
        if (c > INT64_MIN + 2 && c < INT64_MAX - 2)
        {
            if (k == K_EQ) return mkAndB(cutAtLeast(t, c), mkNot(cutAtLeast(t, c + 1)));
            if (left) return mkNot(cutAtLeast(t, k == K_SLT ? c : c + 1));      // t < c, t <= c
            return cutAtLeast(t, k == K_SLT ? c + 1 : c);                       // c < t, c <= t
        }
    }
    if (isC(a) && isC(b) && w <= 64)
    {
        uint64_t x = a->c, y = b->c;
        int64_t sx = signedOf(x, w), sy = signedOf(y, w);
        switch (k)
        {
        case K_ADD: return mkConst(x + y, w);
        case K_SUB: return mkConst(x - y, w);
        case K_MUL: return mkConst(x * y, w);
        case K_UDIV: if (y) return mkConst(x / y, w); break;
        case K_UREM: if (y) return mkConst(x % y, w); break;
        case K_SDIV: if (sy && !(sy == -1)) return mkConst(sx / sy, w); if (sy == -1) return mkConst(0 - x, w); break;
        case K_SREM: if (sy && !(sy == -1)) return mkConst(sx % sy, w); if (sy == -1) return mkConst(0, w); break;
        case K_AND: return mkConst(x & y, w);
        case K_OR: return mkConst(x | y, w);
        case K_XOR: return mkConst(x ^ y, w);
        case K_SHL: return mkConst(y >= w ? 0 : x << y, w);
        case K_LSHR: return mkConst(y >= w ? 0 : x >> y, w);
        case K_ASHR: return mkConst(y >= w ? (sx < 0 ? ~0ull : 0) : (uint64_t)(sx >> y), w);
        case K_EQ: return mkConst(x == y, 1);
        case K_ULT: return mkConst(x < y, 1);
        case K_ULE: return mkConst(x <= y, 1);
        case K_SLT: return mkConst(sx < sy, 1);
        case K_SLE: return mkConst(sx <= sy, 1);
        default: break;
        }
    }
    bool cmp = k >= K_EQ && k <= K_SLE;
    // constants to the right for commutative operators
    if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR || k == K_EQ) && isC(a)) std::swap(a, b);
    if (w == 1)
    {
        if (k == K_AND) return mkAndB(a, b);
        if (k == K_OR) return mkOrB(a, b);
        if (k == K_EQ && isC(b)) return b->c ? a : mkNot(a);
        if (k == K_XOR && isC(b)) return b->c ? mkNot(a) : a;
        if (k == K_ADD || k == K_SUB) k = K_XOR;
    }
    if (isC(b))
    {
        uint64_t y = b->c;
        if (y == 0 && (k == K_ADD || k == K_SUB || k == K_OR || k == K_XOR || k == K_SHL || k == K_LSHR || k == K_ASHR)) return a;
        if (y == 0 && (k == K_MUL || k == K_AND)) return b;
        if (y == maskW(w) && k == K_AND) return a;
        if (y == 1 && (k == K_MUL || k == K_UDIV || k == K_SDIV)) return a;
        if (k == K_SUB) return mkBin(K_ADD, a, mkConst(0 - y, w));
        if (k == K_ADD && a->k == K_ADD && isC(a->a[1])) return mkBin(K_ADD, a->a[0], mkConst(a->a[1]->c + y, w));
        if (k == K_EQ && a->k == K_ADD && isC(a->a[1])) return mkBin(K_EQ, a->a[0], mkConst(y - a->a[1]->c, w));
        if (k == K_EQ && a->k == K_ZEXT)
        {
            if (y & ~maskW(a->a[0]->w)) return mkConst(0, 1);
            return mkBin(K_EQ, a->a[0], mkConst(y, a->a[0]->w));
        }
        if (k == K_EQ && a->k == K_SEXT)
        {
            unsigned iw = a->a[0]->w;
            if ((uint64_t)signedOf(y & maskW(iw), iw) != (uint64_t)signedOf(y, w)) return mkConst(0, 1);
            return mkBin(K_EQ, a->a[0], mkConst(y, iw));
        }
        // exact reals are finite: their exponent bits are never all ones
        if (k == K_EQ && realMode && a->k == K_AND && a->a[0]->k == K_FBITS && isC(a->a[1]))
        {
            uint64_t ex = a->a[0]->w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull;
            if ((a->a[1]->c & ex) == ex && (y & ex) == ex) return mkConst(0, 1);
        }
        if (k == K_EQ && a->k == K_ITE && isC(a->a[1]) && isC(a->a[2]))
        {
            bool t = a->a[1]->c == y, f = a->a[2]->c == y;
            if (t && f) return mkConst(1, 1);
            if (!t && !f) return mkConst(0, 1);
            return t ? a->a[0] : mkNot(a->a[0]);
        }
        if (k == K_ULT && y == 0) return mkConst(0, 1);
        if (k == a->k && (k == K_AND || k == K_OR || k == K_XOR) && isC(a->a[1]))
            return mkBin(k, a->a[0], mkConst(k == K_AND ? a->a[1]->c & y : k == K_OR ? a->a[1]->c | y : a->a[1]->c ^ y, w));
        if (k == K_AND && w <= 64)
        {
            // masks reach the bits they keep
            const bool single = (y & (y - 1)) == 0;
            if ((a->k == K_OR || a->k == K_XOR) && (isC(a->a[1]) || single)) return mkBin(a->k, mkBin(K_AND, a->a[0], b), mkBin(K_AND, a->a[1], b));
            if (a->k == K_AND && single) { E l = mkBin(K_AND, a->a[0], b), r = mkBin(K_AND, a->a[1], b); if (isC(l) || isC(r)) return mkBin(K_AND, l, r); }
            if (a->k == K_SHL && isC(a->a[1]) && a->a[1]->c < w && !(single && a->a[0]->k != K_ZEXT && a->a[0]->k != K_ITE)) return mkBin(K_SHL, mkBin(K_AND, a->a[0], mkConst(y >> a->a[1]->c, w)), a->a[1]);
            if (a->k == K_ZEXT && (y & maskW(a->a[0]->w)) != y) return mkBin(K_AND, a, mkConst(y & maskW(a->a[0]->w), w));
        }
        if ((k == K_AND) && a->k == K_ZEXT && (y & maskW(a->a[0]->w)) == maskW(a->a[0]->w)) return a;
    }
    if (a == b)
    {
        if (k == K_EQ || k == K_ULE || k == K_SLE) return mkConst(1, 1);
        if (k == K_ULT || k == K_SLT) return mkConst(0, 1);
        if (k == K_SUB || k == K_XOR) return mkConst(0, w);
        if (k == K_AND || k == K_OR) return a;
    }
    // hoist ite with constant branches out of operations with a constant
    if (isC(b) && a->k == K_ITE && isC(a->a[1]) && isC(a->a[2]) && !(k == K_UDIV || k == K_SDIV || k == K_UREM || k == K_SREM))
        return mkIte(a->a[0], mkBin(k, a->a[1], b), mkBin(k, a->a[2], b));
    // the sign bit of an exact real
    if (k == K_SLT && realMode && a->k == K_FBITS && isC(b) && b->c == 0) return mkFCmp(K_FLT, a->a[0], mkFConst(0, a->a[0]->s));
    if (k == K_SLT && realMode && b->k == K_FBITS && isC(a) && a->c == maskW(a->w)) return mkNot(mkFCmp(K_FLT, b->a[0], mkFConst(0, b->a[0]->s)));
    if (k == K_EQ && realMode && a->k == K_FBITS && b->k == K_FBITS) return mkFCmp(K_FEQ, a->a[0], b->a[0]);
    if ((k == K_EQ) && a->id > b->id && !isC(b)) std::swap(a, b);
    if ((k == K_ADD || k == K_MUL || k == K_AND || k == K_OR || k == K_XOR) && !isC(b) && a->id > b->id) std::swap(a, b);
    return get(k, S_BV, cmp ? 1 : w, a, b);
}

E mkExtract(E a, unsigned off, unsigned w)
{
    if (off == 0 && w == a->w) return a;
    if (isC(a)) return mkConst(a->c >> off, w);
    if (a->k == K_EXTRACT) return mkExtract(a->a[0], off + a->c, w);
    if (a->k == K_CONCAT)
    {
        unsigned lw = a->a[1]->w;
        if (off + w <= lw) return mkExtract(a->a[1], off, w);
        if (off >= lw) return mkExtract(a->a[0], off - lw, w);
    }
    if (a->k == K_ZEXT)
    {
        unsigned iw = a->a[0]->w;
        if (off + w <= iw) return mkExtract(a->a[0], off, w);
        if (off >= iw) return mkConst(0, w);
        if (off == 0) return mkZExt(a->a[0], w);
    }
    if (a->k == K_SEXT && off == 0)
    {
        unsigned iw = a->a[0]->w;
        if (w <= iw) return mkExtract(a->a[0], 0, w);
        return mkSExt(a->a[0], w);
    }
    if (a->k == K_SHL && isC(a->a[1]))
    {
        uint64_t n = a->a[1]->c;
        if (off >= n) return mkExtract(a->a[0], off - n, w);
        if (off + w <= n) return mkConst(0, w);
    }
    if (a->k == K_LSHR && isC(a->a[1]))
    {
        uint64_t n = a->a[1]->c;
        if (off + n + w <= a->w) return mkExtract(a->a[0], off + n, w);
        if (off + n >= a->w) return mkConst(0, w);
    }
    if (a->k == K_AND || a->k == K_OR || a->k == K_XOR)
    {
        auto open = [](E x) { return isC(x) || x->k == K_ZEXT || x->k == K_CONCAT || ((x->k == K_SHL || x->k == K_LSHR) && isC(x->a[1])); };
        if (open(a->a[0]) || open(a->a[1])) return mkBin(a->k, mkExtract(a->a[0], off, w), mkExtract(a->a[1], off, w));
    }
    if (a->k == K_ITE && (isC(a->a[1]) || isC(a->a[2])))
        return mkIte(a->a[0], mkExtract(a->a[1], off, w), mkExtract(a->a[2], off, w));
    return get(K_EXTRACT, S_BV, w, a, nullptr, nullptr, off);
}
E mkConcat(E hi, E lo)
{
    if (isC(hi) && isC(lo) && hi->w + lo->w <= 64) return mkConst((hi->c << lo->w) | lo->c, hi->w + lo->w);
    if (hi->k == K_EXTRACT && lo->k == K_EXTRACT && hi->a[0] == lo->a[0] && hi->c == lo->c + lo->w)
        return mkExtract(hi->a[0], lo->c, hi->w + lo->w);
    if (isC(hi) && hi->c == 0 && hi->w + lo->w <= 64) return mkZExt(lo, hi->w + lo->w);
    return get(K_CONCAT, S_BV, hi->w + lo->w, hi, lo);
}
E mkZExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst(a->c, w);
    if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
    if (a->k == K_ITE && (isC(a->a[1]) && isC(a->a[2]))) return mkIte(a->a[0], mkZExt(a->a[1], w), mkZExt(a->a[2], w));
    return get(K_ZEXT, S_BV, w, a);
}
E mkSExt(E a, unsigned w)
{
    if (w == a->w) return a;
    if (isC(a)) return mkConst((uint64_t)signedOf(a->c, a->w), w);
    if (a->k == K_SEXT) return mkSExt(a->a[0], w);
    if (a->k == K_ZEXT) return mkZExt(a->a[0], w);
    if (a->k == K_ITE && (isC(a->a[1]) && isC(a->a[2]))) return mkIte(a->a[0], mkSExt(a->a[1], w), mkSExt(a->a[2], w));
    return get(K_SEXT, S_BV, w, a);
}
E mkIte(E c, E a, E b)
{
    if (isTrue(c)) return a;
    if (isFalse(c)) return b;
    if (a == b) return a;
    if (c->k == K_XOR && isC(c->a[1])) { return mkIte(c->a[0], b, a); }
    if (a->s == S_BV && a->w == 1)
    {
        if (isTrue(a) && isFalse(b)) return c;
        if (isFalse(a) && isTrue(b)) return mkNot(c);
        if (isFalse(b)) return mkAndB(c, a);
        if (isFalse(a)) return mkAndB(mkNot(c), b);
        if (isTrue(a)) return mkOrB(c, b);
        if (isTrue(b)) return mkOrB(mkNot(c), a);
    }
    if (a->k == K_ITE && a->a[0] == c) a = a->a[1];
    if (b->k == K_ITE && b->a[0] == c) b = b->a[2];
    if (a == b) return a;
    return get(K_ITE, a->s, a->w, c, a, b);
}

static bool fz(E e) { return isFC(e) && !e->f->special && (realMode ? e->f->q == 0 : e->f->d == 0); }
static bool f1(E e) { return isFC(e) && !e->f->special && (realMode ? e->f->q == 1 : e->f->d == 1); }
static E special(int s, Sort so) { return mkFConst(s == 1 ? NAN : s == 2 ? INFINITY : -INFINITY, so); }

E mkFBin(Kind k, E a, E b)
{
    Sort s = a->s;
    if (!realMode)
    {
        if (isFC(a) && isFC(b))
        {
            double x = a->f->special == 1 ? NAN : a->f->special == 2 ? INFINITY : a->f->special == 3 ? -INFINITY : a->f->d;
            double y = b->f->special == 1 ? NAN : b->f->special == 2 ? INFINITY : b->f->special == 3 ? -INFINITY : b->f->d;
            if (s == S_F32)
            {
                float u = x, v = y;
                switch (k) { case K_FADD: return mkFConst(u + v, s); case K_FSUB: return mkFConst(u - v, s); case K_FMUL: return mkFConst(u * v, s); default: return mkFConst(u / v, s); }
            }
            switch (k) { case K_FADD: return mkFConst(x + y, s); case K_FSUB: return mkFConst(x - y, s); case K_FMUL: return mkFConst(x * y, s); default: return mkFConst(x / y, s); }
        }
        if ((k == K_FMUL || k == K_FDIV) && f1(b)) return a;
        if (k == K_FMUL && f1(a)) return b;
        return get(k, s, fw(s), a, b);
    }
    // exact reals
    if ((isFC(a) && a->f->special) || (isFC(b) && b->f->special))
    {
        int sa = isFC(a) ? a->f->special : 0, sb = isFC(b) ? b->f->special : 0;
        if (sa == 1 || sb == 1) return special(1, s);
        if (k == K_FADD || k == K_FSUB)
        {
            if (sb && k == K_FSUB) sb = sb == 2 ? 3 : 2;
            if (sa && sb && sa != sb) return special(1, s);
            return special(sa ? sa : sb, s);
        }
        if (isFC(a) && isFC(b))
        {
            double x = sa == 2 ? INFINITY : sa == 3 ? -INFINITY : a->f->q.get_d(), y = sb == 2 ? INFINITY : sb == 3 ? -INFINITY : b->f->q.get_d();
            return mkFConst(k == K_FMUL ? x * y : x / y, s);
        }
        if (k == K_FDIV && sb) return mkFConst(0, s);
        throw EngineError{"infinity in symbolic real arithmetic"};
    }
    if (isFC(a) && isFC(b))
    {
        const mpq_class &x = a->f->q, &y = b->f->q;
        switch (k)
        {
        case K_FADD: return mkFRat(x + y, s);
        case K_FSUB: return mkFRat(x - y, s);
        case K_FMUL: return mkFRat(x * y, s);
        default:
            if (y == 0) return special(x == 0 ? 1 : x > 0 ? 2 : 3, s);
            return mkFRat(x / y, s);
        }
    }
    switch (k)
    {
    case K_FADD:
        if (fz(a)) return b;
        if (fz(b)) return a;
        if (b->k == K_FNEG) return mkFBin(K_FSUB, a, b->a[0]);
        if (a->id > b->id) std::swap(a, b);
        break;
    case K_FSUB:
        if (fz(b)) return a;
        if (a == b) return mkFConst(0, s);
        if (fz(a)) return mkFNeg(b);
        if (b->k == K_FNEG) return mkFBin(K_FADD, a, b->a[0]);
        break;
    case K_FMUL:
        if (fz(a)) return a;
        if (fz(b)) return b;
        if (f1(a)) return b;
        if (f1(b)) return a;
        if (a->id > b->id) std::swap(a, b);
        break;
    case K_FDIV:
        if (f1(b)) return a;
        if (isFC(b) && b->f->q != 0) return mkFBin(K_FMUL, a, mkFRat(1 / b->f->q, s));
        break;
    default: break;
    }
    return get(k, s, fw(s), a, b);
}
E mkFNeg(E a)
{
    if (isFC(a))
    {
        if (a->f->special == 1) return a;
        if (a->f->special) return special(a->f->special == 2 ? 3 : 2, a->s);
        return realMode ? mkFRat(-a->f->q, a->s) : mkFConst(-a->f->d, a->s);
    }
    if (a->k == K_FNEG) return a->a[0];
    return get(K_FNEG, a->s, fw(a->s), a);
}
static E fltMinLike(E e) { return e; }
E mkFCmp(Kind k, E a, E b)
{
    (void)fltMinLike;
    if (isFC(a) && isFC(b))
    {
        int sa = a->f->special, sb = b->f->special;
        if (sa == 1 || sb == 1) return mkConst(k == K_FUNO, 1);
        if (k == K_FUNO) return mkConst(0, 1);
        if (sa || sb)
        {
            double x = sa == 2 ? INFINITY : sa == 3 ? -INFINITY : 0, y = sb == 2 ? INFINITY : sb == 3 ? -INFINITY : 0;
            return mkConst(k == K_FEQ ? x == y : k == K_FLT ? x < y : x <= y, 1);
        }
        if (realMode)
        {
            const mpq_class &x = a->f->q, &y = b->f->q;
            return mkConst(k == K_FEQ ? x == y : k == K_FLT ? x < y : x <= y, 1);
        }
        double x = a->f->d, y = b->f->d;
        return mkConst(k == K_FEQ ? x == y : k == K_FLT ? x < y : x <= y, 1);
    }
    if (realMode)
    {
        if (k == K_FUNO) return mkConst((isFC(a) && a->f->special == 1) || (isFC(b) && b->f->special == 1), 1);
        if (isFC(a) && a->f->special)
        {
            if (a->f->special == 1) return mkConst(0, 1);
            return mkConst(k != K_FEQ && a->f->special == 3, 1);
        }
        if (isFC(b) && b->f->special)
        {
            if (b->f->special == 1) return mkConst(0, 1);
            return mkConst(k != K_FEQ && b->f->special == 2, 1);
        }
        if (a == b) return mkConst(k != K_FLT, 1);
        // subnormal numbers do not exist in exact-real mode: |x| < smallest normal number means x == 0
        static const mpq_class fmin(1.17549435082228750797e-38), dmin(2.2250738585072014e-308);
        if (isFC(b) && (b->f->q == fmin || b->f->q == dmin)) return mkFCmp(k == K_FEQ ? K_FEQ : K_FLE, a, mkFConst(0, a->s));
        if (isFC(a) && (a->f->q == fmin || a->f->q == dmin)) return mkFCmp(k == K_FEQ ? K_FEQ : K_FLT, mkFConst(0, a->s), b);
        if (k == K_FEQ && a->id > b->id) std::swap(a, b);
    }
    if (k == K_FUNO && isFC(a)) std::swap(a, b);
    return get(k, S_BV, 1, a, b);
}
E mkFCast(E a, Sort s)
{
    if (a->s == s) return a;
    if (realMode)
    {
        if (isFC(a)) return a->f->special ? special(a->f->special, s) : mkFRat(a->f->q, s);
        if (a->k == K_FEXT && a->a[0]->s == s) return a->a[0];
        return get(K_FEXT, s, fw(s), a);
    }
    if (isFC(a)) return a->f->special ? special(a->f->special, s) : mkFConst(a->f->d, s);
    if (s == S_F32 && a->k == K_FEXT) return a->a[0];
    return get(s == S_F64 ? K_FEXT : K_FTRUNC, s, fw(s), a);
}
E mkIntToF(E a, bool sg, Sort s)
{
    if (isC(a))
    {
        if (realMode)
        {
            mpq_class q;
            if (sg) q = mpq_class((long)signedOf(a->c, a->w)); else q = mpq_class((unsigned long)a->c);
            return mkFRat(q, s);
        }
        if (s == S_F32) return mkFConst(sg ? (float)signedOf(a->c, a->w) : (float)a->c, s);
        return mkFConst(sg ? (double)signedOf(a->c, a->w) : (double)a->c, s);
    }
    if (a->k == K_ITE) return mkIte(a->a[0], mkIntToF(a->a[1], sg, s), mkIntToF(a->a[2], sg, s));
    if (a->k == K_ZEXT) { a = a->a[0]; sg = false; }
    else if (a->k == K_SEXT && sg) a = a->a[0];
    if (a->w == 1) return mkIte(a, mkFConst(sg ? -1 : 1, s), mkFConst(0, s));
    return get(sg ? K_SITOFP : K_UITOFP, s, fw(s), a);
}
E mkFToInt(E a, bool sg, unsigned w)
{
    if (isFC(a))
    {
        if (a->f->special) return mkConst(sg ? 1ull << (w - 1) : 0, w);
        if (realMode)
        {
            mpz_class z = a->f->q.get_num() / a->f->q.get_den();
            return mkConst(sg ? (uint64_t)z.get_si() : (uint64_t)z.get_ui(), w);
        }
        return mkConst(sg ? (uint64_t)(int64_t)a->f->d : (uint64_t)a->f->d, w);
    }
    if (realMode && a->k == K_SITOFP && sg && a->a[0]->w <= w) return mkSExt(a->a[0], w);
    if (realMode && a->k == K_UITOFP && a->a[0]->w < w) return mkZExt(a->a[0], w);
    if (a->k == K_ITE) return mkIte(a->a[0], mkFToInt(a->a[1], sg, w), mkFToInt(a->a[2], sg, w));
    return get(sg ? K_FPTOSI : K_FPTOUI, S_BV, w, a);
}
E mkFBits(E a)
{
    double d;
    if (a->k == K_BITSF) return a->a[0];
    if (fconstAsDouble(a, d))
    {
        if (a->s == S_F32) { float f = d; uint32_t b; memcpy(&b, &f, 4); return mkConst(b, 32); }
        uint64_t b; memcpy(&b, &d, 8); return mkConst(b, 64);
    }
    return get(K_FBITS, S_BV, fw(a->s), a);
}
E mkBitsF(E a, Sort s)
{
    if (a->k == K_FBITS && a->a[0]->s == s) return a->a[0];
    if (isC(a))
    {
        if (s == S_F32) { float f; uint32_t b = a->c; memcpy(&f, &b, 4); return mkFConst(f, s); }
        double d; memcpy(&d, &a->c, 8); return mkFConst(d, s);
    }
    if (a->k == K_ITE) return mkIte(a->a[0], mkBitsF(a->a[1], s), mkBitsF(a->a[2], s));
    return get(K_BITSF, s, fw(s), a);
}
E mkFAbs(E a)
{
    if (isFC(a))
    {
        if (a->f->special == 1 || a->f->special == 2) return a;
        if (a->f->special == 3) return special(2, a->s);
        return realMode ? mkFRat(abs(a->f->q), a->s) : mkFConst(std::fabs(a->f->d), a->s);
    }
    if (realMode) return mkIte(mkFCmp(K_FLE, mkFConst(0, a->s), a), a, mkFNeg(a));
    return get(K_FUN, a->s, fw(a->s), a, nullptr, nullptr, 0, nullptr, intern("fabs"), FN_OTHER);
}
E mkFloor(E a)
{
    if (isFC(a) && !a->f->special)
    {
        if (!realMode) return mkFConst(std::floor(a->f->d), a->s);
        mpz_class z;
        mpz_fdiv_q(z.get_mpz_t(), a->f->q.get_num_mpz_t(), a->f->q.get_den_mpz_t());
        return mkFRat(mpq_class(z), a->s);
    }
    return get(K_FFLOOR, a->s, fw(a->s), a);
}

// ---- polynomial-ish view used to canonicalise arguments of exp ----------------------------------------------
static void linear(E e, const mpq_class& k, std::map<E, mpq_class, bool (*)(E, E)>& out, mpq_class& c)
{
    switch (e->k)
    {
    case K_FCONST: c += k * e->f->q; return;
    case K_FADD: linear(e->a[0], k, out, c); linear(e->a[1], k, out, c); return;
    case K_FSUB: linear(e->a[0], k, out, c); linear(e->a[1], -k, out, c); return;
    case K_FNEG: linear(e->a[0], -k, out, c); return;
    case K_FEXT: linear(e->a[0], k, out, c); return;
    case K_FMUL:
        if (isFC(e->a[0])) { linear(e->a[1], k * e->a[0]->f->q, out, c); return; }
        if (isFC(e->a[1])) { linear(e->a[0], k * e->a[1]->f->q, out, c); return; }
        // distribute one product over a sum
        for (int i = 0; i < 2; i++)
        {
            E s = e->a[i], o = e->a[1 - i];
            if (s->k == K_FADD || s->k == K_FSUB)
            {
                linear(mkFBin(K_FMUL, s->a[0], o), k, out, c);
                linear(mkFBin(K_FMUL, s->a[1], o), s->k == K_FADD ? k : mpq_class(-k), out, c);
                return;
            }
            if (s->k == K_FNEG) { linear(mkFBin(K_FMUL, s->a[0], o), -k, out, c); return; }
        }
        [[fallthrough]];
    default:
        out[e] += k;
    }
}
static bool idLess(E a, E b) { return a->id < b->id; }

E mkFun(Fn fn, E a, E b, const std::string& name)
{
    Sort s = a->s;
    if (!realMode)
    {
        double x;
        if (fconstAsDouble(a, x) && !b)
        {
            bool f = s == S_F32;
            switch (fn)
            {
            case FN_EXP: return mkFConst(f ? expf(x) : exp(x), s);
            case FN_TANH: return mkFConst(f ? tanhf(x) : tanh(x), s);
            case FN_LOG: return mkFConst(f ? logf(x) : log(x), s);
            case FN_SQRT: return mkFConst(f ? sqrtf(x) : sqrt(x), s);
            default: break;
            }
        }
        return get(K_FUN, s, fw(s), a, b, nullptr, 0, nullptr, intern(name), fn);
    }
    if (isFC(a) && a->f->special) throw EngineError{"special value passed to " + name};
    // function values do not depend on the width of their argument in exact-real mode
    E ua = a;
    while (ua->k == K_FEXT) ua = ua->a[0];
    if (fn == FN_POW && b && isFC(b) && !b->f->special && b->f->q.get_den() == 1 && abs(b->f->q) <= 8)
    {
        int n = b->f->q.get_num().get_si(), m = std::abs(n);
        E r = mkFConst(1, s);
        for (int i = 0; i < m; i++) r = mkFBin(K_FMUL, r, a);
        return n < 0 ? mkFBin(K_FDIV, mkFConst(1, s), r) : r;
    }
    if (fn == FN_POW && b && isFC(b) && b->f->q == mpq_class(1, 2)) return mkFun(FN_SQRT, a, nullptr, "sqrt");
    if (fn == FN_SQRT && isFC(ua))
    {
        mpz_class n = sqrt(ua->f->q.get_num()), d = sqrt(ua->f->q.get_den());
        if (n >= 0 && n * n == ua->f->q.get_num() && d * d == ua->f->q.get_den()) return mkFRat(mpq_class(n, d), s);
        // the root of a constant is a constant: to double precision, like every literal
        if (ua->f->q > 0) return mkFRat(mpq_class(std::sqrt(ua->f->q.get_d())), s);
    }
    if (fn == FN_EXP)
    {
        std::map<E, mpq_class, bool (*)(E, E)> m(idLess);
        mpq_class c = 0;
        linear(ua, 1, m, c);
        E num = mkFConst(1, S_F64), den = num;
        auto factor = [&](E atom, mpq_class k)
        {
            if (k == 0) return;
            mpz_class n = k.get_num();
            bool neg = n < 0;
            if (neg) n = -n;
            E t;
            if (n > 4) { n = 1; t = atom ? mkFBin(K_FMUL, mkFRat(abs(k), S_F64), mkFCast(atom, S_F64)) : mkFRat(abs(k), S_F64); }
            else
            {
                mpq_class u(1, k.get_den());
                t = atom ? (u == 1 ? mkFCast(atom, S_F64) : mkFBin(K_FMUL, mkFRat(u, S_F64), mkFCast(atom, S_F64))) : mkFRat(u, S_F64);
            }
            while (t->k == K_FEXT) t = t->a[0];
            E e = get(K_FUN, S_F64, 64, t, nullptr, nullptr, 0, nullptr, intern("exp"), FN_EXP);
            for (int i = 0; i < n.get_si(); i++) (neg ? den : num) = mkFBin(K_FMUL, neg ? den : num, e);
        };
        for (auto& [atom, k] : m) factor(atom, k);
        if (c != 0) factor(nullptr, c);
        return mkFCast(mkFBin(K_FDIV, num, den), s);
    }
    if (fn == FN_TANH && isFC(ua) && ua->f->q == 0) return mkFConst(0, s);
    if (fn == FN_TANH && ua->k == K_FNEG) return mkFNeg(mkFun(fn, ua->a[0], nullptr, name));
    std::string base = name;
    if (!base.empty() && base.back() == 'f' && base != "erf") base.pop_back();
    E ub = b;
    while (ub && ub->k == K_FEXT) ub = ub->a[0];
    return mkFCast(get(K_FUN, S_F64, 64, ua, ub, nullptr, 0, nullptr, intern(base), fn), s);
}

// ---- the same value written in one order: sums and products flattened and sorted (exact reals only) ------------
// nothing is multiplied out, so the form is not larger than the term
static E canonicalRec(E e, std::unordered_map<E, E>& memo, size_t& budget);
static void canonicalTerms(E root, const mpq_class& k0, std::map<E, mpq_class, bool (*)(E, E)>& out, mpq_class& c, std::unordered_map<E, E>& memo, size_t& budget)
{
    std::vector<std::pair<E, mpq_class>> st{{root, k0}};
    while (!st.empty())
    {
        if (!budget--) throw EngineError{"canonical form too large"};
        auto [e, k] = st.back(); st.pop_back();
        switch (e->k)
        {
        case K_FCONST: if (e->f->special) throw EngineError{"special value"}; c += k * e->f->q; continue;
        case K_FADD: st.push_back({e->a[0], k}); st.push_back({e->a[1], k}); continue;
        case K_FSUB: st.push_back({e->a[0], k}); st.push_back({e->a[1], mpq_class(-k)}); continue;
        case K_FNEG: st.push_back({e->a[0], mpq_class(-k)}); continue;
        case K_FEXT: st.push_back({e->a[0], k}); continue;
        case K_FMUL:
        {
            std::vector<E> fs{e}, factors;
            mpq_class f = k;
            bool zero = false;
            while (!fs.empty() && !zero)
            {
                if (!budget--) throw EngineError{"canonical form too large"};
                E x = fs.back(); fs.pop_back();
                if (x->k == K_FMUL) { fs.push_back(x->a[0]); fs.push_back(x->a[1]); continue; }
                if (x->k == K_FEXT) { fs.push_back(x->a[0]); continue; }
                if (x->k == K_FNEG) { f = -f; fs.push_back(x->a[0]); continue; }
                if (x->k == K_FCONST) { if (x->f->special) throw EngineError{"special value"}; f *= x->f->q; zero = x->f->q == 0; continue; }
                E y = canonicalRec(x, memo, budget);
                while (y->k == K_FEXT) y = y->a[0];
                if (y != x && (y->k == K_FMUL || y->k == K_FNEG || y->k == K_FCONST)) fs.push_back(y);
                else factors.push_back(y);
            }
            if (zero) continue;
            std::sort(factors.begin(), factors.end(), [](E a, E b) { return a->id < b->id; });
            if (factors.empty()) { c += f; continue; }
            E p = mkFCast(factors[0], S_F64);
            for (size_t i = 1; i < factors.size(); i++) p = mkFBin(K_FMUL, p, mkFCast(factors[i], S_F64));
            if (factors.size() == 1 && (p->k == K_FADD || p->k == K_FSUB)) st.push_back({p, f});
            else { while (p->k == K_FEXT) p = p->a[0]; out[p] += f; }
            continue;
        }
        default:
        {
            E y = canonicalRec(e, memo, budget);
            while (y->k == K_FEXT) y = y->a[0];
            if (y != e && (y->k == K_FADD || y->k == K_FSUB || y->k == K_FNEG || y->k == K_FCONST || y->k == K_FMUL)) st.push_back({y, k});
            else out[y] += k;
        }
        }
    }
}
static E canonicalRec(E e, std::unordered_map<E, E>& memo, size_t& budget)
{
    auto it = memo.find(e);
    if (it != memo.end()) return it->second;
    auto rec = [&](E x) { return canonicalRec(x, memo, budget); };
    E r = e;
    switch (e->k)
    {
    case K_FADD: case K_FSUB: case K_FNEG: case K_FEXT: case K_FMUL:
    {
        std::map<E, mpq_class, bool (*)(E, E)> m(idLess);
        mpq_class c = 0;
        canonicalTerms(e, 1, m, c, memo, budget);
        E sum = mkFRat(c, S_F64);
        for (auto& [atom, k] : m)
            if (k != 0) sum = mkFBin(K_FADD, sum, k == 1 ? mkFCast(atom, S_F64) : mkFBin(K_FMUL, mkFRat(k, S_F64), mkFCast(atom, S_F64)));
        r = mkFCast(sum, e->s);
        break;
    }
    case K_FDIV: r = mkFBin(K_FDIV, mkFCast(rec(e->a[0]), e->s), mkFCast(rec(e->a[1]), e->s)); break;
    case K_FUN: r = mkFun((Fn)e->fn, rec(e->a[0]), e->a[1] ? rec(e->a[1]) : nullptr, *e->name); break;
    case K_FEQ: case K_FLT: case K_FLE: r = mkFCmp(e->k, rec(e->a[0]), rec(e->a[1])); break;
    case K_ITE: r = mkIte(rec(e->a[0]), rec(e->a[1]), rec(e->a[2])); break;
    case K_AND: case K_OR: case K_XOR: case K_EQ: case K_ULT: case K_ULE: case K_SLT: case K_SLE: case K_ADD: case K_SUB:
        r = mkBin(e->k, rec(e->a[0]), rec(e->a[1]));
        // one of two conditions written as numbers
        if (r->k == K_OR)
            for (int i = 0; i < 2; i++)
                if (isC(r->a[i]) && r->a[i]->c == 1 && r->a[1 - i]->k == K_ZEXT && r->a[1 - i]->a[0]->w == 1) { r = r->a[i]; break; }
        break;
    case K_ZEXT: r = mkZExt(rec(e->a[0]), e->w); break;
    case K_SEXT: r = mkSExt(rec(e->a[0]), e->w); break;
    default: break;
    }
    if (r->s != e->s) r = mkFCast(r, e->s);
    return memo[e] = r;
}
E canonical(E e)
{
    static std::unordered_map<E, E> memo;
    if (!realMode) return e;
    size_t budget = 300000;
    try { return canonicalRec(e, memo, budget); }
    catch (EngineError&) { return e; }
}

E mkDiff(E y, E x)
{
    std::unordered_map<E, E> memo;
    std::function<E(E)> d = [&](E e) -> E
    {
        auto it = memo.find(e);
        if (it != memo.end()) return it->second;
        Sort s = e->s;
        E r;
        E one = mkFConst(1, s), zero = mkFConst(0, s);
        auto c = [&](E v) { return mkFCast(v, s); };
        switch (e->k)
        {
        case K_FCONST: r = zero; break;
        case K_FVAR: r = e == x ? one : zero; break;
        case K_FADD: r = mkFBin(K_FADD, d(e->a[0]), d(e->a[1])); break;
        case K_FSUB: r = mkFBin(K_FSUB, d(e->a[0]), d(e->a[1])); break;
        case K_FNEG: r = mkFNeg(d(e->a[0])); break;
        case K_FMUL: r = mkFBin(K_FADD, mkFBin(K_FMUL, d(e->a[0]), e->a[1]), mkFBin(K_FMUL, e->a[0], d(e->a[1]))); break;
        case K_FDIV:
            r = mkFBin(K_FDIV, mkFBin(K_FSUB, mkFBin(K_FMUL, d(e->a[0]), e->a[1]), mkFBin(K_FMUL, e->a[0], d(e->a[1]))), mkFBin(K_FMUL, e->a[1], e->a[1]));
            break;
        case K_FEXT: r = mkFCast(d(e->a[0]), s); break;
        case K_ITE: r = mkIte(e->a[0], d(e->a[1]), d(e->a[2])); break;
        case K_FUN:
        {
            E da = c(d(e->a[0]));
            if (isFC(da) && da->f->q == 0) { r = zero; break; }
            E a = c(e->a[0]);
            switch (e->fn)
            {
            case FN_EXP: r = mkFBin(K_FMUL, e, da); break;
            case FN_TANH: r = mkFBin(K_FMUL, mkFBin(K_FSUB, one, mkFBin(K_FMUL, e, e)), da); break;
            case FN_LOG: r = mkFBin(K_FDIV, da, a); break;
            case FN_SQRT: r = mkFBin(K_FDIV, da, mkFBin(K_FMUL, mkFConst(2, s), e)); break;
            default: throw EngineError{"no derivative known for " + *e->name};
            }
            break;
        }
        default: throw EngineError{"cannot differentiate " + show(e)};
        }
        memo[e] = r;
        return r;
    };
    while (x->k == K_FEXT) x = x->a[0];
    if (x->k != K_FVAR) throw EngineError{"differentiation with respect to a non-variable"};
    return d(y);
}

// ---- Z3 ------------------------------------------------------------------------------------------------------
static Z3_sort zsort(Sort s, unsigned w)
{
    if (s == S_BV) return w == 1 ? Z3_mk_bool_sort(*zctx) : Z3_mk_bv_sort(*zctx, w);
    if (realMode) return Z3_mk_real_sort(*zctx);
    return s == S_F32 ? Z3_mk_fpa_sort_32(*zctx) : Z3_mk_fpa_sort_64(*zctx);
}
static Z3_ast keep(Z3_ast a) { Z3_inc_ref(*zctx, a); return a; }

Z3_ast lower(E root)
{
    z3::context& c = *zctx;
    std::vector<E> st{root};
    while (!st.empty())
    {
        E e = st.back();
        if (e->z) { st.pop_back(); continue; }
        bool ready = true;
        for (int i = 0; i < 3; i++)
            if (e->a[i] && !e->a[i]->z) { st.push_back(e->a[i]); ready = false; }
        if (!ready) continue;
        st.pop_back();
        Z3_ast A = e->a[0] ? e->a[0]->z : nullptr, B = e->a[1] ? e->a[1]->z : nullptr, C = e->a[2] ? e->a[2]->z : nullptr;
        bool b1 = e->s == S_BV && (e->a[0] ? e->a[0]->s == S_BV && e->a[0]->w == 1 : e->w == 1);
        Z3_ast r = nullptr;
        Z3_ast ab[2] = {A, B};
        Z3_ast rne = nullptr;
        if (!realMode && (e->k >= K_FCONST)) { rne = Z3_mk_fpa_rne(c); keep(rne); }
        auto named = [&](const char* p) { return Z3_mk_const(c, Z3_mk_string_symbol(c, (std::string(p) + *e->name).c_str()), zsort(e->s, e->w)); };
        auto unsup = [&]() { throw EngineError{"cannot lower " + show(e, 2)}; };
        switch (e->k)
        {
        case K_CONST: r = e->w == 1 ? (e->c ? Z3_mk_true(c) : Z3_mk_false(c)) : keep(Z3_mk_unsigned_int64(c, e->c, zsort(S_BV, e->w))); break;
        case K_VAR: case K_FVAR: r = named(""); break;
        case K_ADD: r = Z3_mk_bvadd(c, A, B); break;
        case K_SUB: r = Z3_mk_bvsub(c, A, B); break;
        case K_MUL: r = Z3_mk_bvmul(c, A, B); break;
        case K_UDIV: r = Z3_mk_bvudiv(c, A, B); break;
        case K_SDIV: r = Z3_mk_bvsdiv(c, A, B); break;
        case K_UREM: r = Z3_mk_bvurem(c, A, B); break;
        case K_SREM: r = Z3_mk_bvsrem(c, A, B); break;
        case K_AND: r = b1 ? Z3_mk_and(c, 2, ab) : Z3_mk_bvand(c, A, B); break;
        case K_OR: r = b1 ? Z3_mk_or(c, 2, ab) : Z3_mk_bvor(c, A, B); break;
        case K_XOR: r = b1 ? (isTrue(e->a[1]) ? Z3_mk_not(c, A) : Z3_mk_xor(c, A, B)) : Z3_mk_bvxor(c, A, B); break;
        case K_SHL: r = Z3_mk_bvshl(c, A, B); break;
        case K_LSHR: r = Z3_mk_bvlshr(c, A, B); break;
        case K_ASHR: r = Z3_mk_bvashr(c, A, B); break;
        case K_EXTRACT:
            r = Z3_mk_extract(c, e->c + e->w - 1, e->c, A);
            if (e->w == 1) r = Z3_mk_eq(c, keep(r), keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))));
            break;
        case K_CONCAT:
        {
            auto bv = [&](E x, Z3_ast z) { return x->w == 1 ? keep(Z3_mk_ite(c, z, keep(Z3_mk_unsigned_int64(c, 1, Z3_mk_bv_sort(c, 1))), keep(Z3_mk_unsigned_int64(c, 0, Z3_mk_bv_sort(c, 1))))) : z; };
            r = Z3_mk_concat(c, bv(e->a[0], A), bv(e->a[1], B));
            break;
        }
        case K_ZEXT:
            if (e->a[0]->w == 1) r = Z3_mk_ite(c, A, keep(Z3_mk_unsigned_int64(c, 1, zsort(S_BV, e->w))), keep(Z3_mk_unsigned_int64(c, 0, zsort(S_BV, e->w))));
            else r = Z3_mk_zero_ext(c, e->w - e->a[0]->w, A);
            break;
        case K_SEXT:
            if (e->a[0]->w == 1) r = Z3_mk_ite(c, A, keep(Z3_mk_unsigned_int64(c, maskW(e->w), zsort(S_BV, e->w))), keep(Z3_mk_unsigned_int64(c, 0, zsort(S_BV, e->w))));
            else r = Z3_mk_sign_ext(c, e->w - e->a[0]->w, A);
            break;
        case K_EQ: r = Z3_mk_eq(c, A, B); break;
        case K_ULT: r = Z3_mk_bvult(c, A, B); break;
        case K_ULE: r = Z3_mk_bvule(c, A, B); break;
        case K_SLT: r = Z3_mk_bvslt(c, A, B); break;
        case K_SLE: r = Z3_mk_bvsle(c, A, B); break;
        case K_ITE: r = Z3_mk_ite(c, A, B, C); break;
        case K_FCONST:
            if (realMode)
            {
                if (e->f->special) throw EngineError{"NaN or infinity reached the solver in exact-real mode"};
                r = Z3_mk_numeral(c, e->f->q.get_str().c_str(), zsort(e->s, 0));
            }
            else
            {
                Z3_sort so = zsort(e->s, 0);
                if (e->f->special == 1) r = Z3_mk_fpa_nan(c, so);
                else if (e->f->special) r = Z3_mk_fpa_inf(c, so, e->f->special == 3);
                else r = e->s == S_F32 ? Z3_mk_fpa_numeral_float(c, (float)e->f->d, so) : Z3_mk_fpa_numeral_double(c, e->f->d, so);
            }
            break;
        case K_FADD: r = realMode ? Z3_mk_add(c, 2, ab) : Z3_mk_fpa_add(c, rne, A, B); break;
        case K_FSUB: r = realMode ? Z3_mk_sub(c, 2, ab) : Z3_mk_fpa_sub(c, rne, A, B); break;
        case K_FMUL: r = realMode ? Z3_mk_mul(c, 2, ab) : Z3_mk_fpa_mul(c, rne, A, B); break;
        case K_FDIV: r = realMode ? Z3_mk_div(c, A, B) : Z3_mk_fpa_div(c, rne, A, B); break;
        case K_FNEG: r = realMode ? Z3_mk_unary_minus(c, A) : Z3_mk_fpa_neg(c, A); break;
        case K_FEQ: r = realMode ? Z3_mk_eq(c, A, B) : Z3_mk_fpa_eq(c, A, B); break;
        case K_FLT: r = realMode ? Z3_mk_lt(c, A, B) : Z3_mk_fpa_lt(c, A, B); break;
        case K_FLE: r = realMode ? Z3_mk_le(c, A, B) : Z3_mk_fpa_leq(c, A, B); break;
        case K_FUNO:
        {
            Z3_ast n[2] = {Z3_mk_fpa_is_nan(c, A), Z3_mk_fpa_is_nan(c, B)};
            keep(n[0]); keep(n[1]);
            r = Z3_mk_or(c, 2, n);
            break;
        }
        case K_FEXT: case K_FTRUNC:
            r = realMode ? A : Z3_mk_fpa_to_fp_float(c, rne, A, zsort(e->s, 0));
            break;
        case K_SITOFP: case K_UITOFP:
            if (realMode) r = Z3_mk_int2real(c, keep(Z3_mk_bv2int(c, A, e->k == K_SITOFP)));
            else r = e->k == K_SITOFP ? Z3_mk_fpa_to_fp_signed(c, rne, A, zsort(e->s, 0)) : Z3_mk_fpa_to_fp_unsigned(c, rne, A, zsort(e->s, 0));
            break;
        case K_FPTOSI: case K_FPTOUI:
            if (realMode)
            {
                Z3_ast zero = keep(Z3_mk_numeral(c, "0", Z3_mk_real_sort(c)));
                Z3_ast nonneg = keep(Z3_mk_ge(c, A, zero));
                Z3_ast fl = keep(Z3_mk_real2int(c, A));
                Z3_ast ng = keep(Z3_mk_unary_minus(c, keep(Z3_mk_real2int(c, keep(Z3_mk_unary_minus(c, A))))));
                r = Z3_mk_int2bv(c, e->w, keep(Z3_mk_ite(c, nonneg, fl, ng)));
            }
            else
            {
                Z3_ast rtz = keep(Z3_mk_fpa_rtz(c));
                r = e->k == K_FPTOSI ? Z3_mk_fpa_to_sbv(c, rtz, A, e->w) : Z3_mk_fpa_to_ubv(c, rtz, A, e->w);
            }
            break;
        case K_FFLOOR:
            if (realMode) r = Z3_mk_int2real(c, keep(Z3_mk_real2int(c, A)));
            else r = Z3_mk_fpa_round_to_integral(c, keep(Z3_mk_fpa_rtn(c)), A);
            break;
        case K_FBITS:
            if (!realMode) r = Z3_mk_fpa_to_ieee_bv(c, A);
            else
            {
                Z3_sort dom = Z3_mk_real_sort(c);
                Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, e->w == 32 ? "fbits32" : "fbits64"), 1, &dom, zsort(S_BV, e->w));
                r = Z3_mk_app(c, f, 1, &A);
            }
            break;
        case K_BITSF:
            if (!realMode) r = Z3_mk_fpa_to_fp_bv(c, A, zsort(e->s, 0));
            else
            {
                Z3_sort dom = zsort(S_BV, e->a[0]->w);
                Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, "bitsf"), 1, &dom, Z3_mk_real_sort(c));
                r = Z3_mk_app(c, f, 1, &A);
            }
            break;
        case K_FUN:
            if (!realMode)
            {
                if (*e->name == "fabs") r = Z3_mk_fpa_abs(c, A);
                else if (e->fn == FN_SQRT) r = Z3_mk_fpa_sqrt(c, rne, A);
                else
                {
                    Z3_sort dom[2] = {zsort(e->s, 0), zsort(e->s, 0)};
                    Z3_func_decl f = Z3_mk_func_decl(c, Z3_mk_string_symbol(c, (*e->name + (e->s == S_F32 ? "_f" : "_d")).c_str()), B ? 2 : 1, dom, zsort(e->s, 0));
                    r = Z3_mk_app(c, f, B ? 2 : 1, ab);
                }
            }
            else
            {
                // one real variable per application; applications whose arguments have the same normal form share it
                static std::map<std::pair<std::string, std::pair<unsigned, unsigned>>, Z3_ast> apps;
                static Z3_params som = nullptr;
                if (!som)
                {
                    som = Z3_mk_params(c); Z3_params_inc_ref(c, som);
                    Z3_params_set_bool(c, som, Z3_mk_string_symbol(c, "som"), true);
                }
                Z3_ast na = keep(Z3_simplify_ex(c, A, som)), nb = B ? keep(Z3_simplify_ex(c, B, som)) : nullptr;
                auto key = std::make_pair(*e->name, std::make_pair(Z3_get_ast_id(c, na), nb ? Z3_get_ast_id(c, nb) : 0));
                auto it = apps.find(key);
                if (it == apps.end())
                    it = apps.emplace(key, keep(Z3_mk_const(c, Z3_mk_string_symbol(c, (*e->name + "!" + std::to_string(apps.size())).c_str()), Z3_mk_real_sort(c)))).first;
                r = it->second;
            }
            break;
        default: unsup();
        }
        if (!r) throw EngineError{"Z3 refused " + show(e, 3) + " of width " + std::to_string(e->w) + ": " + Z3_get_error_msg(c, Z3_get_error_code(c))};
        e->z = keep(r);
    }
    return root->z;
}

void collectFuns(E root, std::vector<E>& out, std::unordered_set<E>& seen)
{
    if (!root->hasUF) return;
    std::vector<E> st{root};
    while (!st.empty())
    {
        E e = st.back(); st.pop_back();
        if (!e->hasUF || !seen.insert(e).second) continue;
        if (e->k == K_FUN) out.push_back(e);
        for (E x : e->a) if (x) st.push_back(x);
    }
}

std::string show(E e, int depth)
{
    static const char* kn[] = {"const", "var", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "extract", "concat", "zext", "sext", "==", "u<", "u<=", "s<", "s<=", "ite", "fconst", "fvar", "f+", "f-", "f*", "f/", "fneg", "f==", "f<", "f<=", "uno", "fext", "ftrunc", "sitofp", "uitofp", "fptosi", "fptoui", "fbits", "bitsf", "fun", "floor"};
    if (e->k == K_CONST) return std::to_string(signedOf(e->c, e->w));
    if (e->k == K_VAR || e->k == K_FVAR) return *e->name;
    if (e->k == K_FCONST) return e->f->special == 1 ? "nan" : e->f->special ? "inf" : realMode ? e->f->q.get_str() : std::to_string(e->f->d);
    if (depth <= 0) return "...";
    if (e->k == K_FEXT) return show(e->a[0], depth);
    std::string s = std::string("(") + (e->k == K_FUN ? *e->name : kn[e->k]);
    for (E x : e->a) if (x) s += " " + show(x, depth - 1);
    return s + ")";
}
