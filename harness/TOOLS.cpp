// Helpers on vectors, coordinates and random numbers (C35)
#include "nn.h"
#include <snn/tools/Tools.hpp>
namespace t = snn::tools;

extern "C" void c35coordinates()
{
    // any size up to a limit, or one given size
    const int most = snn_param("most", 6), X = snn_param("X", 0) ? snn_param("X", 0) : snn_choose("X", 1, most), Y = snn_param("Y", 0) ? snn_param("Y", 0) : snn_choose("Y", 1, most), top = snn_param("top", 1000000);
    const int x = snn_int("x", 0, X - 1), y = snn_int("y", 0, Y - 1), z = snn_int("z", 0, top);
    {
        const int i = t::flatten(x, z, X);
        snn_check(i >= 0 && i < X * (top + 1), "a flat coordinate is out of range");
        snn_check(t::roughenX(i, X) == x && t::roughenY(i, X) == z, "two-dimensional coordinates are not recovered");
        // consecutive: the whole of a row, then the next one
        snn_check(t::flatten(0, z + 1, X) == t::flatten(X - 1, z, X) + 1, "rows do not follow each other");
    }
    {
        const int i = t::flatten(x, y, z, X, Y);
        snn_check(i >= 0 && i < X * Y * (top + 1), "a flat coordinate is out of range");
        snn_check(t::roughenX(i, X, Y) == x && t::roughenY(i, X, Y) == y && t::roughenZ(i, X, Y) == z, "three-dimensional coordinates are not recovered");
    }
    {
        const int i = snn_int("i", 0, top);
        snn_check(t::flatten(t::roughenX(i, X), t::roughenY(i, X), X) == i, "a flat coordinate is not recovered in two dimensions");
        snn_check(t::roughenX(i, X) >= 0 && t::roughenX(i, X) < X, "a coordinate is out of range");
        snn_check(t::flatten(t::roughenX(i, X, Y), t::roughenY(i, X, Y), t::roughenZ(i, X, Y), X, Y) == i, "a flat coordinate is not recovered in three dimensions");
        snn_check(t::roughenX(i, X, Y) < X && t::roughenY(i, X, Y) < Y, "a coordinate is out of range");
    }
    snn_reach("end");
}
template <class T> static void flattened(std::function<T()> value)
{
    const int exact = snn_param("exact", 0), rows = exact ? exact : snn_choose("rows", 0, snn_param("rows", 3));   // exact: rows of fixed, different lengths
    int row = 0;
    std::vector<std::vector<T>> v(rows);
    std::vector<T> want;
    for (auto& r : v)
    {
        const int n = exact ? row++ * 7 % snn_param("columns", 3) : snn_choose("columns", 0, snn_param("columns", 3));
        for (int i = 0; i < n; i++) { r.push_back(value()); want.push_back(r.back()); }
    }
    const auto f = t::flatten(v);
    snn_check(f.size() == want.size(), "a flattened vector has another size");
    for (size_t i = 0; i < f.size() && i < want.size(); i++) snn_check(f[i] == want[i], "a flattened vector has other values");
}
extern "C" void c35flatten()
{
    if (snn_param("floats", 1)) flattened<float>([] { return snn_float("v"); });
    else flattened<int>([] { return snn_int("v", -2000000000, 2000000000); });
    snn_reach("end");
}
template <class T> static void extremes(std::function<T()> value)
{
    const int n = snn_param("n", 4), places = snn_param("places", 0);
    std::vector<T> v;
    // one value at some places is arbitrary, or all of them are
    const int at = places ? snn_choose("at", 0, places - 1) * (n - 1) / (places > 1 ? places - 1 : 1) : -1;
    const int slope = places ? snn_choose("slope", 0, 2) - 1 : 0;
    for (int i = 0; i < n; i++) v.push_back(at < 0 || i == at ? value() : slope ? (T)(slope * (2 * i - n)) : (T)(i * 13 % 11 - 5));
    T lo{}, hi{};
    bool thrown = false, thrown2 = false;
    try { lo = t::getMinValue(v); } catch (std::runtime_error&) { thrown = true; }
    try { hi = t::getMaxValue(v); } catch (std::runtime_error&) { thrown2 = true; }
    snn_check(thrown == (n == 0) && thrown2 == (n == 0), "an empty vector has an extreme value, or another one has none");
    if (n == 0) return;
    bool least = true, most = true, in = false, in2 = false;
    for (auto& x : v) { least &= lo <= x; most &= hi >= x; in |= lo == x; in2 |= hi == x; }
    snn_check(least, "the minimum is not the smallest value");
    snn_check(most, "the maximum is not the largest value");
    snn_check(in && in2, "the minimum or maximum is not a value of the data");
}
extern "C" void c35extremes()
{
    if (snn_param("floats", 1)) extremes<float>([] { return snn_float("v"); });
    else extremes<int>([] { return snn_int("v", INT32_MIN, INT32_MAX); });
    snn_reach("end");
}
extern "C" void c35random()
{
    static const int starts[] = {-1000000, -7, -1, 0, 3, 1000000};
    const int lo = starts[snn_choose("start", 0, 5)], width = snn_choose("width", 1, 5), hi = lo + (width == 5 ? 1000 : width);
    {
        const int r = t::randomBetween(lo, hi);
        snn_check(r >= lo && r < hi, "a random integer is out of range");
        snn_observe_i("integer", r);
    }
    if (snn_param("integers", 0)) { snn_reach("end"); return; }
    const float a = snn_float("a"), b = snn_float("b");
    snn_assume(a < b);
    const float r = t::randomBetween(a, b);
    snn_check(r >= a && r <= b, "a random number is out of range");
    const int n = snn_choose("n", 0, 3);
    const V v = t::randomVector(a, b, n);
    snn_check((int)v.size() == n, "a random vector has another size");
    bool in = true;
    for (float x : v) in &= (x >= a) & (x <= b);
    snn_check(in, "a random vector is out of range");
    for (int i = 1; i < n; i++) snn_check(snn_rng_draws() >= 2 + n, "the values of a random vector are not drawn one by one");
    snn_reach("end");
}
// every value of the range can be drawn
extern "C" void c35covers()
{
    const int lo = 4 * snn_choose("lo", -1, 1), width = snn_choose("width", 1, 4), want = snn_choose("value", 0, 3);
    snn_assume(want < width);
    const int r = t::randomBetween(lo, lo + width);
    if (r == lo + want)
    {
        if (want == 0) snn_reach("first");
        if (want == width - 1) snn_reach("last");
    }
    snn_reach("end");
}
// the text of a duration: its parts add up to it, and the smaller one is less than one of the larger
extern "C" void c35duration()
{
    const long ms = snn_int("ms", snn_param("low", 0), snn_param("high", 60000));
    const std::string t = tools::toString(std::chrono::milliseconds(ms));
    // numbers and units, read back
    std::vector<long> n;
    std::vector<std::string> unit;
    for (size_t i = 0; i < t.size();)
    {
        long v = 0;
        bool any = false;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') { v = v * 10 + (t[i] - '0'); any = true; i++; }
        std::string u;
        while (i < t.size() && !(t[i] >= '0' && t[i] <= '9')) { if (t[i] != ' ') u += t[i]; i++; }
        snn_check(any, "a unit without a number");
        n.push_back(v);
        unit.push_back(u);
    }
    auto size = [](const std::string& u) -> long { return u == "h" ? 3600000 : u == "min" ? 60000 : u == "s" ? 1000 : u == "ms" ? 1 : 0; };
    long sum = 0;
    for (size_t i = 0; i < n.size(); i++)
    {
        snn_check(size(unit[i]) > 0, "unit");
        sum += n[i] * size(unit[i]);
        if (i) snn_check(n[i] * size(unit[i]) < size(unit[i - 1]), "a part of a duration is as large as the next larger unit");
    }
    const long last = n.empty() ? 1 : size(unit.back());
    snn_check(sum <= ms, "the text of a duration says more than it is");
    snn_check(ms - sum < last, "the text of a duration says less than it is");
    snn_reach("end");
}
// a number as a text of at least a given length: spaces, then the number
extern "C" void c35pad()
{
    const int top = snn_param("top", 100000);
    const int v = snn_int("v", -top, top), length = snn_param("length", 4);
    const std::string t = tools::toConstSizeString(v, length);
    snn_check((int)t.size() >= length, "a text is too short");
    size_t i = 0;
    while (i < t.size() && t[i] == ' ') i++;
    snn_check(i == 0 || (int)t.size() == length, "a text is padded too far");
    const bool negative = i < t.size() && t[i] == '-';
    if (negative) i++;
    snn_check(i < t.size(), "a text without a number");
    snn_check(t.size() - i == 1 || t[i] != '0', "a leading zero");
    int n = 0;
    bool digits = true;
    for (; i < t.size(); i++) { digits &= t[i] >= '0' && t[i] <= '9'; n = n * 10 + (t[i] - '0'); }
    snn_check(digits, "a text with something else than digits");
    snn_check((negative ? -n : n) == v, "the text of a number is another number");
    snn_reach("end");
}
