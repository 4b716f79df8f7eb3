// Data sets (C17 to C22)
#include "nn.h"
#include <snn/data/Data.hpp>

// expects: an arrangement of the indexes 0..n-1, each once
static void permutation(const std::vector<int>& p, int n, const char* msg)
{
    snn_check((int)p.size() == n, msg);
    std::vector<int> seen(n, 0);
    for (int i : p)
    {
        snn_check(i >= 0 && i < n, msg);
        seen[i]++;
    }
    for (int i = 0; i < n; i++) snn_check(seen[i] == 1, msg);
}
static VV samples(const char* name, int n, int size)
{
    VV r;
    for (int i = 0; i < n; i++) r.push_back(symV(name, size));
    return r;
}

// shuffling of non-temporal data, any number of times, then unshuffling
extern "C" void c17()
{
    const int n = snn_param("n", 3), times = snn_param("times", 1);
    const auto p = (problem)snn_param("problem", 2);
    const bool separate = snn_param("separate", 0);
    VV in = samples("in", n, 1), out, tin, tout;
    for (int i = 0; i < n; i++)
        if (p == problem::classification) { V v(n, 0); v[(i * 2 + 1) % n] = 1; out.push_back(v); }
        else out.push_back(V{snn_float("out"), 0.25f});
    tin = samples("tin", 2, 1);
    tout = {V(out[0].size(), 0.f), V(out[0].size(), 0.f)};
    tout[0][0] = tout[1][1] = 1;
    auto data = separate ? std::make_unique<Data>(p, in, out, tin, tout) : std::make_unique<Data>(p, in, out);
    if (!separate) { tin = in; tout = out; }
    if (snn_param("fixed", 0)) snn_rng_mode(1);   // one outcome of the draws
    for (int t = 0; t < times; t++) data->shuffle();
    permutation(data->sets[training].shuffledIndexes, n, "a sample is not presented exactly once");
    std::vector<int> seen(n, 0);
    for (int i = 0; i < n; i++)
    {
        const V& x = data->getTrainingData(i);
        const V& y = data->getTrainingOutputs(i);
        int which = -1;
        for (int k = 0; k < n; k++) if (&x == &data->sets[training].inputs[k]) which = k;
        snn_check(which >= 0, "a presented sample is not one of the data");
        if (which < 0) return;
        seen[which]++;
        checkExact(x, in[which], "a presented sample is not one of the data");
        checkExact(y, out[which], "a sample is not paired with its own target");
        checkExact(data->getOutputs(training, i), out[which], "a sample is not paired with its own target");
        if (p == problem::classification)
        {
            snn_check(data->getTrainingLabel(i) == (which * 2 + 1) % n, "a sample is not paired with its own class");
            snn_check(data->getLabel(training, i) == (which * 2 + 1) % n, "a sample is not paired with its own class");
        }
        snn_check(data->needToLearnOnTrainingData(i), "a sample is not trained on");
    }
    for (int i = 0; i < n; i++) snn_check(seen[i] == 1, "a sample is not presented exactly once");
    for (size_t i = 0; i < tin.size(); i++)
    {
        checkExact(data->getTestingData(i), tin[i], "the testing set is reordered");
        if (p != problem::classification) checkExact(data->getTestingOutputs(i), tout[i], "the testing set is reordered");
        else snn_check(tout[i][data->getTestingLabel(i)] == 1, "the testing set is reordered");
        snn_check(data->needToEvaluateOnTestingData(i), "a testing sample is not evaluated");
    }
    data->unshuffle();
    for (int i = 0; i < n; i++)
    {
        checkExact(data->getTrainingData(i), in[i], "unshuffling does not restore the order");
        checkExact(data->getTrainingOutputs(i), out[i], "unshuffling does not restore the order");
    }
    snn_reach("end");
}
// with n = 3: every order can come out (the shuffle is not a constant arrangement)
extern "C" void c17all()
{
    VV in{{0.f}, {1.f}, {2.f}}, out{{0.f}, {1.f}, {2.f}};
    Data data(problem::regression, in, out);
    data.shuffle();
    auto& s = data.sets[training].shuffledIndexes;
    std::string tag = "order ";
    for (int i = 0; i < 3; i++) tag += std::to_string(snn_concrete(s[i]));
    snn_reach(tag.c_str());
    snn_reach("end");
}

// sequences of given lengths; shuffled
extern "C" void c18()
{
    const int ns = snn_param("sequences", 3), times = snn_param("times", 1);
    const bool separate = snn_param("separate", 0);
    std::vector<int> len;
    std::vector<VV> in, tin;
    VV out, tout;
    int total = 0;
    for (int s = 0; s < ns; s++)
    {
        len.push_back(snn_param("pattern", 0) ? 1 + (s * 5 + 3) % snn_param("longest", 3) : snn_choose("length", 1, snn_param("longest", 3)));
        in.push_back(samples("in", len.back(), 1));
        for (int k = 0; k < len.back(); k++) out.push_back(V{snn_float("out")});
        total += len.back();
    }
    if (const int tests = separate ? snn_param("tests", 0) : 0)
        for (int s = 0; s < tests; s++)
        {
            const int l = snn_param("pattern", 0) ? 1 + (s * 3 + 1) % snn_param("longest", 3) : snn_choose("testing length", 1, snn_param("longest", 3));
            tin.push_back(samples("tin", l, 1));
            for (int k = 0; k < l; k++) tout.push_back(V{snn_float("tout")});
        }
    else
    {
        tin = {samples("tin", 2, 1), samples("tin", 1, 1)};
        tout = {V{snn_float("tout")}, V{snn_float("tout")}, V{snn_float("tout")}};
    }
    auto given = in, tgiven = tin;
    auto data = separate ? std::make_unique<Data>(problem::regression, in, out, tin, tout, nature::sequential) : std::make_unique<Data>(problem::regression, in, out, nature::sequential);
    if (!separate) { tgiven = given; tout = out; }
    if (snn_param("pattern", 0)) snn_rng_mode(1);   // one outcome of the draws
    for (int t = 0; t < times; t++) data->shuffle();
    auto& p = data->sets[training].shuffledIndexes;
    permutation(p, total, "a step is not used exactly once");
    std::vector<int> startOf(total, -1), endOf(total, -1);
    for (int s = 0, i = 0; s < ns; i += len[s++]) { startOf[i] = s; endOf[i + len[s] - 1] = s; }
    for (int i = 0; i < total; i++)
    {
        int k = snn_concrete(p[i]);
        int s = 0, j = k;
        while (j >= len[s]) j -= len[s++];
        checkExact(data->getTrainingData(i), given[s][j], "a presented step is not one of the data");
        checkExact(data->getTrainingOutputs(i), out[k], "a step is not paired with its own target");
        snn_check(data->isFirstTrainingDataOfTemporalSequence(i) == (startOf[k] >= 0), "the starts of the sequences are not marked");
        snn_check(data->needToLearnOnTrainingData(i), "a step is not learned");
        if (startOf[k] < 0) snn_check(i > 0 && p[i - 1] == k - 1, "a sequence is not whole and in order");
    }
    int i = 0;
    for (size_t s = 0; s < tgiven.size(); s++)
        for (size_t j = 0; j < tgiven[s].size(); j++, i++)
        {
            checkExact(data->getTestingData(i), tgiven[s][j], "the testing set is reordered");
            checkExact(data->getTestingOutputs(i), tout[i], "the testing set is reordered");
            snn_check(data->isFirstTestingDataOfTemporalSequence(i) == (j == 0), "the starts of the testing sequences are not marked");
            snn_check(data->needToEvaluateOnTestingData(i) == (j + 1 == tgiven[s].size()), "evaluation is not at the last step of each sequence");
        }
    data->unshuffle();
    for (int k = 0; k < total; k++) snn_check(p[k] == k, "unshuffling does not restore the order");
    snn_reach("end");
}

// time series
extern "C" void c19()
{
    const int times = snn_param("times", 3), R = snn_param("R", 1), n = snn_param("pattern", 0) ? snn_param("n", 7) : snn_choose("size", R + 1, snn_param("n", 7)), tests = snn_param("tests", 0);
    VV in = samples("in", n, 1), out = samples("out", n, 1);
    VV tin = tests ? samples("tin", tests, 1) : in, tout = tests ? samples("tout", tests, 1) : out;
    auto given = in, wanted = out, tgiven = tin, twanted = tout;
    auto made = tests ? std::make_unique<Data>(problem::regression, given, wanted, tgiven, twanted, nature::timeSeries, R) : std::make_unique<Data>(problem::regression, given, wanted, nature::timeSeries, R);
    Data& data = *made;
    if (snn_param("pattern", 0)) snn_rng_mode(1);   // one outcome of the draws
    for (int t = 0; t <= times; t++)
    {
        if (t) data.shuffle();
        auto& s = data.sets[training];
        snn_check((int)s.shuffledIndexes.size() == n, "a position leaves the series");
        int run = 0;
        bool any = false;
        for (int i = 0; i < n; i++)
        {
            int k = snn_concrete(s.shuffledIndexes[i]);
            snn_check(k >= 0 && k < n, "a position leaves the series");
            checkExact(data.getTrainingData(i), in[k], "a presented step is not one of the series");
            checkExact(data.getTrainingOutputs(i), out[k], "a step is not paired with its own target");
            const bool first = data.isFirstTrainingDataOfTemporalSequence(i);
            if (i == 0) snn_check(first, "the first position is not marked as a start");
            const bool jump = i > 0 && s.shuffledIndexes[i - 1] + 1 != k;
            if (jump) snn_check(first, "a jump is not marked as a start");
            run = first ? 0 : run + 1;
            any |= data.needToLearnOnTrainingData(i);
            if (t) if (data.needToLearnOnTrainingData(i) && i >= R) snn_check(run >= R, "learning before the required number of recurrences");
        }
        snn_check(any, "nothing is learned");
    }
    snn_check(data.sets[testing].size == (int)tin.size(), "the testing set is of another size");
    for (int i = 0; i < (int)tin.size(); i++)
    {
        checkExact(data.getTestingData(i), tin[i], "the testing set is reordered");
        checkExact(data.getTestingOutputs(i), tout[i], "the testing set is reordered");
        snn_check(data.isFirstTestingDataOfTemporalSequence(i) == (i == 0), "the testing series is cut");
        snn_check(data.needToEvaluateOnTestingData(i), "a testing step is not evaluated");
    }
    data.unshuffle();
    for (int i = 0; i < n; i++)
    {
        checkExact(data.getTrainingData(i), in[i], "unshuffling does not restore the order");
        snn_check(data.isFirstTrainingDataOfTemporalSequence(i) == (i == 0), "unshuffling does not restore the starts");
        snn_check(data.needToLearnOnTrainingData(i), "unshuffling does not restore the learning marks");
    }
    snn_reach("end");
}

// batches
extern "C" void c20()
{
    const int n = snn_param("n", 4), b = placeOf("batch", n + 1), dim = snn_param("dim", 2), lab = snn_param("labels", 2);
    const int stride = snn_param("stride", 0);   // 0: any order, otherwise one order
    const auto p = (problem)snn_param("problem", 2);
    VV in = samples("in", n, dim), out = samples("out", n, lab);
    Data data(p, in, out);
    // an arbitrary order
    auto& s = data.sets[training].shuffledIndexes;
    std::vector<int> left;
    for (int i = 0; i < n; i++) left.push_back(i);
    for (int i = 0; i < n; i++)
    {
        int k = stride ? stride % (int)left.size() : snn_choose("order", 0, (int)left.size() - 1);
        s[i] = left[k];
        left.erase(left.begin() + k);
    }
    const int size = b < 1 ? 1 : b;
    for (int at = 0; at + size <= n; at++)
    {
        V x(dim, 0), y(lab, 0);
        for (int j = 0; j < size; j++)
            for (int d = 0; d < std::max(dim, lab); d++)
            {
                if (d < dim) x[d] += in[s[at + j]][d];
                if (d < lab) y[d] += out[s[at + j]][d];
            }
        for (auto& v : x) v /= size;
        for (auto& v : y) v /= size;
        checkSame(data.getTrainingData(at, b), x, "input of a batch");
        checkSame(data.getTrainingOutputs(at, b), y, "target of a batch");
    }
    for (int i = 0; i < n; i++)
    {
        checkExact(data.sets[training].inputs[i], in[i], "the data are modified");
        checkExact(data.sets[training].labels[i], out[i], "the data are modified");
    }
    snn_reach("end");
}

// normalization: smallest to min, largest to max, the others and the testing data by the same affine map
extern "C" void c21()
{
    const int n = snn_param("n", 3), dim = snn_param("dim", 1), t = snn_param("t", 2);
    const bool constant = snn_param("constant", 0);
    VV in = samples("in", n, dim), tin = samples("tin", t, dim), out(n, V{1.f}), tout(t, V{1.f});
    if (constant) for (auto& v : in) v[0] = in[0][0];
    int last = 0;   // compared last: the others are constants
    if (snn_param("focus", 0))
    {
        // only two values of one feature are arbitrary
        const int d = placeOf("feature", dim), i = last = placeOf("sample", n);
        const float a = snn_param("focus", 0) == 2 ? (snn_choose("largest", 0, 1) ? 1000.f : -1000.f) : in[i][d], b = tin[t - 1][d];      // 2: one extreme value
        for (int k = 0; k < n; k++) for (int j = 0; j < dim; j++) in[k][j] = (float)((k * 7 + j * 5) % n) - j;
        for (int k = 0; k < t; k++) for (int j = 0; j < dim; j++) tin[k][j] = (float)((k * 5 + j * 3) % (2 * t)) - 2 * j;
        in[i][d] = a;
        tin[t - 1][d] = b;
    }
    const bool given = snn_param("focus", 0) != 0;
    const float lo = given ? -3.f : snn_float("lo"), hi = given ? 5.f : snn_float("hi");
    snn_assume(lo < hi);
    std::unique_ptr<Data> data = t ? std::make_unique<Data>(problem::regression, in, out, tin, tout) : std::make_unique<Data>(problem::regression, in, out);
    if (!t) tin = in;
    data->normalize(lo, hi);
    for (int d = 0; d < dim; d++)
    {
        float a = in[(last + 1) % n][d], b = a;
        for (int j = 1; j < n; j++) { const float v = in[(last + 1 + j) % n][d]; a = v < a ? v : a; b = v > b ? v : b; }
        auto& now = data->sets[training].inputs;
        if (constant && d == 0) { for (int i = 0; i < n; i++) snn_check_eq(now[i][d], lo, "a constant feature leaves the range"); continue; }
        snn_assume(a < b);
        for (int i = 0; i < n; i++)
        {
            snn_check_eq((now[i][d] - lo) * (b - a), (in[i][d] - a) * (hi - lo), "training data not mapped affinely");
            snn_check(now[i][d] >= lo && now[i][d] <= hi, "training data leave the range");
        }
        for (size_t i = 0; i < tin.size(); i++)
            snn_check_eq((data->sets[testing].inputs[i][d] - lo) * (b - a), (tin[i][d] - a) * (hi - lo), "testing data not mapped by the same map");
    }
    for (int i = 0; i < n; i++) checkExact(data->sets[training].labels[i], out[i], "targets are changed");
    snn_reach("end");
}

// every reader of an accepted data set, at every index
static void readAll(Data& d)
{
    float sum = 0;
    for (int round = 0; round < 3; round++)
    {
        for (int i = 0; i < d.sets[training].size; i++)
        {
            snn_check((int)d.getTrainingData(i).size() == d.sizeOfData, "size of a sample");
            snn_check((int)d.getTrainingOutputs(i).size() == d.numberOfLabels, "size of a target");
            for (float v : d.getTrainingData(i)) sum += v;
            for (float v : d.getTrainingOutputs(i)) sum += v;
            (void)d.isFirstTrainingDataOfTemporalSequence(i);
            (void)d.needToLearnOnTrainingData(i);
            if (d.typeOfProblem == problem::classification) snn_check(d.getTrainingLabel(i) >= 0 && d.getTrainingLabel(i) < d.numberOfLabels, "class of a sample");
        }
        for (int i = 0; i < d.sets[testing].size; i++)
        {
            snn_check((int)d.getTestingData(i).size() == d.sizeOfData, "size of a testing sample");
            for (float v : d.getTestingData(i)) sum += v;
            (void)d.isFirstTestingDataOfTemporalSequence(i);
            (void)d.needToEvaluateOnTestingData(i);
            if (d.typeOfProblem == problem::classification) snn_check(d.getTestingLabel(i) >= 0 && d.getTestingLabel(i) < d.numberOfLabels, "class of a testing sample");
            else
            {
                snn_check((int)d.getTestingOutputs(i).size() == d.numberOfLabels, "size of a testing target");
                for (float v : d.getTestingOutputs(i)) sum += v;
            }
        }
        snn_rng_mode(1);
        if (round < 2) d.shuffle(); else d.unshuffle();
    }
    d.normalize(0, 1);
    snn_observe_f("sum", sum);
}
// two-dimensional data of any small sizes
extern "C" void c22()
{
    const auto p = (problem)snn_param("problem", 2);
    const auto nat = (nature)snn_param("nature", 0);
    const int most = snn_param("most", 2), least = snn_param("least", 0), L = p == problem::classification ? 2 : 1;
    const bool separate = snn_param("separate", 1);
    // larger data sets: either the numbers differ or one sample does
    const bool counts = !least || snn_choose("numbers differ", 0, 1);
    const int low = counts ? least : most;
    const int a = snn_choose("inputs", low, most), b = snn_choose("labels", low, most);
    const int c = separate ? snn_choose("testing inputs", low, most) : a, d = separate ? snn_choose("testing labels", low, most) : b;
    const int R = nat == nature::timeSeries ? snn_choose("recurrences", least ? most - 2 : -1, least ? most + 1 : 2) : 0;
    // one of the samples may have another size: 0 none, 1 a training input, 2 a training target, 3 a testing input, 4 a testing target
    const int odd = least && counts ? 0 : snn_choose("odd one", 0, separate ? 4 : 2), oddSize = odd ? snn_choose("odd size", 0, 3) : 0, which = odd || !least ? snn_choose("position of the odd one", 0, least ? most - 1 : 1) : 0;
    auto fill = [&](int n, int size, int kind)
    {
        VV r;
        for (int i = 0; i < n; i++)
        {
            const bool target = kind == 2 || kind == 4;
            V v(kind == odd && i == which ? oddSize : size, target ? 0.f : 0.5f);
            if (target && !v.empty()) v[0] = 1;
            r.push_back(v);
        }
        return r;
    };
    VV in = fill(a, 2, 1), out = fill(b, L, 2), tin = fill(c, 2, 3), tout = fill(d, L, 4);
    bool good = a > 0 && a == b && c > 0 && c == d;
    auto same = [&](const VV& x, const VV& ref) { for (auto& v : x) if (v.size() != ref.back().size() || v.empty()) good = false; };
    if (good) { same(in, in); same(out, out); if (separate) { same(tin, in); same(tout, out); } }
    if (good && p == problem::classification && out[0].size() < 2) good = false;
    if (nat == nature::sequential) good = false;
    if (nat == nature::timeSeries && (R < 1 || a < R + 1)) good = false;
    std::unique_ptr<Data> data;
    bool thrown = false;
    try
    {
        data = separate ? std::make_unique<Data>(p, in, out, tin, tout, nat, R) : std::make_unique<Data>(p, in, out, nat, R);
    }
    catch (std::exception&) { thrown = true; }
    if (good) snn_check(!thrown, "well-formed data are refused");
    else snn_check(thrown, "malformed data are accepted");
    if (!thrown) { readAll(*data); snn_reach("accepted"); }
    else snn_reach("refused");
    snn_reach("end");
}
// three-dimensional (sequential) data
extern "C" void c22seq()
{
    const auto p = (problem)snn_param("problem", 2);
    const int L = p == problem::classification ? 2 : 1;
    const bool separate = snn_param("separate", 1);
    auto nat = (nature)snn_choose("nature", 0, 2);
    if (nat == nature::timeSeries) snn_assume(false);
    auto sequences = [&](const char* n, const char* m, int& total)
    {
        std::vector<VV> r(snn_choose(n, 0, snn_param("sequences", 2)));
        total = 0;
        for (auto& s : r) { s = VV(snn_choose(m, 0, snn_param("longest", 2)), V{0.5f}); total += (int)s.size(); }
        return r;
    };
    int a = 0, c = 0;
    auto in = sequences("sequences", "length", a);
    std::vector<VV> tin;
    if (separate) tin = sequences("testing sequences", "testing length", c);
    const int top = snn_param("labels", 3), b = snn_choose("labels", 0, top), d = separate ? snn_choose("testing labels", 0, top) : b;
    V y(L, 0.f);
    y[0] = 1;
    VV out(b, y), tout(d, y);
    bool good = nat == nature::sequential && a > 0 && a == b && (!separate || (c > 0 && c == d));
    for (auto& s : in) if (s.empty()) good = false;
    for (auto& s : tin) if (s.empty()) good = false;
    std::unique_ptr<Data> data;
    bool thrown = false;
    try
    {
        data = separate ? std::make_unique<Data>(p, in, out, tin, tout, nat) : std::make_unique<Data>(p, in, out, nat);
    }
    catch (std::exception&) { thrown = true; }
    if (good) snn_check(!thrown, "well-formed data are refused");
    else snn_check(thrown, "malformed data are accepted");
    if (!thrown) { readAll(*data); snn_reach("accepted"); }
    else snn_reach("refused");
    snn_reach("end");
}
