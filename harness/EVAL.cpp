// Scores of evaluations (C23, C24, C25), stop criteria (C26), invalid outputs (C36)
#include "nn.h"
#include <snn/data/Data.hpp>
#include <bit>
#include <cmath>

extern "C" int snn_file_exists(const char* path);

// a network whose outputs are its inputs
static NN identityNetwork(int size)
{
    snn_rng_mode(1);
    std::vector<LayerModel> m{Input(size)};
    const int deep = snn_param("deep", 1);       // several layers multiply by a large number: an overflow can be born at the end or before
    for (int l = 0; l < deep; l++) m.push_back(FullyConnected(size, activation::identity));
    NN nn(m, StochasticGradientDescent(0.125f, 0.0f));
    for (auto& l : nn.layers)
    {
        auto n = neuronsOf(*l);
        for (int i = 0; i < size; i++)
        {
            n[i]->weights.assign(n[i]->weights.size(), 0.f);
            n[i]->weights[i] = deep > 1 ? 1e25f : 1;
        }
    }
    return nn;
}

struct Scores
{
    float good = 0, total = 0;
    std::vector<float> tp, fp, fn;
    float absolute = 0, squared = 0;
    explicit Scores(int m) : tp(m, 0.f), fp(m, 0.f), fn(m, 0.f) {}
    void count(int i, bool predicted, bool actual)
    {
        if (predicted && actual) tp[i]++;
        else if (predicted) fp[i]++;
        else if (actual) fn[i]++;
    }
    float rate() const { return good / total; }
    float weighted() const
    {
        float r = 0;
        for (size_t i = 0; i < tp.size(); i++) r += tp[i] == 0 ? 0 : tp[i] / (tp[i] + fn[i]);
        return r / (float)tp.size();
    }
    float f1() const
    {
        float r = 0;
        for (size_t i = 0; i < tp.size(); i++) r += tp[i] == 0 ? 0 : 2 * tp[i] / (2 * tp[i] + fp[i] + fn[i]);
        return r / (float)tp.size();
    }
};

// one evaluation of samples of arbitrary outputs and targets
extern "C" void c23()
{
    const int n = snn_param("samples", 2), m = snn_param("m", 2);
    const auto p = (problem)snn_param("problem", 0);
    NN nn = identityNetwork(m);
    VV in, out;
    std::vector<int> label(n, 0);
    const bool focus = snn_param("focus", 0);   // the outputs and targets of one sample are arbitrary, the others fixed
    const int which = focus ? placeOf("sample", n) : 0;
    const float separator = focus ? 0.4f : snn_float("separator");
    auto fixed = [&](int k, int a, int b) { V v; for (int i = 0; i < m; i++) v.push_back((float)((k * a + i * b + k * i) % (2 * m + 1)) * 0.125f); return v; };
    Scores s(m);
    for (int k = 0; k < n; k++)
    {
        if (focus && k != which)
        {
            in.push_back(fixed(k, 3, 2));
            if (p == problem::classification)
            {
                for (int i = 0; i < m; i++) in[k][i] += 0.001f * (float)i;
                label[k] = (k * k + k / 2) % m;
                out.push_back(V(m, 0.f));
                out[k][label[k]] = 1;
            }
            else out.push_back(fixed(k, 5, 1));
            continue;
        }
        const int single = snn_param("single", 0) ? placeOf("output", m) : -1;      // one output and target of it
        if (single >= 0)
        {
            V v = fixed(k, 3, 2);
            for (int i = 0; i < m; i++) v[i] += 0.001f * (float)i;
            v[single] = snn_float("x");
            in.push_back(v);
        }
        else in.push_back(symV("x", m));
        if (p == problem::classification)
        {
            label[k] = single >= 0 ? (snn_choose("own class", 0, 1) ? single : (k + 1) % m) : snn_choose("class", 0, m - 1);
            V v(m, 0.f);
            v[label[k]] = 1;
            out.push_back(v);
            for (int i = 0; i < m; i++) for (int j = 0; j < i; j++) snn_assume(in[k][i] != in[k][j]);
        }
        else if (single >= 0) { out.push_back(fixed(k, 5, 1)); out[k][single] = snn_float("d"); }
        else out.push_back(symV("d", m));
    }
    Data data(p, in, out);
    data.setSeparator(separator);
    nn.evaluate(data);
    for (int k = 0; k < n; k++)
    {
        bool good = true;
        int best = 0;
        for (int i = 0; i < m; i++)
        {
            if (in[k][i] > in[k][best]) best = i;
            const bool predicted = in[k][i] > separator, actual = p == problem::classification ? i == label[k] : out[k][i] > separator;
            s.count(i, predicted, actual);
            if (predicted != actual) good = false;
        }
        if (p == problem::classification) good = best == label[k];
        s.total++;
        if (good) s.good++;
    }
    snn_check_eq(nn.getGlobalClusteringRate(), s.rate(), "global clustering rate");
    snn_check_eq(nn.getWeightedClusteringRate(), s.weighted(), "weighted clustering rate");
    snn_check_eq(nn.getF1Score(), s.f1(), "F1 score");
    // scores of an evaluation do not depend on the evaluations before it
    if (snn_param("again", 0))
    {
        VV in2(1, V(m, 0.f)), out2(1, V(m, 0.f));
        in2[0][0] = out2[0][0] = 1;
        Data other(p, in2, out2);
        nn.evaluate(other);
        snn_check_eq(nn.getGlobalClusteringRate(), 1, "scores of a second evaluation");
        nn.evaluate(data);
        snn_check_eq(nn.getGlobalClusteringRate(), s.rate(), "scores of a third evaluation");
        snn_check_eq(nn.getF1Score(), s.f1(), "scores of a third evaluation");
    }
    snn_observe_f("rate", nn.getGlobalClusteringRate());
    snn_observe_f("weighted", nn.getWeightedClusteringRate());
    snn_observe_f("f1", nn.getF1Score());
    snn_reach("end");
}

// the errors of the other problems: a class is expected as 1 for its output and 0 for the others
extern "C" void c24classes()
{
    const int n = snn_param("samples", 2), m = snn_param("m", 2), times = snn_param("times", 1);
    const auto p = (problem)snn_param("problem", 0);
    NN nn = identityNetwork(m);
    VV in, out;
    const bool focus = snn_param("focus", 0);
    const int which = focus ? placeOf("sample", n) : 0, one = focus ? placeOf("output", m) : 0;
    for (int k = 0; k < n; k++)
    {
        if (!focus) in.push_back(symV("x", m));
        else
        {
            in.push_back(V(m));
            for (int i = 0; i < m; i++) in[k][i] = (float)((k * 3 + i) % 7) * 0.375f - 0.5f;
            if (k == which) in[k][one] = snn_float("x");
        }
        if (p == problem::classification)
        {
            out.push_back(V(m, 0.f));
            out[k][focus ? (k + k / 2) % m : snn_choose("class", 0, m - 1)] = 1;
        }
        else if (!focus) out.push_back(symV("d", m));
        else
        {
            out.push_back(V(m));
            for (int i = 0; i < m; i++) out[k][i] = (float)((k * 2 + i * 3) % 5) * 0.25f - 0.25f;
            if (k == which) out[k][one] = snn_float("d");
        }
    }
    Data data(p, in, out);
    data.setSeparator(snn_float("separator"));
    for (int t = 0; t < times; t++) nn.evaluate(data);
    float absolute = 0, squared = 0;
    for (int k = 0; k < n; k++)
        for (int i = 0; i < m; i++)
        {
            const float e = out[k][i] - in[k][i];
            absolute += e < 0 ? -e : e;
            squared += e * e;
        }
    snn_check_eq(nn.getMeanAbsoluteError(), absolute / (float)n, "mean absolute error of a classification");
    snn_check_eq(nn.getRootMeanSquaredError(), std::sqrt(squared / (float)n), "root mean squared error of a classification");
    snn_observe_f("mae", nn.getMeanAbsoluteError());
    snn_observe_f("rmse", nn.getRootMeanSquaredError());
    snn_reach("end");
}

extern "C" void c24()
{
    const int n = snn_param("samples", 2), m = snn_param("m", 1), times = snn_param("times", 1);
    NN nn = identityNetwork(m);
    VV in, out;
    const bool focus = snn_param("focus", 0);   // one output and its target are arbitrary, the others fixed
    const int which = focus ? placeOf("sample", n) : 0, one = focus ? placeOf("output", m) : 0;
    for (int k = 0; k < n; k++)
    {
        if (!focus) { in.push_back(symV("x", m)); out.push_back(symV("d", m)); continue; }
        in.push_back(V(m)); out.push_back(V(m));
        for (int i = 0; i < m; i++) { in[k][i] = (float)((k * 3 + i) % 7) * 0.125f; out[k][i] = (float)((k * 2 + i * 3) % 5) * 0.25f - 0.25f; }
        if (k == which) { in[k][one] = snn_float("x"); out[k][one] = snn_float("d"); }
    }
    float precision = 0.1f;
    Data data(problem::regression, in, out);
    if (snn_param("precise", 1))
    {
        precision = snn_float("precision");
        snn_assume(precision >= 0);
        data.setPrecision(precision);
    }
    for (int t = 0; t < times; t++) nn.evaluate(data);
    float absolute = 0, squared = 0, good = 0;
    for (int k = 0; k < n; k++)
    {
        bool all = true;
        for (int i = 0; i < m; i++)
        {
            const float e = out[k][i] - in[k][i], a = e < 0 ? -e : e;
            absolute += a;
            squared += e * e;
            if (a > precision) all = false;
        }
        if (all) good++;
    }
    snn_check_eq(nn.getMeanAbsoluteError(), absolute / (float)n, "mean absolute error");
    snn_check_eq(nn.getRootMeanSquaredError(), std::sqrt(squared / (float)n), "root mean squared error");
    snn_check_eq(nn.getGlobalClusteringRate(), good / (float)n, "rate of samples within the precision");
    snn_observe_f("mae", nn.getMeanAbsoluteError());
    snn_observe_f("rmse", nn.getRootMeanSquaredError());
    snn_reach("end");
}

// best scores of a series of evaluations of different data
extern "C" void c25()
{
    const int times = snn_param("times", 3), n = snn_param("samples", 1), m = snn_param("m", 1);
    const auto p = (problem)snn_param("problem", 1);
    NN nn = identityNetwork(m);
    const int fixed = snn_param("fixed", 0); // the first evaluations are of given values
    float rate = 0, weighted = 0, f1 = 0, mae = 0, rmse = 0;
    for (int t = 0; t < times; t++)
    {
        VV in, out;
        int given = t * 7;
        auto pick = [&](const char* name, int top) { return t < fixed ? given++ % 11 % (top + 1) : snn_choose(name, 0, top); };
        for (int k = 0; k < n; k++)
        {
            if (p == problem::regression && t < fixed) { V x(m); for (float& v : x) v = 0.5f * (given++ % 7 - 3); in.push_back(x); out.push_back(V(m, 0.f)); }
            else if (p == problem::regression) { in.push_back(symV("x", m)); out.push_back(V(m, 0.f)); }
            else
            {
                // outputs and targets on either side of the separator
                V x(m), d(m);
                for (int i = 0; i < m; i++) { x[i] = (float)pick("predicted", 1); d[i] = (float)pick("actual", 1); }
                if (p == problem::classification)
                {
                    const int c = pick("class", m - 1);
                    for (int i = 0; i < m; i++) d[i] = i == c ? 1.f : 0.f;
                    x[pick("largest", m - 1)] += 0.25f;
                }
                in.push_back(x);
                out.push_back(d);
            }
        }
        Data data(p, in, out);
        nn.evaluate(data);
        const float r = nn.getGlobalClusteringRate(), w = nn.getWeightedClusteringRate(), f = nn.getF1Score(), a = nn.getMeanAbsoluteError(), q = nn.getRootMeanSquaredError();
        const bool better = t == 0 || r > rate;
        rate = t == 0 || r > rate ? r : rate;
        weighted = t == 0 || w > weighted ? w : weighted;
        f1 = t == 0 || f > f1 ? f : f1;
        mae = t == 0 || a < mae ? a : mae;
        rmse = t == 0 || q < rmse ? q : rmse;
        snn_check_eq(nn.getGlobalClusteringRateMax(), rate, "best global clustering rate");
        snn_check_eq(nn.getWeightedClusteringRateMax(), weighted, "best weighted clustering rate");
        snn_check_eq(nn.getF1ScoreMax(), f1, "best F1 score");
        snn_check_eq(nn.getMeanAbsoluteErrorMin(), mae, "best mean absolute error");
        snn_check_eq(nn.getRootMeanSquaredErrorMin(), rmse, "best root mean squared error");
        snn_check(nn.globalClusteringRateIsBetterThanMax == better, "an evaluation is reported as better when it is not, or not when it is");
        snn_observe_f("rate", r);
        snn_observe_f("f1", f);
        snn_observe_f("mae", a);
    }
    snn_reach("end");
}

// stop criteria. kinds: 0 epochs, 1 accuracy, 2 error, 3 duration
struct Bound { int kind; int i = 0; float f = 0; };
static Wait criterion(int kind, Bound& b)
{
    b.kind = kind;
    switch (kind)
    {
    case 0: b.i = snn_int("epochs", 0, 1000000); return snn::operator""_ep((unsigned long long)b.i);
    case 1: b.f = snn_float("accuracy"); snn_assume(b.f >= 0 && b.f <= 1); return snn::operator""_acc((long double)b.f);
    case 2: b.f = snn_float("mae"); snn_assume(b.f >= 0 && b.f <= 1000); return snn::operator""_mae((long double)b.f);
    case 3: b.i = snn_int("ms", 0, 2000000000); return snn::operator""_ms((unsigned long long)b.i);
    case 4: b.i = snn_int("s", 0, 2000000); { auto w = snn::operator""_s((unsigned long long)b.i); b.i *= 1000; b.kind = 3; return w; }
    default: b.i = snn_int("min", 0, 30000); { auto w = snn::operator""_min((unsigned long long)b.i); b.i *= 60000; b.kind = 3; return w; }
    }
}
static bool reached(const Bound& b, int epochs, float accuracy, float mae, int ms)
{
    switch (b.kind)
    {
    case 0: return (epochs > b.i) & (epochs > 0);
    case 1: return (accuracy >= b.f) & (accuracy > 0);
    case 2: return (mae <= b.f) & (mae > 0);
    default: return ms >= b.i;
    }
}
extern "C" void c26()
{
    const int count = snn_param("count", 2), kinds = snn_param("kinds", 6), first = snn_param("first", -1);
    std::vector<Bound> b(count);
    Wait w = criterion(first >= 0 ? first : snn_choose("kind", 0, kinds - 1), b[0]);
    const int op = count > 1 ? snn_choose("operator", 0, 1) : 0;
    // either way of grouping three criteria
    const bool right = count > 2 && snn_param("right", 0);
    if (!right)
        for (int i = 1; i < count; i++)
        {
            Wait c = criterion(snn_choose("kind", 0, kinds - 1), b[i]);
            w = op ? w && c : w || c;
        }
    else
    {
        Wait c = criterion(snn_choose("kind", 0, kinds - 1), b[1]);
        for (int i = 2; i < count; i++)
        {
            Wait d = criterion(snn_choose("kind", 0, kinds - 1), b[i]);
            c = op ? c && d : c || d;
        }
        w = op ? w && c : w || c;
    }
    w.startClock();
    const int epochs = snn_int("current epochs", 0, 1000000);
    // -1: no value yet
    const float accuracy = snn_float("current accuracy"), mae = snn_float("current mae");
    snn_assume((accuracy == -1) | ((accuracy >= 0) & (accuracy <= 1)));
    snn_assume((mae == -1) | (mae >= 0));
    const bool over = w.isOver(epochs, accuracy, mae);
    bool timed = false;
    for (auto& x : b) timed |= x.kind == 3;
    const int ms = timed ? (int)((snn_clock(1) - snn_clock(0)) / 1000000) : 0;
    bool any = false, all = true;
    for (auto& x : b)
    {
        const bool r = reached(x, epochs, accuracy, mae, ms);
        any |= r;
        all &= r;
    }
    snn_check(over == (count > 1 && op ? all : any), "a criterion is over, or not, against its operators");
    snn_observe_i("over", over);
    snn_reach("end");
}
// one operator inside the other is refused, wherever it is
extern "C" void c26mixed()
{
    Bound b;
    const int shape = snn_choose("shape", 0, 5);
    Wait p = criterion(snn_choose("kind", 0, 3), b), q = criterion(snn_choose("kind", 0, 3), b), r = criterion(snn_choose("kind", 0, 3), b), s = criterion(snn_choose("kind", 0, 3), b);
    bool thrown = false;
    try
    {
        switch (shape)
        {
        case 0: (p || q) && r; break;
        case 1: (p && q) || r; break;
        case 2: p && (q || r); break;
        case 3: p || (q && r); break;
        case 4: (p || q) && (r || s); break;
        default: (p && q) || (r && s); break;
        }
    }
    catch (std::exception&) { thrown = true; }
    snn_check(thrown, "mixed operators are accepted");
    snn_reach("end");
}

// outputs that are not finite, in the bits
static bool finiteBits(float v) { return (std::bit_cast<uint32_t>(v) & 0x7f800000u) != 0x7f800000u; }
static bool nanBits(float v) { return (std::bit_cast<uint32_t>(v) & 0x7fffffffu) > 0x7f800000u; }
extern "C" void c36output()
{
    const int m = snn_param("m", 2), times = snn_param("times", 2);
    const bool training = snn_param("training", 0);
    NN nn = identityNetwork(m);
    snn_check(!nn.hasNan(), "a new network reports an invalid output");
    bool expectedNan = false;
    const VV before = weightsOf(nn);
    for (int t = 0; t < times; t++)
    {
        V x(m, 0.25f);
        if (snn_param("neuron", 0)) neuronsOf(*nn.layers[0])[snn_choose("which", 0, m - 1)]->weights[m] = snn_float("bias");   // only one output is arbitrary
        else if (snn_param("one", 0)) x[snn_choose("which", 0, m - 1)] = snn_float("x");
        else x = symV("x", m);
        if (!training)
        {
            const V o = nn.computeOutput(x);
            for (float v : o) expectedNan |= !finiteBits(v);
        }
        else
        {
            const V o = nn.outputForTraining(x, true);
            for (float v : o) expectedNan |= !finiteBits(v);
        }
        snn_check(nn.hasNan() == expectedNan, "invalid outputs are not reported, or finite ones are");
    }
    snn_observe_i("nan", nn.hasNan());
    snn_reach("end");
}
extern "C" void c36train()
{
    const int m = snn_param("m", 1);
    NN nn = identityNetwork(m);
    V x(m, 0.25f), d(m, 0.5f);
    const int which = snn_choose("which", 0, m - 1);
    if (snn_param("neuron", 0)) neuronsOf(*nn.layers[0])[which]->weights[m] = snn_float("bias");
    else x[which] = snn_float("x");
    d[which] = snn_float("d");
    const VV before = weightsOf(nn);
    nn.trainOnce(x, d);
    if (!nn.hasNan()) { snn_reach("valid"); return; }
    auto same = [&](const char* msg)
    {
        const VV now = weightsOf(nn);
        for (size_t i = 0; i < now.size(); i++)
            for (size_t j = 0; j < now[i].size(); j++) snn_check(std::bit_cast<uint32_t>(now[i][j]) == std::bit_cast<uint32_t>(before[i][j]), msg);
    };
    same("a training step with an invalid output changes the parameters");
    nn.trainOnce(V(m, 0.5f), V(m, 1.f));
    snn_check(nn.hasNan(), "an invalid output is forgotten");
    same("a training step after an invalid output changes the parameters");
    snn_reach("end");
}
// an evaluation or a training that meets an invalid output
extern "C" void c36scores()
{
    const int n = snn_param("samples", 2), how = snn_param("how", 0);
    const auto p = (problem)snn_param("problem", 2);
    const int m = snn_param("m", 2);
    NN nn = identityNetwork(m);
    VV in, out;
    const int which = snn_param("one", 0) ? snn_choose("which", 0, n - 1) : -1;
    for (int k = 0; k < n; k++)
    {
        in.push_back(V(m, 0.25f));
        in.back()[snn_param("last", 0) ? m - 1 : 0] = which < 0 || which == k ? snn_float("x") : 0.5f;
        out.push_back(V(m, 0.f));
        out.back()[k % m] = 1;
    }
    bool bad = false;
    for (auto& v : in) bad |= !finiteBits(v[0]) | !finiteBits(v[m - 1]);
    snn_assume(bad);
    Data data(p, in, out);
    if (snn_param("first", 0))
    {
        V one(m, 0.f);
        one[0] = 1;
        VV a(1, one), c(1, one);
        Data fine(p, a, c);
        nn.evaluate(fine);
    }
    if (how == 0) nn.evaluate(data);
    else nn.train(data, snn::operator""_ep(2), 1, how == 1 ? 1 : 0);
    snn_check(nn.hasNan(), "an invalid output is not reported");
    snn_check(nanBits(nn.getGlobalClusteringRate()) && nanBits(nn.getWeightedClusteringRate()) && nanBits(nn.getF1Score()) && nanBits(nn.getMeanAbsoluteError()) && nanBits(nn.getRootMeanSquaredError()), "scores after an invalid output are not NaN");
    snn_check(!nn.isTraining(), "the network is not idle after an invalid output");
    snn_reach("end");
}
