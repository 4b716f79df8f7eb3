// Forward pass of the feed-forward layers (C04, C05, C06, C07)
#include "nn.h"

static void stack(std::vector<LayerModel> models, const std::vector<Ref>& refs, bool training)
{
    snn_rng_mode(1);
    NN nn(models);
    snn_rng_mode(0);
    symWeights(nn);
    V x = symV("x", refs[0].inputs());
    V in = x;
    std::vector<VV> w;
    for (auto& l : nn.layers) w.push_back(weightsOf(*l));
    V out = training ? nn.outputForTraining(x, true) : nn.computeOutput(x);
    checkExact(in, x, "the input is modified");
    V y = x;
    for (size_t l = 0; l < refs.size(); l++)
    {
        if (!refs[l].pool)
        {
            snn_check(w[l].size() == refs[l].nWeights.size(), "number of neurons");
            for (size_t n = 0; n < w[l].size(); n++) snn_check((int)w[l][n].size() == refs[l].nWeights[n], "number of weights");
        }
        y = refOut(refs[l], y, w[l]);
    }
    checkSame(out, y, "output");
    for (auto v : out) snn_observe_f("out", v);
    snn_reach("end");
}

extern "C" void c04()
{
    const int n = snn_param("n", 3), m = snn_param("m", 2), depth = snn_param("depth", 1);
    const auto a = (activation)snn_param("act", 0);
    std::vector<LayerModel> models{Input(n)};
    std::vector<Ref> refs;
    int in = n, out = m;
    for (int d = 0; d < depth; d++)
    {
        models.push_back(FullyConnected(out, d % 2 ? activation::tanh : a));
        refs.push_back(refDense(in, out, d % 2 ? activation::tanh : a));
        in = out;
        out = out == 1 ? 2 : out - 1;
    }
    stack(models, refs, snn_param("training", 0));
}
// a multi-dimensional input is consumed as a flat vector
extern "C" void c04flat()
{
    stack({Input(2, 2, 2), FullyConnected(2, activation::tanh)}, {refDense(8, 2, activation::tanh)}, false);
}
// kind 0 convolution, 1 locally connected; the sizes are enumerated inside
static void filters(bool conv)
{
    const bool two = snn_param("two", 0);
    const int maxX = snn_param("X", 4), maxC = snn_param("C", 2), maxF = snn_param("F", 2), maxK = snn_param("K", 3), minX = snn_param("minX", 1);
    const int x = snn_choose("X", minX, maxX), c = snn_choose("C", snn_param("minC", 1), maxC), f = snn_choose("F", snn_param("minF", 1), maxF);
    const int y = two ? snn_choose("Y", snn_param("minY", minX), snn_param("Y", maxX)) : 1;
    const int lim = two && y < x ? y : x;
    const int k = snn_choose("K", snn_param("minK", 1), maxK < lim ? maxK : lim);
    std::vector<int> shape = two ? std::vector<int>{c, x, y} : std::vector<int>{c, x};
    const auto a = (activation)snn_param("act", 2);
    LayerModel m = conv ? Convolution(f, k, a) : LocallyConnected(f, k, a);
    stack({modelInput(shape), m}, {refFilter(conv, shape, f, k, a, two)}, snn_param("training", 0));
}
extern "C" void c05() { filters(true); }
extern "C" void c06() { filters(false); }
// an input of one dimension is a single channel
extern "C" void c05flat()
{
    const int x = snn_choose("X", 1, 4), k = snn_choose("K", 1, x);
    stack({Input(x), Convolution(2, k, activation::tanh)}, {refFilter(true, {1, x}, 2, k, activation::tanh, false)}, false);
}
extern "C" void c06flat()
{
    const int x = snn_choose("X", 1, 4), k = snn_choose("K", 1, x);
    stack({Input(x), LocallyConnected(2, k, activation::tanh)}, {refFilter(false, {1, x}, 2, k, activation::tanh, false)}, false);
}
extern "C" void c05stack()
{
    const bool two = snn_param("two", 0);
    std::vector<int> s = two ? std::vector<int>{1, 4, 3} : std::vector<int>{2, 5};
    Ref a = refFilter(true, s, 2, 2, activation::identity, two);
    Ref b = refFilter(true, a.out, 2, 2, activation::tanh, two);
    stack({modelInput(s), Convolution(2, 2, activation::identity), Convolution(2, 2, activation::tanh)}, {a, b}, false);
}
extern "C" void c06stack()
{
    const bool two = snn_param("two", 0);
    std::vector<int> s = two ? std::vector<int>{2, 5, 3} : std::vector<int>{2, 5};
    Ref a = refFilter(false, s, 2, 2, activation::identity, two);
    Ref b = refFilter(false, a.out, 2, 2, activation::tanh, two);
    stack({modelInput(s), LocallyConnected(2, 2, activation::identity), LocallyConnected(2, 2, activation::tanh)}, {a, b}, false);
}
// max pooling: the output is an upper bound of its tile and one of its elements
static void pooling(const std::vector<int>& shape, int k, bool two, bool flat)
{
    snn_rng_mode(1);
    // a dense layer behind it, as pooling needs a consumer of its outputs
    std::vector<LayerModel> m{flat ? Input(shape[1]) : modelInput(shape), MaxPooling(k)};
    if (snn_param("dense", 1)) m.push_back(FullyConnected(1, activation::identity));
    NN nn(m);
    snn_rng_mode(0);
    Ref r = refPool(shape, k, two);
    V x;
    if (snn_param("focus", 0))
    {
        // the values of one tile are arbitrary, the others fixed, distinct, some above and some below
        const int o = snn_choose("tile", 0, r.outputs() - 1);
        for (int i = 0; i < r.inputs(); i++) x.push_back(i % 2 ? 1000.f + i : -1000.f - i);
        for (auto& l : r.links[o]) x[l.input] = snn_float("x");
    }
    else x = symV("x", r.inputs());
    V out = snn_param("training", 0) ? nn.layers[0]->outputForTraining(x, true) : nn.layers[0]->output(x, true);
    snn_check((int)out.size() == r.outputs(), "number of outputs");
    for (int o = 0; o < r.outputs() && o < (int)out.size(); o++)
    {
        bool bound = true, member = false;
        for (auto& l : r.links[o]) { bound &= out[o] >= x[l.input]; member |= out[o] == x[l.input]; }
        snn_check(bound, "an output is smaller than a value of its tile");
        snn_check(member, "an output is not a value of its tile");
    }
    if (snn_param("dense", 1))
    {
        symWeights(*nn.layers[1], "w");
        auto w = weightsOf(*nn.layers[1]);
        V y = nn.computeOutput(x);
        float s = w[0].back();
        for (size_t i = 0; i < out.size(); i++) s += out[i] * w[0][i];
        snn_check_eq(y[0], s, "output of the layer behind");
    }
    snn_reach("end");
}
extern "C" void c07()
{
    const bool two = snn_param("two", 0);
    const int x = snn_choose("X", snn_param("minX", 1), snn_param("X", 4)), c = snn_choose("C", snn_param("minC", 1), snn_param("C", 2));
    const int y = two ? snn_choose("Y", snn_param("minY", snn_param("minX", 1)), snn_param("Y", snn_param("X", 4))) : 1;
    const int lim = two && y < x ? y : x;
    const int k = snn_choose("K", snn_param("minK", 1), snn_param("K", 3) < lim ? snn_param("K", 3) : lim);
    pooling(two ? std::vector<int>{c, x, y} : std::vector<int>{c, x}, k, two, false);
}
extern "C" void c07flat()
{
    const int x = snn_choose("X", 1, 4), k = snn_choose("K", 1, x);
    pooling({1, x}, k, false, true);
}
