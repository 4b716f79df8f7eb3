// Architectures (C01, C02, C03), parameters (C11, C40), classes (C39), layer optimizers (C32, C33, C34), buffers (C38)
#include "nn.h"
#include <snn/data/Data.hpp>
#include <sstream>

// kinds: 0 dense, 1 convolution, 2 locally connected, 3 pooling, 4 recurrent, 5 gated recurrent
template <class... O>
static LayerModel model(int kind, int size, int k, activation a, O... o)
{
    switch (kind)
    {
    case 0: return FullyConnected(size, a, o...);
    case 1: return Convolution(size, k, a, o...);
    case 2: return LocallyConnected(size, k, a, o...);
    case 3: return MaxPooling(k);
    case 4: return Recurrence(size, a, o...);
    default: return GruLayer(size, o...);
    }
}
static int product(const std::vector<int>& s)
{
    int n = 1;
    for (int v : s) n *= v;
    return n;
}
// what a layer makes of a shape: parameters, neurons, shape; false when there is no room for it
struct Expected { std::vector<int> shape; int neurons = 0, weights = 0; };
static bool expected(int kind, const std::vector<int>& in, int size, int k, Expected& e)
{
    const int n = product(in);
    if (kind == 0) { e = {{size}, size, n + 1}; return true; }
    if (kind == 4) { e = {{size}, size, n + 2}; return true; }
    if (kind == 5) { e = {{size}, size, 3 * (n + 2)}; return true; }
    std::vector<int> s = in.size() == 1 ? std::vector<int>{1, in[0]} : in;
    int area = 1, tiles = 1;
    e = Expected();
    e.shape = {kind == 3 ? s[0] : size};
    for (size_t d = 1; d < s.size(); d++)
    {
        if (k > s[d]) return false;
        const int o = kind == 1 ? s[d] - k + 1 : (s[d] + k - 1) / k;
        e.shape.push_back(o);
        area *= k;
        tiles *= o;
    }
    if (kind != 3)
    {
        e.neurons = kind == 1 ? size : size * tiles;
        e.weights = area * s[0] + 1;
    }
    return true;
}

// every small architecture of the given dimension and layer kinds
extern "C" void c01()
{
    const int dims = snn_param("dims", 3), most = snn_param("most", 3), k1 = snn_param("k1", 1), k2 = snn_param("k2", -1);
    const bool counts = snn_param("counts", 0), back = snn_param("back", 1);
    std::vector<int> shape;
    for (int d = 0; d < dims; d++) shape.push_back(snn_choose("size", 1, d == 0 && dims > 1 ? std::min(most, 2) : most));
    std::vector<LayerModel> m{modelInput(shape)};
    std::vector<Expected> want;
    bool possible = true;
    std::vector<int> s = shape;
    const int kinds[] = {k1, k2};
    for (int k : kinds)
    {
        if (k < 0) continue;
        const int size = k == 3 ? 1 : snn_choose("neurons or filters", 1, 2), kernel = k >= 1 && k <= 3 ? snn_choose("kernel", 1, most) : 1;
        m.push_back(model(k, size, kernel, activation::identity));
        Expected e;
        possible = possible && expected(k, s, size, kernel, e);
        if (possible) { want.push_back(e); s = e.shape; }
    }
    snn_rng_mode(1);
    std::unique_ptr<NN> nn;
    bool thrown = false;
    try { auto copy = m; nn = std::make_unique<NN>(copy); }
    catch (std::runtime_error&) { thrown = true; }
    snn_check(thrown == !possible, possible ? "a possible architecture is refused" : "an impossible architecture is accepted");
    if (thrown) { snn_reach("refused"); snn_reach("end"); return; }
    snn_check(nn->isValid() == 0, "an accepted architecture is not valid");
    // values of layers with a memory are the business of C08 to C10; weights of 0 keep the gates' functions out of the way
    const bool memory = k1 >= 4 || k2 >= 4;
    if (memory) for (auto& l : nn->layers) for (auto* n : neuronsOf(*l)) n->weights.assign(n->weights.size(), 0.f);
    int neurons = 0, parameters = 0, inputs = product(shape);
    V x;
    for (int i = 0; i < inputs; i++) x.push_back(0.25f * ((i * 7) % 5) - 0.5f);
    V y = x;
    for (size_t l = 0; l < want.size(); l++)
    {
        auto& layer = *nn->layers[l];
        snn_check(layer.getNumberOfInputs() == (int)y.size(), "a layer does not consume what the previous one produces");
        snn_check(product(layer.getShapeOfInput()) == (int)y.size(), "declared input shape");
        snn_check(layer.getShapeOfOutput() == want[l].shape, "declared output shape");
        y = layer.output(y, true);
        snn_check((int)y.size() == product(want[l].shape), "a layer does not produce its declared shape");
        neurons += want[l].neurons;
        parameters += want[l].neurons * want[l].weights;
        if (counts)
        {
            snn_check(layer.getNumberOfNeurons() == want[l].neurons, "number of neurons of a layer");
            snn_check(layer.getNumberOfParameters() == want[l].neurons * want[l].weights, "number of parameters of a layer");
            int owned = 0;
            for (auto* n : neuronsOf(layer)) owned += (int)n->weights.size();
            snn_check(owned == want[l].neurons * want[l].weights, "number of weights of the neurons");
            for (auto* n : neuronsOf(layer)) snn_check((int)n->weights.size() == owned / (int)neuronsOf(layer).size(), "number of weights of a neuron");
        }
    }
    V out = nn->computeOutput(x, true);
    snn_check(out.size() == y.size(), "number of outputs");
    for (size_t i = 0; i < y.size() && i < out.size() && !memory; i++) snn_check_eq(out[i], y[i], "output of the network");
    snn_check(nn->getNumberOfInputs() == inputs, "declared number of inputs");
    snn_check((int)nn->layers.size() == nn->getNumberOfLayers(), "declared number of layers");
    if (counts)
    {
        snn_check(nn->getNumberOfNeurons() == neurons, "number of neurons");
        snn_check(nn->getNumberOfParameters() == parameters, "number of parameters");
    }
    if (back)
    {
        nn->trainOnce(x, V(out.size(), 0.125f), true);
        snn_check(nn->computeOutput(x, true).size() == out.size(), "number of outputs after a training step");
    }
    snn_reach("accepted");
    snn_reach("end");
}

// one large or deep architecture, given layer by layer
extern "C" void chain()
{
    std::vector<int> shape;
    for (const char* d : {"d0", "d1", "d2"}) if (snn_param(d, 0)) shape.push_back(snn_param(d, 0));
    std::vector<LayerModel> m{modelInput(shape)};
    std::vector<Expected> want;
    std::vector<int> s = shape;
    static const char* kind[] = {"k1", "k2", "k3", "k4", "k5", "k6"};
    static const char* size[] = {"n1", "n2", "n3", "n4", "n5", "n6"};
    static const char* kernel[] = {"f1", "f2", "f3", "f4", "f5", "f6"};
    for (int l = 0; l < 6 && snn_param(kind[l], -1) >= 0; l++)
    {
        Expected e;
        m.push_back(model(snn_param(kind[l], 0), snn_param(size[l], 1), snn_param(kernel[l], 2), activation::identity));
        snn_assume(expected(snn_param(kind[l], 0), s, snn_param(size[l], 1), snn_param(kernel[l], 2), e));
        want.push_back(e);
        s = e.shape;
    }
    snn_rng_mode(1);
    NN nn(m);
    snn_check(nn.isValid() == 0, "an accepted architecture is not valid");
    snn_check(nn.getNumberOfLayers() == (int)want.size() && nn.layers.size() == want.size(), "declared number of layers");
    snn_check(nn.getNumberOfInputs() == product(shape), "declared number of inputs");
    int neurons = 0, parameters = 0;
    V y(product(shape), 0.f);
    // one input is arbitrary: the architecture does not depend on values
    y[product(shape) / 2] = snn_float("x");
    for (auto& l : nn.layers) for (auto* n : neuronsOf(*l)) n->weights.assign(n->weights.size(), 0.f);
    V x = y;
    for (size_t l = 0; l < want.size(); l++)
    {
        auto& layer = *nn.layers[l];
        snn_check(layer.getNumberOfInputs() == (int)y.size(), "a layer does not consume what the previous one produces");
        snn_check(product(layer.getShapeOfInput()) == (int)y.size(), "declared input shape");
        snn_check(layer.getShapeOfOutput() == want[l].shape, "declared output shape");
        y = layer.output(y, true);
        snn_check((int)y.size() == product(want[l].shape), "a layer does not produce its declared shape");
        snn_check(layer.getNumberOfNeurons() == want[l].neurons, "number of neurons of a layer");
        snn_check(layer.getNumberOfParameters() == want[l].neurons * want[l].weights, "number of parameters of a layer");
        int owned = 0;
        for (auto* n : neuronsOf(layer)) owned += (int)n->weights.size();
        snn_check(owned == want[l].neurons * want[l].weights, "number of weights of the neurons");
        neurons += want[l].neurons;
        parameters += want[l].neurons * want[l].weights;
    }
    snn_check(nn.getNumberOfNeurons() == neurons, "number of neurons");
    snn_check(nn.getNumberOfParameters() == parameters, "number of parameters");
    snn_check((int)nn.computeOutput(x, true).size() == product(s), "number of outputs");
    if (snn_param("back", 1))
    {
        nn.trainOnce(x, V(product(s), 0.125f), true);
        snn_check((int)nn.computeOutput(x, true).size() == product(s), "number of outputs after a training step");
    }
    snn_observe_i("parameters", nn.getNumberOfParameters());
    snn_reach("end");
}

// sizes that cannot be: any 32-bit integers
extern "C" void c02()
{
    const int dims = snn_param("dims", 3), kind = snn_param("kind", 1), before = snn_param("before", 0);
    std::vector<int> shape;
    for (int d = 0; d < dims; d++) shape.push_back(snn_int("size", INT32_MIN, INT32_MAX));
    const int size = snn_int("neurons or filters", INT32_MIN, INT32_MAX), k = snn_int("kernel", INT32_MIN, INT32_MAX);
    if (const int limit = snn_param("limit", 0))
    {
        for (int v : shape) snn_assume(v <= limit);
        snn_assume(size <= limit); snn_assume(k <= limit);
    }
    // what makes an architecture impossible; the documented limit of an input is 1000000 values
    const int why = snn_choose("why", 0, 3);
    if (why == 0) { const int d = snn_choose("which", 0, dims - 1); snn_assume(shape[d] <= 0); }
    if (why == 1)
    {
        for (int d = 0; d < dims; d++) snn_assume(shape[d] > 0);
        int64_t n = 1;
        for (int d = 0; d < dims; d++) { n *= shape[d]; if (n > 2073600) break; }
        snn_assume(n > 2073600);
    }
    if (why == 2) { if (kind == 3) snn_assume(false); snn_assume(size <= 0); }
    if (why == 3)
    {
        if (kind == 0 || kind >= 4) snn_assume(false);
        if (snn_choose("too small", 0, 1)) snn_assume(k <= 0);
        else if (dims == 1) snn_assume(k > shape[0]);
        else { const int d = snn_choose("which", 1, dims - 1); snn_assume(k > shape[d]); }
    }
    std::vector<LayerModel> m{dims == 1 ? Input(shape[0]) : dims == 2 ? Input(shape[0], shape[1]) : Input(shape[0], shape[1], shape[2])};
    m.push_back(model(kind, size, k, activation::identity));
    bool refused = false, other = false;
    snn_rng_mode(1);
    try { NN nn(m); }
    catch (std::runtime_error&) { refused = true; }
    catch (std::exception&) { other = true; }
    snn_check(!other, "an impossible architecture is not refused but fails");
    snn_check(refused, "an impossible architecture is accepted");
    snn_reach(why == 0 ? "non-positive size" : why == 1 ? "too big" : why == 2 ? "no neuron" : "kernel");
    snn_reach("end");
}
// an impossible layer in the middle or at the end of a network whose other layers are all possible
extern "C" void c02deep()
{
    const int chain = snn_param("chain", 0), kind = snn_param("kind", 0), last = snn_param("last", 0);
    std::vector<LayerModel> m;
    std::vector<int> room;      // what a kernel may cover
    auto add = [&](int k, int n, int kernel = 1) { m.push_back(model(k, n, kernel, activation::identity)); };
    switch (chain)
    {
    case 0: m.push_back(Input(3, 6)); add(1, 2, 2); room = {5}; break;
    case 1: m.push_back(Input(2, 4)); add(3, 0, 2); add(0, 4); room = {4}; break;
    case 2: m.push_back(Input(2, 5, 6)); add(1, 3, 2); add(3, 0, 2); room = {2, 3}; break;
    case 3: m.push_back(Input(3)); add(0, 5); add(4, 2); add(5, 3); room = {3}; break;
    case 4: m.push_back(Input(1, 12)); add(1, 2, 3); add(3, 0, 2); add(2, 3, 2); add(0, 4); add(4, 3); room = {3}; break;
    case 5: m.push_back(Input(1, 9, 9)); add(1, 2, 2); add(1, 2, 3); add(2, 2, 2); room = {3, 3}; break;
    }
    if (kind == 6) m.push_back(Input(snn_int("input", INT32_MIN, INT32_MAX)));
    else
    {
        const int size = snn_int("neurons or filters", INT32_MIN, INT32_MAX), k = snn_int("kernel", INT32_MIN, INT32_MAX);
        const bool filter = kind >= 1 && kind <= 3;
        const int why = snn_choose("why", 0, 2);
        if (why == 0) { snn_assume(kind != 3 && size <= 0); }
        if (why == 1) { snn_assume(filter && k <= 0); }
        if (why == 2) { snn_assume(filter); snn_assume(k > room[snn_choose("which", 0, (int)room.size() - 1)]); }
        if (const int limit = snn_param("limit", 0)) { snn_assume(size <= limit); snn_assume(k <= limit); }
        add(kind, size, k);
        snn_reach(why == 0 ? "no neuron" : "kernel");
    }
    if (!last) { add(0, 3); add(4, 2); }
    bool refused = false, other = false;
    snn_rng_mode(1);
    try { NN nn(m); }
    catch (std::runtime_error&) { refused = true; }
    catch (std::exception&) { other = true; }
    snn_check(!other, "an impossible layer behind others is not refused but fails");
    snn_check(refused, "an impossible layer behind others is accepted");
    snn_reach("end");
}
// layers that cannot be where they are, dimensions that are not managed, settings out of range
extern "C" void c02order()
{
    const int what = snn_choose("what", 0, 7);
    std::vector<LayerModel> m;
    switch (what)
    {
    case 0: break;                                                                              // nothing at all
    case 1: m = {Input(2)}; break;                                                              // no layer
    case 2: m = {FullyConnected(2), FullyConnected(1)}; break;                                  // no input
    case 3: m = {Input(2), FullyConnected(2), Input(2), FullyConnected(1)}; break;              // an input in the middle
    case 4: m = {Input(2), Input(2)}; break;
    case 5: m = {Input(2, 2, 2, 2), model(snn_choose("kind", 1, 3), 1, 1, activation::identity)}; break;   // four dimensions
    case 6: m = {Input(), model(snn_choose("kind", 0, 5), 1, 1, activation::identity)}; break;            // no dimension
    case 7: m = {Input(2), FullyConnected(2), model(snn_choose("kind", 1, 3), 1, 3, activation::identity)}; break; // no room behind a layer
    }
    snn_rng_mode(1);
    bool refused = false, other = false;
    try { NN nn(m); }
    catch (std::runtime_error&) { refused = true; }
    catch (std::exception&) { other = true; }
    snn_check(!other, "an impossible architecture is not refused but fails");
    snn_check(refused, "an impossible architecture is accepted");
    snn_reach("end");
}
// learning rate and momentum of any value
extern "C" void c02sgd()
{
    const float lr = snn_float("lr"), m = snn_float("m");
    snn_rng_mode(1);
    bool refused = false;
    std::vector<LayerModel> a{Input(1), FullyConnected(1)};
    try { NN nn(a, StochasticGradientDescent(lr, m)); }
    catch (std::runtime_error&) { refused = true; }
    if (lr <= 0 || lr >= 1 || m < 0 || m > 1) snn_check(refused, "a learning rate or momentum out of range is accepted");
    else snn_check(!refused, "a valid learning rate and momentum are refused");
    snn_reach("end");
}

static std::vector<LayerModel> stack(int k1, int k2, int opt)
{
    std::vector<LayerModel> m;
    const int size = snn_param("size", 2);
    const auto a = (activation)snn_param("act", 2);
    const int X = snn_param("X", 3);
    m.push_back(snn_param("two", 0) ? Input(1, X, X) : Input(1, X));
    auto add = [&](int k)
    {
        switch (opt)
        {
        case 1: m.push_back(model(k, size, 2, a, Dropout(0.25f))); break;
        case 2: m.push_back(model(k, size, 2, a, L1Regularization(0.5f), L2Regularization(0.25f))); break;
        case 3: m.push_back(model(k, size, 2, a, ErrorMultiplier(2.f))); break;
        case 4: m.push_back(model(k, size, 2, a, Softmax())); break;
        default: m.push_back(model(k, size, 2, a));
        }
    };
    add(k1);
    if (k2 >= 0) add(k2);
    for (const char* k : {"k3", "k4", "k5"})
        if (snn_param(k, -1) >= 0) add(snn_param(k, -1));
    m.push_back(FullyConnected(snn_param("outputs", 2), activation::identity));
    return m;
}
// inference and evaluation leave the parameters alone
extern "C" void c11()
{
    const int how = snn_param("how", 0);
    snn_rng_mode(1);
    NN nn(stack(snn_param("k1", 0), snn_param("k2", -1), snn_param("layer", 0)));
    const int only = snn_param("only", -1);      // arbitrary weights in this layer only
    if (only < 0) symWeights(nn);
    else if (only < 100) symWeights(*nn.layers[only], "w");
    else for (auto& l : nn.layers) if (!neuronsOf(*l).empty()) neuronsOf(*l)[0]->weights.back() = snn_float("bias");
    auto w = weightsOf(nn);
    const int n = nn.getNumberOfInputs();
    const bool trained = snn_param("trained", 0);
    if (trained) { nn.trainOnce(V(n, 0.5f), V{0.25f, -0.5f}, true); w = weightsOf(nn); }
    if (how == 0)
    {
        V x = symV("x", n);
        V a = nn.computeOutput(x, snn_choose("reset", 0, 1));
        checkExact(weightsOf(nn), w, "inference changes a weight");
        int c = nn.computeCluster(symV("y", n), false);
        (void)c;
        checkExact(weightsOf(nn), w, "inference changes a weight");
        nn.getLayerOutputs(x);
        for (int i = 0; i < snn_param("times", 0); i++)
        {
            const float v = 0.125f * i - 0.5f;
            nn.computeOutput(V(n, v), i % 3 == 0);
            nn.computeCluster(V(n, -v), i % 4 == 0);
        }
    }
    else if (snn_param("nature", 0))
    {
        const auto p = (problem)snn_param("problem", 2);
        VV in, out;
        for (int i = 0; i < 6; i++) { in.push_back(V(n, 0.25f * i - 0.5f)); out.push_back(V{i % 2 ? 1.f : 0.f, i % 2 ? 0.f : 1.f}); }
        std::vector<VV> sequences{{in[0], in[1]}, {in[2]}, {in[3], in[4], in[5]}};
        Data data = snn_param("nature", 0) == 1 ? Data(p, sequences, out, nature::sequential) : Data(p, in, out, nature::timeSeries, 2);
        Wait w = 1_ep || 0.9_acc;
        for (int i = 0; i < snn_param("times", 1); i++) nn.evaluate(data, &w);
    }
    else
    {
        const auto p = (problem)snn_param("problem", 2);
        VV in{V(n, 0.25f), V(n, -0.5f)}, out{V{1.f, 0.f}, V{0.f, 1.f}};
        Data data(p, in, out);
        for (int i = 0; i < snn_param("times", 1); i++)
            if (how == 1) nn.evaluate(data);
            else { Wait w = 1_ep || 0.9_acc; nn.evaluate(data, &w); }
    }
    checkExact(weightsOf(nn), w, "evaluation changes a weight");
    snn_check(nn.getNumberOfTraining() == trained, "evaluation counts as training");
    snn_reach("end");
}

// weights of a new network, whatever the random numbers
extern "C" void c40()
{
    const int k1 = snn_param("k1", 0);
    const int X = snn_param("X", 0), F = snn_param("F", 0);
    std::vector<LayerModel> m{snn_param("two", 0) ? Input(1, X ? X : 2, 2) : Input(1, X ? X : 3)};
    const int size = F ? F : snn_choose("size", 1, 2);
    m.push_back(model(k1, size, 2, activation::tanh));
    m.push_back(FullyConnected(1));
    NN nn(m);
    snn_check(nn.isValid() == 0, "a new network is not valid");
    for (auto& l : nn.layers)
        for (auto* n : neuronsOf(*l))
        {
            const int count = (int)n->weights.size();
            const float bound = 2.4f / std::sqrt((float)count);
            bool small = true;
            for (int i = 0; i < count; i++) small &= (n->weights[i] <= bound) & (n->weights[i] >= -bound);
            snn_check(small, "an initial weight is too large");
            snn_check(n->weights.back() >= 0, "an initial bias is negative");
        }
    snn_observe_f("w", neuronsOf(*nn.layers[0]).empty() ? 0.f : neuronsOf(*nn.layers[0])[0]->weights[0]);
    snn_reach("end");
}

// n values, of which some neighbours, anywhere, are arbitrary and the others fixed
static V someV(const char* name, int n, int arbitrary)
{
    V x;
    for (int i = 0; i < n; i++) x.push_back((float)(i * 7 % n) * 0.5f - 1);
    const int at = placeOf("position", n);
    for (int i = 0; i < arbitrary; i++) x[(at + i) % n] = snn_float(name);
    return x;
}
// the predicted class
extern "C" void c39()
{
    const int n = snn_param("n", 3);
    snn_rng_mode(1);
    NN nn({Input(n), FullyConnected(n, activation::identity)});
    for (int i = 0; i < n; i++)
    {
        V& w = neuronAt(nn, 0, i).weights;
        w.assign(n + 1, 0.f);
        w[i] = 1;
    }
    V x = snn_param("focus", 0) ? someV("x", n, snn_param("focus", 0)) : symV("x", n);
    const int c = nn.computeCluster(x, true);
    snn_check(c >= 0 && c < n, "the predicted class is not a class");
    V out = nn.computeOutput(x, true);
    for (int i = 0; i < n; i++) snn_check(out[snn_concrete(c)] >= out[i], "the predicted class is not the one of the largest output");
    snn_observe_i("class", c);
    snn_reach("end");
}

// dropout
extern "C" void c32()
{
    const int kind = snn_param("kind", 0), steps = snn_param("steps", 2);
    const float rate = snn_float("rate");
    snn_assume(rate >= 0.f); snn_assume(rate <= 1.f);
    snn_rng_mode(1);
    const int size = snn_param("size", 2), X = snn_param("X", 3);
    std::vector<LayerModel> m{snn_param("two", 0) ? Input(1, X, 2) : Input(1, X), model(kind, size, 2, activation::identity, Dropout(rate)), FullyConnected(1, activation::identity)};
    std::vector<LayerModel> without{m[0], model(kind, size, 2, activation::identity), FullyConnected(1, activation::identity)};
    NN nn(m), plain(without);
    snn_rng_mode(snn_param("fixed", 0) ? 2 : 0);   // 2: one outcome of the draws
    BaseLayer &l = *nn.layers[0], &ref = *plain.layers[0];
    if (snn_param("arbitrary", 0)) symWeights(l, "w");
    auto fixed = weightsOf(l);
    auto same = [&]
    {
        auto a = neuronsOf(l), b = neuronsOf(ref);
        for (size_t i = 0; i < a.size(); i++) b[i]->weights = a[i]->weights = fixed[i];
    };
    same();
    const int n = nn.getNumberOfInputs();
    for (int t = 0; t < steps; t++)
    {
        V x = symV("x", n);
        const int first = snn_rng_draws();
        V raw = ref.outputForTraining(x, true), out = l.outputForTraining(x, true);
        const int draws = snn_rng_draws() - first;
        snn_check(out.size() == raw.size(), "number of outputs");
        snn_check(draws == (int)raw.size(), "one random draw per output");
        if (draws != (int)raw.size()) return;
        V e = symV("e", (int)out.size()), kept = e;
        for (size_t o = 0; o < out.size(); o++)
        {
            const bool dropped = snn_rng_draw(first + (int)o) < rate;
            snn_check_eq(out[o], dropped ? 0.f : raw[o], "output during a training step");
            kept[o] = dropped ? 0.f : e[o];
        }
        V back = l.backOutput(e), want = ref.backOutput(kept);
        checkSame(back, want, "error sent back");
        checkSame(weightsOf(l), weightsOf(ref), "update of the weights");
        same();
        V z = symV("z", n), inf = l.output(z, true), full = ref.output(z, true);
        for (size_t o = 0; o < inf.size(); o++) snn_check_eq(inf[o], full[o] * (1 - rate), "output in inference");
    }
    snn_reach("end");
}
// arbitrary values, or (groups) two arbitrary values, each at some of the places
static V valuesFor(const char* name, int n)
{
    const int groups = snn_param("groups", 0);
    if (!groups) return symV(name, n);
    const int k = groups == 2 ? n / 2 : snn_choose("group", 0, n - 1);
    const float a = snn_float(name), b = snn_float(name);
    V x;
    for (int i = 0; i < n; i++) x.push_back(i * 7 % n <= k ? a : b);
    return x;
}
// softmax
extern "C" void c33()
{
    const int n = snn_param("n", 3);
    snn_rng_mode(1);
    NN nn({Input(n), FullyConnected(n, activation::identity, Softmax())});
    for (int i = 0; i < n; i++)
    {
        V& w = neuronAt(nn, 0, i).weights;
        w.assign(n + 1, 0.f);
        w[i] = 1;
    }
    V x = valuesFor("x", n);
    V out = snn_param("training", 0) ? nn.outputForTraining(x, true) : nn.computeOutput(x, true);
    snn_check((int)out.size() == n, "number of outputs");
    float sum = 0, largest = x[0];
    for (int i = 1; i < n; i++) largest = x[i] > largest ? x[i] : largest;
    float total = 0;
    for (int i = 0; i < n; i++) { sum += out[i]; total += std::exp(x[i] - largest); }
    if (snn_param("form", 0))
    {
        for (int i = 0; i < n; i++) snn_check_eq(out[i] * total, std::exp(x[i] - largest), "an output is not exp(x_i) / sum exp(x_j)");
        // small outputs too, as long as a float can hold them
        for (int i = 0; i < n && snn_param("form", 0) == 1; i++)
        {
            const float e = std::exp(x[i] - largest), o = out[i] * total;
            snn_check((x[i] - largest < -60.f) | ((o <= 1.01f * e) & (o >= 0.99f * e)), "a small output is not exp(x_i) / sum exp(x_j)");
        }
        snn_reach("end");
        return;
    }
    snn_check_eq(sum, 1, "the sum of the outputs");
    for (int i = 0; i < n; i++)
    {
        snn_check(out[i] > 0, "an output is not positive");
        snn_check_eq(out[i] * total, std::exp(x[i] - largest), "an output is not exp(x_i) / sum exp(x_j)");
        for (int j = 0; j < n; j++) snn_check(!(x[i] <= x[j]) | (out[i] <= out[j]), "the order of the outputs is not kept");
    }
    const float c = snn_float("c");
    V moved = x;
    for (auto& v : moved) v += c;
    checkSame(nn.computeOutput(moved, true), out, "the outputs depend on a common offset");
    snn_reach("end");
}
// softmax of outputs of any size: no overflow, every output is a number, not negative, and they are not all zero
extern "C" void c33range()
{
    const int n = snn_param("n", 2);
    snn_rng_mode(1);
    NN nn({Input(n), FullyConnected(n, activation::identity, Softmax())});
    V x = valuesFor("x", n);
    for (float f : x) snn_assume(std::fabs(f) <= 1e38f);
    auto softmax = inl::Softmax(nn.layers[0].get()).clone(nn.layers[0].get());
    V out = x;
    if (snn_param("training", 0)) softmax->applyAfterOutputForTraining(out, true);
    else softmax->applyAfterOutputForTesting(out);
    bool large = false;
    for (int i = 0; i < n; i++)
    {
        snn_check(out[i] >= 0, "an output is negative or not a number");
        large |= out[i] > 0;
    }
    snn_check(large, "no output is positive");
    snn_reach("end");
}
// regularizations and error multiplier, alone and together, against the same layer without them
extern "C" void c34()
{
    const int kind = snn_param("kind", 0), what = snn_param("what", 7);
    const float l1 = snn_float("l1"), l2 = snn_float("l2"), factor = snn_float("factor");
    snn_rng_mode(1);
    const int size = snn_param("size", 2), X = snn_param("X", 0);
    const LayerModel in = snn_param("two", 0) ? Input(1, X ? X : 2, 2) : Input(1, X ? X : 3);
    LayerModel with = model(kind, size, 2, activation::identity);
    // the order they are given in is the order they act in
    static const int orders[][3] = {{1, 2, 4}, {1, 4, 2}, {2, 1, 4}, {2, 4, 1}, {4, 1, 2}, {4, 2, 1}};
    const int* order = orders[snn_param("order", 0)];
    for (int i = 0; i < 3; i++)
    {
        if (what & order[i] & 1) with.optimizers.push_back(L1Regularization(l1));
        if (what & order[i] & 2) with.optimizers.push_back(L2Regularization(l2));
        if (what & order[i] & 4) with.optimizers.push_back(ErrorMultiplier(factor));
    }
    std::vector<LayerModel> m{in, with, FullyConnected(1, activation::identity)}, without{in, model(kind, size, 2, activation::identity), FullyConnected(1, activation::identity)};
    NN nn(m), plain(without);
    snn_rng_mode(0);
    BaseLayer &l = *nn.layers[0], &ref = *plain.layers[0];
    const bool fixed = snn_param("fixed", 0);       // weights and inputs are fixed
    if (fixed) { int k = 0; for (auto* n : neuronsOf(l)) for (auto& v : n->weights) v = 0.125f * (float)(k++ * 5 % 17 - 8); }
    else symWeights(l, "w");
    auto w = weightsOf(l);
    auto a = neuronsOf(l), b = neuronsOf(ref);
    for (size_t i = 0; i < a.size(); i++) b[i]->weights = a[i]->weights;
    const int n = nn.getNumberOfInputs();
    V x = symV("x", n), y = symV("y", n);
    if (fixed) for (int i = 0; i < n; i++) { x[i] = 0.25f * (float)(i % 5 - 2); y[i] = 0.5f * (float)(i % 3); }
    checkSame(l.output(y, true), ref.output(y, true), "outputs in inference are changed");
    checkSame(l.outputForTraining(x, true), ref.outputForTraining(x, true), "outputs in training are changed");
    float sumAbs = 0, sumSquare = 0;
    const int neurons = l.getNumberOfNeurons();
    for (auto& v : w) for (float f : v) { sumAbs += f < 0 ? -f : f; sumSquare += f * f; }
    const int outputs = product(l.getShapeOfOutput());
    V e = symV("e", outputs), want = e;
    for (auto& v : want)
        for (int i = 0; i < 3; i++)
        {
            if (what & order[i] & 1) v += l1 * sumAbs / neurons;
            if (what & order[i] & 2) v += l2 * sumSquare / neurons;
            if (what & order[i] & 4) v *= factor;
        }
    if (snn_param("first", 0))
    {
        l.train(e);
        ref.train(want);
    }
    else checkSame(l.backOutput(e), ref.backOutput(want), "error of the layer");
    checkSame(weightsOf(l), weightsOf(ref), "update of the weights");
    snn_reach("end");
}

// circular buffers: any sequence of stores and reads
extern "C" void c38()
{
    const int size = snn_param("size", 2), dim = snn_param("dim", 1), ops = snn_param("ops", 6);
    CircularData d;
    d.initialize(size, dim);
    std::vector<V> slot(size, V(dim, 0));
    int stored = 0, read = 0;
    for (int t = 0; t < ops; t++)
    {
        if (snn_choose("store", 0, 1))
        {
            V v = symV("v", dim);
            d.pushBack(v);
            slot[stored++ % size] = v;
        }
        else
        {
            const V* got = d.getBack();
            checkExact(*got, slot[read++ % size], "a value read is not the one stored for that step");
        }
    }
    // a full round of stores is read back in order
    while (stored % size) { V v = symV("v", dim); d.pushBack(v); slot[stored++ % size] = v; }
    while (read % size) { checkExact(*d.getBack(), slot[read++ % size], "a value read is not the one stored for that step"); }
    for (int rounds = snn_param("rounds", 1); rounds-- > 0;)
    {
    VV round;
    for (int i = 0; i < size; i++) { round.push_back(symV("v", dim)); d.pushBack(round.back()); }
    for (int i = 0; i < size; i++) checkExact(*d.getBack(), round[i], "stores are not read back in order");
    }
    snn_reach("end");
}

// ---- C42: the summary of a network
static std::string trimmed(const std::string& s)
{
    size_t a = 0, b = s.size();
    while (a < b && (s[a] == ' ' || s[a] == '\t' || s[a] == '\r')) a++;
    while (b > a && (s[b - 1] == ' ' || s[b - 1] == '\t' || s[b - 1] == '\r')) b--;
    return s.substr(a, b - a);
}
static std::vector<std::string> linesOf(const std::string& s)
{
    std::vector<std::string> r;
    size_t a = 0;
    for (size_t i = 0; i <= s.size(); i++)
        if (i == s.size() || s[i] == '\n') { r.push_back(trimmed(s.substr(a, i - a))); a = i + 1; }
    return r;
}
// what stands behind a label, from a line on
static std::string behind(const std::vector<std::string>& lines, const std::string& label, size_t from, size_t to)
{
    for (size_t i = from; i < to; i++)
    {
        const size_t p = lines[i].find(label);
        if (p != std::string::npos) return trimmed(lines[i].substr(p + label.size()));
    }
    return "(missing)";
}
static std::string shapeText(const std::vector<int>& s)
{
    std::string r = "[";
    for (size_t i = 0; i < s.size(); i++) r += (i ? ", " : "") + std::to_string(s[i]);
    return r + "]";
}
static std::string numberText(float v)
{
    std::ostringstream o;
    o << v;
    return o.str();
}
extern "C" void c42()
{
    const int dims = snn_param("dims", 2), most = snn_param("most", 3), k1 = snn_param("k1", 1), k2 = snn_param("k2", -1);
    static const char* names[] = {"sigmoid", "iSigmoid", "tanh", "ReLU", "GELU", "gaussian", "identity"};
    static const char* kindNames[][3] = {{"FullyConnected", "FullyConnected", "FullyConnected"}, {"Convolution1D", "Convolution1D", "Convolution2D"}, {"LocallyConnected1D", "LocallyConnected1D", "LocallyConnected2D"}, {"MaxPooling1D", "MaxPooling1D", "MaxPooling2D"}, {"Recurrence", "Recurrence", "Recurrence"}, {"GruLayer", "GruLayer", "GruLayer"}};
    std::vector<int> shape;
    for (int d = 0; d < dims; d++) shape.push_back(snn_choose("size", snn_param("least", 1), most));
    const float rate = snn_float("learning rate"), momentum = snn_float("momentum"), v = snn_float("value"), v2 = snn_float("value");
    snn_assume(rate > 0); snn_assume(rate < 1); snn_assume(momentum > 0); snn_assume(momentum < 1);
    snn_assume(v > 0); snn_assume(v < 1); snn_assume(v2 > 0); snn_assume(v2 < 1);
    std::vector<LayerModel> m{modelInput(shape)};
    struct Want { int kind, size, kernel, act, opts; std::vector<int> in; Expected e; };
    const int vary = snn_param("vary", 0); // every layer has other options and another activation than the one before
    std::vector<Want> want;
    std::vector<int> s = shape;
    for (int k : {k1, k2, (int)snn_param("k3", -1), (int)snn_param("k4", -1), (int)snn_param("k5", -1), (int)snn_param("k6", -1)})
    {
        if (k < 0) continue;
        const int opts = (snn_param("opts", 0) + vary * (int)want.size()) % 5;
        const auto a = (activation)((snn_param("act", 2) + vary * (int)want.size()) % 7);
        const int size = k == 3 ? 1 : snn_choose("neurons or filters", snn_param("leastNeurons", 1), snn_param("neurons", 2)), kernel = k >= 1 && k <= 3 ? snn_choose("kernel", snn_param("leastKernel", 1), snn_param("mostKernel", most)) : 1;
        if (opts == 0) m.push_back(model(k, size, kernel, a));
        if (opts == 1) m.push_back(model(k, size, kernel, a, Dropout(v)));
        if (opts == 2) m.push_back(model(k, size, kernel, a, L1Regularization(v), L2Regularization(v2)));
        if (opts == 3) m.push_back(model(k, size, kernel, a, ErrorMultiplier(v), Dropout(v2)));
        if (opts == 4) m.push_back(model(k, size, kernel, a, Softmax()));
        Expected e;
        if (!expected(k, s, size, kernel, e)) { snn_reach("end"); return; }
        const bool flat = k == 0 || k >= 4;
        want.push_back({k, size, kernel, (int)a, opts, flat ? std::vector<int>{product(s)} : s.size() == 1 ? std::vector<int>{1, s[0]} : s, e});
        s = e.shape;
    }
    snn_rng_mode(1);
    NN nn(m, StochasticGradientDescent(rate, momentum));
    snn_rng_mode(0);
    nn.autoSaveFilePath = "the name.snn";
    const int epoch = snn_choose("epoch", 0, snn_param("epochs", 0) ? 101 : 0) , steps = snn_param("steps", 0);
    nn.epoch = epoch;
    for (int i = 0; i < steps; i++) nn.trainOnce(V(product(shape), 0.5f), V(product(s), 0.5f), true);
    const std::string text = nn.summary();
    snn_check(nn.summary() == text, "a second summary differs");
    const auto lines = linesOf(text);
    int parameters = 0;
    size_t first = lines.size();
    for (size_t i = 0; i < lines.size() && first == lines.size(); i++)
        if (lines[i].rfind("----", 0) == 0) first = i;
    snn_check(first < lines.size(), "no layer in the summary");
    size_t at = first;
    for (size_t l = 0; l < want.size(); l++)
    {
        const auto& w = want[l];
        size_t to = at + 1;
        while (to < lines.size() && lines[to].rfind("----", 0) != 0 && lines[to].rfind("====", 0) != 0) to++;
        snn_check(at + 1 < to, "a layer is missing");
        if (at + 1 >= to) break;
        const std::string kind = kindNames[w.kind][std::min((int)w.in.size(), 3) - 1];
        snn_check(lines[at + 1].rfind(kind, 0) == 0 && (lines[at + 1].size() == kind.size() || lines[at + 1][kind.size()] == ' '), "kind of a layer");
        snn_check(behind(lines, "Input shape:", at, to) == shapeText(w.in), "input shape of a layer");
        snn_check(behind(lines, "Output shape:", at, to) == shapeText(w.e.shape), "output shape of a layer");
        if (w.kind == 0 || w.kind >= 4) snn_check(behind(lines, "Neurons:", at, to) == std::to_string(w.e.neurons), "neurons of a layer");
        else
        {
            const std::string k = std::to_string(w.kernel);
            snn_check(behind(lines, "Kernel size:", at, to) == (w.in.size() == 3 ? k + "x" + k : k), "kernel of a layer");
            if (w.kind != 3) snn_check(behind(lines, "Filters:", at, to) == std::to_string(w.size), "filters of a layer");
        }
        if (w.kind != 3) snn_check(behind(lines, "Parameters:", at, to) == std::to_string(w.e.neurons * w.e.weights), "parameters of a layer");
        if (w.kind != 3 && w.kind != 5) snn_check(behind(lines, "Activation:", at, to) == names[w.act], "activation of a layer");
        if (w.kind != 3)
        {
            std::vector<std::string> o, got;
            const int opts = w.opts;
            if (opts == 1) o = {"Dropout(" + numberText(v) + ")"};
            if (opts == 2) o = {"L1Regularization(" + numberText(v) + ")", "L2Regularization(" + numberText(v2) + ")"};
            if (opts == 3) o = {"ErrorMultiplier(" + numberText(v) + ")", "Dropout(" + numberText(v2) + ")"};
            if (opts == 4) o = {"Softmax"};
            size_t i = at;
            while (i < to && lines[i].find("Output shape:") == std::string::npos) i++;
            for (i++; i < to; i++)
            {
                std::string t = lines[i];
                if (t.rfind("Optimizers:", 0) == 0) t = trimmed(t.substr(11));
                if (!t.empty()) got.push_back(t);
            }
            snn_check(got == o, "optimizers of a layer");
        }
        parameters += w.e.neurons * w.e.weights;
        at = to;
    }
    snn_check(at >= lines.size() || lines[at].rfind("----", 0) != 0, "more layers than there are");
    snn_check(behind(lines, "Name:", 0, first) == "the name.snn", "name of the network");
    snn_check(behind(lines, "Parameters:", 0, first) == std::to_string(parameters), "parameters of the network");
    snn_check(behind(lines, "Epochs:", 0, first) == std::to_string(epoch), "epoch of the network");
    snn_check(behind(lines, "Trainnig:", 0, first) == std::to_string(steps), "training steps of the network");
    snn_check(behind(lines, "Learning rate:", at, lines.size()) == numberText(rate), "learning rate");
    snn_check(behind(lines, "Momentum:", at, lines.size()) == numberText(momentum), "momentum");
    snn_reach("described");
    snn_reach("end");
}
