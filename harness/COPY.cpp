// Copies (C29), files (C30), equality (C31), auto-save (C41)
#include "nn.h"
#include <snn/data/Data.hpp>
#include <cmath>
#include <cstring>

extern "C" int snn_file_exists(const char* path);
extern "C" int snn_file_failures;

// kinds: 0 dense, 1 convolution, 2 locally connected, 3 pooling, 4 recurrent, 5 gated recurrent
template <class... O>
static LayerModel model(int kind, int size, int k, activation a, O... o)
{
    switch (kind)
    {
    case 0: return FullyConnected(size, a, o...);
    case 1: return Convolution(size, k, a, o...);
    case 2: return LocallyConnected(size, k, a, o...);
    case 3: return MaxPooling(k);
    case 4: return Recurrence(size, a, o...);
    default: return GruLayer(size, o...);
    }
}
// opt: 0 nothing, 1 dropout, 2 L1 and L2, 3 error multiplier, 4 softmax
static LayerModel with(int kind, int size, int k, activation a, int opt, float v = 0.25f)
{
    switch (opt)
    {
    case 1: return model(kind, size, k, a, Dropout(v));
    case 2: return model(kind, size, k, a, L1Regularization(v), L2Regularization(2 * v));
    case 3: return model(kind, size, k, a, ErrorMultiplier(8 * v));
    case 4: return model(kind, size, k, a, Softmax());
    case 5: return model(kind, size, k, a, L1Regularization(v));
    case 6: return model(kind, size, k, a, L2Regularization(v));
    default: return model(kind, size, k, a);
    }
}
static std::vector<LayerModel> stack(int k1, int k2, int opt)
{
    const int size = snn_param("size", 2);
    const auto a = (activation)snn_param("act", 2);
    const int x = snn_param("X", snn_param("two", 0) ? 3 : 4), k3 = snn_param("k3", -1), k4 = snn_param("k4", -1);
    std::vector<LayerModel> m{snn_param("two", 0) ? Input(1, x, x) : Input(1, x)};
    m.push_back(with(k1, size, 2, a, opt));
    for (int k : {k2, k3, k4})
        if (k >= 0) m.push_back(with(k, size, 2, a, opt));
    m.push_back(FullyConnected(2, (activation)snn_param("last", 0)));
    return m;
}
static float learningRate(NN& nn) { return static_cast<inl::StochasticGradientDescent*>(nn.optimizer.get())->learningRate; }
static float momentum(NN& nn) { return static_cast<inl::StochasticGradientDescent*>(nn.optimizer.get())->momentum; }

// everything a user can see of a network, its outputs aside
struct State
{
    VV weights;
    V scores;
    long trainings = 0;
    int epoch = 0, index = 0, between = 0;
    bool autoSave = false, idle = true, nan = false;
    std::string path, summary;
    int inputs = 0, outputs = 0, neurons = 0, parameters = 0, layers = 0;
};
static State stateOf(NN& nn)
{
    State s;
    s.weights = weightsOf(nn);
    s.scores = {nn.getGlobalClusteringRate(), nn.getWeightedClusteringRate(), nn.getF1Score(), nn.getMeanAbsoluteError(), nn.getRootMeanSquaredError(), nn.getGlobalClusteringRateMax(),
                nn.getWeightedClusteringRateMax(), nn.getF1ScoreMax(), nn.getMeanAbsoluteErrorMin(), nn.getRootMeanSquaredErrorMin(), learningRate(nn), momentum(nn)};
    s.trainings = nn.getNumberOfTraining();
    s.epoch = nn.getCurrentEpoch(); s.index = nn.getCurrentIndex(); s.between = nn.getNumberOfTrainingsBetweenTwoEvaluations();
    s.autoSave = nn.autoSaveWhenBetter; s.idle = !nn.isTraining(); s.nan = nn.hasNan(); s.path = nn.autoSaveFilePath;
    s.inputs = nn.getNumberOfInputs(); s.outputs = nn.getNumberOfOutputs(); s.neurons = nn.getNumberOfNeurons(); s.parameters = nn.getNumberOfParameters(); s.layers = nn.getNumberOfLayers();
    return s;
}
static void checkState(const State& a, const State& b, const char* msg)
{
    checkExact(a.weights, b.weights, msg);
    checkExact(a.scores, b.scores, msg);
    snn_check(a.trainings == b.trainings && a.epoch == b.epoch && a.index == b.index && a.between == b.between, msg);
    snn_check(a.autoSave == b.autoSave && a.idle == b.idle && a.nan == b.nan && a.path == b.path, msg);
    snn_check(a.inputs == b.inputs && a.outputs == b.outputs && a.neurons == b.neurons && a.parameters == b.parameters && a.layers == b.layers, msg);
}
static void arbitraryScores(NN& nn)
{
    float* f[] = {&nn.globalClusteringRate, &nn.weightedClusteringRate, &nn.f1Score, &nn.meanAbsoluteError, &nn.rootMeanSquaredError, &nn.globalClusteringRateMax, &nn.weightedClusteringRateMax,
                  &nn.f1ScoreMax, &nn.meanAbsoluteErrorMin, &nn.rootMeanSquaredErrorMin};
    for (float* s : f) *s = snn_float("score");
    nn.setNumberOfTrainingsBetweenTwoEvaluations(snn_int("between", 0, 1000000));
    nn.epoch = snn_int("epoch", 0, 1000000);
}
static V fixedInput(NN& nn, int i)
{
    V x(nn.getNumberOfInputs());
    for (size_t j = 0; j < x.size(); j++) x[j] = 0.125f * (float)((int)(j * 3 + i * 5) % 7) - 0.25f;
    return x;
}

// a network with a past, of arbitrary weights
static std::unique_ptr<NN> used(int opt)
{
    snn_rng_mode(1);
    auto nn = std::make_unique<NN>(stack(snn_param("k1", 0), snn_param("k2", -1), opt), StochasticGradientDescent(0.125f, snn_param("momentum", 1) ? 0.5f : 0.f));
    const int only = snn_param("only", 0), past = snn_param("past", 1);
    if (only == -1) symWeights(*nn);
    else if (only >= 0) symWeights(*nn->layers[only], "w");
    arbitraryScores(*nn);
    for (int i = 0; i < past; i++) nn->trainOnce(fixedInput(*nn, i), V{0.25f, 0.75f}, i == 0);
    for (int i = 0; i < past; i++) nn->computeOutput(fixedInput(*nn, i + 3), i == 0);
    nn->autoSaveWhenBetter = snn_param("auto", 0);
    if (snn_param("invalid", 0)) nn->outputNan = true;
    if (snn_param("path", 1)) nn->autoSaveFilePath = "somewhere.snn";
    return nn;
}
static std::unique_ptr<NN> twin(NN& nn, int how, const char* path)
{
    if (how == 0) return std::make_unique<NN>(nn);
    nn.saveAs(path);
    return std::unique_ptr<NN>(&NN::loadFrom(path));
}
static void sameBehaviour(NN& a, NN& b, const V& x, bool train)
{
    for (int reset = 0; reset < 2; reset++) checkSame(b.computeOutput(x, reset), a.computeOutput(x, reset), "the outputs of the two differ");
    if (train)
    {
        a.trainOnce(fixedInput(a, 1), V{0.5f, 0.f}, false);
        b.trainOnce(fixedInput(b, 1), V{0.5f, 0.f}, false);
        checkSame(weightsOf(b), weightsOf(a), "the two do not train alike");
        checkSame(b.computeOutput(x, true), a.computeOutput(x, true), "the outputs of the two differ after the same training");
        snn_check(a == b && !(a != b), "the two are not equal after the same training");
    }
}
// how: 0 copied, 1 saved and loaded
extern "C" void twins()
{
    const int how = snn_param("how", 0), opt = snn_param("layer", 0);
    auto a = used(opt);
    State s = stateOf(*a);
    auto b = twin(*a, how, "a.snn");
    if (how == 1) s.path = "a.snn";
    checkState(stateOf(*a), s, how ? "saving changes the network" : "copying changes the network");
    checkState(stateOf(*b), s, how ? "the loaded network is not as it was saved" : "the copy is not as the original");
    snn_check(*a == *b && *b == *a && !(*a != *b), how ? "the loaded network is not equal to the saved one" : "the copy is not equal to the original");
    const inl::NeuralNetwork &layersOfA = *a, &layersOfB = *b;
    snn_check(layersOfA == layersOfB && !(layersOfA != layersOfB), "the layers of the two are not equal");
    snn_check(!b->isTraining(), "the new network is not usable");
    if (snn_param("only", 0) == -2) snn_check(b->isValid() == 0, "the new network is not valid");
    const V x = snn_param("arbitrary", 1) ? symV("x", a->getNumberOfInputs()) : fixedInput(*a, 6);
    sameBehaviour(*a, *b, x, opt != 1 && snn_param("train", 1));
    if (snn_param("again", 0))
    {
        auto c = twin(*b, how, "b.snn"), d = twin(*a, how, "a.snn");
        if (how == 1) { snn_check(*c == *b, "a loaded network cannot be saved and loaded"); b->autoSaveFilePath = c->autoSaveFilePath = "a.snn"; }
        snn_check(*c == *d, "copies of equal networks differ");
        b.reset();
        sameBehaviour(*c, *d, x, opt != 1 && snn_param("train", 1));
    }
    snn_observe_f("output", a->computeOutput(x, true)[0]);
    snn_reach("end");
}
// whatever happens to one, the other one stays
extern "C" void apart()
{
    const int how = snn_param("how", 0), opt = snn_param("layer", 0), touch = snn_param("touch", 0);
    auto a = used(opt);
    auto b = twin(*a, how, "a.snn");
    NN& changed = touch % 2 ? *b : *a;
    NN& other = touch % 2 ? *a : *b;
    State s = stateOf(other);
    const V x = fixedInput(other, 2);
    NN asItWas(other);
    switch (touch / 2)
    {
    case 0:      // training
        changed.trainOnce(fixedInput(changed, 1), V{0.f, 1.f}, true);
        changed.trainOnce(fixedInput(changed, 4), V{1.f, 0.f}, false);
        snn_check(changed.getNumberOfTraining() == s.trainings + 2, "the number of trainings is wrong");
        break;
    case 1:      // destruction
        if (touch % 2) b.reset(); else a.reset();
        break;
    case 2:      // settings: a network follows its own optimizer, and no other's
    {
        static_cast<inl::StochasticGradientDescent*>(changed.optimizer.get())->learningRate = 0;
        static_cast<inl::StochasticGradientDescent*>(changed.optimizer.get())->momentum = 0;
        const VV w = weightsOf(changed);
        changed.trainOnce(fixedInput(changed, 1), V{0.f, 1.f}, true);
        checkSame(weightsOf(changed), w, "a network does not follow its own learning rate");
        break;
    }
    case 3:      // evaluation
    {
        VV in{fixedInput(changed, 0)}, out{V{1.f, 0.f}};
        Data data(problem::regression, in, out);
        data.setPrecision(100);
        changed.evaluate(data);
        break;
    }
    default:     // weights, all of them
        for (auto& l : changed.layers) for (auto* n : neuronsOf(*l)) for (auto& w : n->weights) w = 7;
    }
    checkState(stateOf(other), s, "a network changes with its twin");
    for (int reset = 0; reset < 2; reset++) checkSame(other.computeOutput(x, reset), asItWas.computeOutput(x, reset), "the outputs of a network change with its twin");
    // and it still trains
    if (opt != 1)
    {
        other.trainOnce(x, V{0.f, 1.f}, true);
        asItWas.trainOnce(x, V{0.f, 1.f}, true);
        checkSame(weightsOf(other), weightsOf(asItWas), "the training of a network changes with its twin");
    }
    snn_reach("end");
}
// a file holds the last network saved to it, whatever it held before
extern "C" void overwritten()
{
    snn_rng_mode(1);
    std::vector<LayerModel> big{Input(3), FullyConnected(3), GruLayer(2)}, small{Input(1), FullyConnected(1)};
    const bool first = snn_choose("first", 0, 1);
    NN a(first ? big : small), b(first ? small : big);
    symWeights(a); symWeights(b);
    a.saveAs("f.snn");
    b.saveAs("f.snn");
    std::unique_ptr<NN> c(&NN::loadFrom("f.snn"));
    snn_check(*c == b && c->getNumberOfParameters() == b.getNumberOfParameters(), "the file does not hold the last network saved");
    checkExact(weightsOf(*c), weightsOf(b), "the file does not hold the last network saved");
    bool thrown = false;
    try { NN::loadFrom("missing.snn"); }
    catch (std::exception&) { thrown = true; }
    snn_check(thrown, "a missing file is loaded");
    snn_reach("end");
}

// C31: networks that differ at one place
extern "C" void different()
{
    const int what = snn_param("what", 0), opt = snn_param("layer", 0);
    auto a = used(opt);
    auto b = std::make_unique<NN>(*a);
    snn_check(*a == *a && *b == *b && !(*a != *a), "equality is not reflexive");
    snn_check(*a == *b && *b == *a, "a copy is not equal");
    auto* so = static_cast<inl::StochasticGradientDescent*>(b->optimizer.get());
    switch (what)
    {
    case 0:     // any weight
    {
        std::vector<Neuron*> all;
        for (auto& l : b->layers) for (auto* n : neuronsOf(*l)) all.push_back(n);
        auto& w = all[snn_choose("neuron", 0, (int)all.size() - 1)]->weights;
        auto& v = w[snn_choose("weight", 0, (int)w.size() - 1)];
        const float old = v;
        v = snn_float("v");
        snn_assume(v != old);
        break;
    }
    case 1: { const float old = so->learningRate; so->learningRate = snn_float("lr"); snn_assume(so->learningRate != old); break; }
    case 2: { const float old = so->momentum; so->momentum = snn_float("m"); snn_assume(so->momentum != old); break; }
    case 3: b->autoSaveWhenBetter = !b->autoSaveWhenBetter; break;
    case 4: b->autoSaveFilePath = snn_choose("path", 0, 1) ? "" : "somewhere.snm"; break;
    case 5: { const int old = b->epoch; b->epoch = snn_int("e", 0, 1000000); snn_assume(b->epoch != old); break; }
    case 6: { const int old = b->getNumberOfTrainingsBetweenTwoEvaluations(); b->setNumberOfTrainingsBetweenTwoEvaluations(snn_int("n", 0, 1000000)); snn_assume(b->getNumberOfTrainingsBetweenTwoEvaluations() != old); break; }
    default: return;
    }
    snn_check(!(*a == *b), "networks that differ compare equal");
    snn_check(!(*b == *a), "networks that differ compare equal, seen from the other one");
    snn_check(*a != *b && *b != *a, "the inequality operator is not the opposite of equality");
    const inl::NeuralNetwork &layersOfA = *a, &layersOfB = *b;
    snn_check((layersOfA == layersOfB) == !(layersOfA != layersOfB) && !(layersOfA != layersOfA), "the inequality operator is not the opposite of equality");
    snn_reach("end");
}
// C31: two architectures, of which one thing differs or nothing does
extern "C" void architectures()
{
    const int kind = snn_param("kind", 0);
    struct Arch { int x, size, kernel, opt; float value; int act, k; } p, q;
    auto choose = [&](Arch& r)
    {
        const int vary = snn_param("vary", 0);
        r = {4, 2, 2, snn_param("layer", 0), 0.25f, 2, kind};
        switch (vary)
        {
        case 0: r.act = snn_choose("activation", 0, 6); break;
        case 1: r.opt = snn_choose("optimizer", 0, 6); break;
        case 2: r.size = snn_choose("size", 1, 3); break;
        case 3: r.kernel = snn_choose("kernel", 1, 4); break;
        case 4: r.value = r.opt == 1 ? snn_choose("value", 1, 3) * 0.25f : snn_float("value"); break;
        case 5: r.k = snn_choose("kind", 0, 5); break;
        default: r.x = snn_choose("inputs", 3, 5);
        }
    };
    choose(p);
    choose(q);
    auto build = [&](const Arch& r)
    {
        snn_rng_mode(1);
        // shapes of the same number of inputs, so that the sizes of the parameters agree
        std::vector<LayerModel> m{snn_param("two", 0) ? Input(1, r.x, 4) : Input(1, r.x)};
        for (int i = 0; i < snn_param("deep", 0); i++) m.push_back(FullyConnected(4, activation::identity));
        m.push_back(with(r.k, r.size, r.kernel, (activation)r.act, r.opt, r.value));
        if (snn_param("more", 0)) m.push_back(FullyConnected(1, activation::identity));
        auto n = std::make_unique<NN>(m, StochasticGradientDescent(0.125f, 0.f));
        for (auto& l : n->layers) for (auto* u : neuronsOf(*l)) for (auto& w : u->weights) w = 0.5f;
        return n;
    };
    // equal when nothing differs that the layer has
    const bool pool = p.k == 3, gru = p.k == 5;
    bool same = p.x == q.x && p.k == q.k;
    if (!pool)
    {
        same = same && p.size == q.size && p.opt == q.opt;
        if (!gru) same = same && p.act == q.act;
        if (p.opt != 0 && p.opt != 4) same = same && p.value == q.value;
    }
    if (p.k >= 1 && p.k <= 3) same = same && p.kernel == q.kernel;
    auto a = build(p), b = build(q);
    snn_check((*a == *b) == same, same ? "networks of the same architecture and parameters are not equal" : "networks of different architectures compare equal");
    snn_check((*b == *a) == same, "equality is not symmetric");
    snn_check((*a != *b) == !same, "the inequality operator is not the opposite of equality");
    snn_reach("end");
}
// C31: one more layer, or one more layer optimizer
extern "C" void prefixes()
{
    snn_rng_mode(1);
    auto build = [&](int n, int o)
    {
        std::vector<LayerModel> m{Input(2)};
        for (int i = 0; i < n; i++)
            m.push_back(o == 0 ? FullyConnected(2, activation::tanh) : o == 1 ? FullyConnected(2, activation::tanh, L1Regularization(0.5f)) : o == 2 ? FullyConnected(2, activation::tanh, L1Regularization(0.5f), L2Regularization(0.5f))
                               : FullyConnected(2, activation::tanh, L2Regularization(0.5f), L1Regularization(0.5f)));
        auto n2 = std::make_unique<NN>(m);
        for (auto& l : n2->layers) for (auto* u : neuronsOf(*l)) for (auto& w : u->weights) w = 0.5f;
        return n2;
    };
    const int n = snn_choose("layers", 1, 3), m = snn_choose("layers", 1, 3), o = snn_choose("optimizers", 0, 3), p = snn_choose("optimizers", 0, 3);
    auto a = build(n, o), b = build(m, p);
    snn_check((*a == *b) == (n == m && o == p), "networks of different layers compare equal, or equal ones do not");
    snn_check((*b == *a) == (n == m && o == p) && (*a != *b) == !(n == m && o == p), "equality is not symmetric, or not the opposite of inequality");
    snn_reach("end");
}

// C41: evaluations of a changing network
extern "C" void autosave()
{
    const int times = snn_param("times", 3), n = snn_param("samples", 2);
    const auto p = (problem)snn_param("problem", 2);
    const bool on = snn_param("on", 1), load = snn_param("load", 1);
    snn_rng_mode(1);
    NN nn({Input(1), FullyConnected(1, activation::identity)}, StochasticGradientDescent(0.125f, 0.5f));
    nn.autoSaveWhenBetter = on;
    // the file is the one last named: by hand, or by a save
    const int named = snn_param("named", 0) ? snn_choose("named", 1, 4) : 0;
    if (named >= 3) nn.autoSaveFilePath = "first.snn";
    if (named == 2 || named == 4) nn.saveAs("first.snn");
    if (named) nn.saveAs("best.snn");
    if (named == 4) { nn.saveAs("first.snn"); nn.autoSaveFilePath = "best.snn"; }
    if (!named) nn.autoSaveFilePath = "best.snn";
    float best = 0;
    State s;
    std::unique_ptr<NN> kept;
    for (int t = 0; t < times; t++)
    {
        V& w = neuronAt(nn, 0, 0).weights;
        static const float scores[] = {5.f, 0.f, 0.5f};      // none, half and all of two samples are right
        w = {0.f, snn_param("scores", 0) ? scores[snn_choose("score", 0, 2)] : snn_float("w")};
        VV in(n, V{1.f}), out;
        for (int k = 0; k < n; k++) out.push_back(V{p == problem::regression ? (float)k : (float)(k % 2)});
        Data data(p, in, out);
        if (p == problem::regression) data.setPrecision(0.5f);
        nn.evaluate(data);
        const float r = nn.getGlobalClusteringRate();
        if (t == 0 || r > best)
        {
            best = r;
            kept = std::make_unique<NN>(nn);
            s = stateOf(nn);
        }
        snn_check(snn_file_exists("best.snn") == (int)(on || named), on ? "a better network is not saved" : "a network is saved without auto-save");
        if (!on) continue;
        std::unique_ptr<NN> f(&NN::loadFrom("best.snn"));
        State l = stateOf(*f);
        l.index = s.index;      // where an evaluation was is not part of a network
        checkState(l, s, "the file does not hold the best network");
        snn_check(f->autoSaveWhenBetter && f->autoSaveFilePath == "best.snn" && !f->isTraining(), "the saved network has other settings");
        const V x = V{0.5f};
        checkSame(f->computeOutput(x, true), kept->computeOutput(x, true), "the outputs of the saved network are not those of the best network");
        if (load && t == times - 1)
        {
            f->train(data, snn::operator""_ep(1), 1, 0);
            snn_check(f->getNumberOfTraining() == n && !f->isTraining(), "the saved network cannot be trained");
            f->saveAs("other.snn");
        }
    }
    snn_observe_f("best", best);
    snn_reach("end");
}
// C41: auto-save in the course of a training
extern "C" void autosaveTrain()
{
    const int epochs = snn_param("epochs", 2);
    const bool async = snn_param("async", 0);
    snn_rng_mode(1);
    NN nn({Input(1), FullyConnected(1, activation::identity)}, StochasticGradientDescent(0.125f, 0.f));
    nn.autoSaveWhenBetter = true;
    nn.autoSaveFilePath = "best.snn";
    neuronAt(nn, 0, 0).weights = {snn_float("w"), snn_float("b")};
    VV in{V{1.f}}, out{V{0.f}};
    Data data(problem::regression, in, out);
    data.setPrecision(0.25f);
    if (async)
    {
        snn_shared(&nn.wantToStopTraining, sizeof(nn.wantToStopTraining));
        snn_shared(&nn.isIdle, sizeof(nn.isIdle));
        snn_shared(&nn.epoch, sizeof(nn.epoch));
    }
    if (!async) nn.train(data, snn::operator""_ep((unsigned long long)epochs), 1, 1);
    else
    {
        nn.startTrainingAsync(data, 1, 1);
        nn.waitFor(snn::operator""_ep(1));
        nn.stopTrainingAsync();
    }
    std::unique_ptr<NN> f(&NN::loadFrom("best.snn"));
    snn_check(!f->isTraining(), "a network saved during a training is training once loaded");
    snn_check_eq(f->getGlobalClusteringRate(), nn.getGlobalClusteringRateMax(), "the file does not hold the best network");
    snn_check_eq(f->getGlobalClusteringRateMax(), nn.getGlobalClusteringRateMax(), "the saved network has another best score");
    const float y = f->computeOutput(in[0], true)[0];
    snn_check((y <= 0.25f && y >= -0.25f) == (nn.getGlobalClusteringRateMax() == 1), "the file does not hold the network that was the best");
    f->train(data, snn::operator""_ep(1), 1, 0);
    f->saveAs("again.snn");
    std::unique_ptr<NN> g(&NN::loadFrom("again.snn"));
    snn_check(*g == *f, "the saved network cannot be trained and saved");
    snn_reach("end");
}
