// Recurrent layers (C08, C09) and sequence starts (C10)
#include "nn.h"

// h(t) = f(W.x(t) + U.h(t-1) + b), several neurons, each with its own memory; resets anywhere in the history
extern "C" void c08()
{
    const int n = snn_param("n", 2), m = snn_param("m", 2), T = snn_param("T", 3);
    const auto a = (activation)snn_param("act", 2);
    snn_rng_mode(1);
    NN nn({Input(n), Recurrence(m, a)});
    snn_rng_mode(0);
    symWeights(nn);
    auto w = weightsOf(nn);
    // recorded (known_findings.json): the memory is not cleared by a reset
    V h(m, 0), recorded(m, 0);
    for (int t = 0; t < T; t++)
    {
        const bool reset = snn_choose("reset", 0, 1);
        V x = symV("x", n);
        V out = snn_param("training", 0) && t % 2 ? nn.outputForTraining(x, reset) : nn.computeOutput(x, reset);
        if (reset) h.assign(m, 0);
        for (int k = 0; k < m; k++)
        {
            float s = 0;
            for (int i = 0; i < n; i++) s += x[i] * w[k][i];
            h[k] = act(a, s + h[k] * w[k][n] + w[k][n + 1]);
            recorded[k] = act(a, s + recorded[k] * w[k][n] + w[k][n + 1]);
        }
        checkOr(out, h, recorded, "output of the recurrent layer", "memory of a recurrent layer after a reset, as recorded");
        snn_observe_f("h", out[0]);
    }
    checkExact(weightsOf(nn), w, "weights");
    snn_reach("end");
}
// recurrent layers stacked, a dense layer behind
extern "C" void c08stack()
{
    const int T = snn_param("T", 3);
    snn_rng_mode(1);
    NN nn({Input(1), Recurrence(2, activation::tanh), Recurrence(1, activation::identity), FullyConnected(1, activation::tanh)});
    snn_rng_mode(0);
    symWeights(nn);
    auto w0 = weightsOf(*nn.layers[0]), w1 = weightsOf(*nn.layers[1]), w2 = weightsOf(*nn.layers[2]);
    struct Memory { V a = V(2, 0); float b = 0; } right, recorded;
    for (int t = 0; t < T; t++)
    {
        const bool reset = snn_choose("reset", 0, 1);
        float x = snn_float("x");
        V out = nn.computeOutput({x}, reset);
        if (reset) right = Memory();
        auto step = [&](Memory& m)
        {
            for (int k = 0; k < 2; k++) m.a[k] = act(activation::tanh, x * w0[k][0] + m.a[k] * w0[k][1] + w0[k][2]);
            m.b = m.a[0] * w1[0][0] + m.a[1] * w1[0][1] + m.b * w1[0][2] + w1[0][3];
            return V{act(activation::tanh, m.b * w2[0][0] + w2[0][1])};
        };
        V good = step(right), known = step(recorded);
        checkOr(out, good, known, "output of the stack", "memory of a recurrent layer after a reset, as recorded");
    }
    snn_reach("end");
}
// r = s(Wr x + Ur h + br), z = s(Wz x + Uz h + bz), c = tanh(W x + U (r h) + b), h' = (1 - z) h + z c
extern "C" void c09()
{
    const int n = snn_param("n", 2), m = snn_param("m", 2), T = snn_param("T", 3);
    snn_rng_mode(1);
    NN nn({Input(n), GruLayer(m)});
    snn_rng_mode(0);
    symWeights(nn);
    auto w = weightsOf(nn);
    snn_check((int)w.size() == 3 * m, "three gates per unit");
    // recorded (known_findings.json): the previous output is never kept for the mixture, and the gates' memory is not
    // cleared by a reset
    V h(m, 0), recorded(m, 0);
    for (int t = 0; t < T; t++)
    {
        const bool reset = snn_choose("reset", 0, 1);
        V x = symV("x", n);
        V out = nn.computeOutput(x, reset);
        if (reset) h.assign(m, 0);
        for (int k = 0; k < m; k++)
        {
            auto gate = [&](const V& g, float back)
            {
                float s = 0;
                for (int i = 0; i < n; i++) s += x[i] * g[i];
                return s + back * g[n] + g[n + 1];
            };
            auto step = [&](float back, float kept)
            {
                float r = act(activation::sigmoid, gate(w[3 * k], back));
                float z = act(activation::sigmoid, gate(w[3 * k + 1], back));
                float c = act(activation::tanh, gate(w[3 * k + 2], back * r));
                return (1 - z) * kept + z * c;
            };
            h[k] = step(h[k], h[k]);
            recorded[k] = step(recorded[k], 0);
        }
        checkOr(out, h, recorded, "output of the gated recurrent unit", "memory of a gated recurrent unit, as recorded");
        snn_observe_f("h", out[0]);
    }
    snn_reach("end");
}
static LayerModel layer(int kind, int size)
{
    const auto act = (activation)snn_param("act", (int)activation::tanh);
    switch (kind)
    {
    case 0: return FullyConnected(size, act);
    case 1: return Recurrence(size, act);
    case 2: return GruLayer(size);
    case 3: return Convolution(size, 1, act);
    case 4: return LocallyConnected(size, 2, act);
    default: return MaxPooling(2);
    }
}
// two networks with the same parameters; one has a past, and possibly a training step in it is undone by giving it the
// same parameters again: an output with temporal reset is the same, and so is everything after it
extern "C" void c10()
{
    const int k1 = snn_param("k1", 1), k2 = snn_param("k2", 0), past = snn_param("past", 2), after = snn_param("after", 2), trainings = snn_param("train", 0);
    snn_rng_mode(1);
    const int size = snn_param("size", 2), X = snn_param("X", 2);
    std::vector<LayerModel> m{Input(X), layer(k1, size), layer(k2, size)};
    for (const char* k : {"k3", "k4", "k5", "k6"}) if (snn_param(k, -1) >= 0) m.push_back(layer(snn_param(k, -1), size));
    m.push_back(FullyConnected(1, activation::identity));
    NN a(m), b(m);
    snn_rng_mode(0);
    if (!snn_param("fixed", 0)) symWeights(a);
    for (size_t l = 0; l < a.layers.size(); l++)
    {
        auto na = neuronsOf(*a.layers[l]), nb = neuronsOf(*b.layers[l]);
        for (size_t i = 0; i < na.size(); i++) nb[i]->weights = na[i]->weights;
    }
    for (int t = 0; t < past; t++) b.computeOutput(symV("past", X), snn_choose("resetPast", 0, 1));
    if (trainings)
    {
        b.trainOnce(symV("past", X), {snn_float("desired")}, snn_choose("resetPast", 0, 1));
        for (size_t l = 0; l < a.layers.size(); l++)
        {
            auto na = neuronsOf(*a.layers[l]), nb = neuronsOf(*b.layers[l]);
            for (size_t i = 0; i < na.size(); i++) nb[i]->weights = na[i]->weights;
        }
    }
    // recorded (known_findings.json): what recurrent neurons remember survives a reset
    const bool clear = snn_param("clear", 1);
    if (clear)
        for (auto& l : b.layers)
            if (dynamic_cast<RecL*>(l.get()) || dynamic_cast<GruL*>(l.get()))
                for (auto* n : neuronsOf(*l)) { static_cast<RecurrentNeuron*>(n)->lastOutput = 0; n->sum = 0; }
    for (int t = 0; t < after; t++)
    {
        V x = symV("x", X);
        if (snn_param("learn", 0))
        {
            const float d = snn_float("d");
            a.trainOnce(x, {d}, t == 0);
            b.trainOnce(x, {d}, t == 0);
            checkSame(weightsOf(b), weightsOf(a), "training after a temporal reset");
            continue;
        }
        V oa = a.computeOutput(x, t == 0), ob = b.computeOutput(x, t == 0);
        if (clear) checkSame(oa, ob, "output after a temporal reset");
        else snn_finding(nearAll(oa, ob), "output after a temporal reset, as recorded");
    }
    snn_reach("end");
}
// without recurrence no reset is needed
extern "C" void c10stateless()
{
    const int k1 = snn_param("k1", 0), k2 = snn_param("k2", 3);
    snn_rng_mode(1);
    const int size = snn_param("size", 2), X = snn_param("X", 2);
    std::vector<LayerModel> m{Input(X), layer(k1, size), layer(k2, size)};
    for (const char* k : {"k3", "k4", "k5", "k6"}) if (snn_param(k, -1) >= 0) m.push_back(layer(snn_param(k, -1), size));
    m.push_back(FullyConnected(1, activation::identity));
    NN a(m);
    snn_rng_mode(0);
    symWeights(a);
    V x = symV("x", X), y = symV("y", X);
    V o1 = a.computeOutput(x, false);
    a.computeOutput(y, snn_choose("reset", 0, 1));
    V o2 = a.computeOutput(x, snn_choose("reset", 0, 1));
    checkSame(o1, o2, "output of the same input");
    snn_reach("end");
}
