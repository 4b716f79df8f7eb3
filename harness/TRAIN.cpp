// Backward pass and weight update of the feed-forward layers (C12, C13, C14, C15)
#include "nn.h"

struct Net { std::vector<LayerModel> models; std::vector<Ref> refs; std::vector<int> shape; };

static int positions(const Ref& r)
{
    // a convolution's step is divided by its number of kernel positions
    return r.pool || r.nWeights.empty() ? 1 : (int)(r.links.size() / r.nWeights.size());
}
static bool isConv(const Ref& r) { return !r.pool && r.nWeights.size() < r.links.size(); }

// kinds: 0 dense, 1 convolution, 2 locally connected, 3 pooling; size: neurons or filters; k: kernel
static void add(Net& n, int kind, int size, int k, activation a)
{
    std::vector<int> in = n.refs.empty() ? n.shape : n.refs.back().out;
    if (n.refs.empty() && n.models.empty()) n.models.push_back(modelInput(in));
    int total = 1;
    for (int s : in) total *= s;
    if (in.size() == 1 && kind) in = {1, in[0]};
    const bool two = in.size() == 3;
    if (kind == 0) { n.models.push_back(FullyConnected(size, a)); n.refs.push_back(refDense(total, size, a)); }
    if (kind == 1) { n.models.push_back(Convolution(size, k, a)); n.refs.push_back(refFilter(true, in, size, k, a, two)); }
    if (kind == 2) { n.models.push_back(LocallyConnected(size, k, a)); n.refs.push_back(refFilter(false, in, size, k, a, two)); }
    if (kind == 3) { n.models.push_back(MaxPooling(k)); n.refs.push_back(refPool(in, k, two)); }
}

// error handed to the inputs of a layer: the errors of the outputs that used it, through the weight it was used with
static V refBack(const Ref& r, const V& x, const VV& w, const V& error, bool derivative = true)
{
    V e(r.inputs(), 0), s = r.pool ? V() : refSums(r, x, w);
    for (size_t o = 0; o < r.links.size(); o++)
    {
        if (r.pool)
        {
            size_t best = 0;
            for (size_t l = 1; l < r.links[o].size(); l++) if (x[r.links[o][l].input] > x[r.links[o][best].input]) best = l;
            e[r.links[o][best].input] += error[o];
            continue;
        }
        float d = derivative ? error[o] * dact(r.a, s[o]) : error[o];
        for (auto& l : r.links[o]) e[l.input] += d * w[l.neuron][l.weight];
    }
    return e;
}
// The recorded defects (known_findings.json) of the same step, exactly:
// - a convolution uses, for every position, the derivative at its last position, and its weights already move between
//   the positions;
// - a 1D locally connected layer with several filters hands the error of neuron n to tile n modulo the number of tiles.
static V recordedBack(const Ref& r, bool two, const V& x, VV w, const V& error, float lr)
{
    if (r.pool) return refBack(r, x, w, error);
    const int P = positions(r), n = (int)r.links.size(), F = r.out[0];
    V e(r.inputs(), 0), s = refSums(r, x, w);
    if (isConv(r))
    {
        for (int o = 0; o < n; o++)
        {
            const int k = r.neuronOf[o];
            const float d = error[o] * dact(r.a, s[n - F + o % F]);
            for (auto& l : r.links[o]) e[l.input] += d * w[k][l.weight];
            for (auto& l : r.links[o]) w[k][l.weight] += lr / P * d * x[l.input];
        }
        return e;
    }
    const bool mixed = r.out.size() == 2 && !two && F > 1 && n > F;
    if (!mixed) return refBack(r, x, w, error);
    for (int o = 0; o < n; o++)
        for (auto& l : r.links[o % (n / F) * F]) e[l.input] += error[o] * dact(r.a, s[o]) * w[o][l.weight];
    return e;
}
// sum over the outputs of local error times the input each weight multiplied
static VV refGrad(const Ref& r, const V& x, const VV& w, const V& error, bool recorded = false)
{
    VV g;
    for (int n : r.nWeights) g.push_back(V(n, 0));
    if (r.pool) return g;
    V s = refSums(r, x, w);
    for (size_t o = 0; o < r.links.size(); o++)
    {
        float d = error[o] * dact(r.a, recorded && isConv(r) ? s[s.size() - r.out[0] + o % r.out[0]] : s[o]);
        for (auto& l : r.links[o]) g[l.neuron][l.weight] += d * x[l.input];
        g[r.neuronOf[o]].back() += d * r.bias;
    }
    return g;
}
static void distinct(const Ref& r, const V& x)
{
    if (!r.pool) return;
    for (auto& l : r.links)
        for (size_t i = 0; i < l.size(); i++)
            for (size_t j = i + 1; j < l.size(); j++) snn_assume(x[l[i].input] != x[l[j].input]);
}
static NN make(const Net& n, float lr, float m)
{
    snn_rng_mode(1);
    auto models = n.models;
    NN nn(models, StochasticGradientDescent(lr, m));
    snn_rng_mode(0);
    return nn;
}

static Net one()
{
    Net n;
    const bool two = snn_param("two", 0);
    const int kind = snn_param("kind", 0), X = snn_param("X", 4), Y = snn_param("Y", 3), C = snn_param("C", 1);
    n.shape = kind == 0 ? std::vector<int>{X} : two ? std::vector<int>{C, X, Y} : std::vector<int>{C, X};
    add(n, kind, snn_param("F", 2), snn_param("K", 2), (activation)snn_param("act", 6));
    return n;
}
// the error handed back by one layer, learning rate lr (0: weights stay as they were during the forward pass)
extern "C" void back()
{
    Net n = one();
    n.models.push_back(FullyConnected(1, activation::identity));
    const bool rate = snn_param("rate", 1);
    float lr = rate ? snn_float("lr") : 0;
    if (rate) { snn_assume(lr > 0.f); snn_assume(lr < 1.f); }
    NN nn = make(n, 0.5f, 0);
    dynamic_cast<inl::StochasticGradientDescent*>(nn.optimizer.get())->learningRate = lr;
    BaseLayer& l = *nn.layers[0];
    symWeights(l, "w");
    auto w = weightsOf(l);
    const Ref& r = n.refs[0];
    V x;
    if (snn_param("focus", 0))
    {
        // the values of one tile are arbitrary, the others fixed and distinct
        const int o = snn_choose("tile", 0, r.outputs() - 1);
        for (int i = 0; i < r.inputs(); i++) x.push_back(i % 2 ? 1000.f + i : -1000.f - i);
        for (auto& l : r.links[o]) x[l.input] = snn_float("x");
    }
    else x = symV("x", r.inputs());
    distinct(r, x);
    const int forwards = snn_param("forwards", 1);
    for (int i = 1; i < forwards; i++) l.output(symV("before", r.inputs()), true);
    V out = l.outputForTraining(x, true);
    snn_check((int)out.size() == r.outputs(), "number of outputs");
    V e = symV("e", r.outputs()), given = e;
    V got = l.backOutput(given);
    checkOr(got, refBack(r, x, w, e), recordedBack(r, snn_param("two", 0), x, w, e, lr), "error handed to the previous layer", "error handed to the previous layer, as recorded");
    if (!rate) checkExact(weightsOf(l), w, "weights");
    snn_reach("end");
}
// several training steps of a network; after each, every weight has moved by learning rate x gradient + momentum x last move
static void trainSteps(const Net& n, int steps, bool momentum)
{
    float lr = snn_float("lr"), m = momentum ? snn_float("m") : 0;
    snn_assume(lr > 0.f); snn_assume(lr < 1.f);
    if (momentum) { snn_assume(m > 0.f); snn_assume(m < 1.f); }
    NN nn = make(n, 0.5f, 0);
    auto* sgd = dynamic_cast<inl::StochasticGradientDescent*>(nn.optimizer.get());
    sgd->learningRate = lr;
    sgd->momentum = m;
    symWeights(nn);
    std::vector<VV> last(n.refs.size()), lastRecorded(n.refs.size());
    bool strict = true;
    for (auto& r : n.refs) if (isConv(r) || (!r.pool && r.neuronOf.size() > 1 && r.in.size() > 1)) strict = false;
    for (int t = 0; t < steps; t++)
    {
        std::vector<VV> w;
        for (auto& l : nn.layers) w.push_back(weightsOf(*l));
        V x = symV("x", n.refs[0].inputs());
        V desired = symV("d", n.refs.back().outputs());
        if (snn_param("between", 0)) nn.computeOutput(symV("z", n.refs[0].inputs()), true);
        std::vector<V> in{x};
        for (size_t l = 0; l < n.refs.size(); l++)
        {
            distinct(n.refs[l], in.back());
            in.push_back(refOut(n.refs[l], in.back(), w[l]));
        }
        V err(desired.size());
        for (size_t i = 0; i < err.size(); i++) err[i] = 2 * (desired[i] - in.back()[i]);
        nn.trainOnce(x, desired, true);
        V errRecorded = err;
        for (int l = (int)n.refs.size() - 1; l >= 0; l--)
        {
            const Ref& r = n.refs[l];
            VV g = refGrad(r, in[l], w[l], err), gr = refGrad(r, in[l], w[l], errRecorded, true), now = weightsOf(*nn.layers[l]);
            V back = refBack(r, in[l], w[l], err), backRecorded = recordedBack(r, r.in.size() == 3, in[l], w[l], errRecorded, lr);
            if (t == 0) lastRecorded[l] = gr;
            for (size_t i = 0; i < g.size(); i++)
                for (size_t j = 0; j < g[i].size(); j++)
                {
                    float move = lr / positions(r) * g[i][j], recorded = lr / positions(r) * gr[i][j];
                    if (t && momentum) { move += m * last[l][i][j]; recorded += m * lastRecorded[l][i][j]; }
                    g[i][j] = move;
                    gr[i][j] = recorded;
                    static const char* msg[4][2] = {{"move of a weight of layer 1", "move of a bias weight of layer 1"}, {"move of a weight of layer 2", "move of a bias weight of layer 2"}, {"move of a weight of layer 3", "move of a bias weight of layer 3"}, {"move of a weight", "move of a bias weight"}};
                    const char* what = msg[l < 3 ? l : 3][j + 1 == g[i].size()];
                    const float moved = now[i][j] - w[l][i][j];
                    if (strict) { snn_check_eq(moved, move, what); continue; }
                    const bool a = snn_near(moved, move), b = snn_near(moved, recorded);
                    snn_check(a | b, what);
                    if (!snn_param("quiet", 0)) snn_finding(a, "move of a weight around a filter layer, as recorded");
                }
            last[l] = g;
            lastRecorded[l] = gr;
            err = back;
            errRecorded = backRecorded;
        }
    }
    snn_check(nn.getNumberOfTraining() == steps, "number of trainings");
    snn_reach("end");
}
extern "C" void sgd()
{
    Net n = one();
    trainSteps(n, snn_param("steps", 2), snn_param("momentum", 1));
}
static Net stackOf()
{
    Net n;
    const bool two = snn_param("two", 0);
    n.shape = two ? std::vector<int>{snn_param("C", 1), snn_param("X", 3), snn_param("Y", 3)} : std::vector<int>{snn_param("C", 1), snn_param("X", 4)};
    static const char* names[] = {"l1", "l2", "l3", "l4", "l5", "l6", "l7", "l8"};
    const int depth = snn_param("depth", 1);
    const activation a[] = {(activation)snn_param("act", 2), activation::identity, activation::tanh};
    for (int l = 0; l < depth; l++) add(n, snn_param(names[l], 0), snn_param("F", 2), snn_param("K", 2), a[l % 3]);
    if (snn_param("dense", 1)) add(n, 0, 1, 1, activation::identity);
    return n;
}
extern "C" void sgdStack() { trainSteps(stackOf(), snn_param("steps", 1), snn_param("momentum", 0)); }

// the same, against the derivative of the loss of the real forward pass
extern "C" void gradient()
{
    Net n = stackOf();
    float lr = snn_float("lr");
    snn_assume(lr > 0.f); snn_assume(lr < 1.f);
    NN nn = make(n, 0.5f, 0);
    dynamic_cast<inl::StochasticGradientDescent*>(nn.optimizer.get())->learningRate = lr;
    symWeights(nn);
    V x = symV("x", n.refs[0].inputs()), desired = symV("d", n.refs.back().outputs());
    std::vector<VV> w;
    for (auto& l : nn.layers) w.push_back(weightsOf(*l));
    V y = x;
    for (size_t l = 0; l < n.refs.size(); l++) { distinct(n.refs[l], y); y = refOut(n.refs[l], y, w[l]); }
    V out = nn.computeOutput(x, true);
    float loss = 0;
    for (size_t i = 0; i < out.size(); i++) loss += (desired[i] - out[i]) * (desired[i] - out[i]);
    nn.trainOnce(x, desired, true);
    for (size_t l = 0; l < w.size(); l++)
    {
        VV now = weightsOf(*nn.layers[l]);
        int k = 0;
        for (size_t i = 0; i < now.size(); i++)
            for (size_t j = 0; j < now[i].size(); j++, k++)
            {
                std::string name = "w" + std::to_string(l) + (k ? "#" + std::to_string(k) : "");
                float g = snn_diff(loss, w[l][i][j], name.c_str());
                snn_check_eq(now[i][j] - w[l][i][j], -lr * g / positions(n.refs[l]), j + 1 == now[i].size() ? "move of a bias weight against the gradient" : "move of a weight against the gradient");
            }
    }
    snn_reach("end");
}

// recurrent layers: error handed back, and update of the weights, over several steps
extern "C" void recurrent()
{
    const int n = snn_param("n", 2), m = snn_param("m", 1), T = snn_param("T", 2);
    const auto a = (activation)snn_param("act", 2);
    float lr = snn_float("lr"), mo = snn_float("m");
    snn_assume(lr > 0.f); snn_assume(lr < 1.f); snn_assume(mo >= 0.f); snn_assume(mo < 1.f);
    snn_rng_mode(1);
    std::vector<LayerModel> models{Input(n), Recurrence(m, a), FullyConnected(1, activation::identity)};
    NN nn(models, StochasticGradientDescent(0.5f, 0));
    snn_rng_mode(0);
    auto* sgd = dynamic_cast<inl::StochasticGradientDescent*>(nn.optimizer.get());
    sgd->learningRate = lr;
    sgd->momentum = mo;
    BaseLayer& l = *nn.layers[0];
    symWeights(l, "w");
    V h(m, 0), sum(m, 0), R(m, 0);
    VV last(m, V(n + 2, 0));
    for (int t = 0; t < T; t++)
    {
        V x = symV("x", n), e = symV("e", m), before = h, sumBefore = sum;
        auto w = weightsOf(l);
        V out = l.outputForTraining(x, t == 0), back(n, 0);
        for (int k = 0; k < m; k++)
        {
            float s = 0;
            for (int i = 0; i < n; i++) s += x[i] * w[k][i];
            sum[k] = s + before[k] * w[k][n] + w[k][n + 1];
            h[k] = act(a, sum[k]);
            for (int i = 0; i < n; i++) back[i] += e[k] * dact(a, sum[k]) * w[k][i];
        }
        checkSame(out, h, "output of the recurrent layer");
        V given = e;
        V got = l.backOutput(given);
        checkSame(got, back, "error handed to the previous layer");
        auto now = weightsOf(l);
        for (int k = 0; k < m; k++)
        {
            const float d = e[k] * dact(a, sum[k]);
            R[k] = d + R[k] * dact(a, sumBefore[k]) * w[k][n];
            V move(n + 2);
            for (int i = 0; i < n; i++) move[i] = lr * d * x[i] + mo * last[k][i];
            // the recurrent weight by its own input, the previous output; the bias by the local error
            move[n] = lr * R[k] * before[k] + mo * last[k][n];
            move[n + 1] = lr * d + mo * last[k][n + 1];
            for (int i = 0; i < n + 2; i++)
                snn_check_eq(now[k][i] - w[k][i], move[i], i < n ? "move of an input weight of a recurrent neuron" : i == n ? "move of the recurrent weight" : "move of the bias weight of a recurrent neuron");
            last[k] = move;
        }
    }
    snn_reach("end");
}
