// The training loop (C27) and asynchronous training (C28), seen from a network's first layer and its data
#include "nn.h"
#include <snn/data/Data.hpp>
#include <algorithm>
#include <chrono>
#include <cmath>
#include <thread>

extern "C" int snn_file_exists(const char* path);

enum Kind { shuffled, output, forward, learn };
struct Event
{
    Kind kind;
    V v;
    bool reset;
    int epoch;
    long at;
};
struct Trace
{
    std::vector<Event> events;
    NN* nn = nullptr;
    int inside = 0;             // threads inside the network
    bool yields = false, timed = false, slow = false;
    int outputs = 0;
    std::vector<std::vector<int>> orders, firsts, learns;      // of each epoch
    std::function<void(Kind)> on;
    VV evaluated;               // outputs of evaluations

    void add(Kind k, const V& v, bool reset)
    {
        if (yields)
        {
            snn_check(inside == 0, "two trainings run at once");
            inside = 1;
            snn_yield();
            inside = 0;
            return;
        }
        if (on) on(k);
        if (timed && k != shuffled && slow) { static const long ms[] = {0, 1, 3}; snn_pass_time(1000000 * ms[snn_choose("takes", 0, 2)]); }
        events.push_back({k, v, reset, nn->getCurrentEpoch(), timed ? (long)std::chrono::system_clock::now().time_since_epoch().count() : 0});
    }
    int count(Kind k) const { int n = 0; for (auto& e : events) n += e.kind == k; return n; }
};

// stands for a whole network: arbitrary outputs, and a record of what it is given
struct Probe final : BaseLayer
{
    Trace* t;
    int n, m;
    bool arbitrary = false, onlyEvaluations = true, *wrong = nullptr, dead = false;
    const float* values = nullptr;
    int nValues = 0;
    Probe(Trace* t, int n, int m) : t(t), n(n), m(m) {}
    V out(bool training)
    {
        V v(m);
        t->outputs++;
        if (dead) { v.assign(m, NAN); return v; }
        if (wrong)
        {
            // any value that is not a number, or a number
            static const float numbers[] = {0.5f, 3e38f};
            for (auto& x : v)
            {
                const int k = snn_choose("valid", 0, 2);
                x = snn_float("y");
                if (k) x = numbers[k - 1];
                else { snn_assume(!std::isfinite(x)); *wrong = true; }
            }
            return v;
        }
        if (values && !training) for (auto& x : v) x = values[snn_choose("y", 0, nValues - 1)];
        else for (auto& x : v) x = arbitrary && !(training && onlyEvaluations) ? snn_float("y") : 0.5f * (float)t->outputs;
        return v;
    }
    std::unique_ptr<BaseLayer> clone(std::shared_ptr<inl::NeuralNetworkOptimizer>) const override { return std::make_unique<Probe>(*this); }
    void* getNeuron(int) override { return nullptr; }
    float getAverageOfAbsNeuronWeights() const override { return 0; }
    float getAverageOfSquareNeuronWeights() const override { return 0; }
    int getNumberOfInputs() const override { return n; }
    int getNumberOfNeurons() const override { return m; }
    int getNumberOfParameters() const override { return 0; }
    std::vector<int> getShapeOfInput() const override { return {n}; }
    std::vector<int> getShapeOfOutput() const override { return {m}; }
    V output(const V& x, bool r) override { t->add(::output, x, r); t->evaluated.push_back(last = out(false)); return last; }
    V outputForTraining(const V& x, bool r) override { t->add(forward, x, r); return last = out(true); }
    V backOutput(V& e) override { return e; }
    void train(V& e) override
    {
        V d = e;
        // the target behind the error: desired - output, doubled
        for (size_t i = 0; i < d.size(); i++) d[i] = e[i] * 0.5f + last[i];
        t->add(learn, d, false);
    }
    int isValid() const override { return 0; }
    std::string summary() const override { return ""; }
    bool operator==(const BaseLayer&) const override { return true; }
    bool operator!=(const BaseLayer&) const override { return false; }
    V last;
};

// data that are shuffled in every possible way
struct Order final : inl::TemporalComposite
{
    Trace* t;
    std::unique_ptr<inl::TemporalComposite> real;
    int way;                    // 0: as the data are, 1: any permutation, 2: reversed, 3: the data's own shuffle
    std::vector<int> learns, first;
    Order(Set s[2], Trace* t, std::unique_ptr<inl::TemporalComposite> real, int way) : TemporalComposite(s), t(t), real(std::move(real)), way(way) {}
    void shuffle() override
    {
        auto& p = sets[training].shuffledIndexes;
        const int n = (int)p.size();
        if (way == 3) real->shuffle();
        if (way == 1)
            for (int i = n - 1; i > 0; i--) std::swap(p[i], p[snn_choose("order", 0, i)]);
        if (way == 2) std::reverse(p.begin(), p.end());
        std::vector<int> o;
        for (int i = 0; i < n; i++) o.push_back(snn_concrete(p[i]));
        t->orders.push_back(o);
        t->firsts.emplace_back();
        t->learns.emplace_back();
        for (int i = 0; i < n; i++)
        {
            t->firsts.back().push_back(isFirstTrainingDataOfTemporalSequence(i));
            t->learns.back().push_back(needToTrainOnTrainingData(i));
        }
        t->add(shuffled, {}, false);
    }
    void unshuffle() override { real->unshuffle(); }
    bool isFirstTrainingDataOfTemporalSequence(int i) const override { return first.empty() ? real->isFirstTrainingDataOfTemporalSequence(i) : (bool)first[i]; }
    bool isFirstTestingDataOfTemporalSequence(int i) const override { return real->isFirstTestingDataOfTemporalSequence(i); }
    bool needToTrainOnTrainingData(int i) const override { return learns.empty() ? real->needToTrainOnTrainingData(i) : (bool)learns[i]; }
    bool needToEvaluateOnTestingData(int i) const override { return real->needToEvaluateOnTestingData(i); }
    int isValid() override { return real->isValid(); }
};

static Probe* probe(NN& nn, Trace& t, int n, int m)
{
    auto p = std::make_unique<Probe>(&t, n, m);
    Probe* r = p.get();
    t.nn = &nn;
    nn.layers.clear();
    nn.layers.push_back(std::move(p));
    return r;
}

// what a training does: the events that are expected, one after another
struct Expected
{
    Trace& t;
    size_t at = 0;
    void next(Kind k, const V& v, bool reset, int epoch, const char* msg)
    {
        if (at >= t.events.size()) { snn_check(false, msg); snn_stop("no such event"); }
        const Event& e = t.events[at++];
        snn_check(e.kind == k, msg);
        if (e.kind != k) snn_stop("another event");
        if (k == shuffled) return;
        checkSame(e.v, v, msg);
        if (k != learn) snn_check(e.reset == reset, "a sequence is not restarted where it starts, or is elsewhere");
        if (epoch >= 0) snn_check(e.epoch == epoch, "another epoch is reported");
    }
    void evaluation(Data& d)
    {
        for (int i = 0; i < d.sets[testing].size; i++)
            next(output, d.sets[testing].inputs[i], d.isFirstTestingDataOfTemporalSequence(i), -1, "an evaluation is missing, or does not go through the testing set in order");
    }
};
static V meanOf(const VV& v, const std::vector<int>& o, int i, int b)
{
    V r(v[0].size(), 0.f);
    for (int k = 0; k < b; k++)
        for (size_t j = 0; j < r.size(); j++) r[j] += v[o[i + k]][j];
    if (b > 1) for (auto& x : r) x /= (float)b;
    return r;
}
static void share(NN& nn)
{
    snn_shared(&nn.wantToStopTraining, sizeof(nn.wantToStopTraining));
    snn_shared(&nn.isIdle, sizeof(nn.isIdle));
    snn_shared(&nn.epoch, sizeof(nn.epoch));
}
static void checkIdle(NN& nn)
{
    snn_check(!nn.isTraining(), "the network is training after the training");
    snn_check(nn.getCurrentIndex() == 0, "the position is not reset after the training");
    snn_check(snn_threads_running() == 0, "a thread is left");
}

extern "C" void c27()
{
    const int size = snn_param("size", 3), tests = snn_param("tests", 2), nat = snn_param("nature", 0), n = snn_param("n", 1), m = snn_param("m", 1);
    const bool flags = snn_param("flags", 0);
    const auto prob = (problem)snn_param("problem", 2);
    snn_rng_mode(1);
    NN nn({Input(n), FullyConnected(m, activation::identity)}, StochasticGradientDescent(0.125f, 0.f));
    Trace t;
    probe(nn, t, n, m);
    VV in, out, tin, tout;
    auto label = [&](int k) { V v(m, 0.f); v[k % m] = 1; return v; };
    for (int k = 0; k < size; k++) { in.push_back(symV("x", n)); out.push_back(prob == problem::regression ? symV("d", m) : label(k)); }
    for (int k = 0; k < tests; k++) { tin.push_back(symV("tx", n)); tout.push_back(prob == problem::regression ? V(m, 0.f) : label(k)); }
    std::unique_ptr<Data> data;
    if (nat == 1)
    {
        std::vector<VV> sin{VV(in.begin(), in.begin() + 2), VV(in.begin() + 2, in.end())}, stin{VV(tin.begin(), tin.begin() + 1), VV(tin.begin() + 1, tin.end())};
        data = std::make_unique<Data>(prob, sin, out, stin, tout, nature::sequential);
    }
    else
    {
        auto i = in, o = out, ti = tin, to = tout;
        data = std::make_unique<Data>(prob, i, o, ti, to, (nature)nat, snn_param("R", 0));
    }
    Data& d = *data;
    auto order = std::make_unique<Order>(d.sets, &t, std::move(d.temporalComposite), snn_param("way", 1));
    Order* q = order.get();
    d.temporalComposite = std::move(order);
    if (flags)
        for (int i = 0; i < size; i++) { q->learns.push_back(snn_choose("learns", 0, 1)); q->first.push_back(snn_choose("first", 0, 1)); }
    // what was done before leaves no trace in the training
    if (snn_param("earlier", 0))
        switch (snn_choose("earlier", 0, 4))
        {
        case 0: nn.setNumberOfTrainingsBetweenTwoEvaluations(snn_choose("between", 0, 1) ? 1 : 1000); break;
        case 1: nn.stopTrainingAsync(); break;
        case 2: nn.evaluate(d); break;
        case 3: nn.epoch = 3; nn.index = 2; break;
        default:
        {
            VV i(snn_choose("other", 0, 1) ? 2 : size + 3, V(n, 0.5f)), o(i.size(), V(m, 0.f));
            for (auto& v : o) v[0] = 1;
            Data another(prob, i, o);
            nn.train(another, snn::operator""_ep(1), 1, snn_choose("evaluated", 0, 1));
        }
        }
    for (int time = 0; time < snn_param("times", 1); time++)
    {
        const int least = snn_param("least", 0);
        const int epochs = snn_choose("epochs", least, snn_param("epochs", 2)), frequency = snn_choose("frequency", 0, snn_param("frequency", 3)), batch = snn_choose("batch", 1, nat == 0 ? size : 1);
        Wait wait = snn::operator""_ep((unsigned long long)epochs);
        t.events.clear();
        t.orders.clear(); t.firsts.clear(); t.learns.clear();
        const auto trained = nn.getNumberOfTraining();
        nn.train(d, wait, batch, frequency);
        checkIdle(nn);
        Expected e{t};
        size_t o = 0;
        if (frequency > 0) e.evaluation(d);
        for (int k = 1; k <= epochs; k++)
        {
            e.next(shuffled, {}, false, -1, "an epoch is missing");
            const auto &order = t.orders[o], &first = t.firsts[o], &learns = t.learns[o];
            o++;
            for (int i = 0; i + batch <= size; i += batch)
            {
                e.next(forward, meanOf(in, order, i, batch), (bool)first[i], k, "a batch of an epoch is missing or wrong");
                if (learns[i]) e.next(learn, meanOf(out, order, i, batch), false, k, "a batch is not learned with its targets");
            }
            if (frequency > 0 && k % frequency == 0) e.evaluation(d);
        }
        snn_check(e.at == t.events.size(), "training goes on after its last epoch");
        snn_check(nn.getNumberOfTraining() - trained == t.count(learn), "the number of training steps is not the one reported");
    }
    snn_reach("end");
}

// one network of one output that is asked for arbitrary evaluations
struct Setting
{
    Trace t;
    Probe* p;
    VV in, out, tin, tout;
    std::unique_ptr<Data> d;
    NN nn{{Input(1), FullyConnected(1, activation::identity)}, StochasticGradientDescent(0.125f, 0.f)};      // destroyed first
    Setting(int size, int tests, bool arbitrary)
    {
        p = probe(nn, t, 1, 1);
        p->arbitrary = arbitrary;
        for (int k = 0; k < size; k++) { in.push_back(V{(float)k}); out.push_back(V{1.f}); }
        tin.assign(tests, V{3.f});
        tout.assign(tests, V{0.f});
        d = std::make_unique<Data>(problem::regression, in, out, tin, tout);
        d->temporalComposite = std::make_unique<Order>(d->sets, &t, std::move(d->temporalComposite), 0);
    }
};

// stop by score: no epoch begins once the criterion holds, and training does not end before
extern "C" void c27score()
{
    const int tests = snn_param("tests", 2), epochs = snn_param("epochs", 2), crit = snn_param("crit", 1), most = snn_param("most", 3);
    snn_rng_mode(1);
    Setting s(2, tests, false);
    static const float values[] = {0.05f, 0.5f, 0.f};
    s.p->values = values;
    s.p->nValues = tests == 1 ? 3 : 2;
    const float bound = snn_float("bound");
    snn_assume(bound >= 0);
    Wait w, e = snn::operator""_ep((unsigned long long)epochs), wait;
    if (crit != 2) w.accuracy = bound; else w.mae = bound;
    wait = crit == 3 ? (w && e) : (w || e);
    auto over = [&]
    {
        const int k = (int)s.t.evaluated.size() / tests;        // evaluations, one more than the epochs that are done
        float good = 0, sum = 0;
        for (int i = 0; i < tests; i++)
        {
            const float y = s.t.evaluated[(k - 1) * tests + i][0], a = y < 0 ? -y : y;
            sum += a;
            good += a <= 0.1f ? 1.f : 0.f;
        }
        good /= (float)tests;
        sum /= (float)tests;
        const bool byScore = crit != 2 ? (bool)((good > 0) & (good >= bound)) : (bool)((sum > 0) & (sum <= bound)), byEpoch = k > epochs;
        return crit == 3 ? byScore & byEpoch : byScore | byEpoch;
    };
    int begun = 0;
    s.t.on = [&](Kind k)
    {
        if (k != shuffled) return;
        snn_check(!over(), "an epoch begins although the criterion holds");
        if (++begun > most) snn_stop("enough epochs");
    };
    s.nn.train(*s.d, wait, 1, 1);
    s.t.on = nullptr;
    snn_check(over(), "training ends before its criterion holds");
    snn_check(s.t.count(forward) == 2 * begun && s.t.count(output) == tests * (begun + 1), "an epoch is not complete");
    checkIdle(s.nn);
    snn_reach("end");
}

// stop by time: at most the step under way ends after the duration, and training does not end before
extern "C" void c27time()
{
    const int size = snn_param("size", 2), epochs = snn_param("epochs", 2);
    snn_rng_mode(1);
    Setting s(size, 1, false);
    s.t.timed = true;
    s.t.slow = !snn_param("clock", 0);
    const int duration = s.t.slow ? snn_choose("duration", 0, 4) : snn_int("duration", 0, 100000);
    Wait w = snn::operator""_ep((unsigned long long)epochs), v;
    v.duration = duration;
    auto now = [] { return (long)std::chrono::system_clock::now().time_since_epoch().count(); };
    const long before = now(), span = (long)duration * 1000000;
    s.nn.train(*s.d, w || v, 1, snn_param("frequency", 0));
    const long after = now();
    long first = -1, last = -1;
    int n = 0;
    for (auto& e : s.t.events)
    {
        if (first < 0) first = e.at;
        if (e.kind == forward)
        {
            if (n++) snn_check(last - first < span, "a training step begins after the time is up");
            last = e.at;
        }
    }
    if (n < epochs * size) snn_check(after - before >= span, "training ends before its time is up");
    checkIdle(s.nn);
    snn_reach("end");
}

// the first output that is not a number ends the training
extern "C" void c27nan()
{
    const int size = snn_param("size", 1), tests = snn_param("tests", 1), epochs = snn_param("epochs", 1);
    snn_rng_mode(1);
    Setting s(size, tests, true);
    s.p->onlyEvaluations = false;
    bool bad = false;
    s.t.on = [&](Kind)
    {
        snn_check(!bad, "training goes on after an output that is not a number");
    };
    s.p->wrong = &bad;
    s.nn.train(*s.d, snn::operator""_ep((unsigned long long)epochs), 1, 1);
    s.t.on = nullptr;
    snn_check(s.nn.hasNan() == bad, "outputs that are not numbers are not reported, or others are");
    if (bad) snn_check(std::isnan(s.nn.getGlobalClusteringRate()) && std::isnan(s.nn.getMeanAbsoluteError()), "scores are given for a network without valid outputs");
    else snn_check(s.t.count(learn) == size * epochs && s.t.count(output) == tests * (epochs + 1), "training stops although all its outputs are numbers");
    checkIdle(s.nn);
    snn_reach(bad ? "bad" : "end");
}

// a training that ends with an exception (here: the label of a sample that has none) leaves the network idle and usable as well
extern "C" void c27throw()
{
    const int size = snn_param("size", 2), tests = snn_param("tests", 2), m = 2;
    snn_rng_mode(1);
    Trace t;
    NN nn({Input(1), FullyConnected(m, activation::identity)}, StochasticGradientDescent(0.125f, 0.f));
    probe(nn, t, 1, m);
    VV in(size, V{1.f}), out, tin(tests, V{2.f}), tout;
    for (int k = 0; k < size; k++) out.push_back({1.f, 0.f});
    const int odd = snn_choose("odd", -1, tests - 1);
    for (int k = 0; k < tests; k++) tout.push_back(k == odd ? V{0.5f, 0.f} : V{0.f, 1.f});
    VV i = in, o = out, ti = tin, to = tout;
    VV good(tests, V{0.f, 1.f});
    Data d(problem::classification, i, o, ti, to), fine(problem::classification, in, out, tin, good);
    const int epochs = snn_choose("epochs", 0, 2), frequency = snn_choose("frequency", 0, 2);
    bool thrown = false;
    try { nn.train(d, snn::operator""_ep((unsigned long long)epochs), 1, frequency); }
    catch (std::exception&) { thrown = true; }
    snn_check(thrown == (odd >= 0 && frequency > 0), "a sample without label is evaluated, or none is refused");
    checkIdle(nn);
    NN other(nn);
    const auto before = nn.getNumberOfTraining();
    nn.train(fine, snn::operator""_ep(1), 1, 1);
    snn_check(nn.getNumberOfTraining() == before + size, "the network cannot be trained after an exception");
    checkIdle(nn);
    snn_reach("end");
}

// data that does not fit, and wrong batch sizes
extern "C" void c27refuse()
{
    snn_rng_mode(1);
    Trace t;
    NN nn({Input(2), FullyConnected(2, activation::identity)}, StochasticGradientDescent(0.125f, 0.f));
    probe(nn, t, 2, 2);
    const bool async = snn_param("async", 0);
    if (async) share(nn);
    const int n = snn_choose("n", 1, 3), m = snn_choose("m", 1, 3), nat = snn_choose("nature", 0, 2), batch = snn_choose("batch", -1, 4), size = 3;
    VV in(size, V(n, 1.f)), out(size, V(m, 1.f));
    std::unique_ptr<Data> d;
    if (nat == 1)
    {
        std::vector<VV> s{in};
        d = std::make_unique<Data>(problem::regression, s, out, nature::sequential);
    }
    else d = std::make_unique<Data>(problem::regression, in, out, (nature)nat, nat == 2 ? 1 : 0);
    const bool fits = n == 2 && m == 2 && batch >= 1 && batch <= size && (nat == 0 || batch == 1);
    bool refused = false;
    try
    {
        if (async) { nn.startTrainingAsync(*d, batch, 0); nn.stopTrainingAsync(); }
        else nn.train(*d, snn::operator""_ep(1), batch, 1);
    }
    catch (std::exception&) { refused = true; }
    snn_check(refused == !fits, fits ? "data that fits is refused" : "data that does not fit, or a wrong batch size, is not refused");
    if (refused)
    {
        snn_check(t.events.empty() && nn.getNumberOfTraining() == 0 && nn.getCurrentEpoch() == 0, "something is done with data that is refused");
        for (int k = 0; k < size; k++) snn_check(d->sets[training].shuffledIndexes[k] == k, "data that is refused is shuffled");
        VV in2(2, V(2, 1.f)), out2(2, V(2, 1.f));
        Data other(problem::regression, in2, out2);
        nn.train(other, snn::operator""_ep(1), 2, 0);
        snn_check(t.count(learn) == 1, "the network is not usable after a refusal");
    }
    checkIdle(nn);
    snn_reach("end");
}

// one network, one sample, and the flags by which the caller and the training thread see each other
struct Threads
{
    Setting s{1, 1, false};
    Threads()
    {
        s.t.yields = true;
        share(s.nn);
    }
};
static bool refuses(const std::function<void()>& f)
{
    try { f(); }
    catch (std::exception&) { return true; }
    return false;
}
static void checkStopped(NN& nn, Trace& t, Data& d)
{
    snn_check(snn_threads_running() == 0, "the training thread runs after the stop");
    snn_check(!nn.isTraining(), "the network is training after the stop");
    t.yields = false;
    t.events.clear();
    nn.train(d, snn::operator""_ep(1), 1, 0);
    snn_check(t.count(learn) == 1, "the network does not train after the stop");
    snn_check(!nn.isTraining(), "the network is training after a training");
}

// C28: a training that ends by itself, at its first output that is not a number
extern "C" void c28nan()
{
    snn_rng_mode(1);
    const int op = snn_param("op", 0), frequency = snn_param("frequency", 0);
    auto th = std::make_unique<Threads>();
    NN& nn = th->s.nn;
    snn_shared(&nn.outputNan, sizeof(nn.outputNan));
    th->s.p->dead = true;
    nn.startTrainingAsync(*th->s.d, 1, frequency);
    if (op == 0) { nn.waitFor(snn::operator""_ep(1000)); nn.stopTrainingAsync(); }
    if (op == 1) nn.waitFor(snn::operator""_ep(1000));
    if (op == 2) nn.startTrainingAsync(*th->s.d, 1, frequency);
    if (op == 3)
    {
        while (nn.isTraining()) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        snn_check(!refuses([&] { nn.train(*th->s.d, snn::operator""_ep(1), 1, 0); }), "a training is refused although none runs");
        snn_check(snn_threads_running() == 0, "the training thread runs after its end");
    }
    if (op == 0 || op == 3)
    {
        snn_check(nn.hasNan(), "an output that is not a number is not reported");
        snn_check(!nn.isTraining() && snn_threads_running() == 0, "the network is training after its end");
    }
    th.reset();
    snn_check(snn_threads_running() == 0, "the training thread outlives the network");
    snn_reach("end");
}

// C28: what the caller does while and after a training runs
extern "C" void c28()
{
    snn_rng_mode(1);
    const int op = snn_param("op", 0), frequency = snn_param("frequency", 0), times = snn_param("times", 1);
    auto th = std::make_unique<Threads>();
    NN& nn = th->s.nn;
    Data& d = *th->s.d;
    Trace& t = th->s.t;
    for (int k = 0; k < times; k++)
    {
        nn.startTrainingAsync(d, 1, frequency);
        snn_check(nn.isTraining(), "the network is not training after the start");
        if (op == 1)                // refused while it runs
        {
            snn_check(refuses([&] { nn.train(d, snn::operator""_ep(1), 1, 0); }), "a second training is not refused");
            snn_check(refuses([&] { nn.saveAs("while.snn"); }), "saving a network that is training is not refused");
            snn_check(refuses([&] { NN copy(nn); }), "copying a network that is training is not refused");
            snn_check(nn.isTraining(), "a refused request ends the training");
            snn_check(snn_file_exists("while.snn") == 0, "a network that is training is saved");
        }
        if (op == 2) nn.startTrainingAsync(d, 1, frequency);    // again
        if (op == 3)
        {
            nn.waitFor(snn::operator""_ep(1));
            snn_check(nn.getCurrentEpoch() > 1, "waiting ends before its criterion holds");
            snn_check(nn.isTraining(), "the training ends by itself");
        }
        if (op == 4) { V x{1.f}; (void)nn.isTraining(); (void)nn.getCurrentEpoch(); (void)nn.getGlobalClusteringRate(); }
        if (op == 5) break;         // destroyed while it runs
        nn.stopTrainingAsync();
        snn_check(snn_threads_running() == 0, "the training thread runs after the stop");
        snn_check(!nn.isTraining(), "the network is training after the stop");
        if (op == 6) nn.stopTrainingAsync();
    }
    if (op != 5) checkStopped(nn, t, d);
    th.reset();
    snn_check(snn_threads_running() == 0, "the training thread outlives the network");
    snn_reach("end");
}
