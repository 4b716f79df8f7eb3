// Shared by the harnesses: access to a network's parameters, symbolic parameters, and reference models of the layers
// written from their documentation (what is connected to what), independent of the library's index tables.
#pragma once
#include "snn.h"
#include <snn/neural_network/StraightforwardNeuralNetwork.hpp>
#include <string>
#include <vector>
#include <functional>
using namespace snn;
namespace inl = snn::internal;
using inl::Neuron; using inl::SimpleNeuron; using inl::RecurrentNeuron; using inl::GatedRecurrentUnit; using inl::BaseLayer;
using inl::Layer; using inl::ActivationFunction; using inl::CircularData; using inl::FilterLayer;
using V = std::vector<float>;
using VV = std::vector<V>;
using NN = StraightforwardNeuralNetwork;
using SimpleL = Layer<SimpleNeuron>;
using RecL = Layer<RecurrentNeuron>;
using GruL = Layer<GatedRecurrentUnit>;

// any of n places, or one of the first, the middle and the last one
inline int placeOf(const char* name, int n)
{
    if (!snn_param("places", 0) || n <= 3) return snn_choose(name, 0, n - 1);
    const int k = snn_choose(name, 0, 2);
    return k == 0 ? 0 : k == 1 ? n / 2 : n - 1;
}
inline V symV(const char* name, int n)
{
    V v(n);
    for (auto& x : v) x = snn_float(name);
    return v;
}

// every elementary neuron of a layer, in order (the three gates of a gated unit: reset, update, output)
inline std::vector<Neuron*> neuronsOf(BaseLayer& l)
{
    std::vector<Neuron*> r;
    if (auto* s = dynamic_cast<SimpleL*>(&l)) { for (auto& n : s->neurons) r.push_back(&n); }
    else if (auto* s = dynamic_cast<RecL*>(&l)) { for (auto& n : s->neurons) r.push_back(&n); }
    else if (auto* s = dynamic_cast<GruL*>(&l))
        for (auto& n : s->neurons) { r.push_back(&n.resetGate); r.push_back(&n.updateGate); r.push_back(&n.outputGate); }
    return r;
}

inline void assumeNear(const V& v, float b) { for (auto x : v) snn_assume(x <= b && x >= -b); }

// arbitrary weights, named by layer: "w0", "w0#1", ...
inline void symWeights(BaseLayer& l, const char* name)
{
    for (auto* n : neuronsOf(l)) for (auto& w : n->weights) w = snn_float(name);
}
inline void symWeights(NN& nn)
{
    static const char* names[] = {"w0", "w1", "w2", "w3", "w4", "w5", "w6", "w7", "w8", "w9", "w10", "w11", "w12"};
    for (size_t l = 0; l < nn.layers.size(); l++) symWeights(*nn.layers[l], names[l]);
}
inline VV weightsOf(BaseLayer& l)
{
    VV r;
    for (auto* n : neuronsOf(l)) r.push_back(n->weights);
    return r;
}
inline VV weightsOf(NN& nn)
{
    VV r;
    for (auto& l : nn.layers) for (auto* n : neuronsOf(*l)) r.push_back(n->weights);
    return r;
}
inline void checkSame(const VV& a, const VV& b, const char* msg)
{
    snn_check(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
    {
        snn_check(a[i].size() == b[i].size(), msg);
        for (size_t j = 0; j < a[i].size() && j < b[i].size(); j++) snn_check_eq(a[i][j], b[i][j], msg);
    }
}
inline void checkSame(const V& a, const V& b, const char* msg)
{
    snn_check(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) snn_check_eq(a[i], b[i], msg);
}
// values that are only moved around: equal to the last bit, in a replay too
inline void checkExact(const V& a, const V& b, const char* msg)
{
    snn_check(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) snn_check(a[i] == b[i], msg);
}
inline void checkExact(const VV& a, const VV& b, const char* msg)
{
    snn_check(a.size() == b.size(), msg);
    for (size_t i = 0; i < a.size() && i < b.size(); i++) checkExact(a[i], b[i], msg);
}
inline bool nearAll(const V& a, const V& b)
{
    bool r = a.size() == b.size();
    for (size_t i = 0; i < a.size() && i < b.size(); i++) r &= snn_near(a[i], b[i]);
    return r;
}
// a documented result, and the result of a recorded defect: anything else is a violation of its own
inline void checkOr(const V& got, const V& right, const V& recorded, const char* msg, const char* finding)
{
    const bool a = nearAll(got, right), b = nearAll(got, recorded);
    snn_check(a | b, msg);
    if (!snn_param("quiet", 0)) snn_finding(a, finding);   // quiet: reported by the smaller instances
}
inline float act(activation a, float x) { return ActivationFunction::get(a)->function(x); }
inline float dact(activation a, float x) { return ActivationFunction::get(a)->derivative(x); }

// what each output of a layer is made of
struct Link { int input, neuron, weight; };   // neuron < 0: pooling, the output is the largest of its links
struct Ref
{
    std::vector<int> in, out;                 // shapes
    activation a = activation::identity;
    bool pool = false;
    float bias = 1;
    std::vector<std::vector<Link>> links;     // per output
    std::vector<int> neuronOf;                // per output
    std::vector<int> nWeights;                // per neuron, bias included

    int inputs() const { int n = 1; for (int s : in) n *= s; return n; }
    int outputs() const { return (int)links.size(); }
};

inline Ref refDense(int inputs, int neurons, activation a)
{
    Ref r;
    r.in = {inputs}; r.out = {neurons}; r.a = a; r.bias = 1;
    for (int n = 0; n < neurons; n++)
    {
        r.links.emplace_back();
        for (int i = 0; i < inputs; i++) r.links.back().push_back({i, n, i});
        r.neuronOf.push_back(n);
        r.nWeights.push_back(inputs + 1);
    }
    return r;
}
// shapes are {C, X, Y}; one-dimensional layers have Y = 1 and a kernel of height 1
inline int at(int c, int x, int y, int C, int X) { return (y * X + x) * C + c; }
inline Ref refFilter(bool conv, std::vector<int> shape, int filters, int k, activation a, bool two)
{
    Ref r;
    const int C = shape[0], X = shape[1], Y = two ? shape[2] : 1, ky = two ? k : 1;
    const int ox = conv ? X - k + 1 : (X + k - 1) / k, oy = conv ? Y - ky + 1 : (Y + ky - 1) / ky;
    r.in = shape; r.a = a; r.bias = 0.001f;
    r.out = two ? std::vector<int>{filters, ox, oy} : std::vector<int>{filters, ox};
    const int step = conv ? 1 : k, stepY = conv ? 1 : ky;
    for (int py = 0; py < oy; py++)
        for (int px = 0; px < ox; px++)
            for (int f = 0; f < filters; f++)
            {
                int n = conv ? f : (py * ox + px) * filters + f;
                std::vector<Link> l;
                for (int y = 0; y < ky; y++)
                    for (int x = 0; x < k; x++)
                        for (int c = 0; c < C; c++)
                        {
                            int ix = px * step + x, iy = py * stepY + y;
                            if (ix < X && iy < Y) l.push_back({at(c, ix, iy, C, X), n, at(c, x, y, C, k)});
                        }
                r.links.push_back(l);
                r.neuronOf.push_back(n);
            }
    r.nWeights.assign(conv ? filters : (int)r.links.size(), k * ky * C + 1);
    return r;
}
inline Ref refPool(std::vector<int> shape, int k, bool two)
{
    Ref r;
    const int C = shape[0], X = shape[1], Y = two ? shape[2] : 1, ky = two ? k : 1;
    const int ox = (X + k - 1) / k, oy = (Y + ky - 1) / ky;
    r.in = shape; r.pool = true;
    r.out = two ? std::vector<int>{C, ox, oy} : std::vector<int>{C, ox};
    for (int py = 0; py < oy; py++)
        for (int px = 0; px < ox; px++)
            for (int c = 0; c < C; c++)
            {
                r.links.emplace_back();
                for (int y = 0; y < ky; y++)
                    for (int x = 0; x < k; x++)
                        if (px * k + x < X && py * ky + y < Y)
                            r.links.back().push_back({at(c, px * k + x, py * ky + y, C, X), -1, -1});
                r.neuronOf.push_back(-1);
            }
    return r;
}
// weighted sums (or, for pooling, maxima) of one layer
inline V refSums(const Ref& r, const V& x, const VV& w)
{
    V s(r.links.size());
    for (size_t o = 0; o < s.size(); o++)
    {
        if (r.pool)
        {
            float m = x[r.links[o][0].input];
            for (auto& l : r.links[o]) m = x[l.input] > m ? x[l.input] : m;
            s[o] = m;
            continue;
        }
        float t = 0;
        for (auto& l : r.links[o]) t += x[l.input] * w[l.neuron][l.weight];
        s[o] = t + r.bias * w[r.neuronOf[o]].back();
    }
    return s;
}
inline V refOut(const Ref& r, const V& x, const VV& w)
{
    V s = refSums(r, x, w);
    if (!r.pool) for (auto& v : s) v = act(r.a, v);
    return s;
}
// the library's layer of that reference
inline LayerModel modelInput(const std::vector<int>& s)
{
    return s.size() == 1 ? Input(s[0]) : s.size() == 2 ? Input(s[0], s[1]) : Input(s[0], s[1], s[2]);
}
inline Neuron& neuronAt(NN& nn, int layer, int n) { return *neuronsOf(*nn.layers[layer])[n]; }
