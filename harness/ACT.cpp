// Activation functions (C16)
#include "nn.h"
#include <cmath>

// what the elementary functions have to do with each other, for any library code written with any of them
static void facts(float x, float c)
{
    if (!snn_symbolic()) return;
    // tanh(c x / 2) and exp(-c x)
    const float t = tanhf(c * x / 2.0f), e = std::exp(-(c * x));
    snn_assume(e > 0);
    snn_assume(t * (1 + e) == 1 - e);
    // exp(z) >= exp(a) (1 + z - a), with exp(1.25) > 3.49
    snn_assume(e >= 3.49f * (1 - c * x - 1.25f));
}
extern "C" void c16()
{
    const auto a = (activation)snn_param("act", 0);
    auto f = ActivationFunction::get(a);
    snn_check(f->getType() == a, "another activation function");
    const float x = snn_float("x");
    snn_assume(x == x);
    if (a == activation::ReLU) snn_assume(x != 0);
    const bool range = snn_param("range", 0);
    if (range && snn_param("facts", 0)) facts(x, a == activation::GELU ? 1.702f : 1.f);
    const float y = f->function(x);
    if (range)
    {
        snn_check(y >= f->min, "the value is below the declared range");
        snn_check(y <= f->max, "the value is above the declared range");
    }
    else
    {
        const float d = f->derivative(x);
        snn_check_eq(d, snn_diff(y, x, "x"), "the derivative is not the derivative of the function");
        snn_observe_f("derivative", d);
    }
    snn_observe_f("value", y);
    snn_reach("end");
}
// networks use the function and the derivative they were told to: one neuron, one training step
extern "C" void c16neuron()
{
    const auto a = (activation)snn_param("act", 0);
    snn_rng_mode(1);
    NN nn({Input(1), FullyConnected(1, a)}, StochasticGradientDescent(0.5f, 0.f));
    V& w = neuronAt(nn, 0, 0).weights;
    w = {snn_float("w"), snn_float("b")};
    const float s = w[0] * 0.5f + w[1];
    if (a == activation::ReLU) snn_assume(s != 0);
    const V before = w, o = nn.computeOutput({0.5f}, true);
    const float y = act(a, s);
    snn_check_eq(o[0], y, "the neuron uses another function");
    nn.trainOnce({0.5f}, {1.f}, true);
    const float e = 2 * (1 - y) * dact(a, s);
    snn_check_eq(w[0], before[0] + 0.5f * e * 0.5f, "the neuron uses another derivative");
    snn_check_eq(w[1], before[1] + 0.5f * e, "the neuron uses another derivative");
    snn_reach("end");
}
