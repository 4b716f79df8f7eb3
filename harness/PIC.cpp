// Pictures of data, feature maps and filters (C37)
#include "nn.h"
#include <snn/data/Data.hpp>
#include <algorithm>
#include <cmath>
#include <string>

extern "C" int snn_file_exists(const char* path);
extern "C" int snn_file_size(const char* path);
extern "C" int snn_file_byte(const char* path, int i);

static int number(const char* path, int at, int bytes)
{
    int r = 0;
    for (int i = 0; i < bytes; i++) r |= snn_file_byte(path, at + i) << (8 * i);
    return r;
}
// a 24-bit bitmap file
struct Picture
{
    std::string path;
    int width = 0, height = 0, offset = 0, row = 0;
    bool open(const std::string& p)
    {
        path = p;
        if (!snn_file_exists(p.c_str())) return false;
        snn_check(number(p.c_str(), 0, 2) == 0x4d42, "the picture is not a bitmap");
        snn_check(number(p.c_str(), 28, 2) == 24, "the picture is not in colours of 24 bits");
        width = number(p.c_str(), 18, 4);
        height = number(p.c_str(), 22, 4);
        offset = number(p.c_str(), 10, 4);
        row = (3 * width + 3) / 4 * 4;
        snn_check(snn_file_size(p.c_str()) == offset + row * height, "the picture has another length than its header says");
        return true;
    }
    // 0 red, 1 green, 2 blue; the last row comes first
    int at(int x, int y, int c) const { return snn_file_byte(path.c_str(), offset + (height - 1 - y) * row + 3 * x + 2 - c); }
    void grey(int x, int y, int v, const char* msg) const
    {
        for (int c = 0; c < 3; c++) snn_check(at(x, y, c) == v, msg);
    }
};
static int colour(float v) { return static_cast<unsigned char>(std::clamp(v * 255.0f, 0.0f, 255.0f)); }
// every size up to the largest, or that one
static int size(const char* name, int most) { return snn_choose(name, snn_param("exact", 0) ? most : 1, most); }
// arbitrary at one place, values of their own elsewhere
static V oneArbitrary(int n)
{
    V v(n);
    for (int i = 0; i < n; i++) v[i] = (float)((i * 37 + 11) % 64) / 64.0f;
    v[snn_choose("place", 0, n - 1)] = snn_float("v");
    return v;
}
struct Grid { int x, y; };
static Grid grid(int n)
{
    int x = 1;
    while (x * x < n) x++;
    return {x, (n + x - 1) / x};
}

extern "C" void c37data()
{
    const int C = snn_param("C", 1), X = size("X", snn_param("X", 3)), Y = size("Y", snn_param("Y", 3));
    snn_rng_mode(1);
    NN nn({Input(C, X, Y), MaxPooling(1), FullyConnected(1)});
    VV in, out;
    for (int k = 0; k < 2; k++) { in.push_back(V(C * X * Y, 0.75f)); out.push_back(V{0.f}); }
    in[1] = oneArbitrary(C * X * Y);
    Data data(problem::regression, in, out);
    nn.saveData2DAsBitmap("data", data, 1);
    Picture p;
    snn_check(p.open("data_input1.bmp"), "no picture of the data is written");
    snn_check(p.width == X && p.height == Y, "the picture of the data has another size");
    for (int y = 0; y < Y; y++)
        for (int x = 0; x < X; x++)
        {
            if (C == 1) { p.grey(x, y, colour(in[1][at(0, x, y, C, X)]), "a pixel does not show the value at its position"); continue; }
            for (int c = 0; c < 3; c++)
                snn_check(p.at(x, y, c) == (c < C ? colour(in[1][at(c, x, y, C, X)]) : 0), "a pixel does not show the values at its position");
        }
    snn_reach("end");
}
// outputs of the first layer; they are the inputs of a pooling of 1 x 1
extern "C" void c37maps()
{
    const int kind = snn_param("kind", 3), F = size("F", snn_param("F", 5)), X = size("X", snn_param("X", 3)), Y = size("Y", snn_param("Y", 2));
    snn_rng_mode(1);
    const int C = kind == 3 ? F : 1;
    std::vector<LayerModel> m{Input(C, X, Y), kind == 3 ? MaxPooling(1) : kind == 1 ? Convolution(F, 1, activation::identity) : LocallyConnected(F, 1, activation::identity), FullyConnected(1)};
    NN nn(m);
    // filter f shows its input plus f / 16
    if (kind != 3)
    {
        auto n = neuronsOf(*nn.layers[0]);
        for (size_t i = 0; i < n.size(); i++) n[i]->weights = {1.f, (float)(i % F) / 16.0f / n[i]->bias};
    }
    VV in, out;
    for (int k = 0; k < 2; k++) { in.push_back(V(C * X * Y, 0.75f)); out.push_back(V{0.f}); }
    in[1] = oneArbitrary(C * X * Y);
    Data data(problem::regression, in, out);
    nn.saveFilterLayersAsBitmap("maps", data, 1);
    Picture p;
    snn_check(p.open("maps_layer_0.bmp"), "no picture of the feature maps is written");
    snn_check(!snn_file_exists("maps_layer_1.bmp"), "a dense layer has feature maps");
    const Grid g = grid(F);
    snn_check(p.width == g.x * (X + 1) - 1 && p.height == g.y * (Y + 1) - 1, "the picture of the feature maps has another size");
    const V o = nn.getLayerOutputs(in[1])[0];
    for (int py = 0; py < p.height; py++)
        for (int px = 0; px < p.width; px++)
        {
            const int f = py / (Y + 1) * g.x + px / (X + 1), x = px % (X + 1), y = py % (Y + 1);
            if (f >= F || x == X || y == Y) p.grey(px, py, 0, "something is drawn between the feature maps");
            else
            {
                const float v = kind == 3 ? in[1][at(f, x, y, F, X)] : in[1][at(0, x, y, 1, X)] + (float)f / 16.0f;
                snn_check_eq(o[at(f, x, y, F, X)], v, "the outputs of the layer are not as expected");
                p.grey(px, py, colour(v), "a pixel does not show the output at its position");
            }
        }
    snn_reach("end");
}
extern "C" void c37filters()
{
    const bool conv = snn_param("conv", 0);
    const int C = snn_param("C", 1), F = size("F", snn_param("F", 3)), X = size("X", snn_param("X", 3)), Y = size("Y", snn_param("Y", 3)), K = snn_choose("K", 1, std::min(X, Y));
    snn_rng_mode(1);
    NN nn({Input(C, X, Y), conv ? Convolution(F, K) : LocallyConnected(F, K), FullyConnected(1)});
    auto neurons = neuronsOf(*nn.layers[0]);
    const int chosen = snn_choose("neuron", 0, (int)neurons.size() - 1), place = snn_choose("weight", 0, (int)neurons[0]->weights.size() - 1);
    for (size_t i = 0; i < neurons.size(); i++)
        for (size_t j = 0; j < neurons[i]->weights.size(); j++) neurons[i]->weights[j] = (int)i == chosen && (int)j == place ? snn_float("w") : 0.f;
    nn.saveFeatureMapsAsBitmap("filters");
    Picture p;
    snn_check(p.open("filters_layer_0.bmp"), "no picture of the filters is written");
    snn_check(!snn_file_exists("filters_layer_1.bmp"), "a dense layer has filters");
    const Grid g = grid(F);
    snn_check(p.width == g.x * (X + 1) - 1 && p.height == g.y * (Y + 1) - 1, "the picture of the filters has another size");
    const float w = neurons[chosen]->weights[place];
    // the weights of a filter over the input: each tile its own for a locally connected layer, all positions summed for a convolution
    const int step = conv ? 1 : K, ox = conv ? X - K + 1 : (X + K - 1) / K, oy = conv ? Y - K + 1 : (Y + K - 1) / K;
    for (int py = 0; py < p.height; py++)
        for (int px = 0; px < p.width; px++)
        {
            const int f = py / (Y + 1) * g.x + px / (X + 1), x = px % (X + 1), y = py % (Y + 1);
            if (f >= F || x == X || y == Y) { p.grey(px, py, 0, "something is drawn between the filters"); continue; }
            int times = 0;
            for (int ty = 0; ty < oy; ty++)
                for (int tx = 0; tx < ox; tx++)
                {
                    const int kx = x - tx * step, ky = y - ty * step;
                    if (kx < 0 || ky < 0 || kx >= K || ky >= K || place >= K * K * C) continue;
                    const int neuron = conv ? f : (ty * ox + tx) * F + f;
                    if (neuron == chosen && place / C == ky * K + kx) times++;
                }
            const int v = times == 0 ? 128 : static_cast<unsigned char>(std::round((tanhf(w * (float)times / 2.0f) + 1.0f) * 127.5f));
            p.grey(px, py, v, "a pixel does not show the weight at its position");
        }
    snn_reach("end");
}
// layers without a picture
extern "C" void c37none()
{
    snn_rng_mode(1);
    const int kind = snn_choose("kind", 0, 3);
    std::vector<LayerModel> m{Input(1, 3)};
    m.push_back(kind == 0 ? Convolution(1, 2) : kind == 1 ? LocallyConnected(1, 2) : kind == 2 ? MaxPooling(2) : FullyConnected(2));
    m.push_back(FullyConnected(1));
    NN nn(m);
    VV in(1, V(3, 0.5f)), out(1, V{0.f});
    Data data(problem::regression, in, out);
    nn.saveFeatureMapsAsBitmap("n");
    nn.saveFilterLayersAsBitmap("n", data, 0);
    nn.saveData2DAsBitmap("n", data, 0);
    snn_check(!snn_file_exists("n_layer_0.bmp") && !snn_file_exists("n_layer_1.bmp"), "a layer without two dimensions has a picture");
    snn_reach("end");
}
