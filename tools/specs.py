"""What each property's check runs: entry points of a harness, with their parameters (sizes) and limits."""
REAL = "floating point numbers are exact reals (rounding, overflow and NaN are outside); exp, tanh, sqrt are uninterpreted functions with their usual axioms (monotone, sign, range)"
RNG = "random draws are arbitrary values of their documented range"
SPECS = {}


def I(entry, tier="quick", **kw):
    inst = {"entry": entry, "tier": tier, "p": {}}
    for k, v in kw.items():
        if k in ("opt", "time", "witnesses", "max_violations", "query_ms", "reach", "replay", "cost"):
            inst[k] = v
        else:
            inst["p"][k.rstrip("_")] = v
    return inst


SPECS["C04"] = dict(harness="FWD.cpp",
    instances=[I("c04", n=1, m=1), I("c04", n=3, m=2), I("c04", n=2, m=3, act=2), I("c04", n=3, m=3, depth=2), I("c04", n=2, m=2, depth=3),
               I("c04", n=4, m=2, act=6, training=1), I("c04", n=2, m=1, act=1), I("c04", n=2, m=2, act=4), I("c04", n=2, m=2, act=5),
               I("c04flat"), I("c04", n=2, m=1, act=3)]
    # every width up to 40 inputs, and the neighbourhood of powers of two: a vectorised sum has other code per width
    + [I("c04", n=n, m=1 + n % 2, act=2 if n % 3 else 6) for n in list(range(5, 41)) + [63, 64, 65, 100, 128, 129]] + [I("c04", n=3, m=40, act=6), I("c04", n=10, m=10, depth=5, act=6), I("c04", n=17, m=9, depth=2, training=1)] + [I("c04", n=n, m=2, act=6 if n % 2 else 2, training=n % 2) for n in list(range(41, 63)) + [257, 300, 784]] + [I("c04", n=2, m=130), I("c04", n=33, m=33, act=6), I("c04", n=2, m=2, depth=12)]
    + [I("c04", "thorough", n=n, m=m, depth=d, act=a) for n in (1, 4, 7) for m in (1, 3, 5) for d in (1, 2, 4) for a in (0, 2)],
    bounds="every number of inputs from 1 to 65, and 100, 128, 129, 257, 300, 784; 1 to 3, 10, 33, 40 and 130 neurons, up to 12 stacked layers, all seven activations; weights and inputs arbitrary",
    outside="larger layers", assumptions=[REAL])
SPECS["C05"] = dict(harness="FWD.cpp",
    instances=[I("c05", X=4, C=2, F=2, K=3), I("c05", two=1, X=3, C=2, F=2, K=3), I("c05", two=1, X=4, minX=3, C=1, F=1, K=2, act=6), I("c05", X=5, minX=4, C=3, F=1, K=5, training=1, act=0),
               I("c05flat"), I("c05stack"), I("c05stack", two=1),
               I("c05", X=20, minX=20, C=3, minC=3, F=5, minF=5, K=9, minK=9), I("c05", X=33, minX=33, minC=2, minF=2, K=16, minK=15), I("c05", two=1, X=9, minX=9, Y=7, minY=7, C=3, minC=3, F=5, minF=5, K=5, minK=5), I("c05", two=1, X=7, minX=7, Y=10, minY=10, minC=2, minF=2, K=6, minK=6),
               I("c05", X=10, minX=6, C=3, F=3, K=9), I("c05", two=1, X=6, minX=4, Y=6, minY=4, C=3, F=3, K=5, cost=3), I("c05", X=6, minX=6, C=2, minC=2, F=33, minF=33, K=3, minK=3), I("c05", X=6, minX=6, C=20, minC=20, F=2, minF=2, K=3, minK=3), I("c05", X=130, minX=130, C=1, F=1, K=4, minK=4), I("c05", X=1000, minX=1000, C=2, minC=2, F=3, minF=3, K=9, minK=9),
               I("c05", two=1, X=30, minX=30, Y=2, minY=2, C=2, minC=2, F=2, minF=2, K=2, minK=2), I("c05", two=1, X=2, minX=2, Y=30, minY=30, C=2, minC=2, F=2, minF=2, K=2, minK=2), I("c05", two=1, X=6, minX=6, Y=5, minY=5, C=12, minC=12, F=17, minF=17, K=3, minK=3, act=6), I("c05", two=1, X=20, minX=20, Y=20, minY=20, C=1, F=1, K=20, minK=20),
               I("c05", two=1, X=12, minX=12, Y=10, minY=10, C=1, F=2, minF=2, K=5, minK=4), I("c05", two=1, X=28, minX=28, Y=28, minY=28, C=1, F=1, K=5, minK=5)]
    + [I("c05", "thorough", X=8, C=3, F=3, K=8), I("c05", "thorough", two=1, X=5, C=3, F=3, K=5, cost=9), I("c05", "thorough", two=1, X=7, minX=6, C=2, F=2, K=4, cost=5)],
    bounds="every 1D input up to 5 x 3 channels, every 2D input up to 3 x 3 x 2 and 4 x 4 x 1 (all rectangles), every kernel that fits up to 5, up to 2 filters, two stacked layers; every 1D input of 6 to 10 x 3 channels with kernels up to 9 and 3 filters, every 2D input of 4 to 6 x 4 to 6 x 3 with kernels up to 5 and 3 filters; larger shapes one by one, up to 1000 x 2 (1D, kernels up to 16), 9 x 7 x 3 with 5 filters, 6 x 5 x 12 with 17 filters, 30 x 2, 20 x 20 with kernel 20 and 28 x 28 (2D), 20 channels, 33 filters; weights and inputs arbitrary (thorough: every 1D up to 8 x 3, every 2D up to 7 x 7)",
    outside="larger shapes", assumptions=[REAL])
SPECS["C06"] = dict(harness="FWD.cpp",
    instances=[I("c06", X=5, C=2, F=2, K=3), I("c06", two=1, X=3, C=2, F=2, K=3), I("c06", two=1, X=5, minX=2, C=1, F=1, K=3, act=6), I("c06", X=7, minX=5, C=1, F=1, K=7, training=1, act=0),
               I("c06flat"), I("c06stack"), I("c06stack", two=1),
               I("c06", X=20, minX=20, C=3, minC=3, F=5, minF=5, K=9, minK=8), I("c06", X=33, minX=33, minC=2, minF=2, K=16, minK=15), I("c06", two=1, X=9, minX=9, Y=7, minY=7, C=3, minC=3, F=5, minF=5, K=5, minK=4), I("c06", two=1, X=7, minX=7, Y=10, minY=10, minC=2, minF=2, K=3, minK=3),
               I("c06", X=10, minX=6, C=3, F=3, K=9), I("c06", two=1, X=6, minX=4, Y=6, minY=4, C=3, F=3, K=5, cost=3), I("c06", X=6, minX=6, C=2, minC=2, F=33, minF=33, K=3, minK=3), I("c06", X=6, minX=6, C=20, minC=20, F=2, minF=2, K=3, minK=3), I("c06", X=130, minX=130, C=1, F=1, K=4, minK=4), I("c06", X=1000, minX=1000, C=2, minC=2, F=3, minF=3, K=9, minK=9),
               I("c06", two=1, X=30, minX=30, Y=2, minY=2, C=2, minC=2, F=2, minF=2, K=2, minK=2), I("c06", two=1, X=2, minX=2, Y=30, minY=30, C=2, minC=2, F=2, minF=2, K=2, minK=2), I("c06", two=1, X=6, minX=6, Y=5, minY=5, C=12, minC=12, F=17, minF=17, K=3, minK=3, act=6), I("c06", two=1, X=20, minX=20, Y=20, minY=20, C=1, F=1, K=20, minK=20),
               I("c06", two=1, X=28, minX=28, Y=28, minY=28, C=3, minC=3, F=8, minF=8, K=5, minK=5, act=6), I("c06", two=1, X=12, minX=12, Y=10, minY=10, C=3, minC=3, F=5, minF=5, K=5, minK=5), I("c06", two=1, X=28, minX=28, Y=28, minY=28, C=1, F=1, K=5, minK=5)]
    + [I("c06", "thorough", X=9, C=3, F=3, K=9), I("c06", "thorough", two=1, X=5, C=3, F=3, K=5, cost=9), I("c06", "thorough", two=1, X=7, minX=5, C=2, F=2, K=4, cost=5)],
    bounds="every 1D input up to 7 x 2 channels, every 2D input up to 3 x 3 x 2 and 5 x 5 x 1 (all rectangles), every kernel that fits up to 7, up to 2 filters, two stacked layers; every 1D input of 6 to 10 x 3 channels with kernels up to 9 and 3 filters, every 2D input of 4 to 6 x 4 to 6 x 3 with kernels up to 5 and 3 filters; larger shapes one by one, up to 1000 x 2 (1D, kernels up to 16), 12 x 10 x 3 with 5 filters, 6 x 5 x 12 with 17 filters, 30 x 2, and 28 x 28 x 3 with 8 filters (2D), 20 channels, 33 filters; weights and inputs arbitrary",
    outside="larger shapes", assumptions=[REAL])
SPECS["C07"] = dict(harness="FWD.cpp",
    instances=[I("c07", X=4, C=2, K=3, focus=1), I("c07", two=1, X=4, C=1, K=2, focus=1), I("c07", two=1, X=3, C=2, K=2, focus=1), I("c07", X=4, C=1, K=4, dense=0), I("c07", X=3, C=2, K=3, dense=0), I("c07", two=1, X=2, C=2, K=2, dense=0), I("c07", two=1, X=3, C=1, K=3, dense=0, training=1, focus=1), I("c07flat"),
               I("c07", X=17, minX=17, C=3, minC=3, K=5, minK=5, focus=1), I("c07", X=13, minX=13, minC=2, K=4, minK=3, focus=1), I("c07", two=1, X=7, minX=7, Y=5, minY=5, minC=2, K=3, minK=3, focus=1, dense=0), I("c07", two=1, X=5, minX=5, Y=8, minY=8, C=1, K=3, minK=2, focus=1, dense=0),
               I("c07", X=130, minX=130, C=1, K=4, minK=4, focus=1, cost=3), I("c07", X=20, minX=20, C=9, minC=9, K=5, minK=5, focus=1, cost=5), I("c07", two=1, X=12, minX=12, Y=9, minY=9, C=3, minC=3, K=2, minK=2, focus=1, dense=0, cost=3), I("c07", two=1, X=20, minX=20, Y=4, minY=4, C=1, K=2, minK=2, focus=1, dense=0), I("c07", two=1, X=3, minX=3, Y=20, minY=20, C=2, minC=2, K=3, minK=3, focus=1, dense=0)]
    + [I("c07", "thorough", X=8, C=3, K=5, focus=1), I("c07", "thorough", two=1, X=5, C=2, K=3, focus=1, cost=9), I("c07", "thorough", two=1, X=3, C=1, K=2, dense=0)],
    bounds="every 1D input up to 4 x 2 channels, every 2D input up to 4 x 4 x 1 and 3 x 3 x 2 (all rectangles), every kernel that fits up to 3 (4 in 1D), and larger shapes one by one, up to 130, 20 x 9 and 17 x 3 (1D) and 12 x 9 x 3, 20 x 4, 3 x 20 x 2 (2D); up to 8 inputs all input values are arbitrary, above the values of any one tile are arbitrary and the rest fixed",
    outside="larger shapes", assumptions=[REAL])
SPECS["C08"] = dict(harness="REC.cpp",
    instances=[I("c08", n=2, m=2, T=3), I("c08", n=1, m=1, T=4, act=6), I("c08", n=1, m=1, T=3, act=0), I("c08", n=1, m=2, T=3, act=2, training=1), I("c08stack", T=3), I("c08", n=3, m=1, T=2, act=6), I("c08", n=4, m=1, T=3, act=3), I("c08", n=17, m=2, T=2, act=6), I("c08", n=2, m=9, T=2, act=6), I("c08", n=1, m=1, T=3, act=4), I("c08", n=1, m=1, T=3, act=5)]
    + [I("c08", quiet=1, n=n, m=1 + n % 2, T=2, act=2 if n % 3 else 6) for n in list(range(5, 41)) + [64, 65]] + [I("c08", quiet=1, n=2, m=17, T=2), I("c08", quiet=1, n=9, m=9, T=2), I("c08", quiet=1, n=129, m=3, T=2), I("c08", quiet=1, n=3, m=65, T=2), I("c08", quiet=1, n=33, m=33, T=2), I("c08", quiet=1, n=1, m=1, T=8), I("c08", quiet=1, n=2, m=2, T=6), I("c08stack", quiet=1, T=6)]
    + [I("c08", "thorough", n=3, m=3, T=5), I("c08", "thorough", n=1, m=1, T=7), I("c08stack", "thorough", T=5)],
    bounds="every history of up to 8 steps of one neuron, 6 of two neurons and of a stack of layers, with a reset or not at each; with 2 steps every number of inputs from 1 to 40, 64, 65 and 129, and 9, 17, 33 and 65 neurons; weights and inputs arbitrary",
    outside="longer histories, larger layers", assumptions=[REAL])
SPECS["C09"] = dict(harness="REC.cpp",
    instances=[I("c09", n=2, m=2, T=2), I("c09", n=1, m=1, T=3), I("c09", n=1, m=2, T=3)]
    + [I("c09", quiet=1, n=n, m=1, T=2) for n in range(3, 41)] + [I("c09", quiet=1, n=9, m=2, T=2), I("c09", quiet=1, n=2, m=5, T=2), I("c09", quiet=1, n=129, m=3, T=2), I("c09", quiet=1, n=3, m=33, T=2), I("c09", quiet=1, n=17, m=17, T=2), I("c09", quiet=1, n=1, m=1, T=7), I("c09", quiet=1, n=1, m=2, T=5), I("c09", quiet=1, n=2, m=2, T=4)]
    + [I("c09", "thorough", n=2, m=2, T=4), I("c09", "thorough", n=3, m=3, T=3)],
    bounds="every history of up to 7 steps of one unit and 5 of two, with a reset or not at each; with 2 steps every number of inputs from 1 to 40, and 129, and 5, 17 and 33 units; weights and inputs arbitrary",
    outside="longer histories, larger layers", assumptions=[REAL])
SPECS["C10"] = dict(harness="REC.cpp",
    instances=[I("c10", k1=1, k2=0), I("c10", k1=2, k2=0), I("c10", k1=1, k2=2, past=1), I("c10", k1=0, k2=1), I("c10", k1=1, k2=0, past=0, train=1), I("c10", k1=2, k2=0, past=0, train=1), I("c10", k1=4, k2=1), I("c10", k1=5, k2=0), I("c10", k1=1, k2=0, past=1, after=1, clear=0), I("c10", k1=0, k2=2, past=1, after=1, clear=0),
               I("c10stateless", k1=0, k2=3), I("c10stateless", k1=4, k2=3), I("c10stateless", k1=3, k2=5), I("c10stateless", k1=3, k2=4)]
    + [I("c10", k1=a, k2=b, k3=c, past=3, after=2) for a in (0, 1, 2) for b in (0, 1, 2) for c in (0, 1, 2)] + [I("c10", k1=a, k2=b, past=1, train=1, after=3) for a in (0, 1, 2, 3) for b in (0, 1, 2)]
    + [I("c10", k1=a, k2=b, past=1, train=1, after=n, learn=1) for a in (0, 1, 2) for b in (0, 1, 2) for n in (1, 2)] + [I("c10", k1=a, k2=b, k3=c, past=1, train=1, after=1, learn=1) for a in (0, 1, 2) for b in (0, 1, 2) for c in (1, 2)]
    + [I("c10", k1=a, k2=b, past=3, after=3) for a in (0, 1, 2, 3) for b in (0, 1, 2)]
    + [I("c10", k1=a, k2=b, k3=c, k4=d, past=1, train=1, after=1, learn=1) for a in (0, 1) for b in (0, 2) for c in (0, 1) for d in (1, 2)] + [I("c10", k1=a, k2=b, k3=c, k4=2, k5=1, k6=d, past=p, train=t, after=2, learn=t) for a in (0, 1) for b in (1, 4) for c in (0, 2) for d in (1, 2) for p, t in ((2, 0), (1, 1))]
    + [I("c10", k1=a, k2=0, past=7, after=7) for a in (1, 2)] + [I("c10", k1=1, k2=2, past=4, after=9)] + [I("c10", "thorough", k1=a, k2=b, past=10, after=10) for a in (1, 2) for b in (0, 1, 2)]
    + [I("c10", k1=a, k2=b, size=n, X=X, past=2, after=2) for a, b, n, X in ((1, 0, 9, 3), (2, 0, 9, 3), (1, 2, 17, 20), (2, 1, 17, 20), (1, 1, 33, 40), (2, 2, 33, 5))] + [I("c10", k1=a, k2=b, size=n, X=X, past=1, train=1, after=2, learn=1) for a, b, n, X in ((1, 0, 9, 3), (2, 0, 9, 3), (1, 2, 5, 12), (2, 1, 17, 20), (1, 1, 33, 2))]
    + [I("c10stateless", k1=0, k2=4, k3=3, k4=5, k5=0, size=3, X=12), I("c10stateless", k1=4, k2=3, k3=0, k4=0, k5=0, size=3, X=12), I("c10stateless", k1=0, k2=4, size=33, X=40)],
    bounds="pasts of 1 to 7 outputs with any resets, or one training step, then 2 to 9 outputs, or one to two training steps whose effect on the weights is compared; one to six layers of every kind, of 2 to 33 neurons and 2 to 40 inputs; weights and inputs arbitrary (thorough: 10 + 10 steps)",
    outside="longer pasts", assumptions=[REAL])
# kinds: 0 dense, 1 convolution, 2 locally connected, 3 pooling
SPECS["C12"] = dict(harness="TRAIN.cpp",
    instances=[I("back", kind=0, X=3, F=2, act=a) for a in range(7)] + [I("back", kind=0, X=1, F=1, act=2), I("back", kind=0, X=4, F=3, act=2, forwards=2), I("recurrent", n=2, m=2, T=3)]
    + [I("back", kind=0, X=n, F=1 + n % 3, act=2 if n % 3 else 6, forwards=1 + n % 2) for n in list(range(5, 41)) + [64, 65]] + [I("back", kind=0, X=3, F=20, act=2), I("back", kind=0, X=12, F=12, act=6), I("back", kind=0, X=3, F=33, act=6)]
    + [I("recurrent", n=n, m=1 + n % 2, T=2) for n in list(range(3, 34))] + [I("recurrent", n=2, m=9, T=2), I("recurrent", n=9, m=3, T=2)]
    + [I("back", kind=0, X=130, F=3, act=6), I("back", kind=0, X=784, F=2, act=6, forwards=2), I("back", kind=0, X=3, F=130, act=6), I("back", kind=0, X=2, F=70, act=2), I("back", kind=0, X=30, F=30, act=3), I("recurrent", n=65, m=1, T=2), I("recurrent", n=2, m=33, T=2)],
    bounds='dense layers of every number of inputs from 1 to 40, 64, 65, 130 and 784, and 1 to 3, 12, 20, 30, 33, 70 and 130 neurons, all seven activations, one or two forward passes before; recurrent layers of 2 to 33 and 65 inputs and 1 to 9 and 33 neurons, two to three steps; weights, inputs and errors arbitrary', outside='larger layers', assumptions=[REAL])
SPECS["C13"] = dict(harness="TRAIN.cpp",
    instances=[I("back", kind=2, X=5, K=2, F=2, C=2, act=2), I("back", kind=2, X=4, K=2, F=1, act=2), I("back", kind=2, two=1, X=3, Y=4, K=2, F=2, act=2), I("back", kind=2, two=1, X=4, Y=2, K=2, C=2, F=1, act=2),
       I("back", kind=3, X=4, K=2, C=2), I("back", kind=3, X=5, K=3, C=1), I("back", kind=3, two=1, X=3, Y=2, K=2), I("back", kind=3, two=1, X=2, Y=3, K=2),
       I("back", kind=1, X=4, K=2, C=2, F=2, rate=0), I("back", kind=1, X=4, K=4, C=1, F=2, act=2), I("back", kind=1, two=1, X=3, Y=4, K=2, F=2, rate=0),
       I("back", kind=1, X=4, K=2, C=2, F=2, rate=1), I("back", kind=1, X=3, K=2, C=1, F=1, rate=0, act=2), I("back", "thorough", kind=1, X=4, K=2, C=2, F=2, rate=0, act=2)]
    + [I("back", kind=2, two=1, X=7, Y=8, K=3, F=3, C=2, act=2), I("back", kind=2, two=1, X=5, Y=7, K=2, F=5, C=3), I("back", kind=2, X=20, K=3, F=1, C=3), I("back", kind=2, X=20, K=9, F=1, C=2), I("back", kind=2, X=7, K=3, F=1, C=2, act=0), I("back", kind=2, two=1, X=12, Y=3, K=3, F=2, act=3),
       I("back", kind=1, two=1, X=7, Y=6, K=3, F=2, rate=0), I("back", kind=1, X=12, K=9, F=3, C=2, rate=0), I("back", kind=1, X=9, K=9, F=5, C=2, act=2), I("back", kind=1, two=1, X=5, Y=5, K=5, F=5, C=2), I("back", kind=1, two=1, X=4, Y=4, K=4, F=2, C=3, act=2),
       I("back", kind=3, X=17, K=5, C=3, focus=1), I("back", kind=3, X=13, K=4, C=2, focus=1), I("back", kind=3, two=1, X=6, Y=4, K=2, C=3, focus=1), I("back", kind=3, two=1, X=5, Y=8, K=2, C=1, focus=1), I("back", kind=3, two=1, X=3, Y=6, K=3, C=1, focus=1)]
    + [I("back", kind=1, two=1, X=2, Y=2, K=2, F=2, C=8, act=2), I("back", kind=1, two=1, X=4, Y=4, K=2, F=2, C=6, rate=0), I("back", kind=1, two=1, X=5, Y=5, K=5, F=2, C=11), I("back", kind=1, X=9, K=9, F=2, C=30), I("back", kind=1, two=1, X=12, Y=9, K=4, F=3, C=7, rate=0), I("back", kind=1, X=40, K=3, F=3, C=9, rate=0), I("back", kind=1, two=1, X=3, Y=3, K=3, F=17, C=31, act=6),
       I("back", kind=2, two=1, X=2, Y=2, K=2, F=2, C=9), I("back", kind=2, two=1, X=9, Y=9, K=3, F=2, C=7), I("back", kind=2, X=40, K=2, F=1, C=1), I("back", kind=2, X=60, K=5, F=1, C=6), I("back", kind=3, X=34, K=2, C=1, focus=1), I("back", kind=3, two=1, X=10, Y=8, K=2, C=1, focus=1), I("back", "thorough", kind=3, X=70, K=5, C=4, focus=1)]
    + [I("back", kind=2, two=1, X=28, Y=28, K=4, F=2, C=1), I("back", kind=2, two=1, X=17, Y=3, K=3, F=9, C=2), I("back", kind=2, X=130, K=4, F=1, C=2), I("back", kind=1, X=130, K=5, F=2, C=1, rate=0), I("back", kind=1, two=1, X=20, Y=20, K=3, F=2, C=1, rate=0), I("back", "thorough", kind=3, X=100, K=3, C=5, focus=1)],
    bounds='1D inputs of 4 to 5 x 1 to 2 channels and 2D inputs of up to 4 x 2 x 2, kernels 2 to 4, 1 to 2 filters, pooling kernels 2 to 3; larger shapes one by one, up to 130 x 2, 60 x 6 and 9 x 30 (1D, kernels 2 to 9) and 28 x 28, 12 x 9 x 7 and 3 x 3 x 31 (2D, kernels 2 to 5), 17 filters, for pooling up to 34 and 10 x 8 with the inputs of any one tile arbitrary; weights, inputs and errors arbitrary', outside='larger shapes', assumptions=[REAL])
SPECS["C14"] = dict(harness="TRAIN.cpp",
    instances=[I("sgd", kind=0, X=2, F=2, act=2), I("sgd", kind=0, X=2, F=1, act=6, steps=3), I("sgd", kind=2, X=4, K=2, F=2, act=2), I("sgd", kind=2, two=1, X=3, Y=2, K=2, F=1, act=2), I("sgd", kind=1, X=3, K=3, F=2, act=2),I("sgd", kind=1, X=3, K=2, F=1, act=6), I("sgd", kind=1, X=3, K=2, F=1, act=2, steps=1), I("recurrent", n=1, m=1, T=4), I("recurrent", n=2, m=2, T=2), I("recurrent", n=1, m=1, T=2, act=0), I("recurrent", n=1, m=1, T=3, act=6)]
    + [I("sgd", kind=0, X=n, F=1 + n % 2, act=2 if n % 3 else 6) for n in list(range(3, 41)) + [64, 65]] + [I("sgd", kind=0, X=2, F=20, act=2), I("sgd", kind=0, X=10, F=2, act=6, steps=3), I("sgd", kind=0, X=3, F=10), I("sgd", kind=0, X=2, F=1, act=2, steps=4), I("sgd", kind=0, X=3, F=2, between=1), I("sgd", kind=0, X=9, F=2, momentum=0)]
    + [I("sgd", kind=2, two=1, X=7, Y=5, K=3, F=3), I("sgd", kind=2, X=20, K=3, F=3), I("sgd", kind=2, X=4, K=2, F=2, act=6, steps=4), I("sgd", kind=2, X=4, K=2, F=1, between=1), I("sgd", kind=1, X=9, K=9, F=2), I("sgd", kind=1, quiet=1, two=1, X=5, Y=5, K=3, F=2, act=6), I("sgd", kind=1, quiet=1, X=12, K=9, F=2, act=6), I("sgd", kind=1, quiet=1, X=4, K=2, F=2, act=2), I("sgd", kind=1, quiet=1, X=5, K=3, F=1, act=2), I("sgd", kind=1, X=9, K=9, F=2, C=2, act=2)]
    + [I("recurrent", n=n, m=1 + n % 2, T=2) for n in list(range(3, 34))] + [I("recurrent", n=2, m=5, T=2)]
    + [I("sgd", kind=0, X=300, F=1, act=6, steps=1), I("sgd", kind=0, X=2, F=70, act=6), I("sgd", kind=2, X=40, K=2, F=2), I("sgd", kind=0, X=2, F=1, act=6, steps=6), I("recurrent", n=65, m=1, T=2), I("recurrent", n=2, m=20, T=2), I("recurrent", n=1, m=1, T=6, act=6), I("sgd", "thorough", kind=0, X=130, F=2, act=6)],
    bounds='two successive steps of dense layers of every number of inputs from 2 to 40, 64 and 65 (one step: 300), up to 6 steps of smaller ones, up to 70 neurons; two to four steps of locally connected and convolution layers up to 40 (1D) and 7 x 5 (2D) with up to 3 filters; two to six steps of recurrent layers of 1 to 33 and 65 inputs and 1 to 5 and 20 neurons; learning rate, momentum, weights, inputs and errors arbitrary', outside='more steps, larger layers', assumptions=[REAL])
SPECS["C15"] = dict(harness="TRAIN.cpp",
    instances=[I("gradient", depth=1, l1=0), I("gradient", depth=1, l1=2), I("gradient", depth=1, l1=1, act=6), I("gradient", depth=2, l1=2, l2=3, X=4, K=2), I("gradient", depth=2, l1=0, l2=2), I("gradient", depth=2, l1=3, l2=2),
       I("sgdStack", depth=2, l1=0, l2=0, X=2), I("sgdStack", "thorough", depth=2, l1=0, l2=0), I("sgdStack", "thorough", depth=2, l1=0, l2=1), I("sgdStack", depth=1, l1=1), I("sgdStack", depth=2, l1=0, l2=1, act=6), I("sgdStack", depth=2, l1=1, l2=1, K=2, X=4, F=1), I("sgdStack", depth=2, l1=2, l2=2, X=4, F=2, K=2)]
    + [I("gradient", depth=1, l1=0, X=n, F=1 + n % 2, act=2) for n in list(range(5, 41)) + [64, 65]] + [I("gradient", depth=1, l1=2, F=3, X=6, K=2), I("gradient", depth=1, l1=2, F=3, X=5, K=2, act=6), I("gradient", depth=3, l1=2, l2=0, l3=0, F=1, X=4, K=2), I("gradient", depth=1, l1=0, X=20, F=2, act=6), I("gradient", depth=1, l1=2, two=1, X=5, Y=4, F=3, K=2, act=6), I("gradient", depth=1, l1=1, X=4, K=4, F=3, act=6), I("gradient", depth=1, l1=1, X=9, K=9, F=3)]
    + [I("sgdStack", quiet=1, depth=1, l1=1, F=3, X=6, K=3, act=6), I("sgdStack", quiet=1, depth=1, l1=2, two=1, X=5, Y=4, F=3, K=2), I("sgdStack", quiet=1, depth=3, l1=0, l2=0, l3=0, X=2, F=2, act=6), I("sgdStack", quiet=1, depth=2, l1=3, l2=1, X=6, F=2, K=2), I("sgdStack", quiet=1, depth=2, l1=2, l2=3, X=8, K=2, F=2)]
    + [I("gradient", depth=1, dense=0, X=2, F=20, act=6), I("gradient", depth=1, dense=0, X=1, F=40), I("gradient", depth=1, dense=0, X=3, F=130, act=6), I("gradient", depth=2, dense=0, X=2, F=3, act=6), I("gradient", depth=1, dense=0, l1=2, two=1, X=9, Y=9, F=3, K=3, act=6), I("gradient", depth=1, dense=0, l1=1, two=1, X=3, Y=3, F=9, K=3, act=6),
       I("gradient", depth=4, F=1, X=1), I("gradient", depth=8, F=1, X=2, act=6), I("gradient", depth=4, l1=3, l2=1, F=1, K=2, X=4, act=6), I("gradient", "thorough", depth=8, F=1, X=1), I("gradient", "thorough", depth=2, dense=0, l1=2, l2=3, X=16, F=2, K=2)]
    + [I("gradient", "thorough", depth=1, l1=0, X=130, F=2, act=6), I("gradient", "thorough", depth=1, l1=0, X=300, F=1, act=6), I("sgdStack", "thorough", quiet=1, depth=4, l1=2, l2=3, l3=1, l4=0, X=9, F=1, K=2, act=6)],
    bounds='networks of one to three layers (dense, convolution, locally connected, pooling) with 2 to 9 inputs (one dense layer: every number from 5 to 40, 64 and 65) and 1 to 5 neurons or filters per layer, one output or as many as the last layer has neurons (20, 40, 130), chains of up to nine layers of one neuron, one training step from arbitrary weights', outside='deeper networks, larger layers', assumptions=[REAL])
SPECS["C17"] = dict(harness="DATA.cpp",
    instances=[I("c17", n=3), I("c17", n=4, opt=["--fork-rng"]), I("c17", n=3, times=2, opt=["--fork-rng"]), I("c17", n=3, problem=0), I("c17", n=3, problem=1, separate=1), I("c17", n=1), I("c17", n=2, problem=0, separate=1), I("c17", n=6, opt=["--fork-rng"]), I("c17", n=5, problem=0, opt=["--fork-rng"]), I("c17", n=4, problem=1, separate=1, times=2, opt=["--fork-rng"]), I("c17", n=12, fixed=1), I("c17", n=40, fixed=1, times=2, separate=1), I("c17", n=17, fixed=1, problem=0), I("c17all", opt=["--fork-rng"], reach=["end", "order 012", "order 021", "order 102", "order 120", "order 201", "order 210"])]
    + [I("c17", n=100, fixed=1), I("c17", n=300, fixed=1, separate=1), I("c17", n=70, fixed=1, problem=1, times=2)],
    bounds='1 to 6 samples, every outcome of the shuffle (Fisher-Yates draws arbitrary), one to two shuffles; 12 to 300 samples of arbitrary values in one outcome', outside='more samples', assumptions=[REAL])
SPECS["C18"] = dict(harness="DATA.cpp",
    instances=[I("c18", opt=["--fork-rng"]), I("c18", sequences=2, longest=2, separate=1, times=2, opt=["--fork-rng"]), I("c18", longest=3, separate=1, opt=["--fork-rng"]), I("c18", sequences=4, longest=2, opt=["--fork-rng"]), I("c18", sequences=5, longest=2, separate=1, times=2, opt=["--fork-rng"]), I("c18", sequences=2, longest=6, opt=["--fork-rng"]), I("c18", sequences=1, longest=9, opt=["--fork-rng"])]
    + [I("c18", pattern=1, sequences=30, longest=7), I("c18", pattern=1, sequences=9, longest=20, separate=1, tests=12, times=2), I("c18", sequences=2, longest=2, separate=1, tests=3, opt=["--fork-rng"]), I("c18", sequences=1, longest=3, separate=1, tests=4, opt=["--fork-rng"])],
    bounds='1 to 5 sequences of up to 2 to 9 steps, all lengths, every outcome of the shuffle; up to 4 testing sequences of all lengths; 30 sequences, and 9 with 12 for testing, of up to 20 steps in one outcome', outside='more or longer sequences', assumptions=[REAL])
SPECS["C19"] = dict(harness="DATA.cpp",
    instances=[I("c19", R=r, n=n, times=2, opt=["--fork-rng"]) for r, n in ((1, 6), (2, 7), (3, 8), (4, 12))] + [I("c19", R=r, n=n, times=1, opt=["--fork-rng"]) for r, n in ((1, 10), (2, 16), (5, 20), (9, 24))] + [I("c19", R=1, n=7, times=3, opt=["--fork-rng"])]
    + [I("c19", pattern=1, n=100, R=3, times=2), I("c19", pattern=1, n=60, R=11, times=2, tests=40), I("c19", R=2, n=6, times=1, tests=4, opt=["--fork-rng"]), I("c19", R=1, n=4, times=2, tests=6, opt=["--fork-rng"])],
    bounds='up to 12 samples with recurrences 1 to 4 and two to three shuffles in a row, up to 24 samples with recurrences up to 9 and one shuffle, every outcome of the shuffle; 60 and 100 samples in one outcome; with the same or another series for testing', outside='longer series', assumptions=[REAL])
SPECS["C20"] = dict(harness="DATA.cpp",
    instances=[I("c20", n=4), I("c20", n=3, dim=1, labels=3), I("c20", n=3, dim=3, labels=1), I("c20", n=3, problem=1), I("c20", n=3, problem=0), I("c20", n=5), I("c20", n=12, stride=5), I("c20", n=20, stride=7), I("c20", n=33, stride=7), I("c20", n=20, stride=7, dim=20, labels=3), I("c20", n=20, stride=7, dim=3, labels=20, problem=1), I("c20", n=9, stride=5, dim=9, labels=9, problem=0)]
    + [I("c20", n=130, stride=50, places=1), I("c20", n=300, stride=50, places=1, dim=1, labels=1), I("c20", n=12, stride=5, dim=130), I("c20", n=12, stride=5, labels=70)],
    bounds='3 to 5 samples of 1 to 3 features, 1 to 3 outputs in any order, 9 to 33 samples of up to 20 features or outputs in one order, every batch position and size, up to 300 samples with batches of none, half and all, 130 features, 70 outputs; values arbitrary', outside='larger batches', assumptions=[REAL])
SPECS["C21"] = dict(harness="DATA.cpp",
    instances=[I("c21", n=3), I("c21", n=4, t=1), I("c21", n=2, dim=2, t=1), I("c21", n=3, t=0), I("c21", n=2, constant=1), I("c21", n=2, constant=1, dim=2, t=1), I("c21", n=12, dim=1, t=3, focus=1), I("c21", n=3, dim=10, t=1, focus=1), I("c21", n=2, dim=33, t=1, focus=1)]
    + [I("c21", n=100, t=3, focus=2), I("c21", n=30, dim=20, t=3, focus=2, places=1), I("c21", n=3, dim=100, t=1, focus=1, places=1), I("c21", n=4, dim=2, t=20, focus=1, places=1)],
    bounds='2 to 4 samples of 1 to 2 features of arbitrary values, training and testing, with constant features; 12 samples, and 10 and 33 features, with any one training value and one testing value arbitrary; 100 samples, and 30 of 20 features, with an extreme value at any place, 100 features', outside='more samples; rounding', assumptions=[REAL])
SPECS["C22"] = dict(harness="DATA.cpp",
    instances=[I("c22", problem=p, nature=n, separate=s) for p in (0, 2) for n in (0, 2) for s in (0, 1)] + [I("c22", problem=1), I("c22", nature=1, reach=["end", "refused"]), I("c22seq", separate=0), I("c22seq"), I("c22seq", problem=0, separate=0)]
    + [I("c22", most=20, least=19, problem=p, separate=s) for p in (0, 1, 2) for s in (0, 1)] + [I("c22", most=12, least=11, problem=2, nature=2, separate=s) for s in (0, 1)] + [I("c22seq", sequences=3, longest=3, labels=9, separate=0), I("c22seq", sequences=2, longest=6, labels=12, separate=0), I("c22seq", sequences=1, longest=4, labels=5)],
    bounds='data sets of up to 3 samples (2 sequences) whose numbers of samples, sizes and labels are any combination of small values, all problems and natures; 19 or 20 samples in each part (11 or 12 for time series, recurrences around that), or any one sample or target of another size; up to 3 sequences of up to 3, and 2 of up to 6 steps', outside='larger data sets', assumptions=[REAL])


# kinds: 0 dense, 1 convolution, 2 locally connected, 3 pooling, 4 recurrent, 5 gated recurrent
PAIRS = [(a, b) for a in range(6) for b in range(6)]
ARCH = dict(reach=["end", "accepted"])
def CHAINS(**kw):
    """deep and large architectures: given one by one, and every triple of kinds on an odd 2D and a 1D input"""
    big = [dict(d0=300, k1=0, n1=300),
           dict(d0=1, d1=28, d2=28, k1=1, n1=4, f1=5, k2=3, f2=2, k3=1, n3=3, f3=3, k4=3, f4=3, k5=0, n5=20, k6=0, n6=10),
           dict(d0=3, d1=9, d2=7, k1=2, n1=3, f1=3, k2=1, n2=5, f2=3, k3=0, n3=70),
           dict(d0=2, d1=30, k1=1, n1=3, f1=4, k2=3, f2=2, k3=2, n3=5, f3=3, k4=4, n4=20, k5=5, n5=9, k6=0, n6=3),
           dict(d0=40, k1=5, n1=30, k2=4, n2=40, k3=0, n3=2),
           dict(d0=7, k1=0, n1=6, k2=0, n2=5, k3=0, n3=4, k4=0, n4=3, k5=0, n5=2, k6=0, n6=1)]
    small = [dict(d0=2, d1=9, d2=7, n1=8, n2=7, n3=3, f1=2, f2=2, f3=2), dict(d0=2, d1=17, n1=8, n2=9, n3=3, f1=3, f2=2, f3=2)]
    return [I("chain", cost=8, **b, **kw) for b in big] + [I("chain", k1=a, k2=b, k3=c, **small[(a + b + c) % 2], **kw) for a in range(6) for b in range(6) for c in range(6)]


SPECS["C01"] = dict(harness="LAYER.cpp",
    instances=[I("c01", dims=d, most=4 if d < 3 else 3, k1=k, **ARCH) for d in (1, 2, 3) for k in range(6)]
    + [I("c01", dims=2, most=3, k1=a, k2=b, **ARCH) for a, b in PAIRS if 1 <= b <= 3] + CHAINS()
    + [I("c01", "thorough", dims=3, most=3, k1=a, k2=b, cost=5, **ARCH) for a, b in PAIRS],
    bounds='every architecture of one layer of any kind on 1D, 2D (sizes up to 4) and 3D (up to 2 x 3 x 3) inputs with kernels up to 3 or 4 and 1 to 2 neurons or filters, every pair of layers on 2D inputs up to 2 x 3 whose second layer is a filter or pooling layer; every triple of kinds on a 2 x 9 x 7 or 2 x 17 input, and six chains of up to six layers (300 inputs to 300 neurons, 28 x 28 convolution and pooling, recurrent on 40); forward, output and one training step (thorough: every pair of kinds on 3D inputs)', outside='other shapes of three layers or more; values of layers with a memory (C08 to C10)', assumptions=[REAL])
SPECS["C02"] = dict(harness="LAYER.cpp",
    instances=[I("c02", dims=d, kind=k, strictalloc=1, time=45, cost=d, opt=["--branch-ms", "300"]) for d in (1, 2, 3) for k in range(6) if (d, k) not in ((2, 2), (3, 2))]
    + [I("c02", dims=d, kind=2, limit=150 if d == 3 else 1000, strictalloc=1, time=45, cost=9, opt=["--branch-ms", "300"]) for d in (2, 3)] + [I("c02order"), I("c02sgd")]
    + [I("c02deep", chain=c, kind=k, last=l, strictalloc=1, time=45, opt=["--branch-ms", "300"], cost=3 if (c, k) == (5, 2) else 1) for c in range(6) for k in range(7) for l in (0, 1) if l == 0 or (k != 2 and c in (0, 3, 5))],
    bounds='one layer of each kind behind an input of 1 to 3 dimensions, every size, number of neurons and kernel any 32-bit integers (locally connected 2D: up to 1000, 3D: up to 150): non-positive sizes, more than 2073600 inputs, no neurons, kernels too small or too big; an impossible layer or an Input of any 32-bit size, number of neurons or kernel in the middle or at the end of six networks of up to nine layers; invalid orders of layers and numbers of dimensions; every real learning rate and momentum', outside='two impossible layers at once; requests of memory above the limits of the library that are not refused by it', assumptions=[REAL])
SPECS["C03"] = dict(harness="LAYER.cpp",
    instances=[I("c01", dims=d, most=4 if d < 3 else 3, k1=k, counts=1, back=0, **ARCH) for d in (1, 2, 3) for k in range(6)]
    + [I("c01", dims=2, most=2, k1=a, k2=b, counts=1, back=0, **ARCH) for a, b in PAIRS if a != b] + CHAINS(back=0),
    bounds='every architecture of C01 with one layer, pairs of different kinds on 2D inputs up to 2 x 2, and the chains of three to six layers of C01 (up to 300 x 300 weights)', outside='larger shapes', assumptions=[REAL])
SPECS["C11"] = dict(harness="LAYER.cpp",
    instances=[I("c11", k1=k, layer=o) for k in (0, 1, 2, 4, 5) for o in (0, 1, 2, 3)] + [I("c11", k1=0, layer=4), I("c11", k1=1, layer=4, size=1), I("c11", k1=2, layer=4, size=1), I("c11", k1=4, layer=4)]
    + [I("c11", k1=0, how=1, problem=p, layer=l, act=6, only=100) for p in (0, 1, 2) for l in (1, 2, 4)] + [I("c11", k1=k, how=h, act=6, size=1, only=100) for k in (1, 2, 4) for h in (1, 2)] + [I("c11", k1=5, how=1, size=1, only=100), I("c11", k1=2, two=1, k2=3, how=2, act=6, only=100, size=1)]
    + [I("c11", "thorough", k1=a, k2=b, layer=o) for a in (0, 1, 2, 4, 5) for b in (0, 1, 2, 4, 5) for o in (1, 2)]
    + [I("c11", act=6, only=100, **q) for q in (dict(k1=0, k2=4, k3=0, k4=5, k5=0, cost=2), dict(k1=1, k2=2, k3=0, X=12), dict(k1=0, X=100, size=20), dict(k1=0, X=2, size=130), dict(k1=2, two=1, X=9, size=5), dict(k1=1, two=1, X=9, size=5), dict(k1=4, times=4, size=1), dict(k1=0, times=30, layer=1))]
    + [I("c11", k1=k, nature=q, how=1, problem=p, act=6, size=1, only=100) for k, q, p in ((0, 1, 0), (4, 1, 2), (4, 2, 1), (2, 1, 1), (0, 2, 2))],
    bounds='stacks of one layer of each kind (with dropout, L1 + L2, error multiplier, softmax) and a dense layer, pooling in between for some: computeOutput, computeCluster with arbitrary inputs and weights; evaluate, with and without a Wait, on two samples of the three problems and on sequences and time series of six, with arbitrary biases; stacks of up to six layers, 100 inputs and 130 neurons and up to 30 inferences with arbitrary biases and inputs', outside='larger networks; evaluations with arbitrary weights other than biases', assumptions=[REAL])
SPECS["C40"] = dict(harness="LAYER.cpp",
    instances=[I("c40", k1=k, two=t) for k in range(6) for t in (0, 1)] + [I("c40", k1=k, X=x, F=f) for k in range(6) for x, f in ((9, 5), (33, 2))] + [I("c40", k1=k, X=17, F=9) for k in (0, 1, 4)] + [I("c40", k1=k, two=1, X=9, F=5) for k in (1, 2)] + [I("c40", k1=4, X=70, F=12, cost=3), I("c40", k1=2, two=1, X=17, F=4)], bounds='one layer of each kind of 1 to 12 neurons or filters on 3 to 70 (2D: 2 x 2, 9 x 2, 17 x 2) inputs and a dense layer; every random draw arbitrary', outside='larger layers', assumptions=[REAL, RNG])
SPECS["C39"] = dict(harness="LAYER.cpp", instances=[I("c39", n=n) for n in (1, 2, 3, 4, 5, 6, 8, 10)] + [I("c39", n=16, focus=2), I("c39", n=17, focus=3), I("c39", n=40, focus=1), I("c39", n=100, focus=1, places=1), I("c39", n=300, focus=1, places=1), I("c39", n=65, focus=2, places=1)], bounds='1 to 10 outputs of arbitrary values; 16 to 40 outputs of which any 1 to 3 neighbours are arbitrary, up to 300 of which the first, middle or last one is', outside='more outputs', assumptions=[REAL])
SPECS["C32"] = dict(harness="LAYER.cpp",
    instances=[I("c32", kind=k, two=t) for k in (0, 1, 2) for t in (0, 1)] + [I("c32", kind=4), I("c32", kind=0, arbitrary=1, steps=1), I("c32", kind=0, X=33, size=1)] + [I("c32", fixed=1, kind=k, X=x, size=z) for k, x, z in ((0, 17, 5), (0, 2, 9), (1, 9, 3), (2, 9, 3), (4, 9, 5))] + [I("c32", fixed=1, kind=k, X=5, two=1, size=3) for k in (1, 2)] + [I("c32", fixed=1, kind=0, X=2, size=17, steps=1), I("c32", fixed=1, kind=0, X=40, size=40, steps=1, cost=3), I("c32", fixed=1, kind=2, X=33, size=2, steps=1)], bounds='dense, convolution, locally connected and recurrent layers of 2 neurons or filters on 3 (2D: 3 x 2) inputs, two training steps; up to 40 inputs and up to 40 neurons with one outcome of the draws; dropout rate, random draws, inputs and errors arbitrary, weights fixed (arbitrary in one instance)', outside='larger layers', assumptions=[REAL])
SPECS["C33"] = dict(harness="LAYER.cpp", instances=[I("c33", n=n, training=t) for n in (1, 2, 3, 4) for t in (0, 1)] + [I("c33range", n=n, training=t, expmax=1) for n in (1, 2, 3, 5) for t in (0, 1)] + [I("c33", form=1, n=6, groups=1), I("c33", form=1, n=2), I("c33", form=1, n=3, training=1), I("c33", form=1, n=3), I("c33", form=2, n=10, groups=1), I("c33", form=2, n=17, groups=1, training=1), I("c33", form=1, n=30, groups=2), I("c33", n=10, groups=2), I("c33", n=9, groups=1, cost=2)] + [I("c33range", n=10, groups=1, expmax=1), I("c33range", n=30, groups=2, expmax=1, training=1)],
    bounds='1 to 4 outputs, arbitrary values, in training and inference: formula as exact reals, range (no overflow of an exponential, a positive output, none negative) for all values up to 1e38, 1 to 5 outputs; 6 to 30 outputs of two different arbitrary values; outputs as small as exp(-60) to one per cent for 2, 3, 6 and 30 outputs', outside='more outputs; rounding', assumptions=[REAL, "an exponential overflows above 88.5"])
SPECS["C34"] = dict(harness="LAYER.cpp",
    instances=[I("c34", kind=0, what=w) for w in range(1, 8)] + [I("c34", kind=k, what=w, first=1) for k in (0, 1, 2, 4) for w in (1, 2, 4, 3, 5, 6, 7)] + [I("c34", kind=k, two=t, what=7) for k in (1, 2) for t in (0, 1)] + [I("c34", kind=4, what=7)] + [I("c34", kind=0, what=7, X=x, size=z) for x, z in ((17, 2), (2, 9), (3, 3))] + [I("c34", kind=0, what=1, X=9, size=5), I("c34", kind=1, what=7, X=9, size=3), I("c34", kind=2, two=1, what=6, X=5, size=3), I("c34", kind=0, what=3, X=20, size=1, first=1)]
    + [I("c34", kind=0, what=7, order=o) for o in range(1, 6)] + [I("c34", kind=k, what=7, order=o, first=1) for k, o in ((1, 2), (2, 3), (4, 4), (0, 5))] + [I("c34", kind=5, what=7, first=1), I("c34", kind=1, what=7, X=20, size=9, first=1)]
    + [I("c34", fixed=1, kind=k, what=7, X=x, size=z, order=o) for k, x, z, o in ((0, 33, 33, 0), (0, 2, 70, 4), (2, 40, 3, 2))] + [I("c34", fixed=1, first=1, kind=k, what=7, X=x, size=z) for k, x, z in ((1, 20, 40), (4, 9, 20))] + [I("c34", fixed=1, two=1, kind=2, what=7, X=9, size=5, first=f) for f in (0, 1)]
    + [I("c34", fixed=1, kind=0, what=w, X=1, size=300, first=f) for w, f in ((1, 0), (2, 1), (4, 0))] + [I("c34", fixed=1, kind=k, what=7, X=x, size=z, first=1) for k, x, z in ((0, 1, 300), (1, 2, 300), (4, 1, 130), (2, 33, 9))],
    bounds='L1, L2 and ErrorMultiplier alone and in every combination on dense layers, all three together on the other kinds, of 2 neurons or filters; larger layers one by one, up to 20 inputs and 9 neurons; coefficients, weights, inputs and errors arbitrary; the three in every order; layers up to 33 inputs and 33, 300 neurons or 300 filters with fixed weights and inputs', outside='larger layers', assumptions=[REAL])
SPECS["C38"] = dict(harness="LAYER.cpp", instances=[I("c38", size=1, ops=5), I("c38", size=2, ops=7), I("c38", size=3, ops=8), I("c38", size=2, dim=2, ops=5)] + [I("c38", size=s, dim=d, ops=0, rounds=3) for s in (4, 5, 6, 7, 8, 9, 16, 24, 100) for d in (1, 5)] + [I("c38", size=300, dim=1, ops=0, rounds=3), I("c38", size=10, dim=50, ops=0, rounds=3), I("c38", size=3, ops=11)], bounds='buffers of 1 to 3 slots, vectors of 1 to 2 values, every interleaving of 5 to 11 stores and reads then a full round; buffers of 4 to 9, 16, 24, 100 and 300 slots, vectors of 1, 5 or 50 values, three full rounds', outside='longer histories', assumptions=[REAL])

IEEEM = "floating point is IEEE single precision, as compiled without -ffast-math reassociation"
SPECS["C23"] = dict(harness="EVAL.cpp",
    instances=[I("c23", problem=0, samples=2, m=2), I("c23", problem=0, samples=1, m=3), I("c23", problem=0, samples=3, m=2, cost=3), I("c23", problem=0, samples=2, m=3, cost=6), I("c23", problem=1, samples=2, m=2, cost=2), I("c23", problem=1, samples=1, m=3), I("c23", problem=1, samples=4, m=1),
       I("c23", problem=0, samples=2, m=2, again=1), I("c23", problem=1, samples=2, m=1, again=1), I("c23", problem=0, samples=10, m=4, focus=1), I("c23", problem=1, samples=9, m=3, focus=1), I("c23", problem=1, samples=20, m=2, focus=1)]
    + [I("c23", problem=0, samples=3, m=12, focus=1, single=1, places=1), I("c23", problem=0, samples=50, m=3, focus=1, places=1), I("c23", problem=0, samples=70, m=7, focus=1, places=1, single=1), I("c23", problem=1, samples=60, m=2, focus=1, places=1), I("c23", problem=1, samples=4, m=20, focus=1, single=1, places=1), I("c23", problem=0, samples=130, m=2, focus=1, places=1)],
    bounds="evaluations of 1 to 4 samples of 1 to 3 classes of arbitrary outputs (no two equal within a sample for classification), targets and separator, alone and after other evaluations; of 9 to 20 samples of 2 to 4 classes with the outputs and targets of any one sample arbitrary; up to 130 samples and up to 20 classes with the first, middle or last sample or output arbitrary", outside="more samples or classes; ties for the largest output", assumptions=[REAL])
SPECS["C24"] = dict(harness="EVAL.cpp",
    instances=[I("c24", samples=1, m=1), I("c24", samples=2, m=1), I("c24", samples=1, m=2), I("c24", "thorough", samples=2, m=2, cost=4), I("c24", samples=3, m=1), I("c24", samples=2, m=1, times=2), I("c24", samples=2, m=1, precise=0), I("c24", samples=10, m=3, focus=1), I("c24", samples=20, m=1, focus=1), I("c24", samples=3, m=9, focus=1), I("c24", samples=10, m=3, focus=1, precise=0), I("c24", samples=9, m=2, focus=1, times=2)]
    + [I("c24", samples=70, m=1, focus=1, places=1), I("c24", samples=3, m=40, focus=1, places=1), I("c24", samples=130, m=2, focus=1, precise=0, places=1)]
    + [I("c24classes", problem=q, samples=s, m=m, times=t, focus=f, opt=["--branch-ms", "300"] if t == 2 else []) for q in (0, 1) for s, m, t, f in ((2, 2, 1, 0), (1, 2, 2, 0), (1, 3, 1, 0), (3, 2, 1, 0), (9, 4, 1, 1), (3, 12, 1, 1))],
    bounds="evaluations of 1 to 3 samples of 1 to 2 outputs, all values and the precision arbitrary; of 3 to 20 samples of 1 to 9 outputs with any one output, its target and the precision arbitrary; up to 130 samples and 40 outputs with the first, middle or last; of both classification problems, up to 3 samples and 3 outputs, and of 9 samples of 4 outputs or 3 of 12 with any one output (and target) arbitrary", outside="more samples or outputs; rounding", assumptions=[REAL])
SPECS["C25"] = dict(harness="EVAL.cpp",
    instances=[I("c25", problem=1, times=5, samples=1, m=1), I("c25", problem=1, times=2, samples=2, m=1), I("c25", problem=1, times=2, samples=1, m=2), I("c25", problem=0, times=2, samples=1, m=2), I("c25", problem=2, times=2), I("c25", problem=2, times=3, cost=2), I("c25", "thorough", problem=2, times=2, samples=2, cost=3)]
    + [I("c25", **q) for q in (dict(problem=1, times=12, fixed=11, samples=3, m=1), dict(problem=1, times=40, fixed=39, samples=2, m=2), dict(problem=0, times=9, fixed=8, samples=2, m=2), dict(problem=0, times=30, fixed=29, samples=1, m=3), dict(problem=2, times=10, fixed=8, cost=2), dict(problem=2, times=30, fixed=29))],
    bounds="2 to 5 evaluations: classification and multiple classification of 1 to 2 samples of 1 to 2 classes, every placement of outputs and targets around the separator; regression of one output of arbitrary value; the last one or two evaluations of series of up to 40", outside="longer series", assumptions=[REAL])
SPECS["C26"] = dict(harness="EVAL.cpp",
    instances=[I("c26", count=1, clock=1), I("c26mixed")]
    + [I("c26", count=2, clock=1, first=k, cost=3) for k in range(6)] + [I("c26", count=3, clock=1, kinds=4, right=r, first=k, cost=6) for k in range(4) for r in (0, 1)]
    + [I("c26", "thorough", count=4, clock=1, kinds=4, right=r, first=k, cost=6) for k in range(4) for r in (0, 1)],
    bounds="1 to 3 criteria of any kinds, joined by one operator in either grouping, every bound (durations up to 23 days), current state and clock reading; every mixture of both operators in up to four criteria", outside="more criteria; durations of 24 days or more", assumptions=[REAL, "the clock never goes back"])
SPECS["C36"] = dict(harness="EVAL.cpp",
    instances=[I("c36output", m=2, opt=["--ieee"]), I("c36output", m=1, times=3, opt=["--ieee"]), I("c36output", m=1, training=1, opt=["--ieee"]), I("c36train", opt=["--ieee"], reach=["end", "valid"])]
    + [I("c36scores", problem=q, how=h, opt=["--ieee"]) for q in (0, 1, 2) for h in (0, 1)] + [I("c36scores", "thorough", problem=q, how=2, opt=["--ieee"]) for q in (0, 1, 2)] + [I("c36scores", problem=q, how=0, first=1, opt=["--ieee"]) for q in (0, 2)]
    + [I("c36output", m=12, one=1, times=1, training=t, opt=["--ieee"]) for t in (0, 1)] + [I("c36output", m=m, neuron=1, times=1, training=t, opt=["--ieee"]) for m in (12, 33) for t in (0, 1)] + [I("c36train", m=m, neuron=1, opt=["--ieee"], reach=["end", "valid"]) for m in (2, 9)] + [I("c36train", m=12, opt=["--ieee"], reach=["end", "valid"])] + [I("c36output", m=1, deep=d, times=1, training=t, opt=["--ieee"]) for d in (2, 3) for t in (0, 1)] + [I("c36train", deep=2, opt=["--ieee"], reach=["end", "valid"])] + [I("c36scores", samples=9, one=1, problem=q, how=h, opt=["--ieee"]) for q in (0, 1, 2) for h in (0, 1)]
    + [I("c36scores", m=m, problem=q, how=h, last=l, samples=s, opt=["--ieee"]) for m, l, s in ((1, 0, 1), (1, 0, 2), (3, 1, 2), (20, 1, 1)) for q in (0, 1, 2) for h in (0, 1) if (m, q) != (1, 0)] + [I("c36scores", m=1, problem=2, how=0, first=1, opt=["--ieee"])],
    bounds="networks of one layer that pass their inputs on, of up to 33 outputs any one of which is arbitrary (12: all of them invalid with any one input), and of up to three layers that multiply by 1e25 each, so that any layer overflows; every float as input, NaN and infinities included; evaluations and trainings of one or two samples of 1, 2, 3 and 20 outputs of the three problems, and of nine any one of which is arbitrary", outside="other networks; the build's -ffast-math", assumptions=[IEEEM])
KINDS = (0, 1, 2, 3, 4, 5)
def TWINS(how):
    return [I("twins", how=how, k1=k, again=1, only=-1) for k in KINDS] + [I("twins", how=how, k1=k, two=1) for k in (1, 2, 3)] + [I("twins", how=how, k1=k, only=-2, past=int(k < 3), arbitrary=0) for k in KINDS] \
        + [I("twins", how=how, k1=k, layer=o) for k in (0, 1, 2, 4, 5) for o in (1, 2, 3)] + [I("twins", how=how, k1=k, layer=4, only=1, arbitrary=0, act=6, past=0, train=0) for k in (0, 1, 2, 4)] + [I("twins", how=how, k1=k, act=6, size=1, past=0, momentum=0, again=1) for k in (0, 1, 2, 4, 5)] \
        + [I("twins", how=how, k1=0, k2=4, path=0, auto=1, only=-1, act=a) for a in (0, 1, 3, 4, 5, 6)] + [I("twins", how=how, k1=1, k2=3, only=2, arbitrary=0, act=6, past=0, train=0), I("twins", how=how, k1=1, k2=2), I("twins", how=how, k1=2, two=1, k2=3, layer=2, only=2, arbitrary=0, act=6, past=0, train=0)] \
        + [I("apart", how=how, k1=k, touch=t) for k in KINDS for t in (0, 1, 2, 3, 4, 5)] + [I("apart", how=how, k1=k, touch=t, layer=o, act=6, past=0) for k in (0, 1, 2) for o in (1, 2, 3) for t in (0, 1)] + [I("apart", how=how, k1=0, touch=t, only=-2, past=0, act=6) for t in (6, 7)] + [I("apart", how=how, k1=0, touch=t) for t in (8, 9)] \
        + [I("apart", how=how, k1=k, touch=t, only=-2, past=0, act=6, last=6) for k in KINDS if k != 3 for t in (4, 5)] \
        + [I("twins", how=how, k1=k, X=12, size=9, only=-2, arbitrary=0, last=6, act=6) for k in (0, 1, 2, 4)] + [I("twins", how=how, k1=k, X=4, size=33, only=-2, arbitrary=0, last=6, act=6) for k in (0, 2, 4)] + [I("twins", how=how, k1=k, X=4, size=17, only=-2, past=0, train=0, last=6, act=6) for k in (0, 1, 2, 4, 5)] \
        + [I("twins", how=how, k1=2, k2=4, k3=0, k4=0, only=-2, arbitrary=0, X=6, act=6, last=6), I("twins", how=how, k1=0, k2=5, k3=4, k4=5, only=-2, past=0, train=0, X=6, act=6, last=6), I("twins", how=how, k1=0, k2=4, k3=0, k4=0, only=-2, train=0, X=6, act=6, last=6)] \
        + [I("twins", "thorough", how=how, k1=a, k2=b, layer=o, only=-1, past=2) for a in KINDS for b in KINDS if a != 3 and b != 3 for o in range(4)]
TWINSB = "networks of up to five layers, and of layers of up to 33 neurons or filters and 12 inputs, of fixed weights and arbitrary scores or inputs; networks of one or two layers of each kind (1D and 2D) and a dense layer, each layer optimizer, all activations, of arbitrary weights and scores, new or after a training step with momentum and an output; then outputs of an arbitrary input, with and without reset, and one more training step of both; and changes of one of the two (training, destruction, settings, evaluation, all weights)"
SPECS["C29"] = dict(harness="COPY.cpp", instances=TWINS(0) + [I("twins", how=0, k1=0, invalid=1), I("twins", how=0, k1=2, invalid=1, again=1, only=-1), I("twins", how=0, k1=4, invalid=1), I("apart", how=0, k1=0, touch=2, invalid=1), I("apart", how=0, k1=0, touch=3, invalid=1)],
    bounds=TWINSB, outside="deeper networks, longer pasts; what dropout draws after the copy", assumptions=[REAL])
SPECS["C30"] = dict(harness="COPY.cpp", instances=TWINS(1) + [I("overwritten")],
    bounds=TWINSB + "; files that held another network, missing files", outside="deeper networks, longer pasts; what dropout draws after the loading; the text of the file and its precision", assumptions=[REAL, "Boost archives return the values that were put in, in order (they are replaced by a sequence of typed tokens)"])
SPECS["C31"] = dict(harness="COPY.cpp",
    instances=[I("different", k1=k, what=0) for k in (0, 1, 2, 4, 5)] + [I("different", k1=0, what=w) for w in range(1, 7)] + [I("architectures", kind=k, vary=v) for k in KINDS for v in (0, 1, 2, 3, 6)] + [I("architectures", kind=k, vary=v, two=1) for k in (1, 2, 3) for v in (2, 3, 6)] + [I("architectures", kind=k, vary=4, layer=o) for k in (0, 1, 4) for o in range(1, 7)] + [I("architectures", vary=5, more=m) for m in (0, 1)] + [I("prefixes")]
    + [I("different", k1=k, what=0, X=12, size=9, only=-2, last=6, act=6) for k in (0, 1, 2, 4)] + [I("different", k1=5, what=0, size=5, only=-2, past=0, last=6, act=6), I("different", what=0, k1=2, k2=4, k3=0, k4=0, only=-2, X=6, act=6, last=6), I("different", what=0, k1=0, k2=5, k3=1, only=-2, past=0, X=6, act=6, last=6)] + [I("different", what=w, k1=0, size=20, X=20, only=-2, past=0, act=6, last=6) for w in (0, 1, 2)]
    + [I("architectures", kind=k, vary=v, deep=4) for k in KINDS for v in (0, 1, 2, 3)] + [I("architectures", kind=k, vary=4, layer=o, deep=3) for k in (0, 4) for o in (1, 5)] + [I("architectures", vary=5, deep=2, more=m) for m in (0, 1)],
    bounds="networks of a layer of each kind and a dense layer after a training step: any single weight, learning rate, momentum, number or flag changed to any other value, also in networks of five layers, of 20 neurons and of 9 filters; pairs of architectures that differ in an activation, a layer optimizer or its value, a size, a kernel, a layer kind, an input size, the number of layers or of layer optimizers, also behind up to four layers", outside="deeper networks; weights that are NaN", assumptions=[REAL])
SPECS["C41"] = dict(harness="COPY.cpp",
    instances=[I("autosave"), I("autosave", on=0), I("autosave", named=1, times=2), I("autosave", named=1, times=2, on=0), I("autosave", problem=1), I("autosave", times=5, scores=1), I("autosave", times=4, problem=1, cost=3), I("autosaveTrain"), I("autosaveTrain", epochs=3), I("autosaveTrain", epochs=5), I("autosave", "thorough", times=5, cost=9), I("autosave", "thorough", samples=5, cost=9), I("autosave", "thorough", times=6, scores=1), I("autosaveTrain", async_=1, switches=1, replay=False, opt=["--hang-steps", "2000000"])],
    bounds="three to five evaluations of a network of one neuron, of arbitrary weight at each or with every history of three scores; trainings of two to five epochs from arbitrary weights, evaluated at each; the file named by hand or by one to three saves, in four orders", outside="larger networks (what the file restores is C30's); writing errors; more evaluations", assumptions=[REAL, "Boost archives return the values that were put in, in order (they are replaced by a sequence of typed tokens)"])
SPECS["C16"] = dict(harness="ACT.cpp",
    instances=[I("c16", act=a) for a in range(7)] + [I("c16", act=a, range=1) for a in (0, 1, 2, 3, 5, 6)] + [I("c16", act=4, range=1, facts=1)] + [I("c16", act=a, range=1, ieee=1, opt=["--ieee"]) for a in (2, 3)] + [I("c16neuron", act=a) for a in range(7)],
    bounds="the seven activation functions, at every real input; values of tanh and ReLU also at every float", outside="rounding of the derivatives", assumptions=[REAL, "for the lower bound of GELU: tanh(u/2) = (1 - exp(-u)) / (1 + exp(-u)) and exp lies above its tangent at 1.25"])
SPECS["C35"] = dict(harness="TOOLS.cpp",
    instances=[I("c35coordinates", most=5, top=500), I("c35coordinates", "thorough", most=8, top=100000, cost=9), I("c35flatten"), I("c35flatten", floats=0), I("c35flatten", "thorough", rows=4, columns=4)] + [I("c35extremes", n=n, floats=f) for n in (0, 1, 2, 4) for f in (0, 1)] + [I("c35extremes", "thorough", n=8)] + [I("c35random"), I("c35covers", reach=["first", "last", "end"]), I("c35duration", cost=3), I("c35duration", low=60000, high=600000, cost=5), I("c35duration", low=3600000, high=36000000, cost=5), I("c35pad", top=999, length=0), I("c35pad", top=999, length=5, cost=3)]
    + [I("c35duration", "thorough", low=60000, high=3600001), I("c35duration", "thorough", low=3600000, high=360000000), I("c35pad", "thorough", top=9999, length=4)]
    + [I("c35coordinates", X=x, Y=y, top=z, cost=2) for x, y, z in ((16, 16, 500), (1, 1000, 1000), (1000, 1, 1000))] + [I("c35flatten", exact=e, columns=c, floats=f) for e, c, f in ((10, 5, 1), (30, 9, 1), (5, 100, 0), (300, 3, 1), (3, 20, 0))] + [I("c35extremes", n=n, places=p, floats=f) for n, p in ((9, 9), (20, 5), (70, 3)) for f in (0, 1)] + [I("c35extremes", n=300, places=3, floats=1), I("c35pad", top=999, length=12)],
    bounds="coordinates in grids of up to 5 x 5 x 500 (any coordinate) and of 16 x 16 x 500, 1 x 1000 x 1000 and 1000 x 1 x 1000; two-dimensional data of up to 3 rows of up to 3 values and up to 300 rows or 100 columns of arbitrary values; extremes of up to 4 numbers or integers of any value, of up to 300 of which one of any value; random integers of ranges of 1 to 4 and 1000 values from six starts, random numbers between any bounds, every draw; texts of every duration in milliseconds up to ten minutes and from one to ten hours (thorough: up to 100 hours), and of every whole number up to 999 in at least 0 or 5 characters (thorough: 9999)", outside="larger grids; rounding of random numbers", assumptions=[REAL, RNG])
SPECS["C37"] = dict(harness="PIC.cpp",
    instances=[I("c37data", C=c, X=3, Y=2) for c in (1, 2, 3, 4)] + [I("c37maps", kind=k) for k in (1, 2, 3)] + [I("c37filters", conv=v) for v in (0, 1)] + [I("c37filters", conv=v, C=2, F=2, X=2, Y=2) for v in (0, 1)] + [I("c37none")]
    + [I("c37data", exact=1, C=3, X=9, Y=6), I("c37data", exact=1, C=7, X=3, Y=2), I("c37data", exact=1, X=13, Y=11), I("c37maps", exact=1, kind=1, F=17, X=2, Y=2), I("c37maps", exact=1, kind=2, F=10), I("c37maps", exact=1, kind=3, F=9, X=3, Y=3), I("c37filters", exact=1, conv=1, F=11), I("c37filters", exact=1, conv=0, F=11, Y=2), I("c37filters", exact=1, conv=1, F=18, X=2, Y=2)]
    + [I("c37data", "thorough", C=c, X=5, Y=5, cost=3) for c in (1, 3)] + [I("c37maps", "thorough", kind=k, F=10, X=4, Y=3, cost=3) for k in (1, 2, 3)] + [I("c37filters", "thorough", conv=v, F=5, X=5, Y=4, cost=5) for v in (0, 1)],
    bounds="data pictures up to 3 x 2 with 1 to 4 channels, feature map pictures of pooling, convolution and locally connected layers up to 5 maps of 3 x 2, filter pictures up to 3 filters on 3 x 3 inputs (every rectangle and kernel that fits, also 2 channels); also pictures of 9 x 6 x 3, 13 x 11, 3 x 2 x 7, 17 maps of 2 x 2, 10 of 3 x 2, 9 of 3 x 3, 11 filters on 3 x 3 and 18 on 2 x 2; one value or weight arbitrary at every place, the others fixed (thorough: 5 x 5, 10 maps)",
    outside="larger pictures; the filters of a convolution are drawn as the sum over all the positions", assumptions=[REAL])
HANG = ["--hang-steps", "300000"]
SPECS["C27"] = dict(harness="LOOP.cpp",
    instances=[I("c27"), I("c27", problem=0, m=2, n=2), I("c27", problem=1, m=2, way=2), I("c27", times=2, frequency=1, epochs=1, size=2), I("c27", flags=1, frequency=1, way=2, epochs=1), I("c27", size=5, tests=1, epochs=1, frequency=1, way=0, n=2, m=2),
               I("c27", nature=1, size=4, tests=3, way=3, opt=["--fork-rng"]), I("c27", nature=2, size=5, R=2, way=3, opt=["--fork-rng"]),
               I("c27score"), I("c27score", crit=2), I("c27score", crit=2, tests=1), I("c27score", crit=3), I("c27score", crit=3, tests=1), I("c27time"), I("c27time", frequency=1, epochs=1),
               I("c27nan", ieee=1, opt=["--ieee"], reach=["bad", "end"]), I("c27nan", ieee=1, size=2, opt=["--ieee"], reach=["bad", "end"]), I("c27nan", ieee=1, tests=2, epochs=2, opt=["--ieee"], reach=["bad", "end"]),
               I("c27", earlier=1, way=2, size=4), I("c27", earlier=1, way=2, size=3, problem=1, m=2, frequency=2), I("c27", size=12, way=2, epochs=4, least=4), I("c27", size=12, way=3, epochs=9, least=9, frequency=4), I("c27", size=40, tests=17, way=2, epochs=2, frequency=1), I("c27", size=7, way=0, n=20, m=20, epochs=1, frequency=1), I("c27", size=3, way=2, epochs=12, frequency=12, tests=1, problem=0, m=2, cost=2),
               I("c27", nature=1, size=20, tests=9, way=3, epochs=3, frequency=2), I("c27", nature=2, size=24, R=4, tests=11, way=3, epochs=3, frequency=2), I("c27", nature=2, size=12, R=1, tests=3, way=3, epochs=2, problem=1, m=2, n=2),
               I("c27throw"), I("c27throw", size=1, tests=3), I("c27refuse"), I("c27refuse", async_=1, switches=1, replay=False, opt=HANG)]
    + [I("c27", "thorough", size=4, epochs=2, cost=5), I("c27", "thorough", size=3, epochs=3, cost=5), I("c27", "thorough", flags=1, way=2, size=3, epochs=2), I("c27score", "thorough", most=4, epochs=3, cost=4), I("c27time", "thorough", size=3), I("c27time", "thorough", epochs=1, clock=1, cost=9), I("c27nan", "thorough", ieee=1, size=3, tests=2, epochs=2, opt=["--ieee"], reach=["bad", "end"])],
    bounds="2 to 5 samples shuffled in every way, every batch size, 0 to 2 epochs, evaluation every 0 to 3 epochs, one or two trainings in a row, every pattern of learned and starting samples, the shuffles of sequences and time series; 7 to 40 samples in one order, up to 12 epochs, evaluations every up to 12 epochs, trainings after a training on other data, an evaluation, a stop or changed settings; stops by accuracy or error at any bound, alone or with an epoch bound, after evaluations of outputs of two or three values; durations of 0 to 4 ms with steps of 0, 1 or 3 ms; invalid outputs of any value at any step; every misfit of sizes, batches and natures; a testing sample without label at any place",
    outside="longer trainings; the network is replaced by a layer that records what it is given and answers with any output (what networks compute is C04 to C15's)", trust_model=["liveness"], assumptions=[REAL])
SPECS["C28"] = dict(harness="LOOP.cpp",
    instances=[I("c28", op=o, frequency=f, switches=3, opt=HANG) for o in (0, 1, 2, 5, 6) for f in (0, 1)] + [I("c28", op=3, frequency=f, times=2, switches=2, replay=False, opt=HANG, cost=3) for f in (0, 1)] + [I("c28", op=4, switches=3, times=2, replay=False, opt=HANG), I("c28", op=0, switches=3, times=2, replay=False, opt=HANG), I("c28", op=2, switches=3, times=2, replay=False, opt=HANG, cost=2)]
    + [I("c28nan", op=o, frequency=f, switches=2, ieee=1, opt=["--ieee"] + HANG) for o in range(4) for f in (0, 1)]
    + [I("c28", "thorough", op=o, frequency=f, times=2, switches=4, opt=HANG, cost=5) for o in range(7) for f in (0, 1)] + [I("c28", "thorough", op=o, switches=5, quantum=20, replay=False, opt=HANG, cost=5) for o in (0, 1, 2, 5)] + [I("c28nan", "thorough", op=o, switches=4, ieee=1, replay=False, opt=["--ieee"] + HANG, cost=3) for o in range(4)],
    bounds="one or two rounds of start, then a stop, two stops, a second start, requests that are refused, a wait for an epoch, or destruction, and trainings that end by themselves at an invalid output; every interleaving of caller and training thread at the accesses to the flags and the epoch counter, and inside the network, with up to 3 preemptions (2 for the waits; thorough: 5) in addition to those at joins, sleeps and every 12 accesses",
    outside="more preemptions; the memory model (the flags are plain variables, accesses are taken as sequentially consistent)", trust_model=["liveness", "assertion"], assumptions=[REAL, "schedules of counterexamples are not imposed on a native run; native runs of the harness use the schedules they get"])
NOT_APPLICABLE = {}
SPECS["C42"] = dict(harness="LAYER.cpp",
    instances=[I("c42", dims=d, k1=k, opts=o, most=4 if d == 1 else 3, least=2 if d == 3 else 1, reach=["described", "end"]) for d in (1, 2, 3) for k in range(6) for o in {(k + d) % 5, 2 if k != 3 else 0}]
    + [I("c42", dims=2, most=4, least=3, k1=a, k2=b, opts=(a + b) % 5, neurons=2, leastNeurons=2, reach=["described", "end"]) for a in range(6) for b in range(6)]
    + [I("c42", dims=1, most=2, least=2, k1=0, act=a, opts=o, neurons=1, reach=["described", "end"]) for a in range(7) for o in range(5)]
    + [I("c42", dims=1, most=2, least=2, k1=0, epochs=1, neurons=1, steps=3, reach=["described", "end"]), I("c42", dims=1, most=30, least=30, k1=0, k2=4, neurons=12, leastNeurons=12, reach=["described", "end"])]
    + [I("c42", reach=["described", "end"], **q) for q in (dict(dims=1, most=16, least=16, k1=3, k2=3, k3=0, k4=0, vary=1, leastKernel=2, mostKernel=2, neurons=2, leastNeurons=2), dict(dims=3, most=9, least=9, k1=1, k2=2, k3=3, k4=0, k5=4, k6=5, vary=1, opts=1, leastKernel=2, mostKernel=2, neurons=3, leastNeurons=3), dict(dims=2, most=40, least=40, k1=0, neurons=40, leastNeurons=40), dict(dims=2, most=30, least=30, k1=2, k2=0, leastKernel=29, mostKernel=29, neurons=12, leastNeurons=12, vary=1, opts=3), dict(dims=1, most=2, least=2, k1=0, k2=0, k3=0, k4=4, k5=5, k6=5, vary=1, opts=2, act=4, neurons=3, leastNeurons=3), dict(dims=1, most=6, least=6, k1=0, k2=3, k3=2, k4=1, k5=3, k6=4, vary=1, opts=2, act=5, neurons=6, leastNeurons=6, mostKernel=1), dict(dims=1, most=1, least=1, k1=0, steps=12, act=6, neurons=1))],
    bounds="one layer of each kind on inputs of 1 to 3 dimensions (sizes up to 4, 3 and 3), every pair of kinds on 2D inputs of sizes 3 and 4, one or two neurons or filters, every kernel that fits, all seven activations, none, one or two layer optimizers; every value of the optimizers, learning rate and momentum; epochs 0 to 101, 0, 3 or 12 training steps; networks of up to six layers whose activations and optimizers all differ, inputs of up to 40 x 40, 40 neurons, kernels up to 29",
    outside="how a number is written (the library's streams do that, with six digits); larger or deeper networks", assumptions=[REAL, "a number written to a text stream is one text per value and format"])
