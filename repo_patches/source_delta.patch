From 757b91e57be1376cae67ecb9d05d3883e4e2c5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 01/33] fix: LocallyConnected2D places the tiles of a
 non-square output in the right row

---
 src/neural_network/layer/LocallyConnected2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LocallyConnected2D.cpp b/src/neural_network/layer/LocallyConnected2D.cpp
index 9064ada..f756674 100644
--- a/src/neural_network/layer/LocallyConnected2D.cpp
+++ b/src/neural_network/layer/LocallyConnected2D.cpp
@@ -31,7 +31,7 @@ void LocallyConnected2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = k % this->shapeOfOutput[X];
-        const int kernelPosY = k / this->shapeOfOutput[Y];
+        const int kernelPosY = k / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From e9bee60d106fa34ed7041fd6fbaee87f00226e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 02/33] fix: MaxPooling2D places the tiles of a non-square
 output in the right row

---
 src/neural_network/layer/MaxPooling2D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 53998eb..6add766 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -35,7 +35,7 @@ void MaxPooling2D::buildKernelIndexes()
     {
         this->kernelIndexes[k].resize(this->sizeOfNeuronInputs);
         const int kernelPosX = (k / maxC) % this->shapeOfOutput[X];
-        const int kernelPosY = (k / maxC) / this->shapeOfOutput[Y];
+        const int kernelPosY = (k / maxC) / this->shapeOfOutput[X];
         for (int y = 0; y < kSize; ++y)
         {
             const int inputIndexY = (kernelPosY * kSize + y) * this->shapeOfInput[X] * maxC;
-- 
2.43.0


From 3e5dca9ffe58057704535f255371b248be43ac54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:57 +0000
Subject: [PATCH 03/33] fix: MaxPooling1D pools every channel of its input

---
 src/neural_network/layer/LayerFactory.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index 0e158ae..d3460ac 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -28,7 +28,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return ((shapeOfInput[X] / kernelSize) + rest);
+    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
 }
 
 inline
-- 
2.43.0


From 2b0bd6e66ff2e795d70566e2556e2bb9f1e3ef67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:55 +0000
Subject: [PATCH 04/33] fix: SGD adds to the bias weight instead of replacing
 it

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 45971f0..59389c3 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -34,7 +34,7 @@ void StochasticGradientDescent::updateWeights(SimpleNeuron& neuron, const float
         neuron.weights[w] += deltaWeights[w];
     }
     deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] = deltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
 }
 
-- 
2.43.0


From 9c46ebc648de640fcd36242476661edd7cb6d8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 05/33] fix: a first convolution layer learns from every kernel
 position

---
 src/neural_network/layer/Convolution1D.cpp | 5 +++--
 src/neural_network/layer/Convolution2D.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/Convolution1D.cpp b/src/neural_network/layer/Convolution1D.cpp
index f5cb6d9..c67c9c8 100644
--- a/src/neural_network/layer/Convolution1D.cpp
+++ b/src/neural_network/layer/Convolution1D.cpp
@@ -126,8 +126,9 @@ vector<float> Convolution1D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution1D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (int n = 0; n < this->numberOfFilters; ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (auto& neuron : this->neurons)
+            neuron.train(inputErrors[i++]);
 }
 bool Convolution1D::operator==(const BaseLayer& layer) const
 {
diff --git a/src/neural_network/layer/Convolution2D.cpp b/src/neural_network/layer/Convolution2D.cpp
index 0492c99..c4b85c0 100644
--- a/src/neural_network/layer/Convolution2D.cpp
+++ b/src/neural_network/layer/Convolution2D.cpp
@@ -134,8 +134,9 @@ vector<float> Convolution2D::computeBackOutput(vector<float>& inputErrors)
 inline
 void Convolution2D::computeTrain(std::vector<float>& inputErrors)
 {
-    for (size_t n = 0; n < this->neurons.size(); ++n)
-        this->neurons[n].train(inputErrors[n]);
+    for (size_t k = 0, i = 0; k < this->kernelIndexes.size(); ++k)
+        for (auto& neuron : this->neurons)
+            neuron.train(inputErrors[i++]);
 }
 inline
 bool Convolution2D::operator==(const BaseLayer& layer) const
-- 
2.43.0


From f04debc701f5db7f6f09d3ae2b680f4af1b75401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 06/33] fix: the class of a training sample follows the
 shuffled order like its input and outputs

---
 src/data/CompositeForClassification.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/data/CompositeForClassification.cpp b/src/data/CompositeForClassification.cpp
index 175fd65..e3a7b28 100644
--- a/src/data/CompositeForClassification.cpp
+++ b/src/data/CompositeForClassification.cpp
@@ -20,9 +20,10 @@ int CompositeForClassification::isValid()
 
 int CompositeForClassification::getTrainingLabel(const int index)
 {
-    for (int i = 0; i < (int)this->sets[training].labels[index].size(); i++)
+    const auto& labels = this->sets[training].labels[this->sets[training].shuffledIndexes[index]];
+    for (int i = 0; i < (int)labels.size(); i++)
     {
-        if (this->sets[training].labels[index][i] == 1)
+        if (labels[i] == 1)
             return i;
     }
     throw std::runtime_error("wrong label");
-- 
2.43.0


From 1e939cd01d7378f324258712c4d2467a1cb9bf29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:21 +0000
Subject: [PATCH 07/33] fix: normalizing a feature that never varies keeps it
 inside the requested range

---
 src/data/Data.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 0ab97fd..17f37b4 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -238,14 +238,16 @@ void Data::normalize(const float min, const float max)
 
             for (size_t i = 0; i < inputsTraining.size(); i++)
             {
+                inputsTraining[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTraining[i][j] = (inputsTraining[i][j] - minValueOfVector) / difference;
+                    inputsTraining[i][j] /= difference;
                 inputsTraining[i][j] = inputsTraining[i][j] * (max - min) + min;
             }
             for (size_t i = 0; i < inputsTesting.size(); i++)
             {
+                inputsTesting[i][j] -= minValueOfVector;
                 if (difference != 0)
-                    inputsTesting[i][j] = (inputsTesting[i][j] - minValueOfVector) / difference;
+                    inputsTesting[i][j] /= difference;
                 inputsTesting[i][j] = inputsTesting[i][j] * (max - min) + min;
             }
         }
-- 
2.43.0


From 02d39a404a0feec1690cb63a440ad03dff6db11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 08/33] fix: malformed data (empty, of mixed sizes, empty
 sequences, too short series) are refused

---
 src/data/CompositeForTimeSeries.cpp |  3 +++
 src/data/Data.cpp                   | 24 +++++++++++++++++++++---
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index 22fa3b8..b45c546 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -14,6 +14,9 @@ CompositeForTimeSeries::CompositeForTimeSeries(Set sets[2], int numberOfRecurren
     if (this->numberOfRecurrences < 1)
         throw runtime_error("The number of recurrence must be >= 1 for time series.");
 
+    if (this->sets[training].size <= this->numberOfRecurrences)
+        throw runtime_error("The time series must be longer than the number of recurrences.");
+
     this->sets[training].numberOfTemporalSequence = 1;
     this->sets[testing].numberOfTemporalSequence = 1;
 
diff --git a/src/data/Data.cpp b/src/data/Data.cpp
index 17f37b4..952611f 100644
--- a/src/data/Data.cpp
+++ b/src/data/Data.cpp
@@ -99,6 +99,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
                       vector<vector<float>>& testingInputs,
                       vector<vector<float>>& testingLabels)
 {
+    if (trainingInputs.empty() || trainingLabels.empty() || testingInputs.empty() || testingLabels.empty())
+        throw runtime_error("Error 401: Wrong parameter in the creation of data");
+
     this->precision = 0.1f;
     this->separator = 0.5f;
     this->sets[training].inputs = trainingInputs;
@@ -157,6 +160,9 @@ void Data::initialize(vector<vector<float>>& trainingInputs,
 
 void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const auto& sequence) { return sequence.empty(); }))
+        throw runtime_error("A sequence of data is empty.");
+
     this->sets[set].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
                            [](size_t sum, vector2D<float>& v)
@@ -183,6 +189,9 @@ void Data::flatten(set set, vector<vector<vector<float>>>& input3D)
 
 void Data::flatten(vector<vector<vector<float>>>& input3D)
 {
+    if (ranges::any_of(input3D, [](const auto& sequence) { return sequence.empty(); }))
+        throw runtime_error("A sequence of data is empty.");
+
     this->sets[training].numberOfTemporalSequence = (int)input3D.size();
     this->sets[testing].numberOfTemporalSequence = (int)input3D.size();
     size_t size = accumulate(input3D.begin(), input3D.end(), (size_t)0,
@@ -275,11 +284,20 @@ int Data::isValid()
         return 403;
 
     if (this->sets[training].size != (int)this->sets[training].inputs.size()
-        && this->sets[training].size != (int)this->sets[training].labels.size()
-        && this->sets[testing].size != (int)this->sets[training].inputs.size()
-        && this->sets[testing].size != (int)this->sets[training].labels.size())
+        || this->sets[training].size != (int)this->sets[training].labels.size()
+        || this->sets[testing].size != (int)this->sets[testing].inputs.size()
+        || this->sets[testing].size != (int)this->sets[testing].labels.size())
         return 405;
 
+    if (this->sizeOfData < 1 || this->numberOfLabels < 1)
+        return 407;
+    for (const auto& set : this->sets)
+    {
+        if (ranges::any_of(set.inputs, [this](const auto& input) { return (int)input.size() != this->sizeOfData; })
+            || ranges::any_of(set.labels, [this](const auto& label) { return (int)label.size() != this->numberOfLabels; }))
+            return 407;
+    }
+
     int err = this->problemComposite->isValid();
     if (err != 0)
         return err;
-- 
2.43.0


From f1c9f5016e468e539ec1e7e79fc3b1a1532c7f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:07 +0000
Subject: [PATCH 09/33] fix: the steps left over by the shuffle of a time
 series start a sequence of their own

---
 src/data/CompositeForTimeSeries.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/data/CompositeForTimeSeries.cpp b/src/data/CompositeForTimeSeries.cpp
index b45c546..93156ab 100644
--- a/src/data/CompositeForTimeSeries.cpp
+++ b/src/data/CompositeForTimeSeries.cpp
@@ -75,6 +75,14 @@ void CompositeForTimeSeries::shuffle()
             iForIndex ++;
         }
     }
+
+    const int rest = iForIndex * (this->numberOfRecurrences + 1) + offset;
+    for (int i = rest; i < this->sets[training].size; ++i)
+    {
+        this->sets[training].shuffledIndexes[i] = i;
+        this->sets[training].needToTrainOnData[i] = false;
+        this->sets[training].areFirstDataOfTemporalSequence[i] = i == rest;
+    }
     this->offset = (this->offset+1) % (this->numberOfRecurrences+1);
 }
 
-- 
2.43.0


From bd9de3951e7a8cbe14ace40a55e5a0f21d821672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 10/33] fix: a network ending with a convolution or pooling
 layer has one output per element of its shape

---
 src/neural_network/NeuralNetwork.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index b4ba4f1..da47128 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -14,7 +14,7 @@ NeuralNetwork::NeuralNetwork(vector<LayerModel>& architecture, NeuralNetworkOpti
 {
     this->optimizer = NeuralNetworkOptimizerFactory::build(optimizer);
     LayerFactory::build(this->layers, architecture, this->optimizer);
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
@@ -26,7 +26,7 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->layers.back()->getNumberOfNeurons());
+    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
@@ -100,7 +100,7 @@ void NeuralNetwork::backpropagationAlgorithm(const vector<float>& inputs, const
 inline
 vector<float> NeuralNetwork::calculateError(const vector<float>& outputs, const vector<float>& desired) const
 {
-    vector<float> errors(this->layers.back()->getNumberOfNeurons(), 0);
+    vector<float> errors(outputs.size(), 0);
     for (size_t n = 0; n < errors.size(); ++n)
     {
         errors[n] = 2 * (desired[n] - outputs[n]);
@@ -144,7 +144,10 @@ int NeuralNetwork::getNumberOfInputs() const
 
 int NeuralNetwork::getNumberOfOutputs() const
 {
-    return this->layers.back()->getNumberOfNeurons();
+    int numberOfOutputs = 1;
+    for (int size : this->layers.back()->getShapeOfOutput())
+        numberOfOutputs *= size;
+    return numberOfOutputs;
 }
 
 int NeuralNetwork::getNumberOfNeurons() const
-- 
2.43.0


From d81baff8cbd02021d4d3169cd6046b4113f61ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 11/33] fix: the best F1 score and root mean squared error are
 kept

---
 src/neural_network/StatisticAnalysis.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 357d477..5fa7ef0 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -62,15 +62,15 @@ void StatisticAnalysis::stopTesting()
 
     this->f1ScoreIsBetterThanMax = newF1Score > this->f1ScoreMax;
     if (this->f1ScoreIsBetterThanMax)
-        this->f1Score = newF1Score;
+        this->f1ScoreMax = newF1Score;
 
     this->meanAbsoluteErrorIsBetterThanMin = newMeanAbsoluteError < this->meanAbsoluteErrorMin || this->meanAbsoluteErrorMin < 0;
     if (this->meanAbsoluteErrorIsBetterThanMin)
         this->meanAbsoluteErrorMin = newMeanAbsoluteError;
 
-    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->meanAbsoluteErrorMin < 0;
+    this->rootMeanSquaredErrorIsBetterThanMin = newRootMeanSquaredError < this->rootMeanSquaredErrorMin || this->rootMeanSquaredErrorMin < 0;
     if (this->rootMeanSquaredErrorIsBetterThanMin)
-        this->rootMeanSquaredErrorMin = newMeanAbsoluteError;
+        this->rootMeanSquaredErrorMin = newRootMeanSquaredError;
 
     this->globalClusteringRate = newGlobalClusteringRate;
     this->weightedClusteringRate = newWeightedClusteringRate;
-- 
2.43.0


From 0f74eb0a446367f95eaba2871286f32b1e7037fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 12/33] fix: the root mean squared error is computed from the
 squared errors

---
 include/snn/neural_network/StatisticAnalysis.hpp | 8 ++++----
 src/neural_network/StatisticAnalysis.cpp         | 8 +++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/snn/neural_network/StatisticAnalysis.hpp b/include/snn/neural_network/StatisticAnalysis.hpp
index 4a77a70..ec37dcd 100644
--- a/include/snn/neural_network/StatisticAnalysis.hpp
+++ b/include/snn/neural_network/StatisticAnalysis.hpp
@@ -11,11 +11,9 @@ namespace snn::internal
         float falsePositive{};
         float falseNegative{};
         float totalError{};
+        float totalSquaredError{};
 
-        bool operator==(const binaryClassification&) const
-        {
-            return true;
-        };
+        bool operator==(const binaryClassification&) const = default;
 
         template <typename Archive>
         void serialize(Archive& ar, unsigned)
@@ -24,6 +22,8 @@ namespace snn::internal
             ar & trueNegative;
             ar & falsePositive;
             ar & falseNegative;
+            ar & totalError;
+            ar & totalSquaredError;
         }
     };
 
diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index 5fa7ef0..ed8caf5 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -19,6 +19,7 @@ void StatisticAnalysis::setResultsAsNan()
         c.falsePositive = NAN;
         c.falseNegative = NAN;
         c.totalError = NAN;
+        c.totalSquaredError = NAN;
     }
     numberOfDataWellClassified = NAN;
     numberOfDataMisclassified = NAN;
@@ -39,6 +40,7 @@ void StatisticAnalysis::startTesting()
         c.falsePositive = 0;
         c.falseNegative = 0;
         c.totalError = 0;
+        c.totalSquaredError = 0;
     }
     numberOfDataWellClassified = 0;
     numberOfDataMisclassified = 0;
@@ -106,6 +108,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
         }
 
         clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -140,6 +143,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
         }
 
         clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
         numberOfDataWellClassified++;
@@ -162,6 +166,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         if (i == classNumber)
         {
             clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
             {
@@ -175,6 +180,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         else
         {
             clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalSquaredError += outputs[i] * outputs[i];
 
             if (outputs[i] > separator)
             {
@@ -238,7 +244,7 @@ float StatisticAnalysis::computeRootMeanSquaredError() const
     float totalError = 0;
     for (const auto& c : clusters)
     {
-        totalError += c.totalError * c.totalError;
+        totalError += c.totalSquaredError;
     }
     const float meanSquaredError = totalError / (numberOfDataWellClassified + numberOfDataMisclassified);
     return sqrt(meanSquaredError);
-- 
2.43.0


From 9aef9f25db04890aacd264a1cd4e5577b4ed32a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 13/33] fix: the predicted class is the largest output even
 when all outputs are below -2

---
 src/neural_network/StatisticAnalysis.cpp            | 4 ++--
 src/neural_network/StraightforwardNeuralNetwork.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index ed8caf5..b558892 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -153,8 +153,8 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
 
 void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>& outputs, int classNumber, float separator)
 {
-    float maxOutputValue = -2;
-    int maxOutputIndex = -1;
+    float maxOutputValue = outputs[0];
+    int maxOutputIndex = 0;
 
     for (int i = 0; i < (int)clusters.size(); i++)
     {
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index d9e7f71..44ec932 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -50,8 +50,8 @@ vector<float> StraightforwardNeuralNetwork::computeOutput(const vector<float>& i
 int StraightforwardNeuralNetwork::computeCluster(const vector<float>& inputs, bool temporalReset)
 {
     const auto outputs = this->output(inputs, temporalReset);
-    float maxOutputValue = -2;
-    int maxOutputIndex = -1;
+    float maxOutputValue = outputs[0];
+    int maxOutputIndex = 0;
     for (int i = 0; i < (int)outputs.size(); i++)
     {
         if (maxOutputValue < outputs[i])
-- 
2.43.0


From fd7110035800eb903c59cca76370f13b13b1ffd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:01 +0000
Subject: [PATCH 14/33] fix: criteria on the mean absolute error and bounds of
 zero survive the combination of wait criteria

---
 src/neural_network/Wait.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 36d7eaf..802e89a 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -14,19 +14,19 @@ Wait& Wait::operator||(const Wait& wait)
 
     this->op = waitOperator::orOp;
 
-    if (this->epochs > 0 && wait.epochs > 0)
+    if (this->epochs >= 0 && wait.epochs >= 0)
         this->epochs = min(this->epochs, wait.epochs);
     else
         this->epochs = max(this->epochs, wait.epochs);
 
-    if (this->accuracy > 0 && wait.accuracy > 0)
+    if (this->accuracy >= 0 && wait.accuracy >= 0)
         this->accuracy = min(this->accuracy, wait.accuracy);
     else
         this->accuracy = max(this->accuracy, wait.accuracy);
 
     this->mae = max(this->mae, wait.mae);
 
-    if (this->duration > 0 && wait.duration > 0)
+    if (this->duration >= 0 && wait.duration >= 0)
         this->duration = min(this->duration, wait.duration);
     else
         this->duration = max(this->duration, wait.duration);
@@ -44,12 +44,11 @@ Wait& Wait::operator&&(const Wait& wait)
     this->epochs = max(this->epochs, wait.epochs);
     this->accuracy = max(this->accuracy, wait.accuracy);
 
-    if (this->mae > 0 && wait.duration > 0)
+    if (this->mae >= 0 && wait.mae >= 0)
         this->mae = min(this->mae, wait.mae);
     else
         this->mae = max(this->mae, wait.mae);
 
-    this->mae = min(this->mae, wait.mae);
     this->duration = max(this->duration, wait.duration);
 
     return *this;
-- 
2.43.0


From 9524fbb8c67bce5c6c57bac0243b8ba8d15aec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 15/33] fix: the derivative of the improved sigmoid includes
 its linear term and never overflows

---
 .../layer/neuron/activation_function/ImprovedSigmoid.hpp       | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
index bc195ce..6f6393f 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/ImprovedSigmoid.hpp
@@ -26,7 +26,8 @@ namespace snn::internal
 
         float derivative(const float x) const override
         {
-            return std::exp(x) / powf((std::exp(x) + 1.0f), 2);
+            const float sigmoid = 1.0f / (1.0f + std::exp(-x));
+            return sigmoid * (1.0f - sigmoid) + 0.05f;
         }
     };
 }
\ No newline at end of file
-- 
2.43.0


From a6285df19755bb73a7e71b85917662639ad5a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 16/33] fix: GELU declares the range of values it really has

---
 .../neural_network/layer/neuron/activation_function/GELU.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
index c18f9f9..fef4a8c 100644
--- a/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
+++ b/include/snn/neural_network/layer/neuron/activation_function/GELU.hpp
@@ -15,7 +15,7 @@ namespace snn::internal
 
     public:
         GaussianErrorLinearUnit()
-            : ActivationFunction(0, std::numeric_limits<float>::infinity())
+            : ActivationFunction(-0.17f, std::numeric_limits<float>::infinity())
         {
         }
 
-- 
2.43.0


From b760c5d3c330a921e773c6a04818d15d41082d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 17/33] fix: roughenZ, the extremes of a single value and
 random integers of negative ranges

---
 include/snn/tools/Tools.hpp | 6 +++---
 src/tools/Tools.cpp         | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 11db1d5..b1d5358 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -68,7 +68,7 @@ namespace snn::tools
     template <typename T>
     static T getMinValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T minValue = vector[0];
 
@@ -87,7 +87,7 @@ namespace snn::tools
     template <typename T>
     static T getMaxValue(std::vector<T> vector)
     {
-        if (vector.size() > 1)
+        if (!vector.empty())
         {
             T maxValue = vector[0];
 
@@ -195,6 +195,6 @@ namespace snn::tools
 
     constexpr int roughenZ(const int index, const int maxX, const int maxY)
     {
-        return index % (maxX * maxY);
+        return index / (maxX * maxY);
     }
 }
diff --git a/src/tools/Tools.cpp b/src/tools/Tools.cpp
index 6332d1d..2391608 100644
--- a/src/tools/Tools.cpp
+++ b/src/tools/Tools.cpp
@@ -1,4 +1,5 @@
 #include <algorithm>
+#include <cmath>
 #include "Tools.hpp"
 
 namespace snn::tools
@@ -6,7 +7,7 @@ namespace snn::tools
     int randomBetween(const int min, const int max) // [min; max[
     {
         std::uniform_real_distribution<> dist(min, max);
-        return static_cast<int>(dist(rng));
+        return static_cast<int>(std::floor(dist(rng)));
     }
 
     float randomBetween(const float min, const float max)
-- 
2.43.0


From 04b4ca75f1fd65a7a947af713449ca17989018a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 18/33] fix: dropout applies to every output of a convolution
 layer

---
 src/neural_network/optimizer/Dropout.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/optimizer/Dropout.cpp b/src/neural_network/optimizer/Dropout.cpp
index 4e41804..a36fedb 100644
--- a/src/neural_network/optimizer/Dropout.cpp
+++ b/src/neural_network/optimizer/Dropout.cpp
@@ -36,10 +36,13 @@ unique_ptr<LayerOptimizer> Dropout::clone(const BaseLayer* newLayer) const
 
 void Dropout::applyAfterOutputForTraining(std::vector<float>& outputs, bool temporalReset)
 {
-    if (temporalReset)
+    if (temporalReset || this->presenceProbabilities.size() != outputs.size())
+    {
+        this->presenceProbabilities.resize(outputs.size());
         std::generate(this->presenceProbabilities.begin(),
                       this->presenceProbabilities.end(),
                       [&] { return dist(tools::rng) >= this->value; });
+    }
     ranges::transform(outputs, this->presenceProbabilities, outputs.begin(), multiplies<float>());
 }
 
-- 
2.43.0


From 3b849d74fe69460a5b8dc8cbbef951d94e5f108b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 19/33] fix: layers with different numbers of optimizers can be
 compared and are not equal

---
 include/snn/neural_network/layer/Layer.tpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/snn/neural_network/layer/Layer.tpp b/include/snn/neural_network/layer/Layer.tpp
index 8098297..943aba8 100644
--- a/include/snn/neural_network/layer/Layer.tpp
+++ b/include/snn/neural_network/layer/Layer.tpp
@@ -134,6 +134,7 @@ bool Layer<N>::operator==(const BaseLayer& layer) const
         return typeid(*this).hash_code() == typeid(layer).hash_code()
             && this->numberOfInputs == l.numberOfInputs
             && this->neurons == l.neurons
+            && this->optimizers.size() == l.optimizers.size()
             && [this, &l]()
             {
                 for (size_t o = 0; o < this->optimizers.size(); ++o)
-- 
2.43.0


From 9f895b27354aa6e4815d6d3f5712e659f17afde2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 20/33] fix: only an idle network can be copied, and the copy
 keeps the results of the last evaluation

---
 src/neural_network/NeuralNetwork.cpp                | 1 -
 src/neural_network/StraightforwardNeuralNetwork.cpp | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index da47128..243dccd 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -26,7 +26,6 @@ NeuralNetwork::NeuralNetwork(const NeuralNetwork& neuralNetwork)
     this->layers.reserve(neuralNetwork.layers.size());
     for (const auto& layer : neuralNetwork.layers)
         this->layers.push_back(layer->clone(this->optimizer));
-    this->StatisticAnalysis::initialize(this->getNumberOfOutputs());
 }
 
 
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 44ec932..de2f3e9 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -33,7 +33,7 @@ StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(vector<LayerModel> ar
 StraightforwardNeuralNetwork::StraightforwardNeuralNetwork(const StraightforwardNeuralNetwork& neuralNetwork)
     : NeuralNetwork(neuralNetwork)
 {
-    if (!this->isIdle)
+    if (!neuralNetwork.isIdle)
         throw runtime_error("StraightforwardNeuralNetwork must be idle to be copy");
     this->autoSaveFilePath = neuralNetwork.autoSaveFilePath;
     this->autoSaveWhenBetter = neuralNetwork.autoSaveWhenBetter;
-- 
2.43.0


From 0c3d015f05e2b882a49232f9745a981bb7a30b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 21/33] fix: a stop requested before the training thread has
 started is not lost

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index de2f3e9..a3da7e6 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -73,6 +73,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->validData(data, batchSize);
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
+    this->isIdle = false;
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
@@ -91,7 +92,6 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
     wait.startClock();
     this->epoch = 0;
     this->numberOfTrainingsBetweenTwoEvaluations = data.sets[training].size;
-    this->wantToStopTraining = false;
     this->isIdle = false;
     if (evaluationFrequency > 0)
         this->evaluate(data, &wait);
@@ -190,6 +190,7 @@ void StraightforwardNeuralNetwork::stopTrainingAsync()
         this->thread.join();
         log<complete>("Thread closed");
     }
+    this->wantToStopTraining = false;
 }
 
 void StraightforwardNeuralNetwork::resetTrainingValues()
-- 
2.43.0


From c75e70d04fde0bbf12164b93ad4efd086addedcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:39 +0000
Subject: [PATCH 22/33] fix: a network auto-saved during its training is idle
 once loaded

---
 include/snn/neural_network/StraightforwardNeuralNetwork.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
index e5467e9..5a44963 100644
--- a/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
+++ b/include/snn/neural_network/StraightforwardNeuralNetwork.hpp
@@ -134,5 +134,11 @@ namespace snn
         ar & this->isIdle;
         ar & this->epoch;
         ar & this->numberOfTrainingsBetweenTwoEvaluations;
+        if constexpr (Archive::is_loading::value)
+        {
+            // a network saved by the auto save during its training is not training once loaded
+            this->wantToStopTraining = false;
+            this->isIdle = true;
+        }
     }
 }
-- 
2.43.0


From 016cc36e7f5d97bf9a55d84f2f7cb88b81a76166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 23/33] fix: invalid outputs are detected with -ffast-math and
 always turn the scores into NaN

---
 include/snn/tools/Tools.hpp                         | 9 +++++++++
 src/neural_network/NeuralNetwork.cpp                | 4 ++--
 src/neural_network/StraightforwardNeuralNetwork.cpp | 7 +++++++
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index b1d5358..9f9e006 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -1,4 +1,6 @@
 #pragma once
+#include <bit>
+#include <cstdint>
 #include <format>
 #include <chrono>
 #include <iostream>
@@ -44,6 +46,13 @@ namespace snn::tools
     float randomBetween(const float min, const float max);
     std::vector<float> randomVector(const float min, const float max, const size_t size);
 
+    // neither NaN nor infinite; fpclassify and isfinite are optimized away by -ffast-math
+    inline
+    bool isFinite(const float value)
+    {
+        return (std::bit_cast<uint32_t>(value) & 0x7f800000u) != 0x7f800000u;
+    }
+
     inline
     std::string toString(std::chrono::milliseconds duration)
     {
diff --git a/src/neural_network/NeuralNetwork.cpp b/src/neural_network/NeuralNetwork.cpp
index 243dccd..5ebd8a4 100644
--- a/src/neural_network/NeuralNetwork.cpp
+++ b/src/neural_network/NeuralNetwork.cpp
@@ -63,7 +63,7 @@ vector<float> NeuralNetwork::output(const vector<float>& inputs, bool temporalRe
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->output(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
@@ -76,7 +76,7 @@ std::vector<float> NeuralNetwork::outputForTraining(const std::vector<float>& in
     for (size_t l = 1; l < this->layers.size(); ++l)
         outputs = layers[l]->outputForTraining(outputs, temporalReset);
 
-    if (ranges::any_of(outputs, [](const float& v) { return fpclassify(v) != FP_NORMAL && fpclassify(v) != FP_ZERO; }))
+    if (ranges::any_of(outputs, [](const float& v) { return !tools::isFinite(v); }))
         this->outputNan = true;
 
     return outputs;
diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index a3da7e6..2649a2b 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -118,6 +118,8 @@ void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int ba
         if (evaluationFrequency > 0 && this->epoch % evaluationFrequency == 0)
             this->evaluate(data, &wait);
     }
+    if (this->hasNan())
+        this->setResultsAsNan();
     this->resetTrainingValues();
     log<minimal>("Stop training");
 }
@@ -140,6 +142,11 @@ void StraightforwardNeuralNetwork::evaluate(const Data& data, Wait* wait)
             this->output(data.getTestingData(this->index), data.isFirstTestingDataOfTemporalSequence(this->index));
         this->logInProgress<minimal>(*wait, data, testing);
     }
+    if (this->hasNan())
+    {
+        this->setResultsAsNan();
+        return;
+    }
     this->stopTesting();
     if (this->autoSaveWhenBetter && this->globalClusteringRateIsBetterThanMax)
     {
-- 
2.43.0


From cf0ce7bc93b205a12a20b435734627e625701792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:36 +0000
Subject: [PATCH 24/33] fix: MaxPooling refuses any inconsistency of its sizes

---
 src/neural_network/layer/MaxPooling1D.cpp | 2 +-
 src/neural_network/layer/MaxPooling2D.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/layer/MaxPooling1D.cpp b/src/neural_network/layer/MaxPooling1D.cpp
index 1c6b56f..4a6a9a7 100644
--- a/src/neural_network/layer/MaxPooling1D.cpp
+++ b/src/neural_network/layer/MaxPooling1D.cpp
@@ -57,7 +57,7 @@ unique_ptr<BaseLayer> MaxPooling1D::clone(shared_ptr<NeuralNetworkOptimizer>) co
 int MaxPooling1D::isValid() const
 {
     if (this->maxValueIndexes.size() != static_cast<size_t>(this->numberOfOutputs)
-        && this->numberOfKernels != this->numberOfOutputs)
+        || this->numberOfKernels != this->numberOfOutputs)
         return 204;
     return 0;
 }
diff --git a/src/neural_network/layer/MaxPooling2D.cpp b/src/neural_network/layer/MaxPooling2D.cpp
index 6add766..c655213 100644
--- a/src/neural_network/layer/MaxPooling2D.cpp
+++ b/src/neural_network/layer/MaxPooling2D.cpp
@@ -67,7 +67,7 @@ unique_ptr<BaseLayer> MaxPooling2D::clone(shared_ptr<NeuralNetworkOptimizer>) co
 int MaxPooling2D::isValid() const
 {
     if (this->maxValueIndexes.size() != static_cast<size_t>(this->numberOfOutputs)
-        && this->numberOfKernels != this->numberOfOutputs)
+        || this->numberOfKernels != this->numberOfOutputs)
         return 204;
     return 0;
 }
-- 
2.43.0


From 6fbe8e49e905bb54a69a6bece8f6c7a3706080bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:51 +0000
Subject: [PATCH 25/33] fix: impossible sizes of layers are refused instead of
 overflowing or crashing

---
 src/neural_network/layer/LayerFactory.cpp | 73 ++++++++++++++++-------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/src/neural_network/layer/LayerFactory.cpp b/src/neural_network/layer/LayerFactory.cpp
index d3460ac..8e937b0 100644
--- a/src/neural_network/layer/LayerFactory.cpp
+++ b/src/neural_network/layer/LayerFactory.cpp
@@ -1,3 +1,5 @@
+#include <cstdint>
+#include <limits>
 #include "LayerFactory.hpp"
 #include "ExtendedExpection.hpp"
 #include "FullyConnected.hpp"
@@ -15,12 +17,37 @@ using namespace snn;
 using namespace internal;
 
 inline
-int computeNumberOfInputs(const vector<int>& shapeOfInput)
+int computeNumberOfInputs(const vector<int>& shapeOfInput, const int maxNumberOfInputs)
 {
-    int numberOfInputs = 1;
+    int64_t numberOfInputs = 1;
     for (auto size : shapeOfInput)
+    {
+        if (size <= 0)
+            throw InvalidArchitectureException("Input of layer has size of 0.");
         numberOfInputs *= size;
-    return numberOfInputs;
+        if (numberOfInputs > maxNumberOfInputs)
+            throw InvalidArchitectureException("Layer is too big.");
+    }
+    return static_cast<int>(numberOfInputs);
+}
+
+inline
+int checkNumberOfOutputs(const int64_t numberOfOutputs)
+{
+    if (numberOfOutputs <= 0)
+        throw InvalidArchitectureException("Output of layer has size of 0.");
+    if (numberOfOutputs > numeric_limits<int>::max())
+        throw InvalidArchitectureException("Layer is too big.");
+    return static_cast<int>(numberOfOutputs);
+}
+
+inline
+void checkNumberOfNeurons(const int numberOfNeurons)
+{
+    if (numberOfNeurons <= 0)
+        throw InvalidArchitectureException("Layer has no neuron.");
+    if (numberOfNeurons > 1000000)
+        throw InvalidArchitectureException("Layer is too big.");
 }
 
 inline
@@ -28,7 +55,7 @@ int computeNumberOfOutputsForMaxPooling1D(int kernelSize, const vector<int>& sha
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + rest);
+    return checkNumberOfOutputs(static_cast<int64_t>(shapeOfInput[C]) * ((shapeOfInput[X] / kernelSize) + rest));
 }
 
 inline
@@ -37,7 +64,7 @@ int computeNumberOfOutputsForMaxPooling2D(int kernelSize, const vector<int>& sha
     const int restX = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
     const int restY = shapeOfInput[Y] % kernelSize == 0 ? 0 : 1;
 
-    return shapeOfInput[C] * ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] / kernelSize) + restY);
+    return checkNumberOfOutputs(static_cast<int64_t>(shapeOfInput[C]) * ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] / kernelSize) + restY));
 }
 
 inline
@@ -47,7 +74,7 @@ int computeNumberOfNeuronsForLocallyConnected1D(int numberOfLocallyConnected,
 {
     const int rest = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
 
-    return numberOfLocallyConnected * ((shapeOfInput[X] / kernelSize) + rest);
+    return checkNumberOfOutputs(static_cast<int64_t>(numberOfLocallyConnected) * ((shapeOfInput[X] / kernelSize) + rest));
 }
 
 inline
@@ -58,8 +85,8 @@ int computeNumberOfNeuronsForLocallyConnected2D(int numberOfLocallyConnected,
     const int restX = shapeOfInput[X] % kernelSize == 0 ? 0 : 1;
     const int restY = shapeOfInput[Y] % kernelSize == 0 ? 0 : 1;
 
-    return numberOfLocallyConnected * ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] /
-        kernelSize) + restY);
+    return checkNumberOfOutputs(static_cast<int64_t>(numberOfLocallyConnected) * ((shapeOfInput[X] / kernelSize) + restX) * ((shapeOfInput[Y] /
+        kernelSize) + restY));
 }
 
 inline
@@ -67,7 +94,7 @@ int computeNumberOfKernelsForConvolution1D(int numberOfConvolution,
                                            int kernelSize,
                                            const vector<int>& shapeOfInput)
 {
-    return numberOfConvolution * (shapeOfInput[X] - (kernelSize - 1));
+    return checkNumberOfOutputs(static_cast<int64_t>(numberOfConvolution) * (shapeOfInput[X] - (kernelSize - 1)));
 }
 
 inline
@@ -75,8 +102,8 @@ int computeNumberOfKernelsForConvolution2D(int numberOfConvolution,
                                            int kernelSize,
                                            const vector<int>& shapeOfInput)
 {
-    return numberOfConvolution * (shapeOfInput[X] - (kernelSize - 1)) * (shapeOfInput[Y] - (
-        kernelSize - 1));
+    return checkNumberOfOutputs(static_cast<int64_t>(numberOfConvolution) * (shapeOfInput[X] - (kernelSize - 1)) * (shapeOfInput[Y] - (
+        kernelSize - 1)));
 }
 
 
@@ -85,20 +112,18 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
                                           vector<int>& shapeOfInput,
                                           shared_ptr<NeuralNetworkOptimizer> optimizer)
 {
-    model.numberOfInputs = computeNumberOfInputs(shapeOfInput);
-
     if (shapeOfInput.empty())
         throw InvalidArchitectureException("Input of layer has size of 0.");
 
-    if (model.numberOfInputs > 1000000)
-        throw InvalidArchitectureException("Layer is too big.");
+    model.numberOfInputs = computeNumberOfInputs(shapeOfInput, 1000000);
+
+    if ((model.type == maxPooling || model.type == locallyConnected || model.type == convolution) && model.kernelSize <= 0)
+        throw InvalidArchitectureException("Kernel has size of 0.");
 
     switch (model.type)
     {
     case fullyConnected:
-        if (model.numberOfInputs <= 0)
-            throw InvalidArchitectureException("Input of layer has size of 0.");
-
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 1; // for the bias
@@ -106,6 +131,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<FullyConnected>(model, optimizer);
 
     case recurrence:
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 2;
@@ -113,6 +139,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
         return make_unique<Recurrence>(model, optimizer);
 
     case gruLayer:
+        checkNumberOfNeurons(model.numberOfNeurons);
         model.neuron.numberOfInputs = model.numberOfInputs;
         model.neuron.batchSize = 1;
         model.neuron.numberOfWeights = model.neuron.numberOfInputs + 2;
@@ -169,6 +196,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
                 model.numberOfFilters,
                 model.kernelSize,
                 model.shapeOfInput);
+            checkNumberOfNeurons(model.numberOfNeurons);
             model.numberOfKernels = model.numberOfNeurons;
             model.numberOfKernelsPerFilter = model.numberOfKernels / model.numberOfFilters;
             model.neuron.numberOfInputs = model.kernelSize * model.shapeOfInput[C];
@@ -186,6 +214,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
             }
             model.shapeOfInput = shapeOfInput;
             model.numberOfNeurons = computeNumberOfNeuronsForLocallyConnected2D(model.numberOfFilters, model.kernelSize, model.shapeOfInput);
+            checkNumberOfNeurons(model.numberOfNeurons);
             model.numberOfKernels = model.numberOfNeurons;
             model.numberOfKernelsPerFilter = model.numberOfKernels / model.numberOfFilters;
             model.neuron.numberOfInputs = model.kernelSize * model.kernelSize * model.shapeOfInput[C];
@@ -210,6 +239,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
                 throw InvalidArchitectureException("Convolution kernel is too big.");
             }
             model.shapeOfInput = shapeOfInput;
+            checkNumberOfNeurons(model.numberOfFilters);
             model.numberOfNeurons = model.numberOfFilters;
             model.numberOfKernels = computeNumberOfKernelsForConvolution1D(model.numberOfFilters, model.kernelSize, model.shapeOfInput);
             model.numberOfKernelsPerFilter = model.numberOfKernels / model.numberOfFilters;
@@ -227,6 +257,7 @@ unique_ptr<BaseLayer> LayerFactory::build(LayerModel& model,
                 throw InvalidArchitectureException("Convolution kernel is too big.");
             }
             model.shapeOfInput = shapeOfInput;
+            checkNumberOfNeurons(model.numberOfFilters);
             model.numberOfNeurons = model.numberOfFilters;
             model.numberOfKernels = computeNumberOfKernelsForConvolution2D(model.numberOfFilters, model.kernelSize, model.shapeOfInput);
             model.numberOfKernelsPerFilter = model.numberOfKernels / model.numberOfFilters;
@@ -262,11 +293,7 @@ void LayerFactory::build(vector<unique_ptr<BaseLayer>>& layers,
     if (models.size() < 2)
         throw InvalidArchitectureException("Neural Network must have at least 1 layer.");
 
-    int numberOfInputs = 1;
-    for (auto size : models[0].shapeOfInput)
-        numberOfInputs *= size;
-    if (numberOfInputs > 2073600)
-        throw InvalidArchitectureException("Layer is too big.");
+    computeNumberOfInputs(models[0].shapeOfInput, 2073600);
 
     auto& currentShapeOfInput = models[0].shapeOfInput;
     for (size_t i = 1; i < models.size(); ++i)
-- 
2.43.0


From 4ce383272213fb3d1cfb172185582b379fcbef3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 26/33] fix: pictures of filters, feature maps and data stay
 inside the data they show

---
 .../NeuralNetworkVisualization.cpp            | 37 ++++++++++++-------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/neural_network/NeuralNetworkVisualization.cpp b/src/neural_network/NeuralNetworkVisualization.cpp
index 4f45f5e..5f7345e 100644
--- a/src/neural_network/NeuralNetworkVisualization.cpp
+++ b/src/neural_network/NeuralNetworkVisualization.cpp
@@ -6,12 +6,18 @@ using namespace snn;
 using namespace internal;
 using namespace tools;
 
+// intensity of a value between 0 and 1, values outside are saturated
+static unsigned char toColor(const float value)
+{
+    return static_cast<unsigned char>(clamp(value * 255.0f, 0.0f, 255.0f));
+}
+
 void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, const string& filePath)
 {
     if (filterLayer == nullptr)
         return;
     auto shape = filterLayer->getShapeOfInput();
-    if (shape.size() != 3)
+    if (shape.size() != 3 || filterLayer->getNumberOfNeurons() == 0)
         return;
     auto numberOfFilters = filterLayer->getShapeOfOutput()[C];
     float length = sqrt((float)numberOfFilters);
@@ -52,20 +58,25 @@ std::vector<float> NeuralNetworkVisualization::getWeights(FilterLayer* filterLay
     auto outputShape = filterLayer->getShapeOfOutput();
     auto filterSize = filterLayer->getKernelSize();
     auto neuronByFilter = outputShape[X] * outputShape[Y];
+    // the neurons of a convolution are shared by all the positions of their filter, and the positions overlap
+    const bool isConvolution = filterLayer->getNumberOfNeurons() == outputShape[C];
+    const int step = isConvolution ? 1 : filterSize;
     vector<float> weights(filterLayer->getNumberOfInputs(), 0.0f);
     for (int n = 0; n < neuronByFilter; ++n)
     {
-        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(n * (filterNumber + 1)))->getWeights();
-        const int neuronPositionX = roughenX(n, outputShape[X], outputShape[Y]);
-        const int neuronPositionY = roughenY(n, outputShape[X], outputShape[Y]);
+        auto neuronWeight = static_cast<SimpleNeuron*>(filterLayer->getNeuron(isConvolution ? filterNumber : n * outputShape[C] + filterNumber))->getWeights();
+        const int neuronPositionX = roughenX(n, outputShape[X]) * step;
+        const int neuronPositionY = roughenY(n, outputShape[X]) * step;
 
         for (int y = 0; y < filterSize; ++y)
         {
             for (int x = 0; x < filterSize; ++x)
             {
+                if (neuronPositionX + x >= inputShape[X] || neuronPositionY + y >= inputShape[Y])
+                    continue;
                 const int i = flatten(neuronPositionX + x, neuronPositionY + y, inputShape[X]);
-                const int j = flatten(x, y, filterSize);
-                weights[i] += neuronWeight[j];
+                for (int c = 0; c < inputShape[C]; ++c)
+                    weights[i] += neuronWeight[flatten(x, y, filterSize) * inputShape[C] + c];
             }
         }
     }
@@ -99,7 +110,7 @@ void NeuralNetworkVisualization::saveAsBitmap(FilterLayer* filterLayer, std::vec
                 {
                     if (y * filterX + x < shape[C])
                     {
-                        const auto color = static_cast<unsigned char>(outputs[index++] * 255.0f);
+                        const auto color = toColor(outputs[index++]);
                         image.set_pixel(x * (shape[X] + 1) + i, y * (shape[Y] + 1) + j, color, color, color);
                     }
                 }
@@ -115,22 +126,22 @@ void NeuralNetworkVisualization::saveAsBitmap(std::vector<float> inputs, std::ve
         return;
     bitmap_image image(shapeOfInput[X], shapeOfInput[Y]);
     image.set_all_channels(0, 0, 0);
-    int index = 0;
     for (int y = 0; y < shapeOfInput[Y]; ++y)
     {
         for (int x = 0; x < shapeOfInput[X]; ++x)
         {
+            const int index = flatten(x, y, shapeOfInput[X]) * shapeOfInput[C];
             if (shapeOfInput[C] == 1)
             {
-                const auto color = static_cast<unsigned char>(inputs[index++] * 255.0f);
+                const auto color = toColor(inputs[index]);
                 image.set_pixel(x, y, color, color, color);
             }
             else
             {
-                const auto red = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto blue = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                const auto green = static_cast<unsigned char>(inputs[index++] * 255.0f);
-                image.set_pixel(x, y, red, blue, green);
+                const auto red = toColor(inputs[index]);
+                const auto green = toColor(inputs[index + 1]);
+                const auto blue = shapeOfInput[C] > 2 ? toColor(inputs[index + 2]) : static_cast<unsigned char>(0);
+                image.set_pixel(x, y, red, green, blue);
             }
         }
     }
-- 
2.43.0


From 260f587a17d13f789a5b751fe331342abc96562b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:05 +0000
Subject: [PATCH 27/33] fix: a criterion that mixes || and && is refused
 whichever operand holds the other operator

---
 src/neural_network/Wait.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/Wait.cpp b/src/neural_network/Wait.cpp
index 802e89a..1ae0226 100644
--- a/src/neural_network/Wait.cpp
+++ b/src/neural_network/Wait.cpp
@@ -9,7 +9,7 @@ using namespace snn;
 
 Wait& Wait::operator||(const Wait& wait)
 {
-    if (op == waitOperator::andOp)
+    if (this->op == waitOperator::andOp || wait.op == waitOperator::andOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::orOp;
@@ -36,7 +36,7 @@ Wait& Wait::operator||(const Wait& wait)
 
 Wait& Wait::operator&&(const Wait& wait)
 {
-    if (op == waitOperator::orOp)
+    if (this->op == waitOperator::orOp || wait.op == waitOperator::orOp)
         throw runtime_error("Cannot mix || and && operator for waitFor.");
 
     this->op = waitOperator::andOp;
-- 
2.43.0


From 9807b5bebbf01757cd7ff701c919dedd41fdfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:15 +0000
Subject: [PATCH 28/33] fix: absolute errors are summed as floating point
 numbers, not as integers

---
 src/neural_network/StatisticAnalysis.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/StatisticAnalysis.cpp b/src/neural_network/StatisticAnalysis.cpp
index b558892..0c2c1ce 100644
--- a/src/neural_network/StatisticAnalysis.cpp
+++ b/src/neural_network/StatisticAnalysis.cpp
@@ -107,7 +107,7 @@ void StatisticAnalysis::evaluateOnceForRegression(const std::vector<float>& outp
             clusters[i].trueNegative ++;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
         clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
@@ -142,7 +142,7 @@ void StatisticAnalysis::evaluateOnceForMultipleClassification(const std::vector<
             classifiedWell = false;
         }
 
-        clusters[i].totalError += abs(desiredOutputs[i] - outputs[i]);
+        clusters[i].totalError += std::abs(desiredOutputs[i] - outputs[i]);
         clusters[i].totalSquaredError += (desiredOutputs[i] - outputs[i]) * (desiredOutputs[i] - outputs[i]);
     }
     if (classifiedWell)
@@ -165,7 +165,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         if (i == classNumber)
         {
-            clusters[i].totalError += abs(1 - outputs[i]);
+            clusters[i].totalError += std::abs(1 - outputs[i]);
             clusters[i].totalSquaredError += (1 - outputs[i]) * (1 - outputs[i]);
 
             if (outputs[i] > separator)
@@ -179,7 +179,7 @@ void StatisticAnalysis::evaluateOnceForClassification(const std::vector<float>&
         }
         else
         {
-            clusters[i].totalError += abs(0 - outputs[i]);
+            clusters[i].totalError += std::abs(0 - outputs[i]);
             clusters[i].totalSquaredError += outputs[i] * outputs[i];
 
             if (outputs[i] > separator)
-- 
2.43.0


From 5a77045882a56784b01d954d030d4768e5577492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:51 +0000
Subject: [PATCH 29/33] fix: waitFor right after a second start returned at
 once, on the epoch of the previous training

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 2649a2b..622df3d 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -74,6 +74,7 @@ void StraightforwardNeuralNetwork::startTrainingAsync(Data& data, int batchSize,
     this->stopTrainingAsync();
     log<complete>("Start a new thread");
     this->isIdle = false;
+    this->epoch = 0; // not left to the new thread, waitFor could see the epoch of the previous training
     this->thread = std::thread(&StraightforwardNeuralNetwork::trainSync, this, ref(data), Wait(), batchSize, evaluationFrequency);
 }
 
-- 
2.43.0


From 3fdd5817458df42b07a92452b8087f2b092f88fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 30/33] fix: summaries of recurrent layers show their input and
 output shapes the right way round

---
 src/neural_network/layer/GruLayer.cpp   | 4 ++--
 src/neural_network/layer/Recurrence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/neural_network/layer/GruLayer.cpp b/src/neural_network/layer/GruLayer.cpp
index 3934f57..c99ccac 100644
--- a/src/neural_network/layer/GruLayer.cpp
+++ b/src/neural_network/layer/GruLayer.cpp
@@ -25,10 +25,10 @@ std::string snn::internal::GruLayer::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " GruLayer" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
diff --git a/src/neural_network/layer/Recurrence.cpp b/src/neural_network/layer/Recurrence.cpp
index 0b0470b..6cc5b4e 100644
--- a/src/neural_network/layer/Recurrence.cpp
+++ b/src/neural_network/layer/Recurrence.cpp
@@ -25,11 +25,11 @@ string Recurrence::summary() const
     stringstream ss;
     ss << "------------------------------------------------------------" << endl;
     ss << " Recurrence" << endl;
-    ss << "                Input shape:  [" << this->getNumberOfNeurons() << "]" << endl;
+    ss << "                Input shape:  [" << this->getNumberOfInputs() << "]" << endl;
     ss << "                Neurons:      " << this->getNumberOfNeurons() << endl;
     ss << "                Parameters:   " << this->getNumberOfParameters() << endl;
     ss << "                Activation:   " << this->neurons[0].outputFunction->getName() << endl;
-    ss << "                Output shape: [" << this->getNumberOfInputs() << "]" << endl;
+    ss << "                Output shape: [" << this->getNumberOfNeurons() << "]" << endl;
     if (!optimizers.empty())
     {
         ss << "                Optimizers:   " << optimizers[0]->summary() << endl;
-- 
2.43.0


From c70248d72bceef37686c68c1f57ce5c694ed01a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:54 +0000
Subject: [PATCH 31/33] fix: minutes and seconds of a duration's text do not
 count the larger units again

---
 include/snn/tools/Tools.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/snn/tools/Tools.hpp b/include/snn/tools/Tools.hpp
index 9f9e006..0929fdb 100644
--- a/include/snn/tools/Tools.hpp
+++ b/include/snn/tools/Tools.hpp
@@ -59,11 +59,11 @@ namespace snn::tools
         std::string str;
 
         if (duration.count() > 3600000)
-            return std::to_string(duration.count() / 3600000) + "h " + std::to_string(duration.count() / 60000) +
+            return std::to_string(duration.count() / 3600000) + "h " + std::to_string(duration.count() / 60000 % 60) +
                 "min";
 
         if (duration.count() > 60000)
-            return std::to_string(duration.count() / 60000) + "min " + std::to_string(duration.count() / 1000) + "s";
+            return std::to_string(duration.count() / 60000) + "min " + std::to_string(duration.count() / 1000 % 60) + "s";
 
         if (duration.count() > 1000)
             return std::to_string(duration.count() / 1000) + "s";
-- 
2.43.0


From 1ed2743305783b41bb3135ca27a8896c20bf17ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:30 +0000
Subject: [PATCH 32/33] fix: the bias of a recurrent neuron learns, and its
 step no longer moves the recurrent weight

---
 src/neural_network/optimizer/StochasticGradientDescent.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/neural_network/optimizer/StochasticGradientDescent.cpp b/src/neural_network/optimizer/StochasticGradientDescent.cpp
index 59389c3..21f568c 100644
--- a/src/neural_network/optimizer/StochasticGradientDescent.cpp
+++ b/src/neural_network/optimizer/StochasticGradientDescent.cpp
@@ -56,12 +56,13 @@ void StochasticGradientDescent::updateWeights(RecurrentNeuron& neuron, float err
         deltaWeights[w] = lr * error * lastInputs[w] + m * previousDeltaWeights[w];
         neuron.weights[w] += deltaWeights[w];
     }
-    deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
-    neuron.weights[w] += deltaWeights[w];
     neuron.recurrentError = error + neuron.recurrentError * neuron.outputFunction->derivative(neuron.previousSum) * neuron.weights[w];
 
     deltaWeights[w] = lr * neuron.recurrentError * neuron.previousOutput + m * previousDeltaWeights[w];
     neuron.weights[w] += deltaWeights[w];
+    ++w;
+    deltaWeights[w] = lr * error * neuron.bias + m * previousDeltaWeights[w];
+    neuron.weights[w] += deltaWeights[w];
     neuron.previousDeltaWeights.pushBack(deltaWeights);
     #ifdef _MSC_VER
     #pragma warning(default:4701)
-- 
2.43.0


From f3fa9f74e7294b61c1144cee71db80cbc35c2b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:14:09 +0000
Subject: [PATCH 33/33] fix: a blocking training that ends with an exception
 leaves the network idle

---
 src/neural_network/StraightforwardNeuralNetwork.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/neural_network/StraightforwardNeuralNetwork.cpp b/src/neural_network/StraightforwardNeuralNetwork.cpp
index 622df3d..203ede2 100644
--- a/src/neural_network/StraightforwardNeuralNetwork.cpp
+++ b/src/neural_network/StraightforwardNeuralNetwork.cpp
@@ -84,7 +84,15 @@ void StraightforwardNeuralNetwork::train(Data& data, Wait wait, int batchSize, i
     if (!this->isIdle)
         throw runtime_error("Neural network is already training");
     this->stopTrainingAsync();
-    this->trainSync(data, wait, batchSize, evaluationFrequency);
+    try
+    {
+        this->trainSync(data, wait, batchSize, evaluationFrequency);
+    }
+    catch (...)
+    {
+        this->resetTrainingValues();
+        throw;
+    }
 }
 
 void StraightforwardNeuralNetwork::trainSync(Data& data, Wait wait, const int batchSize, const int evaluationFrequency)
-- 
2.43.0

