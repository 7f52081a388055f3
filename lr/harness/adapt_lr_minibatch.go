package lrprog

var vhDoc = vhDocumented{file: "data.csv", features: 7, gamma: 0.3, eta: []float64{1, 1.61803, 2.193527, 2.74979}, iters: 4, data: 10000, batch: 512, train: 2048, sample: 1950, logSlots: 14, anySlots: true, logColumns: 3, needsSample: 1951}

func vhConfigure(s vhShape) {
	numData, numIter, batchSize, numTrain, numSlots = s.data, s.iters, s.batch, s.train, 1<<s.logSlots
	numBatch = numTrain / batchSize
	vhSetParams(&PN15QP880, s.logSlots)
}

func vhNormOver(s vhShape) int { return s.train }
