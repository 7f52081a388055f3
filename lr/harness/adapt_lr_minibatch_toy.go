package lrprog

var vhDoc = vhDocumented{file: "toyData.csv", features: 20, gamma: 3, eta: []float64{1, 0, -0.28175, -0.43404}, iters: 3, data: 2000, batch: 128, train: 512, sample: -1, normalised: true, unbiased: true, logSlots: 14, anySlots: true, fixedIters: 3, logColumns: 5}

func vhConfigure(s vhShape) {
	numData, batchSize, numTrain, numSlots = s.data, s.batch, s.train, 1<<s.logSlots
	numBatch = numTrain / batchSize
	vhSetParams(&PN15QP880, s.logSlots)
}

func vhNormOver(s vhShape) int { return s.train }
