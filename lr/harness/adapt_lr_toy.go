package lrprog

var vhDoc = vhDocumented{file: "toyData.csv", features: 20, gamma: 3, eta: []float64{1, 0, -0.28175, -0.43404}, iters: 2, data: 2000, batch: 512, train: 512, sample: 1935, normalised: true, logSlots: 14, logColumns: 5, needsSample: 1936}

func vhConfigure(s vhShape) {
	numData, numIter, batchSize = s.data, s.iters, s.batch
}

func vhNormOver(s vhShape) int { return s.batch }
