package lrprog

var vhDoc = vhDocumented{file: "data.csv", features: 7, gamma: 0.3, eta: []float64{1, 1.61803, 2.193527, 2.74979}, iters: 4, data: 10000, batch: 2048, train: 2048, sample: 1935, logSlots: 14, logColumns: 3, needsSample: 1936}

func vhConfigure(s vhShape) {
	numData, numIter, batchSize = s.data, s.iters, s.batch
}

func vhNormOver(s vhShape) int { return s.batch }
