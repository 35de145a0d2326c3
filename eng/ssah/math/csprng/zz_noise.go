package csprng

// ZZNoise stands for the Gaussian samplers when set.
var ZZNoise func(stdDev float64) int64
