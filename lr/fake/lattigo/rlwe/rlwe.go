// Package rlwe stands in for lattigo's rlwe.
package rlwe

const DefaultSigma = 3.2
