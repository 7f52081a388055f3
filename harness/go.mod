module verifharness

go 1.13

require (
	github.com/ldsec/lattigo/v2 v2.3.0
	mk-lr v0.0.0
)

replace mk-lr => /repo
