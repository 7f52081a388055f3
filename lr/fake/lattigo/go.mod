module github.com/ldsec/lattigo/v2

go 1.17
