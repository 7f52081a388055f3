module mk-lr

go 1.17

require github.com/ldsec/lattigo/v2 v2.3.0

replace github.com/ldsec/lattigo/v2 => ../lattigo
