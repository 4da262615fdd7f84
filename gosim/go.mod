module possumsim

go 1.21.4

require (
	github.com/anacrolix/chansync v0.5.1
	github.com/anacrolix/generics v0.0.2
	github.com/anacrolix/missinggo/v2 v2.7.3
	github.com/anacrolix/possum/go v0.0.0
)

replace (
	github.com/anacrolix/chansync => ./stubs/chansync
	github.com/anacrolix/generics => ./stubs/generics
	github.com/anacrolix/missinggo/v2 => ./stubs/missinggo
	github.com/anacrolix/possum/go => ../target/gosim/possum
)
