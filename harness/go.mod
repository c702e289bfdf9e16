module ctngverif

go 1.25

require (
	github.com/bits-and-blooms/bitset v1.8.0
	github.com/herumi/bls-go-binary v1.32.0
	github.com/jik18001/CTngV2 v0.0.0-00010101000000-000000000000
	github.com/txaty/go-merkletree v0.1.15
)

require (
	github.com/Workiva/go-datastructures v1.1.0 // indirect
	github.com/gorilla/mux v1.8.0 // indirect
	github.com/txaty/gool v0.1.4 // indirect
)

replace github.com/jik18001/CTngV2 => /repo
