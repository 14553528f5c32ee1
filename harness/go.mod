module verif

go 1.26.0

require (
	github.com/consensys/gnark v0.3.6-0.20201210201156-81e1c73d407c
	github.com/consensys/gurvy v0.3.6-0.20201201225406-c45cdb55aaef
	gkr-mimc v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/fxamacker/cbor/v2 v2.2.0 // indirect
	github.com/pkg/profile v1.5.0 // indirect
	github.com/x448/float16 v0.8.4 // indirect
	golang.org/x/sys v0.0.0-20201118182958-a01c418693c7 // indirect
)

replace gkr-mimc => /repo
