module verif/harness

go 1.18

require (
	github.com/minio/sha256-simd v0.1.1
	github.com/mmcloughlin/meow v0.0.0-20181112033425-871e50784daf
	github.com/smartbch/moeingads v0.0.0
	github.com/tecbot/gorocksdb v0.0.0-20191217155057-f0fad39f321c
)

require (
	github.com/coinexchain/randsrc v0.2.0 // indirect
	github.com/dterei/gotsc v0.0.0-20160722215413-e78f872945c6 // indirect
	github.com/facebookgo/ensure v0.0.0-20200202191622-63f1cf65ac4c // indirect
	github.com/facebookgo/stack v0.0.0-20160209184415-751773369052 // indirect
	github.com/facebookgo/subset v0.0.0-20200203212716-c811ad88dec4 // indirect
	golang.org/x/crypto v0.0.0-20191011191535-87dc89f01550 // indirect
	golang.org/x/sys v0.0.0-20190412213103-97732733099d // indirect
)

replace github.com/smartbch/moeingads => /repo
