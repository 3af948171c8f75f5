module verifharness

go 1.23

require (
	github.com/bbuck/go-lexer v0.0.0-20150530081543-8752f4c00663
	github.com/fwip/posix-utils v0.0.0
	github.com/pointlander/compress v1.1.0 // indirect
	github.com/pointlander/jetset v1.0.0 // indirect
	github.com/pointlander/peg v1.0.0 // indirect
	github.com/shenwei356/util v0.0.0-20190523143900-f71ff373860c
	pgregory.net/rapid v1.3.0
)

replace github.com/fwip/posix-utils => /repo
