module verif/harness

go 1.23

require (
	github.com/flukeish/pmml v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/mcuadros/go-defaults v1.1.0 // indirect
	github.com/pkg/errors v0.8.1 // indirect
)

replace github.com/flukeish/pmml => /repo
