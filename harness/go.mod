module verif/harness

go 1.22

require (
	github.com/patrickhuber/go-types v0.5.0
	github.com/patrickhuber/go-wasm v0.0.0
	golang.org/x/exp v0.0.0-20230522175609-2e198f4a06a1
	golang.org/x/text v0.9.0
)

replace github.com/patrickhuber/go-wasm => /repo
