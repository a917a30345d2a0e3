module verifharness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/intel/forGoParallel v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/intel/forGoParallel => /repo
