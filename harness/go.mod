module verif.local/harness

go 1.26.0

require (
	a.verif/entropy v0.0.0
	github.com/unsafe-risk/utilx v0.0.0
	golang.org/x/crypto v0.4.0
	golang.org/x/exp v0.0.0-20221217163422-3c43f8badb15
	pgregory.net/rapid v1.3.0
)

require (
	github.com/anishathalye/porcupine v1.3.1
	golang.org/x/sys v0.3.0 // indirect
)

replace github.com/unsafe-risk/utilx => /repo

replace a.verif/entropy => ./entropy
