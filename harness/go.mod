module hv

go 1.23.4

require helena v0.0.0

require (
	github.com/ergochat/readline v0.1.3
	github.com/fatih/color v1.18.0
)

require (
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.20 // indirect
	golang.org/x/exp v0.0.0-20250408133849-7e4ce0ab07d0 // indirect
	golang.org/x/sys v0.32.0 // indirect
)

replace helena => /repo/src

replace github.com/ergochat/readline => ./fakerl
