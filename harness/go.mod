module wegoverif

go 1.23

require (
	github.com/spf13/cobra v1.1.1
	github.com/ynqa/wego v0.0.0
	pgregory.net/rapid v1.3.0
)

require (
	github.com/inconshreveable/mousetrap v1.0.0 // indirect
	github.com/mattn/go-runewidth v0.0.7 // indirect
	github.com/olekukonko/tablewriter v0.0.4 // indirect
	github.com/peterh/liner v1.2.0 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/sync v0.0.0-20201020160332-67f06af15bc9 // indirect
)

replace github.com/ynqa/wego => /repo
