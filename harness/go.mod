module nnverif

go 1.26.0

require (
	github.com/cubeflix/nn v0.0.0
	pgregory.net/rapid v1.3.0
)

require golang.org/x/exp v0.0.0-20220915105810-2d61f44442a3

replace github.com/cubeflix/nn => /repo
