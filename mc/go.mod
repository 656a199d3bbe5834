module nnverif

go 1.21

require github.com/cubeflix/nn v0.0.0

require golang.org/x/exp v0.0.0-20220915105810-2d61f44442a3 // indirect

replace github.com/cubeflix/nn => /repo
