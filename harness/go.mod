module gpegverif

go 1.23

require (
	github.com/zyedidia/gpeg v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/zyedidia/gpeg => /repo
