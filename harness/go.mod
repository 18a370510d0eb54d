module verif

go 1.23

require (
	github.com/zellyn/diskii v0.0.0
	pgregory.net/rapid v1.3.0
)

replace github.com/zellyn/diskii => /repo
