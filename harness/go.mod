module verif/harness

go 1.26

require (
	github.com/RomiChan/protobuf v0.0.0
	google.golang.org/protobuf v1.27.1
	pgregory.net/rapid v1.3.0
)

require github.com/RomiChan/syncx v0.0.0-20240418144900-b7402ffdebc7 // indirect

replace github.com/RomiChan/protobuf => /repo
