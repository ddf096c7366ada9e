module xtverif

go 1.24

require (
	github.com/golang/protobuf v1.5.4
	github.com/renthraysk/xtorm v0.0.0
	github.com/renthraysk/xtorm/protobuf v0.0.0-00010101000000-000000000000
	google.golang.org/protobuf v1.33.0
	pgregory.net/rapid v1.3.0
)

replace github.com/renthraysk/xtorm => /repo

replace github.com/renthraysk/xtorm/protobuf => /repo/protobuf
