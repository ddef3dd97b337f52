module verif/harness

go 1.26

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/bgokden/veri v0.0.0
	google.golang.org/grpc v1.47.0
	google.golang.org/protobuf v1.30.0
)

require (
	github.com/bgokden/go-cache v2.1.1+incompatible // indirect
	github.com/chewxy/math32 v1.0.8 // indirect
	github.com/goburrow/cache v0.1.3 // indirect
	github.com/golang/protobuf v1.5.3 // indirect
	github.com/google/uuid v1.1.2 // indirect
	github.com/gorilla/mux v1.7.2 // indirect
	github.com/jinzhu/copier v0.0.0-20201025035756-632e723a6687 // indirect
	github.com/pkg/errors v0.9.1 // indirect
	github.com/tidwall/gjson v1.9.3 // indirect
	github.com/tidwall/match v1.1.1 // indirect
	github.com/tidwall/pretty v1.2.0 // indirect
	golang.org/x/net v0.9.0 // indirect
	golang.org/x/sys v0.8.0 // indirect
	golang.org/x/text v0.9.0 // indirect
	google.golang.org/genproto v0.0.0-20220616135557-88e70c0c3a90 // indirect
)

replace github.com/bgokden/veri => /repo
