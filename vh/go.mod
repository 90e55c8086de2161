module verif/vh

go 1.23.0

require (
	github.com/bufbuild/protocompile v0.9.0
	github.com/cenkalti/backoff/v4 v4.2.1
	github.com/fsnotify/fsnotify v1.7.0
	github.com/goccy/go-yaml v1.11.2
	github.com/google/cel-go v0.23.1
	github.com/google/go-cmp v0.6.0
	github.com/google/uuid v1.6.0
	github.com/jessevdk/go-flags v1.5.0
	github.com/kelseyhightower/envconfig v1.4.0
	github.com/tetratelabs/wazero v1.7.0
	go.lsp.dev/jsonrpc2 v0.10.0
	go.lsp.dev/pkg v0.0.0-20210717090340-384b27a52fb2
	go.lsp.dev/protocol v0.12.0
	go.lsp.dev/uri v0.3.0
	go.opentelemetry.io/otel v1.24.0
	go.opentelemetry.io/otel/trace v1.24.0
	go.uber.org/multierr v1.11.0
	go.uber.org/zap v1.27.0
	golang.org/x/mod v0.17.0
	golang.org/x/sync v0.12.0
	golang.org/x/text v0.23.0
	google.golang.org/genproto/googleapis/api v0.0.0-20240826202546-f6391c0de4c7
	google.golang.org/genproto/googleapis/rpc v0.0.0-20240826202546-f6391c0de4c7
	google.golang.org/grpc v1.65.0
	google.golang.org/protobuf v1.34.2
)

require (
	cel.dev/expr v0.19.1 // indirect
	github.com/antlr4-go/antlr/v4 v4.13.0 // indirect
	github.com/fatih/color v1.10.0 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.17 // indirect
	github.com/segmentio/asm v1.1.3 // indirect
	github.com/segmentio/encoding v0.3.4 // indirect
	github.com/stoewer/go-strcase v1.3.0 // indirect
	github.com/stretchr/testify v1.9.0 // indirect
	golang.org/x/crypto v0.36.0 // indirect
	golang.org/x/exp v0.0.0-20240222234643-814bf88cf225 // indirect
	golang.org/x/net v0.38.0 // indirect
	golang.org/x/sys v0.31.0 // indirect
	golang.org/x/xerrors v0.0.0-20200804184101-5ec99f83aff1 // indirect
)

require github.com/mercari/grpc-federation v0.0.0

replace github.com/mercari/grpc-federation => /repo
