module mc

go 1.12

require (
	contrib.go.opencensus.io/exporter/jaeger v0.1.0
	contrib.go.opencensus.io/exporter/prometheus v0.1.0
	github.com/dustin/go-humanize v1.0.0
	github.com/felixge/fgprof v0.9.0
	github.com/gin-contrib/pprof v1.3.0
	github.com/gin-contrib/static v0.0.0-20190511124741-c1cdf9c9ec7b
	github.com/gin-gonic/gin v1.6.2
	github.com/google/btree v1.0.0
	github.com/google/go-cmp v0.3.1 // indirect
	github.com/klauspost/readahead v1.3.0
	github.com/kr/pretty v0.1.0 // indirect
	github.com/phf/go-queue v0.0.0-20170504031614-9abe38d0371d
	github.com/pkg/errors v0.8.1
	github.com/prometheus/client_golang v1.1.0 // indirect
	github.com/prometheus/client_model v0.0.0-20190812154241-14fe0d1b01d4 // indirect
	github.com/prometheus/procfs v0.0.4 // indirect
	github.com/satori/go.uuid v1.2.0
	github.com/stretchr/testify v1.4.0
	github.com/thesues/go-judy v0.1.3
	github.com/urfave/cli v1.20.0
	go.opencensus.io v0.22.1
	golang.org/x/net v0.0.0-20191014212845-da9a3fd4c582 // indirect
	gopkg.in/check.v1 v1.0.0-20190902080502-41f04d3bba15 // indirect
)
require github.com/thesues/cannyls-go v0.0.0
replace github.com/thesues/cannyls-go => /repo
