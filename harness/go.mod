module tcpxverif

go 1.23

require (
	github.com/BurntSushi/toml v0.3.1
	github.com/anishathalye/porcupine v1.3.1
	github.com/fwhezfwhez/tcpx v0.0.0
	github.com/golang/protobuf v1.4.2
	google.golang.org/protobuf v1.23.0
	gopkg.in/yaml.v2 v2.3.0
)

replace github.com/fwhezfwhez/tcpx => /repo
