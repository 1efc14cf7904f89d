package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"

	"github.com/BurntSushi/toml"
	"google.golang.org/protobuf/proto"
	"gopkg.in/yaml.v2"
)

// libUnmarshal and libMarshal use the codec libraries directly, not through tcpx.
func libUnmarshal(kind string, b []byte, d interface{}) error {
	switch kind {
	case "json":
		return json.Unmarshal(b, d)
	case "xml":
		return xml.Unmarshal(b, d)
	case "toml":
		return toml.Unmarshal(b, d)
	case "yaml":
		return yaml.Unmarshal(b, d)
	case "protobuf":
		return proto.Unmarshal(b, d.(proto.Message))
	case "xor":
		return xorMarshaller{}.Unmarshal(b, d)
	}
	return fmt.Errorf("unknown %s", kind)
}

func libMarshal(kind string, v interface{}) ([]byte, error) {
	switch kind {
	case "json":
		return json.Marshal(v)
	case "xml":
		return xml.Marshal(v)
	case "toml":
		var buf bytes.Buffer
		err := toml.NewEncoder(&buf).Encode(v)
		return buf.Bytes(), err
	case "yaml":
		return yaml.Marshal(v)
	case "protobuf":
		return proto.Marshal(v.(proto.Message))
	case "xor":
		return xorMarshaller{}.Marshal(v)
	}
	return nil, fmt.Errorf("unknown %s", kind)
}
