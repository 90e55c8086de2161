package main

// Schemas for the conversions of spec/ConvCases.tla.

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// ConvCase is one conversion.
type ConvCase struct {
	From  string `json:"from"`
	To    string `json:"to"`
	SFrom string `json:"sfrom"`
	STo   string `json:"sto"`
	Src   string `json:"src"`
	Place string `json:"place"`
}

func (c *ConvCase) String() string {
	return fmt.Sprintf("%s %s from %s to %s %s at %s", c.SFrom, c.From, c.Src, c.STo, c.To, c.Place)
}

func convCases(c *Check) []*ConvCase {
	res, err := tlc(c.Dir, "ConvCasesGen", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", nil, 10*time.Minute)
	must(err)
	c.addInt("states", res.States)
	var out []*ConvCase
	for _, l := range res.Lines {
		var x ConvCase
		must(json.Unmarshal([]byte(l), &x))
		out = append(out, &x)
	}
	if len(out) < 1000 {
		must(fmt.Errorf("%d conversions\n%s", len(out), tail(res.Out, 2000)))
	}
	return out
}

func convType(t string, fed bool) string {
	q := "up.v1."
	if !fed {
		q = ""
	}
	switch t {
	case "K":
		return q + "Kind"
	case "P":
		return q + "Part"
	case "L":
		return "Level"
	case "M":
		return "Mode"
	case "Q":
		return "Piece"
	case "W":
		return "google.protobuf.Int64Value"
	case "T":
		return "google.protobuf.Timestamp"
	case "D":
		return "google.protobuf.Duration"
	}
	return t
}

// convField declares field n of type t in shape s, with options o.
func convField(t, s, n string, num int, fed bool, o, other string) string {
	tt := convType(t, fed)
	if o != "" {
		o = " [" + o + "]"
	}
	switch s {
	case "rep":
		return fmt.Sprintf("  repeated %s %s = %d%s;\n", tt, n, num, o)
	case "mapv":
		return fmt.Sprintf("  map<string, %s> %s = %d%s;\n", tt, n, num, o)
	case "mapk":
		return fmt.Sprintf("  map<%s, string> %s = %d%s;\n", tt, n, num, o)
	case "oneof":
		if other == "-" {
			return fmt.Sprintf("  oneof o%s {\n    %s %s = %d%s;\n  }\n", n, tt, n, num, o)
		}
		if other != "" {
			other = " [" + other + "]"
		}
		return fmt.Sprintf("  oneof o%s {\n    %s %s = %d%s;\n    string z%s = %d%s;\n  }\n", n, tt, n, num, o, n, num+50, other)
	}
	return fmt.Sprintf("  %s %s = %d%s;\n", tt, n, num, o)
}

const convUpHead = `syntax = "proto3";
package up.v1;
import "google/protobuf/timestamp.proto";
import "google/protobuf/duration.proto";
import "google/protobuf/wrappers.proto";
option go_package = "vgen/up;up";
enum Kind { KIND_UNSPECIFIED = 0; KIND_A = 1; KIND_B = 2; KIND_C = 5; }
message Part { string s = 1; int32 n = 2; }
message Ack { bool ok = 1; google.protobuf.Timestamp t = 2; google.protobuf.Duration d = 3; google.protobuf.Int64Value w = 4; }
`

const convFedHead = `syntax = "proto3";
package fed.v1;
import "grpc/federation/federation.proto";
import "google/protobuf/timestamp.proto";
import "google/protobuf/duration.proto";
import "google/protobuf/wrappers.proto";
import "up.proto";
option go_package = "vgen/fed;fed";
enum Level {
  option (grpc.federation.enum).alias = "up.v1.Kind";
  LEVEL_UNSPECIFIED = 0 [(grpc.federation.enum_value).alias = "up.v1.Kind.KIND_UNSPECIFIED"];
  LEVEL_TWO = 1 [(grpc.federation.enum_value).alias = "up.v1.Kind.KIND_B"];
  LEVEL_ONE = 3 [(grpc.federation.enum_value).alias = "up.v1.Kind.KIND_A"];
}
enum Mode {
  option (grpc.federation.enum).alias = "up.v1.Kind";
  MODE_UNKNOWN = 0 [(grpc.federation.enum_value).alias = "up.v1.Kind.KIND_UNSPECIFIED"];
  MODE_X = 1 [(grpc.federation.enum_value) = { alias: ["up.v1.Kind.KIND_A", "up.v1.Kind.KIND_C"] }];
  MODE_REST = 2 [(grpc.federation.enum_value) = { default: true }];
}
message Piece {
  option (grpc.federation.message).alias = "up.v1.Part";
  string s = 1;
  int32 n = 2;
}
message Any { google.protobuf.Timestamp t = 2; google.protobuf.Duration d = 3; google.protobuf.Int64Value w = 4; up.v1.Kind k = 5; Level l = 6; Mode m = 7; }
`

// convSchema renders cases as one service with a method per case.
func convSchema(cs []*ConvCase) map[string]string {
	var up, ups, fed, feds strings.Builder
	for i, c := range cs {
		fmt.Fprintf(&ups, "  rpc Fetch%d(Req%d) returns (Src%d) {}\n  rpc Store%d(Put%d) returns (Ack) {}\n", i, i, i, i, i)
		fmt.Fprintf(&feds, "  rpc M%d(In%d) returns (Out%d) {}\n", i, i, i)
		fmt.Fprintf(&up, "message Req%d { string id = 1; }\n", i)
		src, put, in := "  string pad = 1;\n", "  string id = 1;\n", "  string id = 1;\n"
		expr := "r.f"
		call := fmt.Sprintf("    def { name: \"r\" call { method: \"up.v1.Up/Fetch%d\" request { field: \"id\" by: \"$.id\" } } }\n", i)
		if c.Src == "call" {
			src += convField(c.From, c.SFrom, "f", 2, false, "", "")
		} else {
			expr, call = "$.f", ""
			if c.Place != "ralias" {
				in += convField(c.From, c.SFrom, "f", 2, true, "", "")
			}
		}
		msgs, defs, outf := "", call, ""
		by := func(e string) string { return fmt.Sprintf("(grpc.federation.field).by = %q", e) }
		rule := ""
		z := "-" // one of the sides has no place for another member of the oneof
		if c.SFrom == c.STo {
			z = ""
		}
		zalias := "(grpc.federation.field).alias = \"pad\""
		if c.SFrom == "oneof" {
			zalias = "(grpc.federation.field).alias = \"zf\""
		}
		switch c.Place {
		case "field":
			outf = convField(c.To, c.STo, "f", 2, true, by(expr), "")
		case "alias":
			msgs = fmt.Sprintf("message Dst%d {\n  option (grpc.federation.message).alias = \"up.v1.Src%d\";\n%s}\n", i, i, convField(c.To, c.STo, "f", 2, true, "", z))
			outf = fmt.Sprintf("  Dst%d d = 2 [%s];\n", i, by("r"))
		case "falias":
			msgs = fmt.Sprintf("message Dst%d {\n  option (grpc.federation.message).alias = \"up.v1.Src%d\";\n%s}\n", i, i, convField(c.To, c.STo, "h", 2, true, "(grpc.federation.field).alias = \"f\"", zalias))
			outf = fmt.Sprintf("  Dst%d d = 2 [%s];\n", i, by("r"))
		case "autobind":
			defs = strings.Replace(call, "name: \"r\"", "name: \"r\" autobind: true", 1)
			outf = convField(c.To, c.STo, "f", 2, true, "", z)
		case "arg", "inline":
			e, a := "$.x", fmt.Sprintf("name: \"x\" by: %q", expr)
			if c.Place == "inline" {
				e, a = "$.f", "inline: \"r\""
			}
			msgs = fmt.Sprintf("message Dst%d {\n  option (grpc.federation.message) = {};\n%s}\n", i, convField(c.To, c.STo, "f", 2, true, by(e), ""))
			defs += fmt.Sprintf("    def { name: \"a\" message { name: \"Dst%d\" args { %s } } }\n", i, a)
			outf = fmt.Sprintf("  Dst%d d = 2 [%s];\n", i, by("a"))
		case "oneof":
			outf = convField(c.To, c.STo, "f", 2, true, fmt.Sprintf("(grpc.federation.field).oneof = { if: \"true\" by: %q }", expr), "(grpc.federation.field).oneof = { default: true by: \"''\" }")
		case "mapel":
			defs += fmt.Sprintf("    def { name: \"l\" by: %q }\n    def { name: \"m\" map { iterator { name: \"x\" src: \"l\" } by: \"x\" } }\n", expr)
			outf = convField(c.To, c.STo, "f", 2, true, by("m"), "")
		case "request":
			put += convField(c.To, c.STo, "g", 2, false, "", "")
			cond := ""
			if c.STo == "oneof" {
				cond = " if: \"true\""
			}
			defs += fmt.Sprintf("    def { name: \"p\" call { method: \"up.v1.Up/Store%d\" request { field: \"g\" by: %q%s } } }\n", i, expr, cond)
			outf = "  bool f = 2 [" + by("p.ok") + "];\n"
		case "ralias":
			fmt.Fprintf(&up, "message Pack%d {\n%s}\n", i, convField(c.To, c.STo, "f", 2, false, "", z))
			put += fmt.Sprintf("  Pack%d g = 2;\n", i)
			msgs = fmt.Sprintf("message Own%d {\n  option (grpc.federation.message).alias = \"up.v1.Pack%d\";\n%s}\n", i, i, convField(c.From, c.SFrom, "f", 2, true, "", z))
			in += fmt.Sprintf("  Own%d own = 2;\n", i)
			defs += fmt.Sprintf("    def { name: \"p\" call { method: \"up.v1.Up/Store%d\" request { field: \"g\" by: \"$.own\" } } }\n", i)
			outf = "  bool f = 2 [" + by("p.ok") + "];\n"
		}
		fmt.Fprintf(&up, "message Src%d {\n%s}\nmessage Put%d {\n%s}\n", i, src, i, put)
		if defs != "" {
			rule = "\n" + defs + "  "
		}
		fmt.Fprintf(&fed, "message In%d {\n%s}\n%smessage Out%d {\n  option (grpc.federation.message) = {%s};\n%s}\n", i, in, msgs, i, rule, outf)
	}
	return map[string]string{
		"up.proto":  convUpHead + "service Up {\n" + ups.String() + "}\n" + up.String(),
		"fed.proto": convFedHead + "service F {\n  option (grpc.federation.service) = {};\n" + feds.String() + "}\n" + fed.String(),
	}
}
