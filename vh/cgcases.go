package main

// Schemas for the cases of spec/CodegenCases.tla.

import (
	"strings"
)

// cgDefaults are the names of nameSchema by role.
var cgDefaults = map[string]string{
	"file": "fed", "package": "fedpkg", "gopkg": "fedgo", "uppackage": "uppkg", "upgopkg": "upgo", "service": "FedSvc", "upservice": "UpSvc",
	"rpc": "FetchIt", "uprpc": "UpFetch", "message": "Msga", "nested": "Nesta", "upmessage": "UpMsg", "upreqfield": "upreqf", "upfield": "upf",
	"reqfield": "reqf", "field": "outf", "mapfield": "mapf", "def": "defa", "defmsg": "defm", "defmap": "defp", "defenum": "defe", "iter": "itera", "arg": "arga",
	"errdef": "errd", "detaildef": "detd", "oneofdef": "oneofd", "enum": "Enuma", "enumvalue": "EV_A", "upenum": "UpEnum", "oneof": "grp", "member": "memb",
	"uponeof": "upgrp", "upmember": "upmemb", "env": "enva", "var": "vara", "plugin": "plugn", "function": "funca", "method": "metha", "receiver": "Recv",
	"custom": "custf", "attr": "attrn",
	"plainone": "plainone", "arg2": "argb", "reqfield2": "innum", "envs": "envs", "upfield2": "upf2", "env2": "otherenv", "var2": "othervar", "message2": "Alias",
	"rpc2": "OtherRpc", "function2": "plain",
}

// nameSchema is a schema that uses the names given for roles, each in several places.
func nameSchema(set map[string]string) (map[string]string, string) {
	r := []string{}
	for role, def := range cgDefaults {
		n := def
		if v, ok := set[role]; ok {
			n = v
		}
		r = append(r, "«"+role+"»", n)
	}
	rep := strings.NewReplacer(r...)
	entry := rep.Replace("«file».proto")
	return map[string]string{entry: rep.Replace(nameFed), "updep.proto": rep.Replace(nameUp), "plugdep.proto": rep.Replace(namePlug)}, entry
}

const nameUp = `syntax = "proto3";
package «uppackage».v1;
option go_package = "vgen/up;«upgopkg»";
service «upservice» {
  rpc «uprpc»(UpReq) returns («upmessage») {}
  rpc UpOther(UpReq) returns (UpPlain) {}
}
message UpReq { string «upreqfield» = 1; int64 n = 2; «upenum» kind = 3; oneof pick { string ps = 4; int64 pn = 5; } }
message «upmessage» {
  string «upfield» = 1;
  int64 numb = 2;
  UpPart part = 3;
  repeated UpPart parts = 4;
  «upenum» kind = 5;
  oneof «uponeof» { string «upmember» = 6; UpPart other_one = 7; }
  map<string, UpPart> mparts = 8;
}
message UpPlain { string plain = 1; }
message UpPart { string «upfield» = 1; «upenum» kind = 2; string «upfield2» = 3; }
enum «upenum» { UP_UNSPECIFIED = 0; UP_ONE = 1; }
`

const namePlug = `syntax = "proto3";
package plugdep;
import "grpc/federation/federation.proto";
option go_package = "vgen/plug;plug";
message «receiver» { string txt = 1; }
option (grpc.federation.file).plugin.export = {
  name: "«plugin»"
  types: [ { name: "«receiver»" methods: [ { name: "«method»" args { name: "x" type { kind: STRING } } return { kind: STRING } } ] } ]
  functions: [ { name: "«function»" args { name: "x" type { kind: STRING } } return { message: "«receiver»" } },
               { name: "«function2»" args { name: "x" type { kind: INT64 } } return { kind: INT64 } } ]
};
`

const nameFed = `syntax = "proto3";
package «package».v1;
import "grpc/federation/federation.proto";
import "updep.proto";
import "plugdep.proto";
option go_package = "vgen/fed;«gopkg»";
service «service» {
  option (grpc.federation.service) = {
    env { var { name: "«env»" type { kind: STRING } } var { name: "«env2»" type { kind: INT64 } } }
    var { name: "«var»" by: "grpc.federation.env.«env» + 'v'" }
    var { name: "«var2»" by: "«var» + 'v'" }
  };
  rpc «rpc»(In) returns (Out) { option (grpc.federation.method).timeout = "1s"; }
  rpc «rpc2»(OtherIn) returns (OtherOut) {}
}
service PlainOnly { rpc PlainDo(In) returns (PlainDone) {} }
message PlainDone { string done = 1; }
message In { string «reqfield» = 1; int64 «reqfield2» = 2; }
message OtherIn {}
message OtherOut { option (grpc.federation.message) = {}; string s = 1 [(grpc.federation.field).by = "'x'"]; }
message Out {
  option (grpc.federation.message) = {
    def { name: "«def»" call {
      method: "«uppackage».v1.«upservice»/«uprpc»"
      request [ { field: "«upreqfield»" by: "$.«reqfield»" }, { field: "n" by: "$.«reqfield2»" }, { field: "kind" by: "«uppackage».v1.«upenum».value('UP_ONE')" } ]
      retry { if: "error.code == google.rpc.Code.UNAVAILABLE" constant {} }
      timeout: "1s"
      error [
        { def { name: "«errdef»" by: "error.message" } if: "«errdef» == 'x'" code: INTERNAL message: "«errdef» + 'y'"
          details { def { name: "«detaildef»" by: "«errdef» + 'z'" } if: "«detaildef» != ''" message { name: "«message»" args [ { name: "«arg»" by: "«detaildef»" }, { name: "«arg2»" by: "3" } ] }
                    localized_message { locale: "en" message: "«detaildef»" } bad_request { field_violations { field: "«errdef»" description: "«detaildef»" } } } },
        { if: "error.code == google.rpc.Code.NOT_FOUND" ignore: true }
      ]
    } }
    def { name: "«plainone»" call { method: "«uppackage».v1.«upservice»/UpOther" request { field: "«upreqfield»" by: "«def».«upfield»" } } }
    def { name: "«defmsg»" message { name: "«message»" args [ { name: "«arg»" by: "«def».«upfield»" }, { name: "«arg2»" by: "«def».numb" } ] } }
    def { name: "partsv" by: "«def».parts" }
    def { name: "«defmap»" map { iterator { name: "«iter»" src: "partsv" } message { name: "«message»" args [ { name: "«arg»" by: "«iter».«upfield»" }, { name: "«arg2»" by: "1" } ] } } }
    def { name: "plainmap" map { iterator { name: "«iter»" src: "partsv" } by: "«iter».«upfield» + 'x'" } }
    def { name: "«defenum»" enum { name: "«enum»" by: "«def».kind" } }
    def { name: "vcheck" validation { name: "vv" error { def { name: "«errdef»v" by: "«defmsg».«field»" } if: "«errdef»v == 'bad'" code: FAILED_PRECONDITION message: "«errdef»v" } } }
    def { name: "plugged" by: "plugdep.«function»('a').«method»('b')" }
  };
  string «field» = 1 [(grpc.federation.field).by = "«def».«upfield» + $.«reqfield»"];
  «message» bymsg = 2 [(grpc.federation.field).by = "«defmsg»"];
  repeated «message» bymap = 3 [(grpc.federation.field).by = "«defmap»"];
  «enum» benum = 4 [(grpc.federation.field).by = "«defenum»"];
  oneof «oneof» {
    string «member» = 5 [(grpc.federation.field).oneof = { if: "$.«reqfield2» > 1" def { name: "«oneofdef»" by: "«def».«upfield»" } by: "«oneofdef»" }];
    int64 lastone = 6 [(grpc.federation.field).oneof = { default: true by: "1" }];
  }
  string «custom» = 7 [(grpc.federation.field).custom_resolver = true];
  «message2» ali = 8 [(grpc.federation.field).by = "«def»"];
  string «envs» = 9 [(grpc.federation.field).by = "grpc.federation.env.«env» + grpc.federation.var.«var»"];
  map<string, Apart> «mapfield» = 10 [(grpc.federation.field).by = "«def».mparts"];
  Out2 out2 = 11 [(grpc.federation.field).by = "«package».v1.Out2{«mapfield»: plugged}"];
}
message Out2 { string «mapfield» = 1; }
message «message2» {
  option (grpc.federation.message).alias = "«uppackage».v1.«upmessage»";
  string «upfield» = 1;
  int32 numb = 2;
  Apart part = 3;
  «enum» kind = 4;
  oneof «uponeof» { string «upmember» = 5; Apart other_one = 6; }
}
message Apart {
  option (grpc.federation.message).alias = "«uppackage».v1.UpPart";
  string «upfield» = 1;
  «enum» kind = 2;
}
message «message» {
  option (grpc.federation.message) = { def { name: "inside" message { name: "«message».«nested»" args { name: "«arg»" by: "$.«arg»" } } } };
  message «nested» {
    option (grpc.federation.message) = {};
    string «field» = 1 [(grpc.federation.field).by = "$.«arg»"];
  }
  string «field» = 1 [(grpc.federation.field).by = "$.«arg»"];
  «nested» nst = 2 [(grpc.federation.field).by = "inside"];
  int64 numb = 3 [(grpc.federation.field).by = "$.«arg2»"];
}
enum «enum» {
  option (grpc.federation.enum).alias = "«uppackage».v1.«upenum»";
  «enumvalue»X = 0 [(grpc.federation.enum_value) = { alias: ["«uppackage».v1.«upenum».UP_UNSPECIFIED"] attr { name: "«attr»" value: "1" } }];
  «enumvalue» = 1 [(grpc.federation.enum_value) = { alias: ["«uppackage».v1.«upenum».UP_ONE"] attr { name: "«attr»" value: "2" } }];
}
`

// cgText are the strings of the text cases, as CEL string literals.
var cgText = map[string]string{
	"backquote": "'a`b'", "quote": `'a\'b'`, "doublequote": `'a"b'`, "backslash": `'a\\b'`, "newline": `'a\nb'`, "percent": "'100% %s %d'",
	"unicode": "'日本😀\u00e9'", "comment": "'/* */ // */'", "tab": `'a\tb'`, "empty": "''", "brace": "'{{ .X }} ${y} }}'", "dollar": "'a b'",
}

var cgTextRoles = []string{"by", "if", "arg", "request", "errmessage", "errif", "validation", "detail", "locale", "retryif", "mapby", "attr", "envdefault", "envalternate",
	"oneofif", "oneofby", "varby", "varif", "detailif", "description", "ignoreresponse", "defif", "varmessage"}

// textSchema uses a string in a role.
func textSchema(role, text string) (map[string]string, string) {
	plain := map[string]bool{"attr": true, "locale": true, "envdefault": true, "envalternate": true}
	var r []string
	for _, x := range cgTextRoles {
		v := "'ab'"
		if plain[x] {
			v = "ab"
		}
		if x == role {
			v = cgText[text]
			if plain[x] {
				v = strings.NewReplacer(`\\`, `\`, `\n`, "\n", `\t`, "\t", `\'`, "'", `\u00e9`, "é").Replace(v[1 : len(v)-1])
			}
		}
		v = strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`, "\t", `\t`).Replace(v)
		r = append(r, "«"+x+"»", v)
	}
	return map[string]string{"fed.proto": strings.NewReplacer(r...).Replace(textFed), "updep.proto": cgUp}, "fed.proto"
}

const cgUp = `syntax = "proto3";
package up.v1;
option go_package = "vgen/up;up";
service Up { rpc Get(Req) returns (Res) {} }
message Req { string id = 1; int64 n = 2; }
message Res { string s = 1; repeated string l = 2; Kind kind = 3; }
enum Kind { K_0 = 0; K_1 = 1; }
`

const textFed = `syntax = "proto3";
package fed.v1;
import "grpc/federation/federation.proto";
import "updep.proto";
option go_package = "vgen/fed;fed";
service F {
  option (grpc.federation.service) = {
    env { var { name: "e" type { kind: STRING } option { default: "«envdefault»" alternate: "«envalternate»" } } }
    var { name: "v" by: "grpc.federation.env.e + «varby»" }
    var { name: "w" if: "grpc.federation.env.e == «varif»" by: "v" }
    var { name: "x" validation { if: "grpc.federation.env.e == «varif»" message: "«varmessage»" } }
  };
  rpc M(In) returns (Out) {}
}
message In { string id = 1; }
message Out {
  option (grpc.federation.message) = {
    def { name: "a" if: "$.id != «defif»" call { method: "up.v1.Up/Get" request { field: "id" by: "$.id + «request»" if: "$.id == «if»" }
      retry { if: "error.message == «retryif»" constant {} }
      error { if: "error.message == «errif»" code: INTERNAL message: "«errmessage»"
        details { if: "$.id == «detailif»" localized_message { locale: "«locale»" message: "«detail»" } bad_request { field_violations { field: "'a'" description: "«description»" } } } }
      error { if: "error.code == 5" ignore_and_response: "up.v1.Res{s: «ignoreresponse»}" } } }
    def { name: "m" message { name: "Sub" args { name: "x" by: "«arg»" } } }
    def { name: "l" by: "a.l" }
    def { name: "p" map { iterator { name: "i" src: "l" } by: "i + «mapby»" } }
    def { name: "c" validation { name: "n" error { if: "$.id == «validation»" code: INTERNAL message: "«validation»" } } }
  };
  string s = 1 [(grpc.federation.field).by = "a.s + «by»"];
  Sub sub = 2 [(grpc.federation.field).by = "m"];
  repeated string p = 3 [(grpc.federation.field).by = "p"];
  oneof o { string o1 = 4 [(grpc.federation.field).oneof = { if: "$.id == «oneofif»" by: "«oneofby»" }]; string o2 = 5 [(grpc.federation.field).oneof = { default: true by: "'x'" }]; }
  Level level = 6 [(grpc.federation.field).by = "a.kind"];
}
message Sub { option (grpc.federation.message) = {}; string x = 1 [(grpc.federation.field).by = "$.x"]; }
enum Level { option (grpc.federation.enum).alias = "up.v1.Kind";
  L_0 = 0 [(grpc.federation.enum_value) = { alias: ["up.v1.Kind.K_0"] attr { name: "t" value: "«attr»" } }];
  L_1 = 1 [(grpc.federation.enum_value) = { alias: ["up.v1.Kind.K_1"] attr { name: "t" value: "z" } }]; }
`
