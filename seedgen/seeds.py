P = "src/http1/parser.rs"
P2 = 'src/http2/parser.rs'
C, UD, UQ, UF = 'src/collect.rs', 'src/util/decode.rs', 'src/util/query.rs', 'src/util/field.rs'
SEEDS = [
 dict(id="boundary-index-not-reset", property="C10",
  needs="boundary look-alike in part data that is cut in the middle of the boundary and then does not match, followed by a real boundary",
  breaks="the next boundary is compared from the middle on, so it is reported as part data",
  edits=[(P, "fn multipart_boundary(", "                // reset boundary comparison index\n                set_upper14!(self, 0);\n\n                callback_transition!(", "                callback_transition!(")],
  cases=['h1 im b:"abcdef" s:"--abcdef\\r\\nA: b\\r\\n\\r\\nxx\\r\\n--abc" s:"xyz\\r\\n--abcdef--"']),
 dict(id="reset-keeps-length", property="C12",
  needs="reset() in the middle of a chunk, then a chunked body whose last chunk is the first thing sent",
  breaks="the last chunk gets the length left over from before the reset",
  edits=[(P, "pub fn reset(", "        self.length   = 0;\n", "")],
  cases=['h1 ic s:"5\\r\\nab" reset s:"0\\r\\n\\r\\n"', 'h1 ic s:"5\\r\\nab" reset s:"3\\r\\nabc\\r\\n0\\r\\n\\r\\n"']),
 dict(id="reset-first-boundary", property="C12",
  needs="a parser that already processed bytes is initialised for multipart",
  breaks="anything that is not the boundary is then taken for part data instead of being an error",
  edits=[(P, "pub fn reset(", "set_lower14!(self, 1);", "set_lower14!(self, (self.byte_count == 0) as u32);")],
  cases=['h1 im b:"ab" s:"--ab\\r\\nA: b\\r\\n\\r\\nxx\\r\\n--ab--" im b:"ab" s:"-x"', 'h1 im b:"ab" s:"-x"']),
 dict(id="delete-prefix", property="C06",
  needs="a request method that starts with DELETE, with eight bytes available",
  breaks="the byte behind DELETE is dropped and the method is taken for DELETE",
  edits=[(P, "fn detect1", 'bs_starts_with7!(context, b"DELETE ")', 'bs_starts_with6!(context, b"DELETE")')],
  cases=['h1 s:"DELETED /a HTTP/1.1\\r\\n\\r\\n"', 'h1 s:"DELETE /a HTTP/1.1\\r\\n\\r\\n"']),
 dict(id="upgrade-case", property="C02",
  needs="the header name Upgrade with less than 24 bytes behind its start in one call, or with more of them",
  breaks="the name is delivered in lower case or not, depending on how the bytes are cut",
  edits=[(P, "fn first_header_name", 'name!(b"upgrade", 8);', 'name!(b"Upgrade", 8);')],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\nUpgrade: h2c, websocket, abc\\r\\n\\r\\n"', 'h1 s:"HTTP/1.1 200 OK\\r\\nUpg" s:"rade: h2c, websocket, abc\\r\\n\\r\\n"']),
 dict(id="body-finished-twice", property="C03",
  needs="on_body_finished() pauses the parser",
  breaks="the callback is made again when parsing is resumed",
  edits=[(P, "fn body_finished", "        set_state!(self, Finished, finished);\n\n        if handler.on_body_finished() {\n            transition!(self, context);", "        if handler.on_body_finished() {\n            transition!(self, context, Finished, finished);")],
  cases=['h1 ic p:7 s:"3\\r\\nabc\\r\\n0\\r\\n\\r\\n"', 'h1 ic p:0,1 s:"3\\r\\nabc\\r\\n0\\r\\n\\r\\n"']),
 dict(id="url-pause-length", property="C04",
  needs="a callback pauses a url encoded body and the stream goes on behind the declared length",
  breaks="the declared length is not reduced by the bytes before the pause, so bytes behind the body are consumed",
  edits=[(P, "pub fn resume(", "                    self.length -= length;\n\n                    Ok(Success::Callback(length))", "                    Ok(Success::Callback(length))")],
  cases=['h1 iu l:7 p:1 s:"ab=c&d=efgh"', 'h1 iu l:7 s:"ab=c&d=efgh"']),
 dict(id="boundary-loop", property="C13",
  needs="multipart data with a length whose piece ends exactly at its end",
  breaks="the parser keeps going round without consuming anything",
  edits=[(P, "fn multipart_data_by_length(", "        exit_if_eos!(self, context);\n\n        if bs_available!(context) >= self.length {", "        if bs_available!(context) > 0 && bs_available!(context) >= self.length {")],
  cases=['h1 im b:"ab" c:4 s:"--ab\\r\\na: b\\r\\n\\r\\nwx" s:"yz\\r\\n--ab--"']),
 dict(id="detect-nine-bytes", property="C01",
  needs="a slice of exactly eight bytes HTTP/1.1 whose buffer goes on with a space",
  breaks="the byte behind the given slice is read and consumed",
  edits=[(P, "fn detect1", "bs_has_bytes!(context, 9)", "bs_has_bytes!(context, 8)")],
  cases=['h1 w:"HTTP/1.1 200 OK":8', 'h1 s:"HTTP/1.1 200 OK\\r\\n"']),
 dict(id="csp-name-23", property="C01",
  needs="a slice that ends right before the colon of Content-Security-Policy",
  breaks="the byte behind the given slice is read and consumed",
  edits=[(P, "fn first_header_name", "bs_has_bytes!(context, 24)", "bs_has_bytes!(context, 23)")],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\n" w:"Content-Security-Policy: a":23', 'h1 s:"HTTP/1.1 200 OK\\r\\nContent-Security-Policy: a\\r\\n\\r\\n"']),
 dict(id="token-backquote", property="C14",
  needs="a backquote in a header or method name",
  breaks="the backquote is a token byte (RFC 7230) but is_token() says it is not",
  edits=[("src/byte.rs", "static TOKENS", "false, false, false, true,  true,  true,\n", "false, false, false, true,  true,  false,\n")],
  cases=['byte', 'h1 s:"HTTP/1.1 200 OK\\r\\na`b: c\\r\\n\\r\\n"']),
 dict(id="forwarded-host", property="C07",
  needs="the header X-WebKit-CSP with at least 24 bytes available",
  breaks="the well known name is delivered as another name",
  edits=[(P, "fn first_header_name", 'name!(b"x-webkit-csp", 13);', 'name!(b"x-webkit-csp", 12);')],
  cases=['h1 s:"HTTP/1.1 200 OK\\r\\nX-WebKit-CSP: default-src none\\r\\n\\r\\n"']),
 dict(id="hex-plus", property="C11",
  needs="a percent escape in a value whose first digit leaves bits behind from an earlier escape",
  breaks="the low digit is taken from a value that was not cleared",
  edits=[(P, "fn url_encoded_value_hex2", "&[(get_upper14!(self) | get_lower14!(self)) as u8]", "&[(get_upper14!(self) ^ get_lower14!(self) & 0xF7 | get_lower14!(self) & 7) as u8]")],
  cases=['h1 iu l:8 s:"a=%0a%1F"']),
 dict(id="finished-eats", property="C05",
  needs="resume() is called again with more bytes after the body was finished",
  breaks="a finished parser goes on and starts another body",
  edits=[(P, "fn parse(", "self.state = ParserState::Finished;", "self.state = ParserState::Finished;\n\n                        if self.byte_count > 64 {\n                            self.state_function = Parser::body_finished;\n                        }")],
  cases=['h1 ic s:"40\\r\\n0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef\\r\\n0\\r\\n\\r\\n" s:"x" s:"y"']),
 dict(id="default-pauses", property="C26",
  needs="a chunked body with extensions and a handler that does not override on_chunk_extension_value()",
  breaks="the default of the callback pauses the parser",
  edits=[("src/http1/http_handler.rs", "fn on_chunk_extension_value", "true", "!value.is_empty()")],
  cases=['defaults']),
 dict(id="error-code-zero", property="C21",
  needs="the frame type byte 0x0A or higher is turned into a FrameType",
  breaks="a type byte that is not defined maps to a defined type",
  edits=[("src/http2/frame_type.rs", "fn from_u8", "match byte {", "match byte & 0x8F {")],
  cases=['codes']),

 dict(id="h2-padding-cut", property="C19",
  needs="the padding of a frame is cut into two pieces",
  breaks="the padding already skipped is not counted and the next frame is eaten",
  edits=[(P2, "fn frame_padding", "dec_payload_length!(self, bs_available!(context) as u32);\n\n        bs_jump!(context, bs_available!(context));", "bs_jump!(context, bs_available!(context));\n\n        dec_payload_length!(self, bs_available!(context) as u32);")],
  cases=['h2 s:"\\x00\\x00\\x06\\x00\\x08\\x00\\x00\\x00\\x01\\x04a\\x00\\x00" s:"\\x00\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x03b"']),
 dict(id="h2-padding-one", property="C19",
  needs="a frame with exactly one byte of padding",
  breaks="the padding is taken for the next frame",
  edits=[(P2, "macro_rules! parse_payload_data", "$parser.bit_data32a & 0xFF > 0", "$parser.bit_data32a & 0xFF > 1")],
  cases=['h2 s:"\\x00\\x00\\x03\\x00\\x08\\x00\\x00\\x00\\x01\\x01a\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x03b"']),
 dict(id="h2-reset-count", property="C27",
  needs="a parser that is reset after it has processed some bytes",
  breaks="the byte count goes on from the old value",
  edits=[(P2, "pub fn reset(", "self.byte_count     = 0;", "self.byte_count    &= 0xFFFF_FFF0;")],
  cases=['h2 s:"\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01a\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01a" reset bc s:"\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01a"']),
 dict(id="h2-error-count", property="C20",
  needs="a frame that is rejected",
  breaks="the bytes consumed by the call that rejects are not counted",
  edits=[(P2, "pub fn resume", "self.byte_count     += context.stream_index;\n                    self.state           = ParserState::Dead;", "self.state           = ParserState::Dead;")],
  cases=['h2 s:"\\x00\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x01a" s:"\\x00\\x00\\x00\\x00\\x08\\x00\\x00\\x00\\x01"']),
 dict(id="h2-undead", property="C20",
  needs="resume() is called again after a frame was rejected",
  breaks="the parser is not dead and parses on",
  edits=[(P2, "pub fn resume", "self.state_function  = Parser::dead;", "if context.stream_index == stream.len() { self.state_function = Parser::dead; }")],
  cases=['h2 s:"\\x00\\x00\\x03\\x00\\x08\\x00\\x00\\x00\\x01\\x09xx" s:"\\x01a\\x00"']),
 dict(id="h2-three-bytes", property="C15",
  needs="a piece that ends three bytes into the promised stream identifier",
  breaks="the byte behind the piece is read: the parser panics",
  edits=[(P2, "fn push_promise_stream_id1", "bs_available!(context) >= 4", "bs_available!(context) >= 3")],
  cases=['h2 s:"\\x00\\x00\\x05\\x05\\x00\\x00\\x00\\x00\\x01\\x80\\x01\\x02" s:"\\x03z"']),
 dict(id="h2-format-pause", property="C16",
  needs="on_frame_format() answers false and the frame is of type 1 or higher",
  breaks="the frame type is taken for the length of the padding after the pause",
  edits=[(P2, "fn frame_format_end", "        } else {\n            self.bit_data16a  = 0;\n            self.bit_data32a &= 0xFFFFFF00;", "        } else {\n            self.bit_data16a  = 0;\n            self.bit_data32a &= 0xFFFFFF02;")],
  cases=['h2 p:0 s:"\\x00\\x00\\x04\\x06\\x00\\x00\\x00\\x00\\x01abcd"', 'h2 p:0 s:"\\x00\\x00\\x04\\x06\\x00\\x00\\x00\\x00\\x01abcd\\x00\\x00\\x01\\x06\\x00\\x00\\x00\\x00\\x01a"']),
 dict(id="h2-reserved-bit", property="C17",
  needs="a frame header with the reserved bit set",
  breaks="the stream identifier handed over still has the reserved bit",
  edits=[(P2, "fn frame_format_end", "self.bit_data32b & 0x7FFFFFFF", "self.bit_data32b & !0 ")],
  cases=['h2 s:"\\x00\\x00\\x01\\x00\\x00\\x80\\x00\\x00\\x01a"']),
 dict(id="h2-goaway-id2", property="C18",
  needs="a GO_AWAY frame cut after the first byte of the last stream identifier, with a non-zero second byte",
  breaks="the second byte lands in the place of the third",
  edits=[(P2, "fn go_away_stream_id2", "<< 16", "<< 8")],
  cases=['h2 s:"\\x00\\x00\\x08\\x07\\x00\\x00\\x00\\x00\\x00\\x01" s:"\\x02\\x03\\x04\\x00\\x00\\x00\\x07"']),
 dict(id="h2-setting-high", property="C18",
  needs="a SETTINGS frame cut inside its identifier, the identifier above 255",
  breaks="the high byte of the identifier is lost",
  edits=[(P2, "fn settings_id2", "self.bit_data16a |= get_u8!(context) as u16;", "self.bit_data16a = get_u8!(context) as u16;")],
  cases=['h2 s:"\\x00\\x00\\x06\\x04\\x00\\x00\\x00\\x00\\x00\\xf0" s:"\\x01\\x00\\x00\\x00\\x07"']),
 dict(id="h2-padding-loop", property="C28",
  needs="the stream ends inside the padding of a frame",
  breaks="the parser loops without consuming anything",
  edits=[(P2, "fn frame_padding", "exit_eos!(self, context);", "transition!(self, context);"), (P2, "fn frame_padding", "exit_if_eos!(self, context);", "")],
  cases=['h2 s:"\\x00\\x00\\x06\\x00\\x08\\x00\\x00\\x00\\x01\\x04a\\x00\\x00"']),

 dict(id="dec-hex-g", property="C22",
  needs="a percent escape whose first digit is the byte behind 'F'",
  breaks="the malformed escape is decoded",
  edits=[(C, "macro_rules! collect_hex8 {", "$context.byte < b'G' {\n                ($context.byte - 0x37) << 4", "$context.byte <= b'G' {\n                ($context.byte - 0x37) << 4")],
  cases=['dec "a%G0"', 'dec "%Ga"']),
 dict(id="dec-short-escape", property="C22",
  needs="an escape cut off behind its first digit",
  breaks="the escape of one digit is looked up past the end of the input",
  edits=[(UD, "pub fn decode", "bs_has_bytes!(context, 2)", "bs_has_bytes!(context, 1)")],
  cases=['dec "ab%4"', 'dec "%f"']),
 dict(id="qry-semicolon", property="C23",
  needs="a value ended by a semicolon",
  breaks="the semicolon and all pairs up to the next & are part of the value",
  edits=[(UQ, "fn next", "                    || self.context.byte == b'+'\n                    || self.context.byte == b'&'\n                    || self.context.byte == b';',", "                    || self.context.byte == b'+'\n                    || self.context.byte == b'&',")],
  cases=['qry "a=b;c=d"', 'qry "a=;b"']),
 dict(id="qry-name-kind", property="C23",
  needs="a malformed escape in a value",
  breaks="the error callback is told that a name was malformed",
  edits=[(UQ, "fn next", "self.value.push(collect_hex8_iter!(\n                                self,\n                                self.context,\n                                QueryError::Value", "self.value.push(collect_hex8_iter!(\n                                self,\n                                self.context,\n                                if self.name.is_empty() { QueryError::Name } else { QueryError::Value }")],
  cases=['qry "&=%zz"', 'qry "a=b&=%4z"']),
 dict(id="qry-endless", property="C23",
  needs="a control byte in a value that is not the last byte",
  breaks="the iteration goes on behind the malformed part",
  edits=[(UQ, "fn next", "                    _ => {\n                        bs_jump!(self.context, bs_available!(self.context));\n\n                        (*self.on_error)(QueryError::Value", "                    _ => {\n                        (*self.on_error)(QueryError::Value")],
  cases=['qry "a=b\\x01c=d"']),
 dict(id="fld-upper-z", property="C24",
  needs="normalisation and a name with a Z",
  breaks="Z is not lower-cased",
  edits=[(UF, "fn next", "self.context.byte > 0x40 && self.context.byte < 0x5B", "self.context.byte > 0x40 && self.context.byte < 0x5A")],
  cases=['fld 59 1 "siZe=a"', 'fld 59 1 "Z"']),
 dict(id="fld-slash-delim", property="C24",
  needs="a slash in a name when names are normalised",
  breaks="the slash is lost",
  edits=[(UF, "fn next", "                    self.name.push(b'/');", "                    if !self.normalize { self.name.push(b'/'); }")],
  cases=['fld 59 1 "text/html;a=b"', 'fld 44 1 "a/b"']),
 dict(id="fld-space-delim", property="C24",
  needs="linear space between a quoted value and the delimiter, another parameter behind it",
  breaks="the part after the quoted value is rejected or lost",
  edits=[(UF, "fn next", "                                if self.context.byte == self.delimiter {", "                                if self.context.byte == self.delimiter && bs_available!(self.context) > 0 {")],
  cases=['fld 59 0 "a=\\"x\\";"', 'fld 59 0 "a=\\"x\\" ;"']),
 dict(id="utf8-lossy-value", property="C25",
  needs="a value whose last part ends with the input and is not UTF-8",
  breaks="the string is made without a check",
  edits=[(UQ, "fn next", "                            self.value.extend_from_slice(bs_slice!(self.context));\n                        }\n", "                            self.value.extend_from_slice(bs_slice!(self.context));\n                            if self.value.len() > 8 { return Some((String::new(), Some(unsafe { String::from_utf8_unchecked(self.value.clone()) }))); }\n                        }\n")],
  cases=['qry "=a"', 'qry "a=%ff%fe%fd%fcbcdef"']),
 dict(id="ext-last-end", property="C09",
  needs="a last chunk with extensions",
  breaks="the end of the extensions of the last chunk is not reported",
  edits=[(P, "fn chunk_extensions_finished(", "if handler.on_chunk_extensions_finished() {", "if self.length == 0 || handler.on_chunk_extensions_finished() {")],
  cases=['h1 ic s:"0;a=b\\r\\n\\r\\n"', 'h1 ic s:"1;c\\r\\nx\\r\\n0;a\\r\\n\\r\\n"']),
]
from seeds2 import MORE
SEEDS += MORE
